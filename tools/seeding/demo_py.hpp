// runs a script with the module, and what stands for aslam_backend's, at hand
#include <numpy_eigen/boost_python_headers.hpp>
#include <cstdio>
#include <aslam-tsvd-solver/aslam-tsvd-solver.h>
#include <aslam/backend/CompressedColumnMatrix.hpp>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/Optimizer2.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <verif_env.hpp>
namespace py = boost::python;
using namespace aslam::backend;
static int alive = 0;
struct DV : DesignVariable {
  double v, o; explicit DV(double x) : v(x), o(x) { setActive(true); ++alive; } ~DV() { --alive; }
  double get() const { return v; }
 protected:
  void revertUpdateImplementation() { v = o; }
  void updateImplementation(const double* d, int) { o = v; v += d[0]; }
  int minimalDimensionsImplementation() const { return 1; }
  void getParametersImplementation(Eigen::MatrixXd& m) const { m = Eigen::MatrixXd::Constant(1, 1, v); }
  void setParametersImplementation(const Eigen::MatrixXd& m) { v = m(0, 0); }
};
struct ET : ErrorTerm {
  explicit ET(DV* d) : ErrorTerm(1) { setDesignVariables(std::vector<DesignVariable*>{d}); }
 protected:
  double evaluateErrorImplementation() { return 1; }
  void evaluateJacobiansImplementation(JacobianContainer& J) { J.add(designVariable(0), Eigen::MatrixXd::Ones(1, 1)); }
  Eigen::VectorXd vsErrorImplementation() const { return Eigen::VectorXd::Ones(1); }
};
struct Answers : verif::Env {  // every answer different from every other
  int n = 0;
  verif::SvdAnswer next() {
    const double t = 64 * ++n; verif::SvdAnswer a;
    a.svdRank = t; a.svdRankDeficiency = t + 1; a.qrRank = t + 2; a.qrRankDeficiency = t + 3; a.svLog2Sum = t; a.svdTolerance = t + 4; a.qrTolerance = t + 5; a.numFlops = t + 6; a.peakMemory = t + 7; a.memory = t + 8;
    a.singularValues = Eigen::VectorXd::Constant(1, t + 9); a.matrixU = Eigen::MatrixXd::Constant(1, 1, t + 10); a.matrixV = Eigen::MatrixXd::Constant(1, 1, t + 11); a.nullSpace = Eigen::MatrixXd::Constant(1, 1, t + 12);
    a.rowSpace = Eigen::MatrixXd::Constant(1, 1, t + 13); a.covariance = Eigen::MatrixXd::Constant(1, 1, t + 14); a.rowSpaceCovariance = Eigen::MatrixXd::Constant(1, 1, t + 15);
    return a;
  }
  bool onOptimize(Optimizer2& o, SolutionReturnValue& r) override {
    o.initialize(); auto* s = o.getSolver<AslamTruncatedSvdSolver>(); s->evaluateError(1, true); s->buildSystem(1, true); Eigen::VectorXd dx; s->solveSystem(dx);
    r.iterations = 2; r.JStart = 9; r.JFinal = 1; return true;
  }
  bool onSolve(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* A, cholmod_dense*, std::ptrdiff_t, Eigen::VectorXd& x, verif::SvdAnswer& a) override { a = next(); x = Eigen::VectorXd::Zero(A->ncol); return true; }
  bool onAnalyzeMarginal(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse*, std::ptrdiff_t, verif::SvdAnswer& a) override { a = next(); return true; }
};
static Answers answers;
template <class M> struct Out { static PyObject* convert(const M& m) { return PyFloat_FromDouble(m.size() ? m.data()[0] : -1); } };
static int howMany() { return alive; }
static boost::shared_ptr<DV> makeDV(double v) { return boost::make_shared<DV>(v); }
static boost::shared_ptr<ET> makeET(DV* d) { return boost::make_shared<ET>(d); }
BOOST_PYTHON_MODULE(backend) {
  py::to_python_converter<Eigen::MatrixXd, Out<Eigen::MatrixXd>>(); py::to_python_converter<Eigen::VectorXd, Out<Eigen::VectorXd>>();
  py::class_<DesignVariable, boost::shared_ptr<DesignVariable>, boost::noncopyable>("DesignVariable", py::no_init);
  py::class_<DV, boost::shared_ptr<DV>, py::bases<DesignVariable>, boost::noncopyable>("DV", py::no_init).def("__init__", py::make_constructor(makeDV)).def("value", &DV::get);
  py::class_<ErrorTerm, boost::shared_ptr<ErrorTerm>, boost::noncopyable>("ErrorTerm", py::no_init);
  py::class_<ET, boost::shared_ptr<ET>, py::bases<ErrorTerm>, boost::noncopyable>("ET", py::no_init).def("__init__", py::make_constructor(makeET));
  py::class_<OptimizationProblemBase, boost::shared_ptr<OptimizationProblemBase>, boost::noncopyable>("OptimizationProblemBase", py::no_init)
    .def("numDesignVariables", &OptimizationProblemBase::numDesignVariables).def("numErrorTerms", &OptimizationProblemBase::numErrorTerms);
  py::class_<LinearSystemSolver, boost::shared_ptr<LinearSystemSolver>, boost::noncopyable>("LinearSystemSolver", py::no_init);
  py::class_<Optimizer2Options>("Optimizer2Options", py::init<>()).def_readwrite("maxIterations", &Optimizer2Options::maxIterations);
  py::class_<CompressedColumnMatrix<std::ptrdiff_t>>("CompressedColumnMatrix", py::no_init);
  py::class_<sm::PropertyTree>("PropertyTree", py::no_init);
  py::def("alive", howMany);
}
extern "C" PyObject* PyInit_libincremental_calibration_python();
static int runScript(const char* script) {
  verif::Env::current() = &answers;
  PyImport_AppendInittab("backend", &PyInit_backend);
  PyImport_AppendInittab("libincremental_calibration_python", &PyInit_libincremental_calibration_python);
  Py_InitializeEx(0);
  std::string s = "from backend import *\nfrom libincremental_calibration_python import *\n"
    "def batch(v, calibration=True):\n"
    "  b = CalibrationOptimizationProblem()\n  d = DV(v)\n  b.addDesignVariable(d, 1 if calibration else 0)\n  b.addErrorTerm(ET(d))\n  return b\n";
  const int r = PyRun_SimpleString((s + script).c_str());
  fflush(stdout);
  std::_Exit(r ? 1 : 0);
}
