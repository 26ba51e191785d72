// P01: the Python module.  An interpreter is embedded, the module's own sources
// are linked in, and every operation is carried out twice: through the Python
// objects and, on a twin built of the same parts, through the C++ interface.
#include <numpy_eigen/boost_python_headers.hpp>

#include <mc.hpp>
#include <core_common.hpp>

#include <functional>

#include <aslam-tsvd-solver/aslam-tsvd-solver.h>
#include <aslam/backend/CompressedColumnMatrix.hpp>
#include <aslam/backend/Optimizer2.hpp>
#include <aslam/backend/Optimizer2Options.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <sm/BoostPropertyTree.hpp>
#include <verif_env.hpp>

namespace py = boost::python;
using namespace aslam::calibration;
using namespace core;
typedef IncrementalEstimator::ReturnValue Ret;
typedef IncrementalEstimator::Options Opt;
typedef aslam::backend::Optimizer2Options OOpt;
typedef aslam::backend::AslamTruncatedSvdSolver Solver;
typedef Solver::Options LOpt;

extern "C" PyObject* PyInit_libincremental_calibration_python();

namespace {

// ---- what stands for the Python modules of aslam_backend and numpy_eigen ----
std::multiset<int>& living() { static std::multiset<int> s; return s; }  // of the objects made from Python
struct PyDV : TestDV {
  PyDV(int id, int dim, bool active) : TestDV(id, dim, active) { living().insert(id); }
  ~PyDV() { living().erase(living().find(id)); }
};
struct PyET : TestET {
  PyET(int id, int dim, const std::vector<aslam::backend::DesignVariable*>& d) : TestET(id, dim, d) { living().insert(1000 + id); }
  ~PyET() { living().erase(living().find(1000 + id)); }
};
boost::shared_ptr<PyET> makeET(int id, int dim, py::list dvs) {
  std::vector<aslam::backend::DesignVariable*> p;
  for (int i = 0; i < py::len(dvs); ++i) p.push_back(py::extract<PyDV*>(dvs[i])());
  return boost::make_shared<PyET>(id, dim, p);
}
template <class M> struct ToPython {
  static PyObject* convert(const M& m) {
    py::list l;
    for (int i = 0; i < m.size(); ++i) l.append((double)m.data()[i]);
    return py::incref(py::make_tuple((int)m.rows(), (int)m.cols(), l).ptr());
  }
};
template <class M> struct FromPython {
  FromPython() { py::converter::registry::push_back(&convertible, &construct, py::type_id<M>()); }
  static void* convertible(PyObject* o) { return PyTuple_Check(o) && PyTuple_Size(o) == 3 ? o : nullptr; }
  static M make(py::object t) {
    M m; m.resize(py::extract<int>(t[0])(), py::extract<int>(t[1])());
    for (int i = 0; i < m.size(); ++i) m.data()[i] = py::extract<double>(t[2][i])();
    return m;
  }
  static void construct(PyObject* o, py::converter::rvalue_from_python_stage1_data* d) {
    void* at = ((py::converter::rvalue_from_python_storage<M>*)d)->storage.bytes;
    new (at) M(make(py::object(py::handle<>(py::borrowed(o)))));
    d->convertible = at;
  }
};

BOOST_PYTHON_MODULE(verif_backend) {
  using namespace aslam::backend;
  py::to_python_converter<Eigen::MatrixXd, ToPython<Eigen::MatrixXd>>();
  py::to_python_converter<Eigen::VectorXd, ToPython<Eigen::VectorXd>>();
  FromPython<Eigen::MatrixXd>(); FromPython<Eigen::VectorXd>();
  py::class_<DesignVariable, boost::shared_ptr<DesignVariable>, boost::noncopyable>("DesignVariable", py::no_init);
  py::class_<PyDV, boost::shared_ptr<PyDV>, py::bases<DesignVariable>, boost::noncopyable>("DV", py::init<int, int, bool>());
  py::class_<ErrorTerm, boost::shared_ptr<ErrorTerm>, boost::noncopyable>("ErrorTerm", py::no_init);
  py::class_<PyET, boost::shared_ptr<PyET>, py::bases<ErrorTerm>, boost::noncopyable>("ET", py::no_init).def("__init__", py::make_constructor(makeET));
  py::class_<OptimizationProblemBase, boost::shared_ptr<OptimizationProblemBase>, boost::noncopyable>("OptimizationProblemBase", py::no_init)
    .def("numDesignVariables", &OptimizationProblemBase::numDesignVariables)
    .def("numErrorTerms", &OptimizationProblemBase::numErrorTerms);
  py::class_<LinearSystemSolver, boost::shared_ptr<LinearSystemSolver>, boost::noncopyable>("LinearSystemSolver", py::no_init);
  py::class_<OOpt>("Optimizer2Options", py::init<>())
    .def_readwrite("convergenceDeltaJ", &OOpt::convergenceDeltaJ).def_readwrite("convergenceDeltaX", &OOpt::convergenceDeltaX)
    .def_readwrite("maxIterations", &OOpt::maxIterations).def_readwrite("verbose", &OOpt::verbose);
  py::class_<CompressedColumnMatrix<std::ptrdiff_t>>("CompressedColumnMatrix", py::no_init)
    .def("toDense", &CompressedColumnMatrix<std::ptrdiff_t>::toDense);
  py::class_<sm::PropertyTree>("PropertyTree", py::no_init);
  py::class_<sm::BoostPropertyTree, py::bases<sm::PropertyTree>>("BoostPropertyTree", py::init<>())
    .def("setDouble", &sm::BoostPropertyTree::setDouble).def("setBool", &sm::BoostPropertyTree::setBool);
}

struct Interpreter {
  py::object module, backend;
  static Interpreter& get() { static Interpreter* i = new Interpreter(); return *i; }
  Interpreter() {
    PyImport_AppendInittab("verif_backend", &PyInit_verif_backend);
    PyImport_AppendInittab("libincremental_calibration_python", &PyInit_libincremental_calibration_python);
    Py_InitializeEx(0);
    try {
      backend = py::import("verif_backend");
      module = py::import("libincremental_calibration_python");
    } catch (const py::error_already_set&) { fail(); }
  }
  static std::string error() {
    PyObject *t = nullptr, *v = nullptr, *b = nullptr;
    PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b);
    std::string s = "unknown";
    if (v) { PyObject* r = PyObject_Str(v); if (r) { s = std::string(((PyTypeObject*)t)->tp_name) + ": " + PyUnicode_AsUTF8(r); Py_DECREF(r); } }
    Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
    return s;
  }
  static void fail() { MC_FAIL("Python raised " << error()); }
};
py::object mod(const char* name) { return Interpreter::get().module.attr(name); }
py::object bk(const char* name) { return Interpreter::get().backend.attr(name); }
Eigen::MatrixXd mat(py::object o) { return FromPython<Eigen::MatrixXd>::make(o); }

// what Python calls that may fail do
bool attemptPy(const std::function<void()>& f, std::string& what) {
  try { f(); return true; } catch (const py::error_already_set&) { what = Interpreter::error(); return false; }
}
// what Python must be able to do
template <class F> auto must(const std::string& what, F f) -> decltype(f()) {
  try { return f(); } catch (const py::error_already_set&) { MC_FAIL(what << ": Python raised " << Interpreter::error()); }
}

bool eq(double a, double b) { return a == b || (a != a && b != b); }
bool eq(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.size(); ++i) if (!eq(a.data()[i], b.data()[i])) return false;
  return true;
}
std::string show(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }
std::string show(const Eigen::MatrixXd& m) {
  std::ostringstream os; os << m.rows() << "x" << m.cols() << "[";
  for (int i = 0; i < m.size(); ++i) os << (i ? " " : "") << m.data()[i];
  os << "]"; return os.str();
}
double number(py::object o) { return py::extract<double>(o)(); }
bool isBool(py::object o) { return PyBool_Check(o.ptr()); }

// ---- fields by name -------------------------------------------------------
template <class T> struct Field {
  std::string name;
  std::function<double(const T&)> get;
  std::function<void(T&, double)> set;
  bool boolean, integer;
};
#define NUM(T, f) Field<T>{#f, [](const T& o) { return (double)o.f; }, [](T& o, double v) { o.f = (decltype(o.f))v; }, std::is_same<decltype(T::f), bool>::value, std::is_integral<decltype(T::f)>::value}
const std::vector<Field<Opt>>& optFields() { static std::vector<Field<Opt>> f{NUM(Opt, infoGainDelta), NUM(Opt, checkValidity), NUM(Opt, verbose)}; return f; }
const std::vector<Field<LOpt>>& lFields() {
  static std::vector<Field<LOpt>> f{NUM(LOpt, columnScaling), NUM(LOpt, epsNorm), NUM(LOpt, epsSVD), NUM(LOpt, epsQR), NUM(LOpt, svdTol), NUM(LOpt, qrTol), NUM(LOpt, verbose)};
  return f;
}
const std::vector<Field<OOpt>>& oFields() {
  static std::vector<Field<OOpt>> f{NUM(OOpt, convergenceDeltaJ), NUM(OOpt, convergenceDeltaX), NUM(OOpt, maxIterations), NUM(OOpt, verbose)};
  return f;
}
const std::vector<Field<Ret>>& retFields() {
  static std::vector<Field<Ret>> f{NUM(Ret, batchAccepted), NUM(Ret, informationGain), NUM(Ret, rankPsi), NUM(Ret, rankPsiDeficiency), NUM(Ret, rankTheta), NUM(Ret, rankThetaDeficiency),
    NUM(Ret, svdTolerance), NUM(Ret, qrTolerance), NUM(Ret, numIterations), NUM(Ret, JStart), NUM(Ret, JFinal), NUM(Ret, elapsedTime)};
  return f;
}
struct MatField { std::string name; std::function<Eigen::MatrixXd(const Ret&)> get; bool vector; };
#define MAT(f) MatField{#f, [](const Ret& r) { return Eigen::MatrixXd(r.f); }, std::is_same<decltype(Ret::f), Eigen::VectorXd>::value}
const std::vector<MatField>& retMats() {
  static std::vector<MatField> f{MAT(nobsBasis), MAT(nobsBasisScaled), MAT(obsBasis), MAT(obsBasisScaled), MAT(sigma2Theta), MAT(sigma2ThetaScaled), MAT(sigma2ThetaObs), MAT(sigma2ThetaObsScaled), MAT(singularValues), MAT(singularValuesScaled)};
  return f;
}
template <class T> void compareFields(const std::string& of, py::object o, const T& t, const std::vector<Field<T>>& fields, const std::string& but = "") {
  for (auto& f : fields) if (f.name != but) must(of + "." + f.name, [&] {
    py::object v = o.attr(f.name.c_str());
    MC_REQUIRE(eq(number(v), f.get(t)), of << "." << f.name << " is " << number(v) << " from Python and " << f.get(t) << " from C++");
    MC_REQUIRE(isBool(v) == f.boolean, of << "." << f.name << " has another type from Python");
  });
}
void setField(py::object o, const std::string& name, double v, bool boolean, bool integer) {
  must("setting " + name, [&] { if (boolean) o.attr(name.c_str()) = (v != 0); else if (integer) o.attr(name.c_str()) = (long)v; else o.attr(name.c_str()) = v; });
}
void compareRet(const std::string& of, py::object o, const Ret& r) {
  compareFields(of, o, r, retFields(), "elapsedTime");
  for (auto& f : retMats()) must(of + "." + f.name, [&] {
    Eigen::MatrixXd v = mat(o.attr(f.name.c_str()));
    MC_REQUIRE(eq(v, f.get(r)), of << "." << f.name << " is " << show(v) << " from Python and " << show(f.get(r)) << " from C++");
  });
}

// ---- the environment: what the optimiser and the factorisation answer -----
struct Plan { int iterations = 3; bool better = true; bool throws = false; int rank = 1; double log = 0; };
struct Failure : std::runtime_error { Failure() : std::runtime_error("the optimiser failed") {} };
struct Oracle : verif::Env {
  Plan plan;
  int generation = 0;
  verif::SvdAnswer answer(int rank, double log) {
    ++generation;
    const double t = generation * 64.0;
    verif::SvdAnswer a;
    a.svdRank = rank; a.svdRankDeficiency = (std::ptrdiff_t)t + 1; a.qrRank = (std::ptrdiff_t)t + 2; a.qrRankDeficiency = (std::ptrdiff_t)t + 3;
    a.svLog2Sum = log; a.svdTolerance = t + 4; a.qrTolerance = t + 5; a.numFlops = t + 6; a.peakMemory = (size_t)t + 7; a.memory = (size_t)t + 8;
    a.singularValues = Eigen::VectorXd::Constant(2, t + 9); a.matrixU = Eigen::MatrixXd::Constant(2, 2, t + 10); a.matrixV = Eigen::MatrixXd::Constant(2, 2, t + 11);
    a.nullSpace = Eigen::MatrixXd::Constant(2, 1, t + 12); a.rowSpace = Eigen::MatrixXd::Constant(2, 1, t + 13);
    a.covariance = Eigen::MatrixXd::Constant(2, 2, t + 14); a.rowSpaceCovariance = Eigen::MatrixXd::Constant(1, 1, t + 15);
    return a;
  }
  bool onOptimize(aslam::backend::Optimizer2& o, aslam::backend::SolutionReturnValue& out) override {
    if (plan.throws) throw Failure();
    o.initialize();
    auto* s = o.getSolver<Solver>();
    out.JStart = 128 + (double)generation;
    s->evaluateError(1, true); s->buildSystem(1, true);
    Eigen::VectorXd dx;
    s->solveSystem(dx);
    for (auto* d : o.designVariables()) d->update(dx.data() + d->columnBase(), d->minimalDimensions());
    out.iterations = std::min(plan.iterations, o.options().maxIterations);
    out.JFinal = plan.better ? 64 - (double)generation / 1024 : out.JStart;
    return true;
  }
  bool onSolve(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* A, cholmod_dense*, std::ptrdiff_t, Eigen::VectorXd& x, verif::SvdAnswer& a) override {
    a = answer(1, 99.0); x = Eigen::VectorXd::Constant(A->ncol, generation); return true;
  }
  bool onAnalyzeMarginal(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse*, std::ptrdiff_t, verif::SvdAnswer& a) override { a = answer(plan.rank, plan.log); return true; }
};
struct As {  // answers for one of the two sides
  As(Oracle& o, const Plan& p) { o.plan = p; verif::Env::current() = &o; }
  ~As() { verif::Env::current() = nullptr; }
};

// ---- the two sides ----------------------------------------------------------
// variables: (dimension, active); batches: (variable, group) lists
struct Topology {
  std::vector<std::pair<int, bool>> dvs;
  std::vector<std::vector<std::pair<int, size_t>>> batches;
  size_t marg;
};
const std::vector<Topology>& topologies() {
  static std::vector<Topology> t{
    {{{2, true}, {1, true}, {1, true}}, {{{0, 1}, {1, 0}}, {{2, 0}, {0, 1}}, {{0, 0}, {2, 0}}}, 1},
    {{{1, true}, {2, false}, {2, true}, {1, true}}, {{{2, 0}, {0, 3}, {3, 2}}, {{3, 2}, {2, 0}}, {{1, 3}, {3, 2}, {0, 3}}}, 3}};
  return t;
}

struct Twins {
  Topology t;
  Oracle po, co;
  // Python
  std::vector<py::object> pdv, pet, pbatch;
  py::object pest, pret;
  // C++
  std::vector<TestDVSP> dv; std::vector<TestETSP> et; std::vector<boost::shared_ptr<OptimizationProblem>> batch;
  boost::shared_ptr<IncrementalEstimator> est;

  explicit Twins(const Topology& topology) : t(topology) {
    for (size_t i = 0; i < t.dvs.size(); ++i) {
      pdv.push_back(bk("DV")((int)i, t.dvs[i].first, t.dvs[i].second));
      dv.push_back(boost::make_shared<TestDV>((int)i, t.dvs[i].first, t.dvs[i].second));
    }
    for (size_t k = 0; k < t.batches.size(); ++k) {
      must("making a batch", [&] {
        py::object b = mod("CalibrationOptimizationProblem")();
        py::list l;
        for (auto& v : t.batches[k]) { b.attr("addDesignVariable")(pdv[v.first], v.second); l.append(pdv[v.first]); }
        for (int e = 0; e <= (int)k % 2; ++e) { pet.push_back(bk("ET")((int)pet.size(), 1 + e, l)); b.attr("addErrorTerm")(pet.back()); }
        pbatch.push_back(b);
      });
      auto b = boost::make_shared<OptimizationProblem>();
      std::vector<aslam::backend::DesignVariable*> p;
      for (auto& v : t.batches[k]) { b->addDesignVariable(dv[v.first], v.second); p.push_back(dv[v.first].get()); }
      for (int e = 0; e <= (int)k % 2; ++e) { et.push_back(boost::make_shared<TestET>((int)et.size(), 1 + e, p)); b->addErrorTerm(et.back()); }
      batch.push_back(b);
    }
  }
  void make(bool options, double delta) {
    if (options) {
      Opt o; o.infoGainDelta = delta; o.checkValidity = true; LOpt l; l.columnScaling = true; l.svdTol = 0.5; OOpt oo; oo.maxIterations = 9; oo.convergenceDeltaX = 0.25;
      est = boost::make_shared<IncrementalEstimator>(t.marg, o, l, oo);
      must("making the estimator", [&] {
        py::object po_ = mod("IncrementalEstimatorOptions")(), pl = mod("LinearSolverOptions")(), poo = bk("Optimizer2Options")();
        po_.attr("infoGainDelta") = delta; po_.attr("checkValidity") = true; pl.attr("columnScaling") = true; pl.attr("svdTol") = 0.5; poo.attr("maxIterations") = 9; poo.attr("convergenceDeltaX") = 0.25;
        pest = mod("IncrementalEstimator")(t.marg, po_, pl, poo);
      });
    } else {
      est = boost::make_shared<IncrementalEstimator>(t.marg);
      must("making the estimator", [&] { pest = mod("IncrementalEstimator")(t.marg); });
    }
  }
  // carries an operation out on both sides; true if it was done
  bool both(mc::Chooser& c, const std::string& what, const Plan& plan, const std::function<void()>& inPython, const std::function<void()>& inCpp) {
    std::string pw, cw;
    bool p, q;
    { As as(po, plan); p = attemptPy(inPython, pw); }
    { As as(co, plan); q = attempt(inCpp, &cw) == Done; }
    c.step();
    c.trace([&](std::ostream& o) { o << what << (q ? "" : " -> " + cw) << (p ? "" : " [Python: " + pw + "]"); });
    MC_REQUIRE(p || !q, what << ": done from C++, but Python raises " << pw);
    MC_REQUIRE(q || !p, what << ": refused from C++ (" << cw << "), but Python does not hear of it");
    return q;
  }
  void compare(mc::Chooser& c, const std::string& after) {
    c.check();
    for (size_t i = 0; i < dv.size(); ++i) {
      const PyDV* p = py::extract<PyDV*>(pdv[i]);
      MC_REQUIRE(eq(p->value, dv[i]->value), after << ": variable " << i << " is " << show(p->value) << " when asked for from Python, " << show(dv[i]->value) << " from C++");
    }
    auto num = [&](const char* name, double v) {
      must(name, [&] { const double p = number(pest.attr(name)()); MC_REQUIRE(eq(p, v), after << ": " << name << "() is " << p << " from Python and " << v << " from C++"); });
    };
    auto m = [&](const char* name, const Eigen::MatrixXd& v) {
      must(name, [&] { const Eigen::MatrixXd p = mat(pest.attr(name)()); MC_REQUIRE(eq(p, v), after << ": " << name << "() is " << show(p) << " from Python and " << show(v) << " from C++"); });
    };
    const IncrementalEstimator& e = *est;
    num("getNumBatches", e.getNumBatches()); num("getMargGroupId", e.getMargGroupId()); num("getInformationGain", e.getInformationGain());
    num("getRankPsi", e.getRankPsi()); num("getRankPsiDeficiency", e.getRankPsiDeficiency()); num("getRankTheta", e.getRankTheta()); num("getRankThetaDeficiency", e.getRankThetaDeficiency());
    num("getSVDTolerance", e.getSVDTolerance()); num("getQRTolerance", e.getQRTolerance());
    num("getPeakMemoryUsage", e.getPeakMemoryUsage()); num("getMemoryUsage", e.getMemoryUsage()); num("getNumFlops", e.getNumFlops());
    m("getNobsBasis", e.getNobsBasis()); m("getNobsBasisScaled", e.getNobsBasis(true)); m("getObsBasis", e.getObsBasis()); m("getObsBasisScaled", e.getObsBasis(true));
    m("getSigma2Theta", e.getSigma2Theta()); m("getSigma2ThetaScaled", e.getSigma2Theta(true)); m("getSigma2ThetaObs", e.getSigma2ThetaObs()); m("getSigma2ThetaObsScaled", e.getSigma2ThetaObs(true));
    m("getSingularValues", e.getSingularValues()); m("getScaledSingularValues", e.getSingularValues(true));
    must("getJacobianTranspose", [&] {
      const Eigen::MatrixXd p = mat(pest.attr("getJacobianTranspose")().attr("toDense")());
      MC_REQUIRE(eq(p, e.getJacobianTranspose().toDense()), after << ": the Jacobian differs between Python and C++");
    });
    compareFields(after + ": options", must("getOptions", [&] { return py::object(pest.attr("getOptions")()); }), e.getOptions(), optFields());
    compareFields(after + ": solver options", must("getLinearSolverOptions", [&] { return py::object(pest.attr("getLinearSolverOptions")()); }), e.getLinearSolverOptions(), lFields());
    compareFields(after + ": optimizer options", must("getOptimizerOptions", [&] { return py::object(pest.attr("getOptimizerOptions")()); }), e.getOptimizerOptions(), oFields());
    must("getProblem", [&] {
      py::object p = pest.attr("getProblem")();
      MC_REQUIRE(number(p.attr("getNumOptimizationProblems")()) == e.getProblem()->getNumOptimizationProblems(), after << ": the number of batches in the problem differs");
      MC_REQUIRE(number(p.attr("numDesignVariables")()) == e.getProblem()->numDesignVariables(), after << ": the number of design variables differs");
      MC_REQUIRE(number(p.attr("numErrorTerms")()) == e.getProblem()->numErrorTerms(), after << ": the number of error terms differs");
    });
  }
};

std::string planText(const Plan& p) {
  std::ostringstream o;
  if (p.throws) o << "optimiser fails"; else o << (p.better ? "converges" : "no better") << ", " << p.iterations << " iterations, rank " << p.rank << ", information " << p.log;
  return o.str();
}
Plan anyPlan(mc::Chooser& c) {
  switch (c.choose(6)) {
    case 0: return Plan{3, true, false, 1, 0.0};
    case 1: return Plan{3, true, false, 1, 1.5};
    case 2: return Plan{3, true, false, 2, 0.25};
    case 3: return Plan{20, true, false, 1, 3.0};
    case 4: return Plan{3, false, false, 2, 4.0};
    default: return Plan{3, true, true, 1, 0.0};
  }
}

void histories(mc::Chooser& c) {
  Interpreter::get();
  const int topology = c.choose((int)topologies().size());
  Twins w(topologies()[topology]);
  const bool options = c.flip();
  w.make(options, 0.25);
  w.compare(c, "at the beginning");
  const int depth = mc::config().thorough() ? 4 : 3;
  std::string history;
  for (int d = 0; d < depth; ++d) {
    std::string what; Ret r; bool ret = false, done;
    const int nb = (int)w.batch.size();
    const int op = c.choose(6);
    if (op == 0) {
      const int k = c.choose(nb); const bool force = c.flip(); const Plan p = anyPlan(c);
      what = "addBatch(" + std::to_string(k) + (force ? ", forced" : "") + ") [" + planText(p) + "]";
      ret = done = w.both(c, what, p, [&] { w.pret = w.pest.attr("addBatch")(w.pbatch[k], force); }, [&] { r = w.est->addBatch(w.batch[k], force); });
    } else if (op == 1) {
      const int k = c.choose(nb);
      what = "removeBatch(batch " + std::to_string(k) + ")";
      done = w.both(c, what, Plan(), [&] { w.pest.attr("removeBatch")(w.pbatch[k]); }, [&] { w.est->removeBatch(w.batch[k]); });
    } else if (op == 2) {
      const int k = c.choose((int)w.est->getNumBatches() + 1);
      what = "removeBatch(" + std::to_string(k) + ")";
      done = w.both(c, what, Plan(), [&] { w.pest.attr("removeBatch")(k); }, [&] { w.est->removeBatch((size_t)k); });
    } else if (op == 3) {
      const Plan p = anyPlan(c);
      what = "reoptimize() [" + planText(p) + "]";
      ret = done = w.both(c, what, p, [&] { w.pret = w.pest.attr("reoptimize")(); }, [&] { r = w.est->reoptimize(); });
      if (!done) return;  // nothing is promised about what a failing reoptimisation leaves
    } else if (op == 4) {
      what = "setting options";
      done = w.both(c, what, Plan(), [&] {
        py::object o = w.pest.attr("getOptions")(), l = w.pest.attr("getLinearSolverOptions")(), oo = w.pest.attr("getOptimizerOptions")();
        o.attr("infoGainDelta") = 2.0; o.attr("checkValidity") = !options; l.attr("columnScaling") = !options; l.attr("epsQR") = 0.125; oo.attr("maxIterations") = 50;
      }, [&] {
        w.est->getOptions().infoGainDelta = 2.0; w.est->getOptions().checkValidity = !options; w.est->getLinearSolverOptions().columnScaling = !options; w.est->getLinearSolverOptions().epsQR = 0.125; w.est->getOptimizerOptions().maxIterations = 50;
      });
    } else {
      const int k = c.choose(nb);
      what = "clearing batch " + std::to_string(k) + " once the estimator is without it";
      bool in = false;
      for (auto& p : w.est->getProblem()->getOptimizationProblems()) in |= p == w.batch[k];
      if (in) return;
      done = w.both(c, what, Plan(), [&] { w.pbatch[k].attr("clear")(); }, [&] { w.batch[k]->clear(); });
      MC_REQUIRE(number(w.pbatch[k].attr("numDesignVariables")()) == w.batch[k]->numDesignVariables(), "a cleared batch differs");
    }
    history += what + ";";
    if (ret) { compareRet("what " + what + " returns", w.pret, r); c.outcome(std::to_string(r.batchAccepted) + show(r.informationGain)); }
    w.compare(c, "after " + what);
    c.note(std::to_string(topology) + (options ? "o" : "") + history);
  }
}

// every field of every structure can be set and read, by itself
void values(mc::Chooser& c) {
  Interpreter::get();
  auto table = [&](const std::string& of, py::object cls, auto fields, auto object) {
    typedef decltype(object) T;
    py::object o = must("making " + of, [&] { return cls(); });
    T t = T();
    const size_t f = c.choose((int)fields.size());
    const double v = fields[f].boolean ? (double)c.choose(2) : (double)(3 + c.choose(3));
    if (of != "a returned value") compareFields("a new " + of, o, t, fields);
    // all the others first, so that each has a value of its own
    for (size_t i = 0; i < fields.size(); ++i) { const double x = fields[i].boolean ? 0 : 100 + (double)i; setField(o, fields[i].name, x, fields[i].boolean, fields[i].integer); fields[i].set(t, x); }
    setField(o, fields[f].name, v, fields[f].boolean, fields[f].integer); fields[f].set(t, v);
    c.step(); c.check(); c.note(of + fields[f].name + show(v));
    c.trace([&](std::ostream& os) { os << of << "." << fields[f].name << " = " << v; });
    compareFields(of, o, t, fields);
    T& inside = py::extract<T&>(o)();
    for (auto& g : fields) MC_REQUIRE(eq(g.get(inside), g.get(t)), of << "." << g.name << " is " << g.get(inside) << " in C++ after Python has set it to " << g.get(t));
    return o;
  };
  switch (c.choose(4)) {
    case 0: {
      py::object o = table("estimator options", mod("IncrementalEstimatorOptions"), optFields(), Opt());
      must("an estimator with these options", [&] { compareFields("the estimator's options", mod("IncrementalEstimator")(7, o, mod("LinearSolverOptions")(), bk("Optimizer2Options")()).attr("getOptions")(), py::extract<Opt&>(o)(), optFields()); });
      break;
    }
    case 1: {
      py::object o = table("solver options", mod("LinearSolverOptions"), lFields(), LOpt());
      const LOpt l = py::extract<LOpt&>(o)();
      must("an estimator with these options", [&] { compareFields("the estimator's solver options", mod("IncrementalEstimator")(7, mod("IncrementalEstimatorOptions")(), o, bk("Optimizer2Options")()).attr("getLinearSolverOptions")(), l, lFields()); });
      must("a solver with these options", [&] {
        py::object s = mod("LinearSolver")(o);
        compareFields("the solver's options", s.attr("getOptions")(), l, lFields());
        o.attr("svdTol") = 77.0;
        compareFields("the solver's options, the original changed since", s.attr("getOptions")(), l, lFields());
        s.attr("getOptions")().attr("svdTol") = 78.0;
        MC_REQUIRE(number(s.attr("getOptions")().attr("svdTol")) == 78.0 && py::extract<Solver&>(s)().getOptions().svdTol == 78.0, "the options of a solver cannot be changed");
        py::object tree = bk("BoostPropertyTree")();
        tree.attr("setBool")("columnScaling", l.columnScaling); tree.attr("setDouble")("epsNorm", l.epsNorm); tree.attr("setDouble")("epsQR", l.epsQR); tree.attr("setDouble")("svdTol", l.svdTol);
        sm::BoostPropertyTree ct;
        ct.setBool("columnScaling", l.columnScaling); ct.setDouble("epsNorm", l.epsNorm); ct.setDouble("epsQR", l.epsQR); ct.setDouble("svdTol", l.svdTol);
        compareFields("the options of a solver made from a configuration", mod("LinearSolver")(tree).attr("getOptions")(), Solver(ct).getOptions(), lFields());
      });
      break;
    }
    case 2: table("a returned value", mod("IncrementalEstimatorReturnValue"), retFields(), Ret()); break;
    default: {  // the matrices of a returned value
      py::object o = must("making a returned value", [&] { return py::object(mod("IncrementalEstimatorReturnValue")()); });
      const size_t f = c.choose((int)retMats().size());
      std::vector<Eigen::MatrixXd> m;
      for (size_t i = 0; i < retMats().size(); ++i) { Eigen::MatrixXd x = Eigen::MatrixXd::Constant(2, retMats()[i].vector ? 1 : 3, (double)i + 1); x(1, 0) = -5; m.push_back(x); }
      m[f] = Eigen::MatrixXd::Constant(3, retMats()[f].vector ? 1 : 2, 64); m[f](2, 0) = 65;
      for (size_t i = 0; i < m.size(); ++i) must("setting " + retMats()[i].name, [&] { o.attr(retMats()[i].name.c_str()) = py::object(py::handle<>(ToPython<Eigen::MatrixXd>::convert(m[i]))); });
      c.step(); c.check(); c.note(retMats()[f].name);
      const Ret& inside = py::extract<Ret&>(o)();
      for (size_t i = 0; i < m.size(); ++i) {
        MC_REQUIRE(eq(retMats()[i].get(inside), m[i]), "setting " << retMats()[i].name << " from Python leaves " << show(retMats()[i].get(inside)));
        MC_REQUIRE(eq(mat(o.attr(retMats()[i].name.c_str())), m[i]), "reading " << retMats()[i].name << " from Python");
      }
    }
  }
}

// the containers, with what keeps what alive
void problems(mc::Chooser& c) {
  Interpreter::get();
  MC_REQUIRE(living().empty(), "objects of an earlier history are still alive");
  struct Batch { std::vector<int> dvs, ets; };
  struct Model {
    std::set<int> dvHandles, etHandles, batchHandles; bool problemHandle = true;
    std::map<int, Batch> batches;
    std::vector<int> problem;
    std::vector<int> looks;  // batches obtained from the problem
  } m;
  std::vector<py::object> dv, et, batch(3), look;
  {
    for (int i = 0; i < 3; ++i) { dv.push_back(bk("DV")(i, 1, true)); m.dvHandles.insert(i); }
    for (int i = 0; i < 2; ++i) { py::list l; l.append(dv[i]); l.append(dv[2]); et.push_back(bk("ET")(i, 1, l)); m.etHandles.insert(i); }
  }
  py::object problem = must("making a problem", [&] { return py::object(mod("IncrementalOptimizationProblem")()); });
  // two batches: 0 and 2 variables of the first, 1 and 2 of the second
  must("making the batches", [&] {
    for (int b = 0; b < 2; ++b) {
      batch[b] = mod("CalibrationOptimizationProblem")();
      batch[b].attr("addDesignVariable")(dv[b], 0); batch[b].attr("addDesignVariable")(dv[2], 1); batch[b].attr("addErrorTerm")(et[b]);
      m.batchHandles.insert(b); m.batches[b] = Batch{{b, 2}, {b}};
    }
  });
  // handles of what the batches are made of
  if (c.flip()) { dv.clear(); et.clear(); m.dvHandles.clear(); m.etHandles.clear(); }
  const int depth = mc::config().thorough() ? 7 : 5;
  auto verify = [&](const std::string& after) {
    c.check();
    std::set<int> alive;
    std::set<int> heldBatches = m.batchHandles;
    for (int l : m.looks) heldBatches.insert(l);
    if (m.problemHandle) heldBatches.insert(m.problem.begin(), m.problem.end());
    for (int b : heldBatches) { for (int d : m.batches[b].dvs) alive.insert(d); for (int e : m.batches[b].ets) alive.insert(1000 + e); }
    for (int d : m.dvHandles) alive.insert(d);
    for (int e : m.etHandles) alive.insert(1000 + e);
    for (int a : alive) MC_REQUIRE(living().count(a), after << ": " << (a < 1000 ? "design variable " : "error term ") << a % 1000 << " has been destroyed although it can still be reached from Python");
    for (int a : living()) MC_REQUIRE(alive.count(a), after << ": " << (a < 1000 ? "design variable " : "error term ") << a % 1000 << " is still alive although nothing in Python refers to it");
    auto sizes = [&](py::object o, size_t d, size_t e, const std::string& of) {
      must(of, [&] {
        MC_REQUIRE(number(o.attr("numDesignVariables")()) == d, after << ": " << of << " has " << number(o.attr("numDesignVariables")()) << " design variables instead of " << d);
        MC_REQUIRE(number(o.attr("numErrorTerms")()) == e, after << ": " << of << " has " << number(o.attr("numErrorTerms")()) << " error terms instead of " << e);
      });
    };
    for (int b : m.batchHandles) sizes(batch[b], m.batches[b].dvs.size(), m.batches[b].ets.size(), "batch " + std::to_string(b));
    for (size_t i = 0; i < look.size(); ++i) sizes(look[i], m.batches[m.looks[i]].dvs.size(), m.batches[m.looks[i]].ets.size(), "the batch obtained from the problem");
    if (m.problemHandle) {
      std::set<int> d; size_t e = 0;
      for (int b : m.problem) { d.insert(m.batches[b].dvs.begin(), m.batches[b].dvs.end()); e += m.batches[b].ets.size(); }
      sizes(problem, d.size(), e, "the problem");
      must("getNumOptimizationProblems", [&] { MC_REQUIRE(number(problem.attr("getNumOptimizationProblems")()) == m.problem.size(), after << ": another number of batches"); });
    }
  };
  verify("at the beginning");
  for (int step = 0; step < depth; ++step) {
    std::string what, why;
    auto inProblem = [&](int b) { return std::find(m.problem.begin(), m.problem.end(), b) != m.problem.end(); };
    auto does = [&](bool expected, const std::function<void()>& f) {
      const bool done = attemptPy(f, why);
      c.step();
      c.trace([&](std::ostream& o) { o << what << (done ? "" : " [" + why + "]"); });
      MC_REQUIRE(done || !expected, what << ": Python raises " << why);
      MC_REQUIRE(!done || expected, what << ": should have been refused");
      return done;
    };
    switch (c.choose(9)) {
      case 0: {
        const int b = c.choose(2); what = "problem.add(batch " + std::to_string(b) + ")";
        if (!m.problemHandle || !m.batchHandles.count(b)) throw mc::Prune{};
        if (inProblem(b)) throw mc::Prune{};
        if (does(true, [&] { problem.attr("add")(batch[b]); })) m.problem.push_back(b);
        break;
      }
      case 1: {
        const int i = c.choose(3); what = "problem.remove(" + std::to_string(i) + ")";
        if (!m.problemHandle) throw mc::Prune{};
        if (does(i < (int)m.problem.size(), [&] { problem.attr("remove")(i); })) m.problem.erase(m.problem.begin() + i);
        break;
      }
      case 2: {
        const int i = c.choose(3); what = "problem.getOptimizationProblem(" + std::to_string(i) + ")";
        if (!m.problemHandle || look.size() >= 2) throw mc::Prune{};
        py::object l;
        if (does(i < (int)m.problem.size(), [&] { l = problem.attr("getOptimizationProblem")(i); })) { look.push_back(l); m.looks.push_back(m.problem[i]); }
        break;
      }
      case 3: what = "problem.clear()"; if (!m.problemHandle) throw mc::Prune{}; does(true, [&] { problem.attr("clear")(); }); m.problem.clear(); break;
      case 4: {
        const int b = c.choose(2); what = "del batch " + std::to_string(b);
        if (!m.batchHandles.count(b)) throw mc::Prune{};
        does(true, [&] { batch[b] = py::object(); }); m.batchHandles.erase(b); break;
      }
      case 5: what = "del problem"; if (!m.problemHandle) throw mc::Prune{}; does(true, [&] { problem = py::object(); }); m.problemHandle = false; break;
      case 6: what = "del the batches obtained"; if (look.empty()) throw mc::Prune{}; does(true, [&] { look.clear(); }); m.looks.clear(); break;
      case 7: {  // what is obtained is the batch itself
        what = "clearing the batch obtained";
        if (look.empty() || inProblem(m.looks[0])) throw mc::Prune{};
        const int b = m.looks[0];
        does(true, [&] { look[0].attr("clear")(); }); m.batches[b] = Batch(); break;
      }
      default: {
        what = "batch 0 .addDesignVariable(0 again)";
        if (!m.batchHandles.count(0) || !m.dvHandles.count(0) || m.batches[0].dvs.empty()) throw mc::Prune{};
        does(false, [&] { batch[0].attr("addDesignVariable")(dv[0], 0); }); break;
      }
    }
    verify("after " + what);
    c.note(what + std::to_string(living().size()) + std::to_string(m.problem.size()));
    std::ostringstream canon;
    canon << join(m.dvHandles) << "|" << join(m.batchHandles) << "|" << m.problemHandle << "|" << join(m.problem) << "|" << join(m.looks) << "|" << join(m.batches[0].dvs) << "|" << join(m.batches[1].dvs);
    c.state(canon.str(), depth - step - 1);
  }
}

// the estimator keeps what it is given, and what it hands out keeps it
void lifetimes(mc::Chooser& c) {
  Interpreter::get();
  MC_REQUIRE(living().empty(), "objects of an earlier history are still alive");
  Oracle o;
  As as(o, Plan{3, true, false, 2, 4.0});
  py::object est, out;
  std::vector<py::object> batch;
  const int kind = c.choose(5);
  static const char* kNames[] = {"nothing", "getOptions", "getLinearSolverOptions", "getOptimizerOptions", "getProblem"};
  const int n = 1 + c.choose(3);
  std::set<int> kept;
  must("an estimator with batches", [&] {
    est = mod("IncrementalEstimator")(1);
    for (int b = 0; b < n; ++b) {
      py::object d = bk("DV")(2 * b, 1, true), e = bk("DV")(2 * b + 1, 1, true), p = mod("CalibrationOptimizationProblem")();
      py::list l; l.append(d); l.append(e);
      p.attr("addDesignVariable")(d, 1); p.attr("addDesignVariable")(e, 0); p.attr("addErrorTerm")(bk("ET")(b, 1, l));
      est.attr("addBatch")(p, true);
      batch.push_back(p);
      kept.insert(b);
    }
  });
  auto verify = [&](const std::set<int>& batches, const std::string& after) {
    c.check();
    std::set<int> alive;
    for (int b : batches) { alive.insert(2 * b); alive.insert(2 * b + 1); alive.insert(1000 + b); }
    std::set<int> now(living().begin(), living().end());
    c.trace([&](std::ostream& os) { os << after << ": alive " << join(now); });
    MC_REQUIRE(now == alive, after << ": the objects alive are " << join(now) << " instead of " << join(alive));
  };
  const bool drop = c.flip();
  std::set<int> all = kept;
  if (drop) batch.clear();
  verify(all, "with the estimator");
  c.step();
  if (kind) out = must(kNames[kind], [&] { return py::object(est.attr(kNames[kind])()); });
  const int removed = c.choose(n + 1);
  if (removed < n) {
    must("removing a batch", [&] { est.attr("removeBatch")(removed); });
    kept.erase(removed);
    verify(drop ? kept : all, "with a batch removed"); c.step();
  }
  if (c.flip()) {
    must("deleting the estimator", [&] { est = py::object(); });
    c.step();
    std::set<int> expect = drop ? (kind ? kept : std::set<int>()) : all;
    verify(expect, std::string("the estimator deleted, what ") + kNames[kind] + " returned in use");
    if (kind == 1) must("using the options", [&] { out.attr("infoGainDelta") = 3.0; MC_REQUIRE(number(out.attr("infoGainDelta")) == 3.0, "the options do not keep what is written"); });
    if (kind == 2) must("using the options", [&] { out.attr("svdTol") = 3.0; MC_REQUIRE(number(out.attr("svdTol")) == 3.0, "the options do not keep what is written"); });
    if (kind == 3) must("using the options", [&] { out.attr("maxIterations") = 3; MC_REQUIRE(number(out.attr("maxIterations")) == 3.0, "the options do not keep what is written"); });
    if (kind == 4) must("using the problem", [&] { MC_REQUIRE(number(out.attr("getNumOptimizationProblems")()) == kept.size(), "the problem changed"); });
    out = py::object();
    verify(drop ? std::set<int>() : all, "that deleted too");
  }
  c.note(std::to_string(kind) + std::to_string(n) + std::to_string(removed) + std::to_string(drop));
}

mc::Register r1("P01", "histories", histories, "every sequence of requests to an estimator through Python and, on a twin, through C++", 8, 4);
mc::Register r2("P01", "values", values, "every field of options and returned values, set and read");
mc::Register r3("P01", "problems", problems, "every sequence of operations on the containers, with every handle dropped at every point", 4, 3);
mc::Register r4("P01", "lifetimes", lifetimes, "every way to drop handles of an estimator, its batches and what it hands out");

}  // namespace

MC_MAIN
