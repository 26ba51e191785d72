# Bugs planted in the Python module.
from seed import seed
PY = "incremental_calibration_python/src/"
def demo(script): return '#include "demo_py.hpp"\nint main() { return runScript(R"PY(\n' + script + ')PY"); }\n'
seed("p01-options-copy", "P01",
     [(PY + "IncrementalEstimator.cpp", '''    .def("getLinearSolverOptions", getLinearSolverOptions,
      return_internal_reference<>())''', '''    .def("getLinearSolverOptions", getLinearSolverOptions,
      return_value_policy<copy_non_const_reference>())''')],
     demo('''
e = IncrementalEstimator(1)
o = e.getLinearSolverOptions()
o.svdTol = 0.75
assert e.getLinearSolverOptions().svdTol == 0.75, "the option set is not the estimator's"
'''), "solver options changed through the estimator after construction", "Solver options set through Python are lost", kind="py")
seed("p01-scaled", "P01",
     [(PY + "IncrementalEstimator.cpp", "  return ie->getSigma2ThetaObs(true);", "  return ie->getSigma2Theta(true);")],
     demo('''
e = IncrementalEstimator(1)
e.getLinearSolverOptions().columnScaling = True
b = batch(3.0)
r = e.addBatch(b, True)
assert r.batchAccepted
assert e.getSigma2ThetaObsScaled() == r.sigma2ThetaObsScaled, "another covariance than the one returned"
assert e.getSigma2ThetaScaled() == r.sigma2ThetaScaled
'''), "a rank-deficient problem, in which the observable and the whole covariance differ", "The scaled covariance of the observable part is that of everything", kind="py")
seed("p01-dangling", "P01",
     [(PY + "IncrementalEstimator.cpp", '''    .def("getProblem", &IncrementalEstimator::getProblem,
      boost::python::return_internal_reference<>())''', '''    .def("getProblem", &IncrementalEstimator::getProblem,
      boost::python::return_value_policy<reference_existing_object>())''')],
     demo('''
e = IncrementalEstimator(1)
e.addBatch(batch(3.0), True)
p = e.getProblem()
del e
assert alive() == 1, "what the problem in use consists of was destroyed"
assert p.getNumOptimizationProblems() == 1
'''), "an estimator dropped while its problem is still in use", "The problem handed out does not keep its estimator alive", kind="py")
