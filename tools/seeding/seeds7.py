# More bugs in the core, and in what objects print.
from seed import seed
from seeds1 import IOP, OP, EST, INC, CORE, base
seed("c04-shared-forgotten", "C04", [(IOP, """            _groupsOrdering.erase(it);
          }
          _designVariablesBackup.erase(const_cast<DesignVariable*>(dv));
        }
""", """            _groupsOrdering.erase(it);
          }
        }
        _designVariablesBackup.erase(const_cast<DesignVariable*>(dv));
""")], CORE + """  auto a = dv(1, 1), b = dv(1, 2);
  BP p = batch(), q = batch();
  p->addDesignVariable(a, 0); p->addDesignVariable(b, 0); q->addDesignVariable(a, 0);
  IncrementalOptimizationProblem i; i.add(p); i.add(q);
  i.saveDesignVariables();
  a->v(0) = 5; b->v(0) = 6;
  i.remove(size_t(1));
  i.restoreDesignVariables();
  EXPECT(b->v(0) == 2 && a->v(0) == 1);
  return 0;
}
""", "a removal between saving and restoring, of a batch that shares a variable with one that stays", "A saved variable that is still in the problem is forgotten with a batch it was shared with")

seed("e01-svlog-kept", "E01", [(EST, """        // update internal variables
        _informationGain = ret.informationGain;
        _svLog2Sum = svLog2Sum;""", """        // update internal variables
        _informationGain = ret.informationGain;
        _svLog2Sum = std::max(svLog2Sum, _svLog2Sum);""")], CORE + """  Script env; verif::Env::current() = &env;
  IncrementalEstimator e(1);
  e.getOptions().infoGainDelta = 0.2; e.getOptions().checkValidity = false;
  auto a = dv(1);
  double logs[] = {10, 4, 6};
  for (int k = 0; k < 3; ++k) {
    env.log = logs[k];
    BP p = batch(); p->addDesignVariable(a, 1); p->addErrorTerm(et({a}, k));
    auto r = e.addBatch(p, k == 1);
    EXPECT(r.batchAccepted);
    EXPECT(r.informationGain == 0.5 * (logs[k] - (k ? logs[k - 1] : 0)));
  }
  return 0;
}
""", "a batch forced in that takes information away, and one after it", "The gain of a batch is told from the most informative state so far instead of the present one")

seed("e04-ordering-rotated", "E04", [(EST, """        if (*margGroupIt != groupsOrdering.back()) {
          std::swap(*margGroupIt, groupsOrdering.back());
          _problem->setGroupsOrdering(groupsOrdering);
        }""", """        if (margGroupIt == groupsOrdering.begin() || groupsOrdering.size() < 4) {
          if (*margGroupIt != groupsOrdering.back()) {
            std::swap(*margGroupIt, groupsOrdering.back());
            _problem->setGroupsOrdering(groupsOrdering);
          }
        }""")], CORE + """  Script env; verif::Env::current() = &env;
  IncrementalEstimator e(1);
  auto a = dv(1), b = dv(2), c = dv(3), d = dv(4);
  BP p = batch(); p->addDesignVariable(a, 0); p->addDesignVariable(b, 1); p->addDesignVariable(c, 2); p->addDesignVariable(d, 3);
  p->addErrorTerm(et({a, b, c, d}, 1));
  e.addBatch(p, true);
  EXPECT(e.getProblem()->getGroupsOrdering().back() == 1);
  EXPECT(env.splitMarginal == 8);
  return 0;
}
""", "four groups with the calibration group neither first nor last", "The calibration variables are not moved to the end")

seed("e05-cost-early", "E05", [(EST, """      ret.JFinal = srv.JFinal;

      // grep""", """      ret.JFinal = srv.JFinal;
      // a batch that is kept has lowered the cost of the problem
      const bool lowered = srv.JFinal < srv.JStart && linearSolver->getOptions().columnScaling;
      if (lowered)
        _finalCost = srv.JFinal;

      // grep"""), (EST, """        _initialCost = srv.JStart;
        _finalCost = srv.JFinal;
      }
      ret.batchAccepted""", """        _initialCost = srv.JStart;
        if (!lowered)
          _finalCost = srv.JFinal;
      }
      ret.batchAccepted""")], CORE + """  struct Failing : Script { bool fail = false; virtual bool onAnalyzeMarginal(truncated_svd_solver::TruncatedSvdSolver& s, cholmod_sparse* m, std::ptrdiff_t j, verif::SvdAnswer& a) { if (fail) throw std::runtime_error("analysis"); return Script::onAnalyzeMarginal(s, m, j, a); } } env;
  verif::Env::current() = &env;
  IncrementalEstimator e(1);
  e.getLinearSolverOptions().columnScaling = true;
  auto a = dv(1);
  BP p = batch(), q = batch(); p->addDesignVariable(a, 1); p->addErrorTerm(et({a}, 1)); q->addDesignVariable(a, 1); q->addErrorTerm(et({a}, 2));
  e.addBatch(p, true);
  EXPECT(e.getFinalCost() == 1);
  env.fail = true; env.j1 = 0.25;
  bool thrown = false;
  try { e.addBatch(q, true); } catch (const std::exception&) { thrown = true; }
  EXPECT(thrown && e.getFinalCost() == 1);
  return 0;
}
""", "the analysis failing after an optimisation that lowered the cost, with column scaling", "The cost of a batch that failed is published")

seed("y01-precision", "Y01", [(INC + "data-structures/VectorDesignVariable.tpp", """::write(std::ostream& stream) const {
      stream << _value.transpose();""", """::write(std::ostream& stream) const {
      if (_value.size() > 3)
        stream.precision(4);
      stream << _value.transpose().eval();""")], base("data-structures/VectorDesignVariable.h") + """  std::ostringstream s;
  VectorDesignVariable<4> v(Eigen::Vector4d(1, 2, 3, 4.000125));
  s << v;
  std::string t = s.str(); EXPECT(t.find("4.00013") != std::string::npos || t.find("4.00012") != std::string::npos);
  s << 0.123456; EXPECT(s.str().find("0.123456") != std::string::npos);
  return 0;
}
""", "a variable of four dimensions, with digits that matter, or something printed after it", "Long variables are printed with too few digits, and so is all that follows them", kind="core")

seed("y01-square-root", "Y01", [(INC + "statistics/EstimatorMLNormalMv.tpp", """        << "valid: " << mValid;""", """        << "valid: " << (mNumPoints > 0);""")], base("statistics/EstimatorML.h") + """  EstimatorML<NormalDistribution<2> > e;
  e.addPoint(Eigen::Vector2d(1, 1)); e.addPoint(Eigen::Vector2d(1, 1));
  EXPECT(!e.getValid());
  std::ostringstream s; s << e; EXPECT(s.str().find("valid: 0") != std::string::npos);
  return 0;
}
""", "an estimator with points that have no spread", "An estimator that is not valid is printed as valid", kind="base")
