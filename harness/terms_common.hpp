// Error terms against what they promise: the error is the measurement minus
// what the design variables predict, weighed with the covariance last set,
// and the Jacobians are its derivatives.
#ifndef VERIF_TERMS_COMMON_HPP
#define VERIF_TERMS_COMMON_HPP
#include <mc.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/JacobianContainer.hpp>
#include <functional>
#include <memory>

namespace terms {
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;
typedef aslam::backend::DesignVariable DV;

inline double wrap(double x) { return std::remainder(x, 2 * M_PI); }

template <class T> struct Spec {
  std::vector<DV*> dvs;
  // values each design variable takes
  std::vector<std::vector<Mat>> values;
  int nMeas = 1, nCov = 1, nAux = 1;
  std::function<T*(int m, int c, int a)> make;
  std::function<void(T&, int)> setMeas, setMeasRef, setCov, setAux;
  std::function<std::string(const T&, int m, int c, int a)> kept;  // what a getter gets wrong
  std::function<Vec(int m, int a)> want;
  std::function<Mat(int c)> cov;
  std::vector<int> angles;
  std::function<int(int a)> smooth = [](int) { return 2; };  // 0: no derivative promised, 1: finite, 2: the derivative
};

template <class T> Vec errorOf(T& t) { t.evaluateError(); return t.error(); }

template <class T> void verify(mc::Chooser& c, Spec<T>& s, T& t, int m, int cv, int a, bool jacFirst, const std::string& name) {
  c.check();
  std::vector<Mat> before;
  for (DV* v : s.dvs) { Mat p; v->getParameters(p); before.push_back(p); }
  const Vec want = s.want(m, a);
  const Mat W = s.cov(cv).inverse();
  const int n = (int)want.size();
  MC_REQUIRE((int)t.dimension() == n, name << ": dimension " << t.dimension());
  MC_REQUIRE(t.numDesignVariables() == s.dvs.size(), name << ": depends on " << t.numDesignVariables() << " design variables instead of " << s.dvs.size());
  for (DV* v : s.dvs) {
    bool in = false;
    for (size_t i = 0; i < t.numDesignVariables(); ++i) in |= t.designVariable(i) == v;
    MC_REQUIRE(in, name << ": does not depend on one of its design variables");
  }
  const std::string k = s.kept(t, m, cv, a);
  MC_REQUIRE(k.empty(), name << ": " << k);
  auto jacobians = [&] {
    const int smooth = s.smooth(a);
    aslam::backend::JacobianContainer J(n);
    const Vec keep = t.error();
    t.evaluateJacobians(J);
    MC_REQUIRE(Vec(t.error()) == keep, name << ": the Jacobians change the error");
    for (DV* v : s.dvs) {
      auto it = J.begin();
      while (it != J.end() && it->first != v) ++it;
      if (!v->isActive()) { MC_REQUIRE(it == J.end(), name << ": a Jacobian for an inactive design variable"); continue; }
      MC_REQUIRE(it != J.end(), name << ": no Jacobian for an active design variable");
      if (!smooth) continue;
      const Mat& got = it->second;
      MC_REQUIRE(got.allFinite(), name << ": the Jacobian is not finite:\n" << got);
      if (smooth < 2) continue;
      const int d = v->minimalDimensions();
      for (int j = 0; j < d; ++j) {
        const double h = 1e-4;
        auto at = [&](double x) {
          Vec p = Vec::Zero(d); p(j) = x;
          v->update(p.data(), d);
          Vec e = errorOf(t);
          v->revertUpdate();
          Vec diff = e - want;
          for (int q : s.angles) diff(q) = wrap(diff(q));
          return diff;
        };
        const Vec D = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
        for (int r = 0; r < n; ++r)
          MC_REQUIRE(std::fabs(D(r) - got(r, j)) <= 1e-6 * std::max(1.0, std::fabs(D(r))), name << ": the derivative of error " << r << " by parameter " << j << " is " << D(r) << ", the Jacobian says " << got(r, j));
      }
    }
    for (auto& e : J) {
      bool known = false;
      for (DV* v : s.dvs) known |= v == e.first;
      MC_REQUIRE(known, name << ": a Jacobian for another design variable");
    }
  };
  if (jacFirst) jacobians();
  const double chi2 = t.evaluateError();
  const Vec e = t.error();
  MC_REQUIRE(e.allFinite(), name << ": the error is not finite: " << e.transpose());
  for (int r = 0; r < n; ++r) {
    const bool ang = std::find(s.angles.begin(), s.angles.end(), r) != s.angles.end();
    const double d = ang ? wrap(e(r) - want(r)) : e(r) - want(r);
    MC_REQUIRE(std::fabs(d) <= 1e-9 * std::max(1.0, std::fabs(want(r))), name << ": error " << r << " is " << e(r) << " instead of " << want(r));
    if (ang) MC_REQUIRE(std::fabs(e(r)) <= M_PI + 1e-12, name << ": error " << r << " is an angle of " << e(r));
  }
  const double x = e.dot(W * e);
  MC_REQUIRE(std::fabs(chi2 - x) <= 1e-9 * std::max(1.0, std::fabs(x)), name << ": weighs the error as " << chi2 << " instead of " << x);
  MC_REQUIRE((Mat(t.invR()) - W).norm() <= 1e-9 * W.norm(), name << ": the weight is not the inverse of the covariance");
  if (!jacFirst) jacobians();
  for (size_t i = 0; i < s.dvs.size(); ++i) {
    Mat p; s.dvs[i]->getParameters(p);
    MC_REQUIRE(p == before[i], name << ": evaluating changes a design variable");
  }
  MC_REQUIRE(std::fabs(t.evaluateError() - chi2) <= 1e-12 * std::max(1.0, chi2), name << ": evaluated again, the error is another one");
  std::ostringstream o; o << e.transpose() << "|" << chi2;
  c.outcome(o.str());
}

template <class T> void history(mc::Chooser& c, Spec<T>& s, const std::string& name, int depth) {
  for (size_t i = 0; i < s.dvs.size(); ++i) { s.dvs[i]->setActive(true); s.dvs[i]->setParameters(s.values[i][0]); }
  const int n0 = (int)s.values[0].size();
  const int v0 = c.choose(n0), m0 = c.choose(s.nMeas);
  s.dvs[0]->setParameters(s.values[0][v0]);
  struct Slot { std::unique_ptr<T> t; int m, c, a; } slot[2];
  slot[0] = {std::unique_ptr<T>(s.make(m0, 0, 0)), m0, 0, 0};
  slot[1] = {std::unique_ptr<T>(s.make(s.nMeas - 1, s.nCov - 1, s.nAux - 1)), s.nMeas - 1, s.nCov - 1, s.nAux - 1};
  std::string path = "construction";
  std::vector<int> at(s.dvs.size(), 0);
  at[0] = v0;
  // what each term was last evaluated with: it may keep some of it
  std::string seen[2];
  auto config = [&](int i) { std::ostringstream o; o << slot[i].m << "," << slot[i].c << "," << slot[i].a; for (size_t j = 0; j < at.size(); ++j) o << (s.dvs[j]->isActive() ? "+" : "-") << at[j]; return o.str(); };
  for (int k = 0; k < depth; ++k) {
    enum { Stop, Value, Active, Meas, MeasRef, Cov, Aux, Copy, Assign, Self, Error, Jac };
    std::vector<int> ops = {Stop, Value, Active};
    if (s.setMeas) ops.push_back(Meas);
    if (s.setMeasRef) ops.push_back(MeasRef);
    if (s.setCov) ops.push_back(Cov);
    if (s.setAux) ops.push_back(Aux);
    ops.push_back(Copy); ops.push_back(Assign); ops.push_back(Error);
    if (mc::config().thorough()) { ops.push_back(Self); ops.push_back(Jac); }
    const int op = c.pick(ops);
    c.step();
    if (op == Stop) break;
    std::ostringstream what;
    switch (op) {
      case Value: { const int i = c.choose((int)s.dvs.size()), j = 1 + c.choose((int)s.values[i].size() - 1); s.dvs[i]->setParameters(s.values[i][j]); at[i] = j; what << "design variable " << i << " := value " << j; break; }
      case Active: { const int i = c.choose((int)s.dvs.size()); s.dvs[i]->setActive(!s.dvs[i]->isActive()); what << "design variable " << i << (s.dvs[i]->isActive() ? " active" : " inactive"); break; }
      case Meas: { const int i = c.choose(s.nMeas); s.setMeas(*slot[0].t, i); slot[0].m = i; what << "measurement := " << i; break; }
      case MeasRef: { const int i = c.choose(s.nMeas); s.setMeasRef(*slot[0].t, i); slot[0].m = i; what << "measurement reference := " << i; break; }
      case Cov: { const int i = c.choose(s.nCov); s.setCov(*slot[0].t, i); slot[0].c = i; what << "covariance := " << i; break; }
      case Aux: { const int i = c.choose(s.nAux); s.setAux(*slot[0].t, i); slot[0].a = i; what << "option := " << i; break; }
      case Copy: { slot[1].t.reset(new T(*slot[0].t)); slot[1].m = slot[0].m; slot[1].c = slot[0].c; slot[1].a = slot[0].a; seen[1] = seen[0]; what << "copy"; break; }
      case Assign: { const int d = c.choose(2); *slot[d].t = *slot[1 - d].t; slot[d].m = slot[1 - d].m; slot[d].c = slot[1 - d].c; slot[d].a = slot[1 - d].a; seen[d] = seen[1 - d]; what << "assign to " << d; break; }
      case Self: { T& self = *slot[0].t; *slot[0].t = self; what << "assign to itself"; break; }
      case Error: { slot[0].t->evaluateError(); seen[0] += "E" + config(0); what << "evaluate error"; break; }
      case Jac: { aslam::backend::JacobianContainer J((int)slot[0].t->dimension()); slot[0].t->evaluateJacobians(J); seen[0] += "J" + config(0); what << "evaluate Jacobians"; break; }
    }
    path += ", " + what.str();
    c.trace([&](std::ostream& os) { os << what.str(); });
    if (c.fresh()) c.state(name + config(0) + "/" + config(1) + seen[0] + "/" + seen[1], depth - k);
  }
  for (int i = 0; i < 2; ++i) verify(c, s, *slot[i].t, slot[i].m, slot[i].c, slot[i].a, i == 1, name + " term " + std::to_string(i) + " after " + path);
}

// every combination of values
template <class T> void grid(mc::Chooser& c, Spec<T>& s, const std::string& name) {
  for (size_t i = 0; i < s.dvs.size(); ++i) { s.dvs[i]->setActive(true); s.dvs[i]->setParameters(s.values[i][c.choose((int)s.values[i].size())]); }
  const int m = c.choose(s.nMeas), a = c.choose(s.nAux), cv = c.choose(s.nCov);
  c.step();
  std::unique_ptr<T> t(s.make(m, cv, a));
  c.trace([&](std::ostream& os) { os << name << " measurement " << m << " option " << a << " covariance " << cv; for (DV* v : s.dvs) { Mat p; v->getParameters(p); os << " [" << p.transpose() << "]"; } });
  verify(c, s, *t, m, cv, a, false, name);
}

// a term of other design variables is assigned or copied
template <class T> void apart(mc::Chooser& c, Spec<T>& x, Spec<T>& y, const std::string& name) {
  for (Spec<T>* s : {&x, &y}) for (DV* v : s->dvs) v->setActive(true);
  for (size_t i = 0; i < x.dvs.size(); ++i) { x.dvs[i]->setParameters(x.values[i][0]); y.dvs[i]->setParameters(y.values[i][c.choose((int)y.values[i].size())]); }
  const int m = c.choose(y.nMeas), a = c.choose(y.nAux), cv = c.choose(y.nCov), how = c.choose(3);
  const bool early = c.flip();
  c.step();
  std::unique_ptr<T> t(x.make(x.nMeas - 1, x.nCov - 1, x.nAux - 1)), from(y.make(m, cv, a)), to;
  if (early) { t->evaluateError(); from->evaluateError(); aslam::backend::JacobianContainer J((int)t->dimension()); t->evaluateJacobians(J); }
  if (how == 0) *t = *from;
  else if (how == 1) t.reset(new T(*from));
  else { to.reset(new T(*t)); *to = *from; t.swap(to); }
  c.trace([&](std::ostream& os) { os << name << (how == 0 ? " assigned" : how == 1 ? " copied" : " copied, then assigned") << (early ? " after evaluating" : ""); });
  // neither the origin nor the old variables matter any more
  for (size_t i = 0; i < x.dvs.size(); ++i) x.dvs[i]->setParameters(x.values[i].back());
  if (c.flip()) from.reset();
  verify(c, y, *t, m, cv, a, how == 1, name + " of other design variables");
}

inline Mat covariance(int n, int i) {
  Mat M = Mat::Identity(n, n) * (i == 0 ? 1.0 : 0.25 * i);
  for (int r = 0; r < n; ++r) { M(r, r) += 0.3 * r * (i + 1); if (i) for (int q = 0; q < r; ++q) M(r, q) = M(q, r) = 0.02 * (r + q + i); }
  return M;
}
inline Mat col(std::initializer_list<double> l) { Mat m(l.size(), 1); int i = 0; for (double x : l) m(i++, 0) = x; return m; }
}  // namespace terms
#endif
