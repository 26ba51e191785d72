// S01 normal, S02 uniform, S03 gamma and chi-square distributions, M01 maximum
// likelihood estimators, F01 special functions: every short history of changes.
#include <mc.hpp>

#include <cmath>
#include <cstdlib>
#include <limits>
#include <memory>
#include <vector>

#include <Eigen/Dense>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/functions/DigammaFunction.h>
#include <aslam/calibration/functions/IncompleteGammaPFunction.h>
#include <aslam/calibration/functions/IncompleteGammaQFunction.h>
#include <aslam/calibration/functions/LogFactorialFunction.h>
#include <aslam/calibration/functions/LogGammaFunction.h>
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/EstimatorML.h>
#include <aslam/calibration/statistics/GammaDistribution.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/UniformDistribution.h>

using namespace aslam::calibration;

// the source of random numbers, under control
static std::vector<long> g_stream; static size_t g_at = 0;
extern "C" long random(void) { static unsigned long g = 1; long v = g_stream.empty() ? (long)((g = g * 6364136223846793005ul + 1442695040888963407ul) >> 33) : g_stream[g_at++ % g_stream.size()]; return v; }
extern "C" void srandom(unsigned) {}

namespace {
typedef long double ld;
const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();
bool near(double a, ld b, double tol = 1e-9) {
  if (std::isnan(a) || std::isnan((double)b)) return false;
  if (std::isinf(a) || std::isinf((double)b)) return a == (double)b;
  return std::fabs(a - (double)b) <= tol * (1 + std::fabs((double)b));
}
#define SAME(got, want, what) do { c.check(); const double mc_g = (got); const ld mc_w = (want); MC_REQUIRE(near(mc_g, mc_w), name << ": " << what << " is " << mc_g << " instead of " << (double)mc_w); } while (0)
template <class F> bool refused(F f) { try { f(); } catch (const Exception&) { return true; } return false; }
#define REFUSED(expr) refused([&] { expr; })

// Two objects of a kind, and every history of changes to them. K describes the kind:
// P parameters; make(P); ops(): number of requests; apply(op, D&, P&, name) ; verify.
void warmUp() {  // the samplers inside the distributions draw a seed when they are first used
  static bool done = false; if (done) return; done = true;
  g_stream.clear(); NormalDistribution<1>().getSample(); NormalDistribution<2>().getSample(); NormalDistribution<3>().getSample(); NormalDistribution<5>().getSample(); NormalDistribution<Eigen::Dynamic>(Eigen::VectorXd::Zero(1), Eigen::MatrixXd::Identity(1, 1)).getSample();
}
template <class K> void histories(mc::Chooser& c, K k, int depth) {
  warmUp();
  typedef typename K::D D; typedef typename K::P P;
  std::unique_ptr<D> d[2]; P p[2];
  for (int i = 0; i < 2; ++i) { p[i] = k.initial(i); d[i].reset(k.make(p[i])); }
  std::string path;
  for (int step = 0; step < depth; ++step) {
    const int w = step == 0 ? 0 : c.choose(2);
    const int n = k.requests(), op = c.choose(n + 4);
    std::string what;
    c.step();
    // asked before the request as well: something remembered by an answer must not outlive it
    if (c.nearlyFresh()) for (int i = 0; i < 2; ++i) k.verify(c, *d[i], p[i], "after " + path + ", object " + std::to_string(i) + " (" + k.show(p[i]) + ")");
    if (op < n) what = k.apply(op, *d[w], p[w]);
    else if (op == n) { d[w].reset(new D(*d[1 - w])); p[w] = p[1 - w]; what = "copy construct"; }
    else if (op == n + 1) { D& r = (*d[w] = *d[1 - w]); MC_REQUIRE(&r == d[w].get(), "assignment returns another object"); p[w] = p[1 - w]; what = "assign"; }
    else if (op == n + 2) { D& self = *d[w]; *d[w] = self; what = "assign to itself"; }
    else { d[w].reset(k.make(p[w])); what = "construct anew"; }
    path += (path.empty() ? "" : ", ") + what + " (" + std::to_string(w) + ")";
    c.trace([&](std::ostream& os) { os << what << " on object " << w << ": " << k.show(p[w]); });
    if (!c.fresh()) continue;
    for (int i = 0; i < 2; ++i) k.verify(c, *d[i], p[i], "after " + path + ", object " + std::to_string(i) + " (" + k.show(p[i]) + ")");
    k.pair(c, *d[0], p[0], *d[1], p[1], "after " + path);
    c.note(k.show(p[0]) + "|" + k.show(p[1])); c.outcome(k.show(p[0]) + "|" + k.show(p[1]));
  }
}
int depthFor(int quick) { return mc::config().thorough() ? quick + 1 : quick; }

// ------------------------------------------------------------------ S01
struct Normal1 {
  typedef NormalDistribution<1> D; struct P { double m, v; };
  P initial(int i) { return i ? P{-3, 0.25} : P{0, 1}; }
  D* make(const P& p) { return p.m == 0 && p.v == 1 ? new D() : p.m < 0 ? new D(std::make_tuple(p.m, p.v)) : new D(p.m, p.v); }
  int requests() { return 10; }
  std::string apply(int op, D& d, P& p) {
    std::ostringstream os;
    static const double ms[] = {0, 2.5, -1e3}, vs[] = {1, 4, 1e-6};
    static const double bad[] = {0, -1, NaN, -INF};
    if (op < 3) { d.setMean(p.m = ms[op]); os << "mean " << p.m; }
    else if (op < 6) { d.setVariance(p.v = vs[op - 3]); os << "variance " << p.v; }
    else { os << "variance " << bad[op - 6]; MC_REQUIRE(REFUSED(d.setVariance(bad[op - 6])), os.str() << " is accepted"); MC_REQUIRE(REFUSED(D(1, bad[op - 6])), os.str() << " is accepted at construction"); MC_REQUIRE(REFUSED(D(std::make_tuple(1.0, bad[op - 6]))), os.str() << " is accepted at construction"); }
    return os.str();
  }
  std::string show(const P& p) { std::ostringstream os; os << "mean " << p.m << " variance " << p.v; return os.str(); }
  void verify(mc::Chooser& c, const D& d, const P& p, const std::string& name) {
    SAME(d.getMean(), p.m, "mean"); SAME(d.getMedian(), p.m, "median"); SAME(d.getMode(), p.m, "mode");
    SAME(d.getVariance(), p.v, "variance"); SAME(d.getPrecision(), 1 / (ld)p.v, "precision"); SAME(d.getStandardDeviation(), sqrtl(p.v), "standard deviation");
    const ld norm = 0.5L * logl(2 * M_PIl * (ld)p.v);
    SAME(d.getNormalizer(), norm, "normalizer");
    for (double z : {-3.0, -1.0, 0.0, 0.5, 2.0}) {
      const double x = p.m + z * std::sqrt(p.v); const ld zz = ((ld)x - p.m) / sqrtl(p.v);
      SAME(d.mahalanobisDistance(x), zz * zz, "squared distance of " << x);
      SAME(d.logpdf(x), -0.5L * zz * zz - norm, "log density at " << x);
      SAME(d.pdf(x), expl(-0.5L * zz * zz - norm), "density at " << x);
      SAME(d(x), expl(-0.5L * zz * zz - norm), "function value at " << x);
      SAME(d.cdf(x), 0.5L * erfcl(-zz / sqrtl(2)), "cumulative density at " << x);
    }
    SAME(d.cdf(INF), 1, "cumulative density at infinity"); SAME(d.cdf(-INF), 0, "cumulative density at minus infinity");
    // samples scale with the parameters
    g_stream = {1L << 30, 1234567890L, 99L, 2000000000L}; g_at = 0;
    const double s = d.getSample(); g_at = 0; const double z = D(0, 1).getSample();
    SAME(s, p.m + sqrtl(p.v) * z, "sample");
    std::vector<double> v(3, 7); d.getSamples(v, 2); MC_REQUIRE(v.size() == 2, name << ": " << v.size() << " samples instead of 2");
  }
  void pair(mc::Chooser& c, const D& a, const P& p, const D& b, const P& q, const std::string& name) {
    const ld dm = (ld)p.m - q.m;
    SAME(a.KLDivergence(b), 0.5L * (logl((ld)q.v / p.v) + (ld)p.v / q.v - 1 + dm * dm / q.v), "divergence");
    SAME(b.KLDivergence(a), 0.5L * (logl((ld)p.v / q.v) + (ld)q.v / p.v - 1 + dm * dm / p.v), "divergence the other way");
  }
};
struct NormalP { Eigen::VectorXd m; Eigen::MatrixXd v; };
template <int M> struct NormalM {
  typedef NormalDistribution<M> D; typedef typename D::Mean V; typedef typename D::Covariance C;
  typedef Eigen::Matrix<ld, Eigen::Dynamic, Eigen::Dynamic> LM; typedef Eigen::Matrix<ld, Eigen::Dynamic, 1> LV;
  typedef NormalP P;
  int n; std::vector<Eigen::VectorXd> ms; std::vector<Eigen::MatrixXd> good, bad;
  explicit NormalM(int d) : n(d) {
    for (double s : {0.0, 1.0, -20.0}) { Eigen::VectorXd m(n); for (int i = 0; i < n; ++i) m(i) = s * (i + 1) + (s ? 0.5 : 0); ms.push_back(m); }
    good.push_back(Eigen::MatrixXd::Identity(n, n));
    Eigen::MatrixXd L = Eigen::MatrixXd::Zero(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) L(i, j) = i == j ? 0.5 + i : -0.75 + 0.5 * j;
    Eigen::MatrixXd g = L * L.transpose(); g = (0.5 * (g + g.transpose())).eval(); good.push_back(g); good.push_back(Eigen::VectorXd::LinSpaced(n, 0.01, 9).asDiagonal());
    Eigen::MatrixXd b = g; b(0, n - 1) += 0.125; bad.push_back(b);                              // not symmetric
    bad.push_back(Eigen::MatrixXd::Zero(n, n));                                                 // singular
    b = Eigen::MatrixXd::Ones(n, n); bad.push_back(b);                                          // singular, variances positive
    b = Eigen::MatrixXd::Identity(n, n); b(n - 1, n - 1) = -1; bad.push_back(b);                // a negative variance
    b = Eigen::MatrixXd::Identity(n, n); b(0, n - 1) = b(n - 1, 0) = 2; bad.push_back(b);       // indefinite
    b = -g; bad.push_back(b);                                                                   // negative definite
    b = g; b(0, 0) = NaN; bad.push_back(b);
  }
  P initial(int i) { return {ms[i], good[i]}; }
  D* make(const P& p) { return p.m(0) < 0 ? new D(std::make_tuple(V(p.m), C(p.v))) : new D(V(p.m), C(p.v)); }
  int requests() { return (int)(ms.size() + good.size() + bad.size()); }
  std::string apply(int op, D& d, P& p) {
    if (op < (int)ms.size()) { p.m = ms[op]; d.setMean(p.m); return "mean " + std::to_string(op); }
    op -= (int)ms.size();
    if (op < (int)good.size()) { p.v = good[op]; d.setCovariance(p.v); return "covariance " + std::to_string(op); }
    op -= (int)good.size();
    const std::string w = "invalid covariance " + std::to_string(op);
    MC_REQUIRE(REFUSED(d.setCovariance(bad[op])), w << " is accepted: " << bad[op]);
    MC_REQUIRE(REFUSED(D(V(p.m), C(bad[op]))), w << " is accepted at construction");
    return w;
  }
  std::string show(const P& p) { std::ostringstream os; os << n << "-d mean " << p.m.transpose() << " covariance " << Eigen::Map<const Eigen::RowVectorXd>(p.v.data(), p.v.size()); return os.str(); }
  void verify(mc::Chooser& c, const D& d, const P& p, const std::string& name) {
    MC_REQUIRE(d.getMean() == p.m && d.getMode() == p.m, name << ": mean or mode is " << d.getMean().transpose() << " / " << d.getMode().transpose());
    MC_REQUIRE(d.getCovariance() == p.v, name << ": covariance is " << d.getCovariance());
    const LM S = p.v.cast<ld>(); const LM inv = S.fullPivLu().inverse(); const ld det = S.fullPivLu().determinant();
    SAME(d.getDeterminant(), det, "determinant");
    MC_REQUIRE((d.getPrecision() - inv.template cast<double>()).norm() <= 1e-9 * (1 + (double)inv.norm()), name << ": precision is " << d.getPrecision());
    const Eigen::MatrixXd L = d.getTransformation().matrixL();
    MC_REQUIRE((L * L.transpose() - p.v).norm() <= 1e-9 * (1 + p.v.norm()), name << ": the transformation belongs to another covariance");
    const ld norm = 0.5L * n * logl(2 * M_PIl) + 0.5L * logl(det);
    SAME(d.getNormalizer(), norm, "normalizer");
    for (int k = 0; k < 4; ++k) {
      Eigen::VectorXd x = p.m; if (k) for (int i = 0; i < n; ++i) x(i) += (k == 1 ? 0.5 : k == 2 ? -1.0 * i : 1.5 - i);
      const LV r = (x - p.m).cast<ld>(); const ld q = (r.transpose() * inv * r)(0, 0);
      SAME(d.mahalanobisDistance(x), q, "squared distance"); SAME(d.logpdf(x), -0.5L * q - norm, "log density"); SAME(d.pdf(x), expl(-0.5L * q - norm), "density"); SAME(d(x), expl(-0.5L * q - norm), "function value");
    }
    // a sample is the mean plus a fixed square root of the covariance times standard numbers
    Eigen::MatrixXd Z(n, n), Y(n, n);
    const D standard(Eigen::VectorXd::Zero(n), Eigen::MatrixXd::Identity(n, n));
    g_stream.clear(); standard.getSample(); d.getSample();  // whatever is set up on first use is set up now
    for (int k = 0; k < n; ++k) {
      g_stream.clear(); for (int i = 0; i < 64; ++i) g_stream.push_back((1L << 30) + (i * 7919L * (k + 3) * 104729L) % (1L << 29) * ((i + k) % 3 ? 1 : -1));
      g_at = 0; Z.col(k) = standard.getSample(); g_at = 0; Y.col(k) = d.getSample() - p.m;
    }
    if (std::fabs(Z.determinant()) > 1e-6) {
      const Eigen::MatrixXd A = Y * Z.inverse();
      MC_REQUIRE((A * A.transpose() - p.v).norm() <= 1e-6 * (1 + p.v.norm()), name << ": samples have covariance " << A * A.transpose());
    }
  }
  void pair(mc::Chooser& c, const D& a, const P& p, const D& b, const P& q, const std::string& name) {
    auto kl = [&](const P& x, const P& y) { const LM X = x.v.cast<ld>(), Y = y.v.cast<ld>(), iy = Y.fullPivLu().inverse(); const LV r = (x.m - y.m).cast<ld>();
      return 0.5L * (logl(Y.fullPivLu().determinant() / X.fullPivLu().determinant()) + (iy * X).trace() - n + (r.transpose() * iy * r)(0, 0)); };
    SAME(a.KLDivergence(b), kl(p, q), "divergence"); SAME(b.KLDivergence(a), kl(q, p), "divergence the other way");
  }
};
void normal1(mc::Chooser& c) { histories(c, Normal1(), depthFor(4)); }
void normalM(mc::Chooser& c) {
  switch (c.choose(5)) {
    case 3: histories(c, NormalM<Eigen::Dynamic>(7), depthFor(2)); break;
    case 4: histories(c, NormalM<5>(5), depthFor(2)); break;
    case 0: histories(c, NormalM<2>(2), depthFor(3)); break;
    case 1: histories(c, NormalM<3>(3), depthFor(3)); break;
    default: histories(c, NormalM<Eigen::Dynamic>(2 + c.choose(2)), depthFor(3));
  }
}
mc::Register s1("S01", "univariate", normal1, "two univariate normal distributions, every history of 4 (thorough: 5) of setting means, variances, invalid variances, copying, assigning", 8, 3);
mc::Register s1m("S01", "multivariate", normalM, "two multivariate normal distributions (2-d, 3-d, 5-d, dynamic up to 7-d), every history of 3 (thorough: 4; from 5-d on one less) of setting means, covariances, seven invalid covariances, copying, assigning", 8, 3);

// ------------------------------------------------------------------ S02
template <class T> struct Uniform1 {
  typedef UniformDistribution<T> D; struct P { T lo, hi; };
  static const bool real = !std::is_integral<T>::value;
  std::vector<T> xs = {T(0), T(1), T(2), T(real ? 3.5 : 7), T(std::is_unsigned<T>::value ? 12 : -5)};
  P initial(int i) { return i ? P{T(3), T(9)} : P{T(0), T(1)}; }
  D* make(const P& p) { return p.lo == T(0) && p.hi == T(1) ? new D() : new D(p.lo, p.hi); }
  int requests() { const int n = (int)xs.size(); return 2 * n + n * n + (real ? 4 : 0); }
  std::string apply(int op, D& d, P& p) {
    const int n = (int)xs.size(); std::ostringstream os; P q = p; int how = 0;
    if (op < n) { q.lo = xs[op]; os << "minimum " << q.lo; }
    else if (op < 2 * n) { q.hi = xs[op - n]; how = 1; os << "maximum " << q.hi; }
    else if (op < 2 * n + n * n) { q.lo = xs[(op - 2 * n) / n]; q.hi = xs[(op - 2 * n) % n]; how = 2; os << "support " << q.lo << " to " << q.hi; }
    else { const int k = op - 2 * n - n * n; if (k < 2) (k ? q.lo : q.hi) = std::numeric_limits<T>::quiet_NaN(); else (k == 2 ? q.lo : q.hi) = T((k == 2 ? 1 : -1)) * std::numeric_limits<T>::infinity(); how = 2; os << "support " << q.lo << " to " << q.hi; }
    const bool valid = q.lo < q.hi;
    bool bad = REFUSED(if (how == 0) d.setMinSupport(q.lo); else if (how == 1) d.setMaxSupport(q.hi); else d.setSupport(q.lo, q.hi));
    MC_REQUIRE(bad == !valid, os.str() << (bad ? " is refused" : " is accepted"));
    if (how == 2) MC_REQUIRE(REFUSED(D(q.lo, q.hi)) == !valid, os.str() << " at construction");
    if (valid) p = q;
    return os.str();
  }
  std::string show(const P& p) { std::ostringstream os; os << "from " << p.lo << " to " << p.hi; return os.str(); }
  void verify(mc::Chooser& c, const D& d, const P& p, const std::string& name) {
    MC_REQUIRE(d.getMinSupport() == p.lo && d.getMaxSupport() == p.hi, name << ": support is " << d.getMinSupport() << " to " << d.getMaxSupport());
    const ld lo = p.lo, hi = p.hi, area = hi - lo + (real ? 0 : 1);
    SAME(d.getSupportArea(), area, "support area"); SAME(d.getMean(), (lo + hi) / 2, "mean"); SAME(d.getMedian(), (lo + hi) / 2, "median");
    SAME(d.getVariance(), (area * area - (real ? 0 : 1)) / 12, "variance");
    bool threw = false; try { d.getMode(); } catch (const InvalidOperationException&) { threw = true; } MC_REQUIRE(threw, name << ": has a mode");
    std::vector<T> at = {p.lo, p.hi, T(p.lo + 1), T(p.hi + 1)}; if (!std::is_unsigned<T>::value || p.lo > T(0)) at.push_back(T(p.lo - 1));
    if (real) { at.push_back(T(p.lo + (p.hi - p.lo) / 3)); at.push_back(std::nextafter(double(p.hi), INF) > p.hi && std::is_same<T, double>::value ? T(std::nextafter(double(p.hi), INF)) : T(p.hi + 1)); }
    for (T x : at) {
      const ld want = x >= p.lo && x <= p.hi ? 1 / area : 0;
      SAME(d.pdf(x), want, "density at " << x); SAME(d.pmf(x), want, "probability of " << x); SAME(d(x), want, "function value at " << x);
    }
    for (long raw : {0L, 1L, 1L << 29, 1L << 30, (long)RAND_MAX - 1, (long)RAND_MAX}) {
      g_stream = {raw}; g_at = 0; const T s = d.getSample();
      MC_REQUIRE(s >= p.lo && s <= p.hi, name << ": sample " << s);
      if (raw == 0) MC_REQUIRE(s == p.lo, name << ": lowest sample " << s); if (raw == RAND_MAX) MC_REQUIRE(near(s, p.hi), name << ": highest sample " << s);
    }
    std::vector<T> v(5); d.getSamples(v, 3); MC_REQUIRE(v.size() == 3, name << ": " << v.size() << " samples instead of 3");
  }
  void pair(mc::Chooser&, const D&, const P&, const D&, const P&, const std::string&) {}
};
template <class T, int M> struct UniformM {
  typedef UniformDistribution<T, M> D; typedef typename D::RandomVariable V; struct P { V lo, hi; };
  static const bool real = !std::is_integral<T>::value;
  int n; explicit UniformM(int d) : n(d) {
    V a(n), b(n), e(n), f(n);
    for (int i = 0; i < n; ++i) { a(i) = T(i); b(i) = T(i + 1 + 2 * i); e(i) = T(-2 - i); f(i) = T(real ? 10.5 : 10); }
    xs = {a, b, e, f}; V g = b; g(n - 1) = T(-100); xs.push_back(g); V h = a; h(0) = T(50); xs.push_back(h);
  }
  std::vector<V> xs;
  static bool valid(const P& p) { for (int i = 0; i < p.lo.size(); ++i) if (!(p.lo(i) < p.hi(i))) return false; return true; }
  P initial(int i) { return i ? P{xs[2], xs[3]} : P{xs[0], xs[1]}; }
  D* make(const P& p) { return new D(p.lo, p.hi); }
  int requests() { const int k = (int)xs.size(); return 2 * k + k * k; }
  std::string apply(int op, D& d, P& p) {
    const int k = (int)xs.size(); std::ostringstream os; P q = p; int how = 0;
    if (op < k) q.lo = xs[op]; else if (op < 2 * k) { q.hi = xs[op - k]; how = 1; } else { q.lo = xs[(op - 2 * k) / k]; q.hi = xs[(op - 2 * k) % k]; how = 2; }
    os << (how == 0 ? "minimum" : how == 1 ? "maximum" : "support") << " so that " << show(q);
    const bool bad = REFUSED(if (how == 0) d.setMinSupport(q.lo); else if (how == 1) d.setMaxSupport(q.hi); else d.setSupport(q.lo, q.hi));
    MC_REQUIRE(bad == !valid(q), os.str() << (bad ? " is refused" : " is accepted"));
    if (how == 2) MC_REQUIRE(REFUSED(D(q.lo, q.hi)) == !valid(q), os.str() << " at construction");
    if (valid(q)) p = q;
    return os.str();
  }
  std::string show(const P& p) { std::ostringstream os; os << "from (" << p.lo.transpose() << ") to (" << p.hi.transpose() << ")"; return os.str(); }
  void verify(mc::Chooser& c, const D& d, const P& p, const std::string& name) {
    MC_REQUIRE(d.getMinSupport() == p.lo && d.getMaxSupport() == p.hi, name << ": support differs");
    ld area = 1; Eigen::MatrixXd cov = Eigen::MatrixXd::Zero(n, n); Eigen::VectorXd mean(n);
    for (int i = 0; i < n; ++i) { const ld w = (ld)p.hi(i) - p.lo(i) + (real ? 0 : 1); area *= w; cov(i, i) = (double)((w * w - (real ? 0 : 1)) / 12); mean(i) = 0.5 * ((double)p.lo(i) + (double)p.hi(i)); }
    SAME(d.getSupportArea(), area, "support area");
    MC_REQUIRE((d.getMean() - mean).norm() < 1e-9 && (d.getMedian() - mean).norm() < 1e-9, name << ": mean " << d.getMean().transpose() << ", median " << d.getMedian().transpose() << " instead of " << mean.transpose());
    MC_REQUIRE((Eigen::MatrixXd(d.getCovariance()) - cov).norm() < 1e-9, name << ": covariance " << d.getCovariance() << " instead of " << cov);
    bool threw = false; try { d.getMode(); } catch (const InvalidOperationException&) { threw = true; } MC_REQUIRE(threw, name << ": has a mode");
    int total = 1; for (int i = 0; i < n; ++i) total *= 5;
    for (int k = 0; k < total; ++k) {
      V x(n); int r = k; bool in = true;
      for (int i = 0; i < n; ++i) { const int o = r % 5; r /= 5; x(i) = o == 0 ? p.lo(i) : o == 1 ? p.hi(i) : o == 2 ? T(p.lo(i) - 1) : o == 3 ? T(p.hi(i) + 1) : T(p.lo(i) + (p.hi(i) - p.lo(i)) / 2); if (o == 2 || o == 3) in = false; }
      const ld want = in ? 1 / area : 0;
      SAME(d.pdf(x), want, "density at " << x.transpose()); SAME(d.pmf(x), want, "probability of " << x.transpose()); SAME(d(x), want, "function value");
    }
    for (long raw : {0L, 1L << 30, (long)RAND_MAX}) {
      g_stream = {raw}; g_at = 0; const V s = d.getSample();
      for (int i = 0; i < n; ++i) MC_REQUIRE(s(i) >= p.lo(i) && s(i) <= p.hi(i) && (raw || s(i) == p.lo(i)) && (raw != RAND_MAX || s(i) == p.hi(i)), name << ": sample " << s.transpose());
    }
  }
  void pair(mc::Chooser&, const D&, const P&, const D&, const P&, const std::string&) {}
};
void uniform(mc::Chooser& c) {
  switch (c.choose(7)) {
    case 0: histories(c, Uniform1<double>(), depthFor(3)); break;
    case 1: histories(c, Uniform1<int>(), depthFor(3)); break;
    case 2: histories(c, Uniform1<size_t>(), depthFor(2)); break;
    case 3: histories(c, Uniform1<float>(), depthFor(2)); break;
    case 4: histories(c, UniformM<double, 2>(2), 2); break;
    case 5: histories(c, UniformM<int, 2>(2), 2); break;
    default: histories(c, UniformM<double, Eigen::Dynamic>(1 + c.choose(3)), 2);
  }
}
mc::Register s2("S02", "uniform", uniform, "two uniform distributions, real and integer, one to three dimensions, every history of 2 to 3 (thorough: 3 to 4) of setting one or both limits (all pairs, also invalid), copying, assigning", 8, 3);

// ------------------------------------------------------------------ S03
ld gammaP(ld a, ld x) {
  if (x <= 0) return 0;
  if (x < a + 1) { ld sum = 1 / a, t = sum; for (int n = 1; n < 10000; ++n) { t *= x / (a + n); sum += t; if (t < sum * 1e-22L) break; } return sum * expl(-x + a * logl(x) - lgammal(a)); }
  ld b = x + 1 - a, cc = 1e4000L, d = 1 / b, h = d;
  for (int i = 1; i < 10000; ++i) { const ld an = -i * (i - a); b += 2; d = an * d + b; if (fabsl(d) < 1e-4000L) d = 1e-4000L; cc = b + an / cc; if (fabsl(cc) < 1e-4000L) cc = 1e-4000L; d = 1 / d; const ld del = d * cc; h *= del; if (fabsl(del - 1) < 1e-18L) break; }
  return 1 - expl(-x + a * logl(x) - lgammal(a)) * h;
}
ld digammaRef(ld x) { ld r = 0; while (x < 40) { r -= 1 / x; x += 1; } const ld f = 1 / (x * x); return r + logl(x) - 0.5L / x - f * (1.0L / 12 - f * (1.0L / 120 - f * (1.0L / 252 - f * (1.0L / 240 - f / 132)))); }
template <class G> void gammaVerify(mc::Chooser& c, const G& d, ld a, ld b, const std::string& name) {
  SAME(d.getShape(), a, "shape"); SAME(d.getInvScale(), b, "inverse scale");
  SAME(d.getMean(), a / b, "mean"); SAME(d.getVariance(), a / (b * b), "variance");
  const ld norm = lgammal(a) - a * logl(b); SAME(d.getNormalizer(), norm, "normalizer");
  if (a >= 1) SAME(d.getMode(), (a - 1) / b, "mode");
  else { bool threw = false; try { d.getMode(); } catch (const InvalidOperationException&) { threw = true; } MC_REQUIRE(threw, name << ": has a mode"); }
  for (double x : {-1.0, -1e-9, 0.0, 0.05, 0.7, 2.0, 15.0}) {
    const ld lp = x < 0 ? -INFINITY : x == 0 ? (a == 1 ? -norm : a < 1 ? INFINITY : -INFINITY) : (a - 1) * logl(x) - x * b - norm;
    SAME(d.logpdf(x), lp, "log density at " << x); SAME(d.pdf(x), expl(lp), "density at " << x); SAME(d(x), expl(lp), "function value at " << x);
    SAME(d.cdf(x), gammaP(a, b * x), "cumulative density at " << x);
  }
  for (double p : {0.0, 0.01, 0.5, 0.99}) { const double x = d.invcdf(p); MC_REQUIRE(x >= 0 && std::fabs((double)gammaP(a, b * (ld)x) - p) < 1e-7, name << ": quantile of " << p << " is " << x); }
  for (double p : {-0.01, 1.01, -INF}) MC_REQUIRE(REFUSED(d.invcdf(p)), name << ": quantile of " << p);
}
template <class T> struct Gamma {
  typedef GammaDistribution<T> D; struct P { T a; double b; };
  P initial(int i) { return i ? P{T(3), 0.5} : P{T(1), 1}; }
  D* make(const P& p) { return p.a == T(1) && p.b == 1 ? new D() : new D(p.a, p.b); }
  int requests() { return 14; }
  std::string apply(int op, D& d, P& p) {
    static const double as[] = {1, 2, std::is_integral<T>::value ? 5 : 0.5, std::is_integral<T>::value ? 40 : 7.25}, bs[] = {1, 0.01, 3}, bada[] = {0, -2, NaN, 0}, badb[] = {0, -1, NaN};
    std::ostringstream os;
    if (op < 4) { p.a = T(as[op]); d.setShape(p.a); os << "shape " << p.a; }
    else if (op < 7) { p.b = bs[op - 4]; d.setInvScale(p.b); os << "inverse scale " << p.b; }
    else if (op < 11) { const double x = std::is_integral<T>::value ? 0 : bada[op - 7]; os << "shape " << x; MC_REQUIRE(REFUSED(d.setShape(T(x))), os.str() << " is accepted"); MC_REQUIRE(REFUSED(D(T(x), 1)), os.str() << " is accepted at construction"); }
    else { const double x = badb[op - 11]; os << "inverse scale " << x; MC_REQUIRE(REFUSED(d.setInvScale(x)), os.str() << " is accepted"); MC_REQUIRE(REFUSED(D(T(1), x)), os.str() << " is accepted at construction"); }
    return os.str();
  }
  std::string show(const P& p) { std::ostringstream os; os << "shape " << p.a << " inverse scale " << p.b; return os.str(); }
  void verify(mc::Chooser& c, const D& d, const P& p, const std::string& name) { gammaVerify(c, d, p.a, p.b, name); }
  void pair(mc::Chooser& c, const D& a, const P& p, const D& b, const P& q, const std::string& name) {
    auto kl = [](ld a1, ld b1, ld a2, ld b2) { return (a1 - a2) * digammaRef(a1) - lgammal(a1) + lgammal(a2) + a2 * (logl(b1) - logl(b2)) + a1 * (b2 - b1) / b1; };
    SAME(a.KLDivergence(b), kl(p.a, p.b, q.a, q.b), "divergence"); SAME(b.KLDivergence(a), kl(q.a, q.b, p.a, p.b), "divergence the other way");
  }
};
struct ChiSquare {
  typedef ChiSquareDistribution D; struct P { double k; };
  P initial(int i) { return {i ? 5.0 : 1.0}; }
  D* make(const P& p) { return p.k == 1 ? new D() : new D(p.k); }
  int requests() { return 8; }
  std::string apply(int op, D& d, P& p) {
    static const double ks[] = {1, 2, 3, 10, 0.5}, bad[] = {0, -1, NaN};
    std::ostringstream os;
    if (op < 5) { d.setDegrees(p.k = ks[op]); os << "degrees " << p.k; }
    else { const double x = bad[op - 5]; os << "degrees " << x; MC_REQUIRE(REFUSED(d.setDegrees(x)), os.str() << " is accepted"); MC_REQUIRE(REFUSED(D d2(x)), os.str() << " is accepted at construction"); }
    return os.str();
  }
  std::string show(const P& p) { std::ostringstream os; os << p.k << " degrees"; return os.str(); }
  void verify(mc::Chooser& c, const D& d, const P& p, const std::string& name) {
    gammaVerify(c, d, p.k / 2, 0.5L, name); SAME(d.getDegrees(), p.k, "degrees");
    if (p.k >= 1) { const double m = (double)gammaP(p.k / 2, d.getMedian() / 2); MC_REQUIRE(std::fabs(m - 0.5) < 0.02, name << ": median " << d.getMedian() << " has probability " << m << " below it"); }
  }
  void pair(mc::Chooser& c, const D& a, const P&, const D& b, const P&, const std::string& name) { MC_REQUIRE(a.KLDivergence(b) > -1e-9 && b.KLDivergence(a) > -1e-9, name << ": negative divergence"); SAME(a.KLDivergence(a), 0, "divergence from itself"); }
};
void gammas(mc::Chooser& c) {
  switch (c.choose(3)) {
    case 0: histories(c, Gamma<double>(), depthFor(3)); break;
    case 1: histories(c, Gamma<size_t>(), depthFor(3)); break;
    default: histories(c, ChiSquare(), depthFor(4));
  }
}
mc::Register s3("S03", "gamma", gammas, "two gamma or chi-square distributions, every history of 3 to 4 (thorough: 4 to 5) of setting parameters (also invalid), copying, assigning", 8, 3);

// ------------------------------------------------------------------ M01
template <int M> struct Ml {
  typedef EstimatorML<NormalDistribution<M>> E; typedef typename E::Point Pt;
  static Pt point(const std::vector<double>& v);
  static std::vector<std::vector<double>> domain();
};
template <> double Ml<1>::point(const std::vector<double>& v) { return v[0]; }
template <> Eigen::Vector2d Ml<2>::point(const std::vector<double>& v) { return {v[0], v[1]}; }
template <> Eigen::Vector3d Ml<3>::point(const std::vector<double>& v) { return {v[0], v[1], v[2]}; }
template <> Eigen::Matrix<double, 6, 1> Ml<6>::point(const std::vector<double>& v) { return Eigen::Map<const Eigen::Matrix<double, 6, 1>>(v.data()); }
template <> std::vector<std::vector<double>> Ml<1>::domain() { return {{0}, {2}, {-4}, {100}}; }
template <> std::vector<std::vector<double>> Ml<2>::domain() { return {{0, 0}, {2, 0}, {0, -4}, {4, 4}, {2, 2}}; }
template <> std::vector<std::vector<double>> Ml<3>::domain() { return {{0, 0, 0}, {2, 0, 1}, {0, -4, 0}, {4, 4, 8}}; }
double at(double x, int) { return x; }
template <class V> double at(const V& x, int i) { return x(i); }
double cov(const NormalDistribution<1>& d, int, int) { return d.getVariance(); }
template <int M> double cov(const NormalDistribution<M>& d, int i, int j) { return d.getCovariance()(i, j); }

template <int M> void ml(mc::Chooser& c) {
  typedef Ml<M> K; typedef typename K::E E; typedef typename K::Pt Pt;
  struct Model { std::vector<std::vector<double>> pts; std::vector<double> w; bool any = false, undecided = false; size_t count = 0; };
  const auto dom = K::domain();
  std::unique_ptr<E> e[2]; Model m[2];
  for (auto& x : e) x.reset(new E());
  const int depth = mc::config().thorough() ? 5 : 4;
  std::string path;
  struct Ref { bool valid; Eigen::VectorXd mean; Eigen::MatrixXd cov; };
  auto fit = [&](const std::vector<std::vector<double>>& pts, const std::vector<double>& w) {
    Ref r; r.mean = Eigen::VectorXd::Zero(M); r.cov = Eigen::MatrixXd::Zero(M, M); double s = 0;
    for (size_t i = 0; i < pts.size(); ++i) { r.mean += w[i] * Eigen::Map<const Eigen::VectorXd>(pts[i].data(), M); s += w[i]; }
    r.valid = s > 0; if (!r.valid) return r;
    r.mean /= s;
    for (size_t i = 0; i < pts.size(); ++i) { const Eigen::VectorXd d = Eigen::Map<const Eigen::VectorXd>(pts[i].data(), M) - r.mean; r.cov += w[i] * d * d.transpose(); }
    r.cov /= s;
    r.valid = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(r.cov).eigenvalues()(0) > 1e-9;
    return r;
  };
  Ref ref[2]; bool expectValid[2] = {false, false};
  std::vector<std::vector<double>> acc[2];
  size_t count[2] = {0, 0};
  auto exact = [&](int w) {  // sums of these points over their number are exact
    const size_t n = acc[w].size(); return n == 0 || (n & (n - 1)) == 0; };
  bool vague[2] = {false, false};
  auto verify = [&] {
  for (int i = 0; i < 2; ++i) {
    const std::string name = "after " + path + ", " + std::to_string(M) + "-d estimator " + std::to_string(i);
    c.check();
    MC_REQUIRE(e[i]->getNumPoints() == count[i], name << ": " << e[i]->getNumPoints() << " points instead of " << count[i]);
    if (!vague[i]) MC_REQUIRE(e[i]->getValid() == expectValid[i], name << (expectValid[i] ? ": not valid" : ": valid"));
    if (!expectValid[i]) continue;
    const auto& d = e[i]->getDistribution(); const auto mean = d.getMean();
    for (int a = 0; a < M; ++a) { SAME(at(mean, a), ref[i].mean(a), "mean"); for (int b = 0; b < M; ++b) SAME(cov(d, a, b), ref[i].cov(a, b), "covariance"); }
    std::ostringstream o; o << ref[i].mean.transpose() << ref[i].cov; c.outcome(o.str()); c.note(o.str());
  }
  };
  for (int step = 0; step < depth; ++step) {
    const int w = step == 0 ? 0 : c.choose(2);
    const int op = c.choose(9);
    std::ostringstream what;
    c.step();
    if (c.nearlyFresh()) verify();
    auto added = [&] {
      ref[w] = fit(acc[w], std::vector<double>(acc[w].size(), 1)); expectValid[w] = ref[w].valid; count[w] = acc[w].size();
      vague[w] = !ref[w].valid && !(exact(w) && ref[w].cov.diagonal().minCoeff() == 0);   // else rounding decides whether the degenerate spread is noticed
    };
    switch (op) {
      case 0: { const auto& p = c.pick(dom); e[w]->addPoint(K::point(p)); acc[w].push_back(p); added(); what << "point"; break; }
      case 1: case 2: {  // several points at once
        const int n = 2, first = c.choose(3); std::vector<Pt> v; for (int i = 0; i < n; ++i) { const auto& p = dom[(first + (op == 1 ? 1 : 2) * i) % dom.size()]; v.push_back(K::point(p)); acc[w].push_back(p); }
        if (op == 1) e[w]->addPoints(v); else e[w]->addPoints(v.begin(), v.end());
        added(); what << n << " points"; break; }
      case 3: { std::vector<Pt> v; e[w]->addPoints(v); what << "no points"; break; }
      case 4: case 5: {  // weighted points, wrong number of weights
        static const double sets[4][4] = {{1, 1, 1, 1}, {0.5, 0.25, 0.25, 3}, {0, 1, 0, 0}, {0, 0, 0, 0}};
        const int k = c.choose(op == 4 ? 5 : 2), n = k ? (int)dom.size() : 0, s = k ? k - 1 : 0;
        std::vector<Pt> v; for (int i = 0; i < n; ++i) v.push_back(K::point(dom[i]));
        Eigen::VectorXd r(n + (op == 5)); for (int i = 0; i < r.size(); ++i) r(i) = sets[s][i % 4];
        e[w]->addPoints(v.begin(), v.end(), r);
        what << n << " weighted points" << (op == 5 ? ", too many weights" : "");
        if (op == 4 && n) { std::vector<std::vector<double>> pts(dom.begin(), dom.end()); std::vector<double> ws; for (int i = 0; i < n; ++i) ws.push_back(r(i)); ref[w] = fit(pts, ws); expectValid[w] = ref[w].valid; vague[w] = !ref[w].valid && s < 2; }
        break; }
      case 6: { e[w]->reset(); acc[w].clear(); count[w] = 0; expectValid[w] = false; vague[w] = false; what << "reset"; break; }
      case 7: { e[w].reset(new E(*e[1 - w])); acc[w] = acc[1 - w]; count[w] = count[1 - w]; expectValid[w] = expectValid[1 - w]; ref[w] = ref[1 - w]; vague[w] = vague[1 - w]; what << "copy construct"; break; }
      default: { *e[w] = *e[1 - w]; acc[w] = acc[1 - w]; count[w] = count[1 - w]; expectValid[w] = expectValid[1 - w]; ref[w] = ref[1 - w]; vague[w] = vague[1 - w]; what << "assign"; }
    }
    path += (path.empty() ? "" : ", ") + what.str() + " (" + std::to_string(w) + ")";
    c.trace([&](std::ostream& os) { os << what.str() << " on estimator " << w << ": " << count[w] << " points, " << (expectValid[w] ? "valid" : "not valid"); });
    if (c.fresh()) verify();
  }
}
void estimators(mc::Chooser& c) { switch (c.choose(3)) { case 0: ml<1>(c); break; case 1: ml<2>(c); break; default: ml<3>(c); } }
// many points, added in every mixture of ways, before and after a reset or a copy
template <int M> void manyPoints(mc::Chooser& c) {
  typedef Ml<M> K; typedef typename K::E E; typedef typename K::Pt Pt;
  static const int sizes[] = {16, 255, 256, 1000, 70000};
  const int n = sizes[c.choose(mc::config().thorough() ? 5 : 4)], way = c.choose(4), before = c.choose(4), cut = c.choose(3);
  std::vector<std::vector<double>> pts;
  for (int i = 0; i < n; ++i) { std::vector<double> p(M); for (int k = 0; k < M; ++k) p[k] = 0.5 * ((i * (2 * k + 7) + i / (k + 2)) % (13 + 4 * k)) - k; pts.push_back(p); }
  auto group = [&](int from, int to) { std::vector<Pt> v; for (int i = from; i < to; ++i) v.push_back(K::point(pts[i])); return v; };
  std::unique_ptr<E> e(new E);
  c.step(); c.check();
  if (before) { e->addPoints(group(n / 2, n)); if (before == 1) e->reset(); if (before == 2) { E other; *e = other; } if (before == 3) e.reset(new E); }
  const int first = cut == 0 ? 0 : cut == 1 ? n / 3 : n - 1;
  auto add = [&](int from, int to) {
    if (way == 0) for (int i = from; i < to; ++i) e->addPoint(K::point(pts[i]));
    else { auto v = group(from, to); if (way == 1) e->addPoints(v); else e->addPoints(v.begin(), v.end()); }
  };
  std::vector<double> w(n, 1);
  if (way == 3) {
    Eigen::VectorXd r(n); for (int i = 0; i < n; ++i) r(i) = w[i] = (i % 7) * 0.125;
    auto v = group(0, n);
    e->addPoints(v.begin(), v.end(), r);
  } else {
    add(0, first);
    if (cut == 2) e.reset(new E(*e));
    add(first, n);
    MC_REQUIRE(e->getNumPoints() == (size_t)n, e->getNumPoints() << " points instead of " << n);
  }
  Eigen::VectorXd mean = Eigen::VectorXd::Zero(M); Eigen::MatrixXd S = Eigen::MatrixXd::Zero(M, M); double sum = 0;
  for (int i = 0; i < n; ++i) { mean += w[i] * Eigen::Map<const Eigen::VectorXd>(pts[i].data(), M); sum += w[i]; }
  mean /= sum;
  for (int i = 0; i < n; ++i) { const Eigen::VectorXd d = Eigen::Map<const Eigen::VectorXd>(pts[i].data(), M) - mean; S += w[i] * d * d.transpose(); }
  S /= sum;
  std::ostringstream name; name << n << " points in " << M << "-d, way " << way << ", before " << before << ", cut " << cut;
  c.trace([&](std::ostream& o) { o << name.str(); }); c.outcome(name.str());
  MC_REQUIRE(e->getValid(), name.str() << ": not valid");
  const auto& d = e->getDistribution(); const auto m = d.getMean();
  for (int a = 0; a < M; ++a) {
    MC_REQUIRE(std::fabs(at(m, a) - mean(a)) <= 1e-9 * (1 + std::fabs(mean(a))), name.str() << ": mean " << at(m, a) << " instead of " << mean(a));
    for (int b = 0; b < M; ++b) MC_REQUIRE(std::fabs(cov(d, a, b) - S(a, b)) <= 1e-8 * (1 + std::fabs(S(a, b))), name.str() << ": covariance " << cov(d, a, b) << " instead of " << S(a, b));
  }
}
mc::Register m2("M01", "many", [](mc::Chooser& c) { switch (c.choose(4)) { case 0: manyPoints<1>(c); break; case 1: manyPoints<2>(c); break; case 2: manyPoints<3>(c); break; default: manyPoints<6>(c); } },
  "16 to 1000 (thorough: 70000) points in one, two, three and six dimensions, added one by one, in groups, by iterators, or weighted, at once or in two parts with a copy between, to an estimator that is new, reset, or assigned", 4, 2);
mc::Register m1("M01", "estimators", estimators, "two estimators in one to three dimensions, every history of 4 (thorough: 5) of adding one, several, no or weighted points, resetting, copying", 8, 3);

// ------------------------------------------------------------------ F01
void functions(mc::Chooser& c) {
  std::ostringstream id; std::string name;
  switch (c.choose(6)) {
    case 0: {
      const size_t n = c.choose(mc::config().thorough() ? 3000 : 600); name = "log factorial of " + std::to_string(n); c.step();
      LogFactorialFunction f; const double v = f(n); id << v; SAME(v, lgammal((ld)n + 1), "value");
      LogGammaFunction<size_t> g; if (n) { SAME(g(n), lgammal((ld)n), "log gamma"); } else MC_REQUIRE(REFUSED(g(n)), "log gamma of zero is accepted");
      break; }
    case 1: {
      const std::vector<double> xs = {0.01, 0.3, 0.5, 1, 1.5, 2, 3.25, 10, 47.5, 171, 1000.25};
      const double x = c.pick(xs); const size_t dim = 1 + c.choose(6), how = c.choose(4);
      name = "log gamma of " + std::to_string(x) + " in dimension " + std::to_string(dim); c.step();
      LogGammaFunction<double> f(how == 0 ? dim : 3), g(9);
      if (how == 1) f.setDim(dim); else if (how == 2) { g.setDim(dim); f = g; } else if (how == 3) f.setDim(dim);
      const LogGammaFunction<double> h(f);
      ld want = (ld)dim * (dim - 1) / 4 * logl(M_PIl); bool ok = true;
      for (size_t i = 0; i < dim; ++i) { const ld y = (ld)x - 0.5L * i; if (y <= 0) ok = false; else want += lgammal(y); }
      MC_REQUIRE(f.getDim() == dim && h.getDim() == dim, name << ": dimension not kept");
      if (ok) { SAME(f(x), want, "value"); SAME(h.getValue(x), want, "value of a copy"); }
      id << name << (double)want; break; }
    case 2: {
      const double x = 0.05 * (1 + c.choose(mc::config().thorough() ? 4000 : 1000)); name = "digamma of " + std::to_string(x); c.step();
      DigammaFunction<double> f; id << f(x); SAME(f(x), digammaRef(x), "value"); break; }
    default: {
      const std::vector<double> as = {0.1, 0.5, 1, 1.5, 2, 5, 12.25, 100};
      const double a = c.pick(as), x = 0.1 * c.choose(mc::config().thorough() ? 2000 : 300); const int how = c.choose(3);
      name = "incomplete gamma of " + std::to_string(a) + " at " + std::to_string(x); c.step();
      IncompleteGammaPFunction p(how ? 77 : a); IncompleteGammaQFunction q(how ? 77 : a);
      if (how == 1) { p.setAlpha(a); q.setAlpha(a); } else if (how == 2) { p = IncompleteGammaPFunction(a); q = IncompleteGammaQFunction(a); }
      const IncompleteGammaPFunction p2(p); const IncompleteGammaQFunction q2(q);
      MC_REQUIRE(p.getAlpha() == a && q.getAlpha() == a && p2.getAlpha() == a && q2.getAlpha() == a, name << ": parameter not kept");
      const ld want = gammaP(a, x); id << name << (double)want;
      SAME(p(x), want, "lower value"); SAME(q(x), 1 - want, "upper value"); SAME(p2(x), want, "lower value of a copy"); SAME(q2(x), 1 - want, "upper value of a copy");
    }
  }
  c.trace([&](std::ostream& os) { os << name; });
  c.note(name); c.outcome(id.str());
}
// far away from where the functions are usually asked
void extremes(mc::Chooser& c) {
  std::ostringstream id; std::string name; id.precision(17);
  static const double mant[] = {1, 1.5, 2.75, 7.125};
  switch (c.choose(4)) {
    case 0: {
      const int e = 9 + c.choose(12); const size_t n = ((size_t)1 << e) + (size_t)c.choose(5) * ((size_t)1 << (e - 3)) - 2; name = "log factorial of " + std::to_string(n); c.step();
      LogFactorialFunction f; const double v = f(n); id << v; SAME(v, lgammal((ld)n + 1), "value");
      LogGammaFunction<size_t> g; SAME(g(n), lgammal((ld)n), "log gamma"); break; }
    case 1: {
      const double x = c.pick(std::vector<double>(mant, mant + 4)) * std::pow(10.0, c.choose(17) - 8); name = "log gamma of " + std::to_string(x); c.step();
      LogGammaFunction<double> f; id << x; SAME(f(x), lgammal((ld)x), "value"); break; }
    case 2: {
      const double x = c.pick(std::vector<double>(mant, mant + 4)) * std::pow(10.0, c.choose(15) - 6); name = "digamma of " + std::to_string(x); c.step();
      DigammaFunction<double> f; id << x; SAME(f(x), digammaRef(x), "value"); break; }
    default: {
      const double a = c.pick(std::vector<double>{0.001, 0.02, 1000, 10000}), x = a * c.pick(std::vector<double>{0.01, 0.5, 0.9, 0.99, 1, 1.01, 1.1, 2, 10}); name = "incomplete gamma of " + std::to_string(a) + " at " + std::to_string(x); c.step();
      IncompleteGammaPFunction p(a); IncompleteGammaQFunction q(a); const ld want = gammaP(a, x); id << a << " " << x;
      SAME(p(x), want, "lower value"); SAME(q(x), 1 - want, "upper value"); }
  }
  c.trace([&](std::ostream& os) { os << name; });
  c.note(name); c.outcome(id.str());
}
mc::Register f2("F01", "extremes", extremes, "log factorial up to two million, log gamma from 1e-8 to 1e9, digamma from 1e-6 to 1e9, incomplete gamma with parameters from 0.001 to 10000", 1, 1);
mc::Register f1("F01", "functions", functions, "log factorial and log gamma of every integer below 600 (thorough: 3000), multivariate log gamma, digamma and incomplete gamma on lattices, after every way of setting their parameters", 4, 2);
}  // namespace
MC_MAIN
