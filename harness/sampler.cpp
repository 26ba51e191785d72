// R01: samplers, driven with every sequence of generator outputs from an
// equidistant lattice, so that the whole distribution of what they return is
// computed instead of sampled.
#include <mc.hpp>

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <map>
#include <memory>
#include <vector>

#include <Eigen/Dense>
#include <aslam/calibration/exceptions/Exception.h>
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/GammaDistribution.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/statistics/UniformDistribution.h>

using namespace aslam::calibration;

namespace {
// The generator: a list of outputs, then a pseudo random continuation
struct Generator {
  std::vector<long> next;
  size_t at = 0;
  unsigned long state = 1;
  unsigned lastSeed = 0;
  int seeded = 0;
  long draw() {
    mc::Chooser::tick();
    if (at < next.size()) return next[at++];
    ++at;
    state = state * 6364136223846793005ul + 1442695040888963407ul;
    return (long)(state >> 33);
  }
} g;
}  // namespace
extern "C" long random(void) { return g.draw(); }
extern "C" void srandom(unsigned s) { g.lastSeed = s; ++g.seeded; g.state = s * 2654435761ul + 12345; g.at = 0; g.next.clear(); }

namespace {
const long TOP = RAND_MAX;
typedef std::function<double()> Draw;
std::string num(double x) { std::ostringstream os; os.precision(12); os << x; return os.str(); }

// every sequence of at most depth outputs, each the midpoint of one of n cells;
// what returns without needing more is weighted with the probability of its cells
struct Outcome {
  std::vector<std::pair<double, double>> mass;  // value, probability
  double cut = 0;                               // probability of needing more
};
Outcome enumerate(mc::Chooser& c, const Draw& draw, int n, int depth) {
  Outcome o;
  std::vector<int> digits;
  auto value = [&](int d) { return (long)((d + 0.5) / n * ((double)TOP + 1)); };
  for (;;) {
    g.next.clear();
    for (int d : digits) g.next.push_back(value(d));
    // the rest of the prefix starts at zero
    while ((int)g.next.size() < depth) g.next.push_back(value(0));
    g.at = 0; g.state = 77;
    const double v = draw();
    c.step();
    const int used = (int)std::min<size_t>(g.at, depth);
    const bool cut = g.at > (size_t)depth;
    while ((int)digits.size() < used) digits.push_back(0);
    digits.resize(used);
    const double w = std::pow(1.0 / n, used);
    if (cut) o.cut += w; else o.mass.emplace_back(v, w);
    while (!digits.empty() && digits.back() + 1 == n) digits.pop_back();
    if (digits.empty()) break;
    ++digits.back();
  }
  std::sort(o.mass.begin(), o.mass.end());
  return o;
}

// greatest difference between the cumulative distributions; lo: exclusive lower
// bound (a sampler that rejects is compared given that it does not)
double distance(const Outcome& o, const std::function<double(double)>& cdf, bool rejecting, double& at) {
  double acc = 0, worst = 0;
  const double scale = rejecting ? 1 - o.cut : 1;
  for (auto& m : o.mass) {
    const double f = cdf(m.first);
    const double before = acc / scale;
    acc += m.second;
    const double d = std::max(std::fabs(f - before), std::fabs(f - acc / scale));
    if (d > worst) { worst = d; at = m.first; }
  }
  return worst;
}

double gammaP(double a, double x) {  // regularised lower incomplete gamma function
  if (x <= 0) return 0;
  long double sum = 1.0L / a, t = sum;
  for (int k = 1; k < 2000; ++k) { t *= x / (a + k); sum += t; if (t < sum * 1e-18L) break; }
  return (double)(sum * expl(-x + a * logl(x) - lgammal(a)));
}
double phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }

void continuous(mc::Chooser& c, const std::string& name, const Draw& draw, int n, int depth, bool rejecting, double tol, const std::function<double(double)>& cdf) {
  Outcome o = enumerate(c, draw, n, depth);
  c.check();
  double at = 0;
  MC_REQUIRE(!o.mass.empty(), name << ": no sample after " << depth << " outputs of the generator");
  const double d = distance(o, cdf, rejecting, at);
  if (getenv("SAMPLER_VERBOSE")) fprintf(stderr, "%-50s n=%d depth=%d: distance %.5f (tolerance %.5f) cut %.4f\n", name.c_str(), n, depth, d, tol, o.cut);
  MC_REQUIRE(d <= tol, name << ": the probability of a sample up to " << num(at) << " differs by " << num(d) << " from " << num(cdf(at)));
  MC_REQUIRE(rejecting || o.cut < tol, name << ": probability " << num(o.cut) << " of needing more than " << depth << " outputs of the generator");
  for (auto& m : o.mass) c.outcome(mc::hashBytes(&m.first, sizeof m.first));
  c.note(name);
  c.trace([&](std::ostream& os) { os << name << ": " << o.mass.size() << " sequences, distance " << d; });
}
void discrete(mc::Chooser& c, const std::string& name, const Draw& draw, int n, int depth, double tol, const std::function<double(double)>& pmf, int kmax) {
  Outcome o = enumerate(c, draw, n, depth);
  c.check();
  std::map<double, double> p;
  for (auto& m : o.mass) p[m.first] += m.second;
  if (getenv("SAMPLER_VERBOSE")) { double w = 0; for (auto& kv : p) w = std::max(w, std::fabs(kv.second - pmf(kv.first))); fprintf(stderr, "%-50s n=%d depth=%d: difference %.6f (tolerance %.6f) cut %.4f\n", name.c_str(), n, depth, w, tol, o.cut); }
  for (auto& kv : p) {
    MC_REQUIRE(kv.first == std::floor(kv.first) && pmf(kv.first) > 0, name << ": returns " << num(kv.first) << ", which is impossible");
    MC_REQUIRE(kv.second <= pmf(kv.first) + tol, name << ": " << num(kv.first) << " has probability " << num(kv.second) << " instead of " << num(pmf(kv.first)));
  }
  for (int k = -5; k <= kmax; ++k)
    MC_REQUIRE((p.count(k) ? p[k] : 0) >= pmf(k) - tol - o.cut, name << ": " << k << " has probability " << num(p.count(k) ? p[k] : 0) << " instead of " << num(pmf(k)));
  MC_REQUIRE(o.cut < 0.02, name << ": probability " << num(o.cut) << " of needing more than " << depth << " outputs of the generator");
  for (auto& kv : p) c.outcome(name + num(kv.first));
  c.note(name);
  c.trace([&](std::ostream& os) { os << name << ": " << o.mass.size() << " sequences, " << p.size() << " values"; });
}

template <class T> Draw uniformDraw(T lo, T hi) { auto r = std::make_shared<Randomizer<T>>(); return [r, lo, hi] { return (double)r->sampleUniform(lo, hi); }; }

void distributions(mc::Chooser& c) {
  const bool th = mc::config().thorough();
  static Randomizer<double> r;
  static const double rates[] = {1, 0.25, 8};
  std::ostringstream nm;
  switch (c.choose(8)) {
    case 0: {
      static const double lim[][2] = {{0, 1}, {-2.5, 4}, {100, 100.5}, {-1e6, -1}};
      const int k = c.choose(4); const bool viaDist = c.flip();
      const double lo = lim[k][0], hi = lim[k][1];
      nm << "uniform between " << lo << " and " << hi << (viaDist ? " (distribution)" : "");
      Draw d = uniformDraw<double>(lo, hi);
      if (viaDist) { auto u = std::make_shared<UniformDistribution<double>>(lo, hi); u->getSample(); d = [u] { return u->getSample(); }; }
      continuous(c, nm.str(), d, 4096, 1, false, 0.0005, [&](double x) { return (x - lo) / (hi - lo); });
      break; }
    case 1: {
      static const int lim[][2] = {{0, 1}, {-3, 3}, {10, 14}, {-9, -2}, {0, 99}};
      const int k = c.choose(5); const bool viaDist = c.flip();
      const int lo = lim[k][0], hi = lim[k][1];
      nm << "uniform integers from " << lo << " to " << hi << (viaDist ? " (distribution)" : "");
      Draw d = uniformDraw<int>(lo, hi);
      if (viaDist) { auto u = std::make_shared<UniformDistribution<int>>(lo, hi); u->getSample(); d = [u] { return (double)u->getSample(); }; }
      discrete(c, nm.str(), d, 8000, 1, 0.0004, [&](double x) { return x >= lo && x <= hi ? 1.0 / (hi - lo + 1) : 0; }, hi + 5);
      break; }
    case 2: {
      static const double pars[][2] = {{0, 1}, {-3, 1}, {2, 9}, {0.5, 0.0625}};
      const int k = c.choose(4), how = c.choose(3);
      const double m = pars[k][0], v = pars[k][1];
      nm << "normal with mean " << m << " and variance " << v << (how == 1 ? " (distribution)" : how == 2 ? " (bivariate distribution)" : "");
      Draw d = [=] { return r.sampleNormal(m, v); };
      if (how == 1) { auto n = std::make_shared<NormalDistribution<1>>(m, v); n->getSample(); d = [n] { return n->getSample(); }; }
      if (how == 2) {  // one coordinate of two that are correlated
        Eigen::Vector2d mu(m, 7); Eigen::Matrix2d s; s << v, 0.5 * std::sqrt(v), 0.5 * std::sqrt(v), 1;
        auto n = std::make_shared<NormalDistribution<2>>(mu, s); n->getSample();
        const bool second = k % 2;
        d = [=] { Eigen::Vector2d x = n->getSample(); return second ? m + (x(1) - 7) * std::sqrt(v) : x(0); };
        continuous(c, nm.str(), d, th ? 48 : 32, 4, true, 0.02, [&](double x) { return phi((x - m) / std::sqrt(v)); });
        break;
      }
      continuous(c, nm.str(), d, th ? 1024 : 512, 2, true, 0.002, [&](double x) { return phi((x - m) / std::sqrt(v)); });
      break; }
    case 3: {
      const double rate = rates[c.choose(3)];
      nm << "exponential with rate " << rate;
      continuous(c, nm.str(), [=] { return r.sampleExponential(rate); }, 8192, 1, false, 0.0003, [&](double x) { return -std::expm1(-rate * x); });
      break; }
    case 4: {
      static const double ps[] = {0.5, 0.1, 0.75, 0.999, 1.0};
      const double p = ps[c.choose(5)];
      nm << "geometric with success probability " << p;
      discrete(c, nm.str(), [=] { return (double)r.sampleGeometric(p); }, 16384, 1, 0.0003, [&](double k) { return k < 0 ? 0 : p == 1 ? (k == 0 ? 1.0 : 0.0) : std::pow(1 - p, k) * p; }, 200);
      break; }
    case 5: {
      static const double cat[][3] = {{0.25, 0.25, 0.5}, {0, 0.3, 0.7}, {0.6, 0, 0.4}, {0.125, 0.875, 0}, {1, 0, 0}, {0, 0, 1}};
      const int k = c.choose(6);
      Eigen::Vector3d p(cat[k][0], cat[k][1], cat[k][2]);
      nm << "categorical with probabilities " << p.transpose();
      static Randomizer<double, 3> r3;
      discrete(c, nm.str(), [&] { return (double)r3.sampleCategorical(p); }, 8000, 1, 0.0003, [&](double x) { return x >= 0 && x < 3 ? p((int)x) : 0; }, 5);
      break; }
    case 6: {
      static const double means[] = {0.5, 1, 0.125, 1.75};
      const int k = c.choose(4); const double m = means[k];
      static const int deep[] = {4, 5, 3, 6}, cells[] = {100, 40, 300, 20}; static const double tols[] = {0.01, 0.015, 0.003, 0.04};
      nm << "Poisson with mean " << m;
      discrete(c, nm.str(), [=] { return (double)r.samplePoisson(m); }, cells[k], deep[k], tols[k], [&](double k) { return k < 0 ? 0 : std::exp(-m + k * std::log(m) - std::lgamma(k + 1)); }, deep[k] - 1);
      break; }
    default: {
      static const double pars[][2] = {{1, 1}, {2, 1}, {2, 0.25}, {3, 2}, {0.5, 1}, {0.25, 4}, {0.9, 0.5}, {1.5, 1}, {2.5, 0.5}};
      const int k = c.choose(9); const int how = c.choose(3);
      const double a = pars[k][0], s = pars[k][1];
      const bool chi = how == 2 && a * 2 == std::floor(a * 2);
      nm << (chi ? "chi-square with " : "gamma with shape ") << (chi ? 2 * a : a) << (chi ? " degrees of freedom" : " and inverse scale " + num(s)) << (how == 1 ? " (distribution)" : "");
      Draw d = [=] { return r.sampleGamma(a, s); };
      if (how == 1) { auto x = std::make_shared<GammaDistribution<double>>(a, s); x->getSample(); d = [x] { return x->getSample(); }; }
      if (chi) { auto x = std::make_shared<ChiSquareDistribution>((size_t)(2 * a)); x->getSample(); d = [x] { return x->getSample(); }; }
      const double f = a - std::floor(a);
      const int draws = (int)std::floor(a) + (f > 0 ? 2 : 0);
      static const int ns[] = {0, 8192, 512, 90, 32};
      continuous(c, nm.str(), d, ns[draws], draws, f > 0, draws == 1 ? 0.0003 : draws == 2 ? 0.005 : draws == 3 ? 0.009 : 0.02, [&](double x) { return gammaP(a, x * (chi ? 0.5 : s)); });
      break; }
  }
}
mc::Register r1("R01", "distributions", distributions,
    "for every sampler and parameter setting, every sequence of generator outputs over an equidistant lattice (up to 8192 cells for one output, 512 for two, fewer for more); "
    "the resulting distribution is compared with the mathematical one", 8, 3);

// the ends of the generator's range
void ends(mc::Chooser& c) {
  static const long vals[] = {0, 1, TOP / 2, TOP - 1, TOP, TOP / 3};
  static Randomizer<double> r; static Randomizer<int> ri; static Randomizer<double, 3> r3; static Randomizer<float> rf;
  const int kind = c.choose(14);
  std::vector<long> seq; std::ostringstream nm;
  for (int i = 0; i < 4; ++i) seq.push_back(vals[c.choose(6)]);
  auto run = [&](const char* what, const Draw& d) { g.next = seq; g.at = 0; g.state = 5; nm << what; const double v = d(); g.next.clear(); return v; };
  double v = 0, lo = -1e9, hi = 1e9;
  c.step(); c.check();
  switch (kind) {
    case 0: v = run("uniform between -2 and 3", [&] { return r.sampleUniform(-2, 3); }); lo = -2; hi = 3; break;
    case 1: v = run("uniform integer from -2 to 3", [&] { return (double)ri.sampleUniform(-2, 3); }); lo = -2; hi = 3; break;
    case 2: v = run("standard uniform", [&] { return r.sampleUniform(); }); lo = 0; hi = 1; break;
    case 3: v = run("normal", [&] { return r.sampleNormal(1, 4); }); break;
    case 4: v = run("integer normal", [&] { return (double)ri.sampleNormal(1, 400); }); break;
    case 5: v = run("exponential", [&] { return r.sampleExponential(0.5); }); lo = 0; break;
    case 6: v = run("geometric", [&] { return (double)r.sampleGeometric(0.01); }); lo = 0; break;
    case 7: v = run("certain geometric", [&] { return (double)r.sampleGeometric(1); }); lo = 0; hi = 0; break;
    case 8: v = run("categorical without its first", [&] { return (double)r3.sampleCategorical(Eigen::Vector3d(0, 0.5, 0.5)); }); lo = 1; hi = 2; break;
    case 9: v = run("categorical without its last", [&] { return (double)r3.sampleCategorical(Eigen::Vector3d(0.1, 0.9, 0)); }); lo = 0; hi = 1; break;
    case 10: v = run("Poisson", [&] { return (double)r.samplePoisson(3); }); lo = 0; break;
    case 11: v = run("gamma of shape 0.3", [&] { return r.sampleGamma(0.3, 2); }); lo = 0; break;
    case 12: v = run("gamma of shape 2.7", [&] { return r.sampleGamma(2.7, 2); }); lo = 0; break;
    default: v = run("gamma of shape 1", [&] { return r.sampleGamma(1, 0.25); }); lo = 0; break;
  }
  c.trace([&](std::ostream& os) { os << nm.str() << ": " << num(v); });
  MC_REQUIRE(std::isfinite(v) && v >= lo && v <= hi, nm.str() << ": with generator outputs " << seq[0] << ", " << seq[1] << ", " << seq[2] << ", " << seq[3] << " of " << TOP << " the sample is " << num(v));
  c.note(nm.str()); c.outcome(nm.str() + num(v));
}
mc::Register r2("R01", "ends", ends, "every sequence of four outputs among the ends, middle and a third of the generator's range, for every sampler: samples are finite and possible", 1, 1);

// refused parameters, seeds, and long means
template <class F> bool refused(F f) { try { f(); } catch (const Exception&) { return true; } return false; }
void rules(mc::Chooser& c) {
  static Randomizer<double> r; static Randomizer<int> ri; static Randomizer<double, 3> r3;
  static const double NaN = std::numeric_limits<double>::quiet_NaN();
  static const double bads[] = {0, -1, -1e-300, NaN};
  std::string what; bool ok = true;
  g.next.clear(); g.state = 3;
  const int kind = c.choose(10), k = c.choose(4);
  const double bad = bads[k];
  c.step(); c.check();
  switch (kind) {
    case 0: what = "normal with variance " + num(bad); ok = refused([&] { r.sampleNormal(1, bad); }); if (k < 2) ok = ok && refused([&] { ri.sampleNormal(1, (int)bad); }); break;
    case 1: what = "exponential with rate " + num(bad); ok = refused([&] { r.sampleExponential(bad); }); break;
    case 2: what = "geometric with probability " + num(bad); ok = refused([&] { r.sampleGeometric(bad); }) && refused([&] { r.sampleGeometric(1 + 1e-9); }); break;
    case 3: what = "Poisson with mean " + num(bad); ok = refused([&] { r.samplePoisson(bad); }); break;
    case 4: what = "gamma with parameter " + num(bad); ok = refused([&] { r.sampleGamma(bad, 1); }) && refused([&] { r.sampleGamma(1, bad); }); break;
    case 5: what = "uniform between 1 and " + num(bad); ok = refused([&] { r.sampleUniform(1, bad); }) && refused([&] { r.sampleUniform(1, 1); }) && refused([&] { ri.sampleUniform(4, 4); }) && refused([&] { ri.sampleUniform(5, 4); }); break;
    case 6: {
      static const double p[4][3] = {{0.5, 0.5, 0.5}, {0.2, 0.2, 0.2}, {-0.5, 0.5, 1}, {NaN, 0.5, 0.5}};
      Eigen::Vector3d q(p[k][0], p[k][1], p[k][2]);
      what = "categorical with probabilities " + num(q(0)) + ", " + num(q(1)) + ", " + num(q(2)); ok = refused([&] { r3.sampleCategorical(q); }); break; }
    case 7: {  // a mean is what its name says, however great: outputs near 1/e make one event per unit
      static const double means[] = {40, 400, 1000, 5000};
      what = "Poisson with mean " + num(means[k]);
      g.next.assign(200000, (long)(std::exp(-1.0) * TOP)); g.at = 0;
      const double n = (double)r.samplePoisson(means[k]);
      MC_REQUIRE(std::fabs(n - means[k]) < 6 * std::sqrt(means[k]), what << ": " << n << " events with a generator that yields one per unit");
      break; }
    case 8: {  // however rare the success
      static const double ps[] = {1e-9, 1e-13, 1e-15, 1e-17};
      const double p = ps[k]; const int n = 1000;
      what = "geometric with probability " + num(p);
      std::vector<double> v;
      for (int i = 0; i < n; ++i) { g.next.assign(8, (long)((i + 0.5) / n * TOP)); g.at = 0; v.push_back((double)r.sampleGeometric(p)); }
      std::sort(v.begin(), v.end());
      for (int i = 0; i < n; ++i) { const double F = -std::expm1((v[i] + 1) * std::log1p(-p)); MC_REQUIRE(v[i] >= 0 && std::fabs(F - (i + 0.5) / n) < 0.003, what << ": of " << n << " evenly spread outputs the " << i << "-th smallest sample is " << v[i] << ", which has probability " << F << " up to it"); }
      break; }
    default: {  // the same seed, the same samples
      static const double seeds[] = {1, 42, 123456, 7};
      what = "seed " + num(seeds[k]);
      Randomizer<double> a; Randomizer<double> b(a); Randomizer<int> i;
      auto take = [&](Randomizer<double>& x, double s) { x.setSeed(s); std::vector<double> v; for (int n = 0; n < 3; ++n) { v.push_back(x.sampleUniform()); v.push_back(x.sampleNormal(0, 2)); v.push_back(x.sampleGamma(1.5, 1)); v.push_back((double)x.samplePoisson(2)); } return v; };
      const auto v = take(a, seeds[k]), w = take(b, seeds[k]), u = take(a, seeds[k]), o = take(a, seeds[(k + 1) % 4]);
      MC_REQUIRE(v == w && v == u, what << ": the samples after setting it differ from one time to the next");
      MC_REQUIRE(v != o, what << ": another seed gives the same samples");
      std::ostringstream os; os << a; MC_REQUIRE(os.str().find(num(seeds[(k + 1) % 4])) != std::string::npos, "the seed is written as '" << os.str() << "'");
    }
  }
  MC_REQUIRE(ok, what << " is not refused");
  c.trace([&](std::ostream& os) { os << what; });
  c.note(what); c.outcome(what);
}
mc::Register r3("R01", "rules", rules, "parameters outside their domain for every sampler; great means and rare successes; setting seeds", 1, 1);

}  // namespace
MC_MAIN
