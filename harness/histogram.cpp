// G02: histograms, every sequence of samples.
#include <mc.hpp>

#include <algorithm>
#include <limits>
#include <cmath>
#include <map>
#include <aslam/calibration/statistics/Histogram.h>

using namespace aslam::calibration;

namespace {
bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }

template <class T> void uni(mc::Chooser& c, T lo, T hi, T res, const std::vector<T>& values, const std::vector<T>* given = nullptr) {
  typedef Histogram<T, 1> H;
  H h(lo, hi, res);
  const int cells = (int)h.getNumCellsTot();
  std::vector<int> model(cells, 0);
  const int n = mc::config().thorough() ? 6 : 5;
  std::vector<T> xs;
  auto cell = [&](T x) { return std::min(cells - 1, (int)std::floor(((double)x - (double)lo) / (double)res + 1e-12)); };
  auto centre = [&](int i) { double v = lo + (i + 0.5) * (double)res; return std::is_integral<T>::value ? std::floor(v) : v; };
  const int len = given ? (int)given->size() : c.choose(n + 1);
  for (int k = 0; k < len; ++k) {
    xs.push_back(given ? (*given)[k] : c.pick(values));
    const T x = xs.back();
    if (x >= lo && x <= hi) ++model[cell(x)];
  }
  // all at once, one after the other, or one after the other with everything asked in between
  const int how = c.choose(3);
  c.step();
  const std::vector<T> all = xs;
  std::ostringstream name; name.precision(17); name << "samples";
  if (given) name << ", " << len << " of them, over " << cells << " cells of " << res; else for (T x : xs) name << " " << x;
  c.trace([&](std::ostream& os) { os << name.str(); });
  std::ostringstream canon; for (int x : model) canon << x << ","; canon << typeid(T).name() << lo;
  c.note(canon.str()); c.outcome(canon.str());
  auto verify = [&](const H& g, double scale, const char* which) {
    c.check();
    double sum = 0;
    for (int i = 0; i < cells; ++i) {
      typename H::Index idx; idx << i;
      MC_REQUIRE(close(g.getCell(idx), model[i] * scale), which << ", " << name.str() << ": cell " << i << " holds " << g.getCell(idx) << " instead of " << model[i] * scale);
      sum += model[i] * scale;
    }
    MC_REQUIRE(close(g.getSum(), sum), which << ", " << name.str() << ": sum " << g.getSum() << " instead of " << sum);
    if (sum == 0) return;
    double mean = 0; int best = 0;
    for (int i = 0; i < cells; ++i) { mean += centre(i) * model[i] * scale; if (model[i] > model[best]) best = i; }
    mean /= sum;
    MC_REQUIRE(close(g.getMean(), mean), which << ", " << name.str() << ": mean " << g.getMean() << " instead of " << mean);
    bool ok = false;
    for (int i = 0; i < cells; ++i) if (model[i] == model[best] && close(g.getMode(), centre(i))) ok = true;
    MC_REQUIRE(ok, which << ", " << name.str() << ": mode " << g.getMode() << " is not the centre of a fullest cell");
    if (scale == 1) {
      int acc = 0, med = 0;
      for (; med < cells; ++med) { acc += model[med]; if (2 * acc >= (int)sum) break; }
      MC_REQUIRE(close(g.getMedian(), centre(med)), which << ", " << name.str() << ": median " << g.getMedian() << " instead of " << centre(med));
      if (sum > 1) {
        double var = 0; for (int i = 0; i < cells; ++i) var += model[i] * (centre(i) - mean) * (centre(i) - mean);
        MC_REQUIRE(close(g.getVariance(), var / (sum - 1)), which << ", " << name.str() << ": variance " << g.getVariance() << " instead of " << var / (sum - 1));
      }
    }
  };
  if (how == 0) h.addSamples(xs);
  else if (how == 1) for (T x : xs) h.addSample(x);
  else {
    std::fill(model.begin(), model.end(), 0);
    verify(h, 1, "empty histogram");
    int k = 0;
    for (T x : all) { h.addSample(x); if (x >= lo && x <= hi) ++model[cell(x)]; if (!given || ++k % 61 == 0) verify(h, 1, "histogram, before the last samples"); }
  }
  verify(h, 1, "histogram");
  H copy(h), other(lo - res, hi + res, res + res); other.addSample(lo); other = h;
  h.addSample(values[1]);
  verify(copy, 1, "copy"); verify(other, 1, "assigned copy");
  double total = 0; for (int x : model) total += x;
  if (total > 0) { H nrm = copy.getNormalized(); MC_REQUIRE(close(nrm.getSum(), 1), name.str() << ": normalised histogram sums to " << nrm.getSum()); verify(nrm, 1 / total, "normalised"); verify(copy, 1, "after normalising"); }
}

template <class T, int M> void multi(mc::Chooser& c, int d) {
  typedef Histogram<T, M> H;
  typedef typename H::Coordinate X;
  X lo(d), hi(d), res(d);
  for (int k = 0; k < d; ++k) { lo(k) = T(-2 + k); res(k) = T(1 + k); hi(k) = T(lo(k) + 3 * res(k)); }
  H h(lo, hi, res);
  std::vector<X> dom;
  for (int q = 0; q < 6; ++q) {
    X x(d);
    for (int k = 0; k < d; ++k) { static const double f[6][3] = {{0, 0, 0}, {1, 1, 1}, {0.4, 0.9, 0.4}, {0.7, 0.2, 0.7}, {1.2, 0.5, 0.5}, {0.5, -0.1, 0.2}}; x(k) = T(lo(k) + f[q][k] * (hi(k) - lo(k))); }
    dom.push_back(x);
  }
  const int len = c.choose(mc::config().thorough() ? 6 : 5);
  std::vector<X> xs, in;
  std::ostringstream name;
  Eigen::VectorXi nc(d); int tot = 1;
  for (int k = 0; k < d; ++k) { nc(k) = h.getNumCells()(k); tot *= nc(k); }
  auto cellOf = [&](const X& x) { std::vector<int> i(d); for (int k = 0; k < d; ++k) i[k] = std::min(nc(k) - 1, (int)std::floor(((double)x(k) - lo(k)) / res(k) + 1e-9)); return i; };
  auto centre = [&](const std::vector<int>& i) { Eigen::VectorXd v(d); for (int k = 0; k < d; ++k) { v(k) = lo(k) + (i[k] + 0.5) * (double)res(k); if (std::is_integral<T>::value) v(k) = std::floor(v(k)); } return v; };
  std::map<std::vector<int>, int> model;
  for (int k = 0; k < len; ++k) {
    const int q = c.choose((int)dom.size());
    xs.push_back(dom[q]); name << " #" << q;
    bool ok = true; for (int j = 0; j < d; ++j) if (dom[q](j) < lo(j) || dom[q](j) > hi(j)) ok = false;
    if (ok) { in.push_back(dom[q]); ++model[cellOf(dom[q])]; }
  }
  c.step(); c.check();
  const int how = c.choose(3);
  if (how == 0) h.addSamples(xs);
  else for (auto& x : xs) {
    h.addSample(x);
    if (how == 2 && h.getSum() > 0) { h.getMean(); h.getMode(); if (h.getSum() > 1) h.getCovariance(); h.getNormalized(); }
  }
  c.trace([&](std::ostream& os) { os << d << "-dimensional, samples" << name.str(); });
  c.note(name.str() + std::to_string(d) + typeid(T).name()); c.outcome(name.str() + std::to_string(d));
  double sum = 0;
  typename H::Index idx = H::Index::Zero(d);
  for (; h.isValidIndex(idx); h.incrementIndex(idx)) {
    std::vector<int> i(idx.data(), idx.data() + d);
    auto it = model.find(i);
    MC_REQUIRE(h.getCell(idx) == (it == model.end() ? 0 : it->second), "samples" << name.str() << ": wrong count in a cell");
    sum += h.getCell(idx);
  }
  MC_REQUIRE(sum == (double)in.size() && h.getSum() == sum, "samples" << name.str() << ": sum " << h.getSum() << " instead of " << in.size());
  {
    const X lo2 = lo - res, hi2 = hi + res, res2 = res + res;
    H copy(h), other(lo2, hi2, res2); other.addSample(lo); other = h;
    h.addSample(dom[1]);
    for (const H* x : {&copy, &other})
      MC_REQUIRE(x->getSum() == sum && x->getNumCells() == nc && x->getMinimum() == lo && x->getMaximum() == hi && x->getResolution() == res, "samples" << name.str() << ": a copy differs");
    h = other;
    MC_REQUIRE(h.getCells() == copy.getCells(), "samples" << name.str() << ": cells of an assigned copy differ");
  }
  if (in.empty()) return;
  Eigen::VectorXd mean = Eigen::VectorXd::Zero(d); Eigen::MatrixXd cov = Eigen::MatrixXd::Zero(d, d);
  int best = 0;
  for (auto& kv : model) { mean += centre(kv.first) * kv.second; best = std::max(best, kv.second); }
  mean /= sum;
  for (auto& kv : model) cov += kv.second * (centre(kv.first) - mean) * (centre(kv.first) - mean).transpose();
  MC_REQUIRE((Eigen::VectorXd(h.getMean().template cast<double>()) - mean).norm() < 1e-9, "samples" << name.str() << ": mean " << h.getMean().transpose() << " instead of " << mean.transpose());
  bool ok = false;
  for (auto& kv : model) if (kv.second == best && (Eigen::VectorXd(h.getMode().template cast<double>()) - centre(kv.first)).norm() < 1e-9) ok = true;
  MC_REQUIRE(ok, "samples" << name.str() << ": mode " << h.getMode().transpose() << " is not the centre of a fullest cell");
  if (sum > 1) MC_REQUIRE((Eigen::MatrixXd(h.getCovariance()) - cov / (sum - 1)).norm() < 1e-9, "samples" << name.str() << ": covariance");
  H nrm = h.getNormalized();
  MC_REQUIRE(close(nrm.getSum(), 1) && h.getSum() == sum, "samples" << name.str() << ": normalising");
  MC_REQUIRE((nrm.getMean() - h.getMean()).norm() < 1e-9, "samples" << name.str() << ": normalising moves the mean");
}
void run(mc::Chooser& c) {
  const double inf = std::numeric_limits<double>::infinity();
  switch (c.choose(7)) {
    case 0: uni<double>(c, 0, 4, 1, {-0.5, 0, 1, 2.5, 3.999, 4, 4.0001, std::nan(""), inf}); break;
    case 1: uni<double>(c, -1.5, 1, 0.5, {-1.5, -1.6, -1.2, 0.0, 0.75, 1, 2, -inf}); break;
    case 2: uni<int>(c, -3, 3, 2, {-4, -3, -2, -1, 0, 1, 2, 3, 4}); break;
    case 3: uni<float>(c, 0.f, 3.f, 0.75f, {-1.f, 0.f, 0.8f, 1.6f, 3.f, 3.5f}); break;
    case 4: multi<double, 2>(c, 2); break;
    case 5: multi<double, Eigen::Dynamic>(c, 1 + c.choose(3)); break;
    default: multi<double, 3>(c, 3);
  }
}
mc::Register g2("G02", "histograms", run, "every sequence of up to 5 (thorough: 6) samples over each cell, each border, outside, infinities and not-a-number; one to three dimensions, real and integer", 8, 3);
// many cells and many samples, spread in different ways
template <class T> void manySamples(mc::Chooser& c) {
  static const int sizes[] = {1, 100, 255, 256, 257, 1000}, counts[] = {20, 255, 256, 700};
  const int cells = sizes[c.choose(6)], n = counts[c.choose(mc::config().thorough() ? 4 : 3)], spread = c.choose(4), steps = 1 + c.choose(2);
  const T lo = T(-20), res = T(steps), hi = T(lo + cells * res);
  std::vector<T> xs;
  for (int i = 0; i < n; ++i) {
    long k;  // cell, also some before and after the range
    switch (spread) { case 0: k = (long)i * i * 7 % (cells + 2) - 1; break; case 1: k = i * 131L % cells; break; case 2: k = i % 5 ? cells - 1 - i % std::min(cells, 3) : i % cells; break; default: k = i < n / 2 ? i % cells : cells / 2; }
    xs.push_back(T(lo + k * res + (i % 2) * (res / 2)));
  }
  uni<T>(c, lo, hi, res, {lo, T(lo + res / 2)}, &xs);
}
mc::Register g2m("G02", "many", [](mc::Chooser& c) { switch (c.choose(3)) { case 0: manySamples<double>(c); break; case 1: manySamples<int>(c); break; default: manySamples<long>(c); } },
  "20 to 256 (thorough: 700) samples spread in four ways over 1 to 1000 cells, real and integer, added at once, one by one, or with everything asked in between", 4, 2);
}  // namespace
MC_MAIN
