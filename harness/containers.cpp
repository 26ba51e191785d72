// A01 permutation, A02 log-sum of a diagonal, G01 grids: bounded-exhaustive.
#include <mc.hpp>

#include <Eigen/Core>
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <aslam/calibration/algorithms/matrixOperations.h>
#include <aslam/calibration/algorithms/permute.h>
#include <aslam/calibration/data-structures/Grid.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>

using namespace aslam::calibration;

namespace {

template <class It> std::string join(It b, It e) { std::ostringstream os; for (It i = b; i != e; ++i) os << (i == b ? "" : ",") << +*i; return os.str(); }

// ------------------------------------------------------------------ A01
template <class T> T element(int i);
template <> int element<int>(int i) { return 100 + i; }
template <> std::string element<std::string>(int i) { return "element number " + std::to_string(i) + std::string(20, 'x'); }
template <> std::shared_ptr<int> element<std::shared_ptr<int>>(int i) {
  static std::vector<std::shared_ptr<int>> v; while ((int)v.size() <= i) v.push_back(std::make_shared<int>((int)v.size())); return v[i]; }

template <class T, class I> void permuteCase(mc::Chooser& c, const std::vector<long>& p, int n) {
  std::vector<T> in; for (int i = 0; i < n; ++i) in.push_back(element<T>(i));
  std::vector<I> pv; bool valid = (int)p.size() == n;
  for (long x : p) pv.push_back(static_cast<I>(x));
  std::vector<bool> seen(n, false);
  for (long x : p) { if (x < 0 || x >= n || seen[x]) valid = false; else seen[x] = true; }
  std::vector<T> out = in;
  const std::vector<I> keep = pv;
  bool refused = false;
  c.step(); c.check();
  try { permute(out, pv); } catch (const OutOfBoundException<I>&) { refused = true; }
  c.trace([&](std::ostream& os) { os << "container of " << n << " permuted by [" << join(p.begin(), p.end()) << "]: " << (refused ? "refused" : "done"); });
  MC_REQUIRE(pv == keep, "the permutation vector itself changed");
  MC_REQUIRE(refused == !valid, (valid ? "a permutation is refused" : "a vector that is not a permutation is accepted") << ": [" << join(p.begin(), p.end()) << "] on " << n << " elements");
  if (refused) { MC_REQUIRE(out == in, "refused, but the container changed"); return; }
  MC_REQUIRE((int)out.size() == n, "size of the result");
  for (int i = 0; i < n; ++i) MC_REQUIRE(out[i] == in[p[i]], "position " << i << " does not hold element " << p[i] << " after permuting by [" << join(p.begin(), p.end()) << "]");
}
template <class I> void permuteTypes(mc::Chooser& c, const std::vector<long>& p, int n) {
  switch (c.choose(3)) {
    case 0: permuteCase<int, I>(c, p, n); break;
    case 1: permuteCase<std::string, I>(c, p, n); break;
    default: permuteCase<std::shared_ptr<int>, I>(c, p, n);
  }
}
void dispatch(mc::Chooser& c, const std::vector<long>& p, int n) {
  std::ostringstream o; o << n << ":" << join(p.begin(), p.end());
  c.note(o.str()); c.outcome(o.str());
  switch (c.choose(5)) {
    case 0: permuteTypes<size_t>(c, p, n); break;
    case 1: permuteTypes<int>(c, p, n); break;
    case 2: permuteTypes<unsigned char>(c, p, n); break;
    case 3: permuteTypes<short>(c, p, n); break;
    default: permuteTypes<unsigned>(c, p, n);
  }
}
void permutations(mc::Chooser& c) {
  const int n = c.choose(mc::config().thorough() ? 9 : 8);
  std::vector<long> rest(n), p; for (int i = 0; i < n; ++i) rest[i] = i;
  while (!rest.empty()) { int k = c.choose((int)rest.size()); p.push_back(rest[k]); rest.erase(rest.begin() + k); }
  dispatch(c, p, n);
}
void vectors(mc::Chooser& c) {
  const int n = c.choose(mc::config().thorough() ? 6 : 5);
  const int len = c.choose(n + 3);
  std::vector<long> p;
  // values far out of range are one representative each
  std::vector<long> dom = {-1, -1000000007L, 200, 1L << 20};
  for (int i = 0; i <= n; ++i) dom.push_back(i);
  for (int i = 0; i < len; ++i) p.push_back(len <= n ? c.pick(dom) : (long)i);
  // values the index type cannot hold are not inputs; check per type
  const int type = c.choose(5);
  for (long x : p) {
    if (type == 0 || type == 4) { if (x < 0) return; }
    if (type == 2 && (x < 0 || x > 255)) return;
    if (type == 3 && (x < -32768 || x > 32767)) return;
  }
  std::ostringstream o; o << n << ":" << join(p.begin(), p.end());
  c.note(o.str()); c.outcome(o.str());
  switch (type) {
    case 0: permuteCase<int, size_t>(c, p, n); break;
    case 1: permuteCase<int, int>(c, p, n); break;
    case 2: permuteCase<int, unsigned char>(c, p, n); break;
    case 3: permuteCase<int, short>(c, p, n); break;
    default: permuteCase<int, unsigned>(c, p, n);
  }
}
// long containers: families of permutations, and each of them spoilt in one place
void longPermutations(mc::Chooser& c) {
  static const int sizes[] = {9, 16, 33, 100, 255, 256, 257, 1000, 65536};
  const int type = c.choose(5), n = sizes[c.choose(9)];
  if ((type == 2 && n > 256) || (type == 3 && n > 32768)) return;
  std::vector<long> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  std::ostringstream what;
  switch (const int family = c.choose(7)) {
    case 0: break;
    case 1: std::reverse(p.begin(), p.end()); break;
    case 2: { static const int by[] = {1, 2, -1, -2, 0}; const int k = by[c.choose(5)], r = k == 0 ? n / 2 : (k + n) % n; std::rotate(p.begin(), p.begin() + r, p.end()); what << "rotated by " << r; break; }
    case 3: { long k = 5; while (n % k == 0) k += 2; for (int i = 0; i < n; ++i) p[i] = (i * k) % n; what << "steps of " << k; break; }
    case 4: { const int at[] = {0, 1, n / 2, n - 2, n - 1}; const int i = at[c.choose(5)], j = at[c.choose(5)]; std::swap(p[i], p[j]); what << i << " and " << j << " exchanged"; break; }
    case 5: for (int i = 0; i + 1 < n; i += 2) std::swap(p[i], p[i + 1]); break;
    default: std::reverse(p.begin(), p.begin() + n / 2); std::rotate(p.begin() + n / 3, p.begin() + n / 2, p.end()); (void)family;
  }
  const int spoil = c.choose(4);
  const int at = spoil ? std::vector<int>{0, n / 2, n - 1}[c.choose(3)] : 0;
  if (spoil == 1) p[at] = p[(at + n / 2 + 1) % n];
  if (spoil == 2) p[at] = n;
  if (spoil == 3) p.insert(p.begin() + at, n - 1 - at);
  if (type == 2) for (long x : p) if (x > 255) return;
  what << ", " << n << " elements, type " << type << ", spoilt " << spoil << " at " << at;
  c.outcome(what.str());
  switch (type) {
    case 0: permuteCase<int, size_t>(c, p, n); break;
    case 1: permuteCase<std::string, int>(c, p, n); break;
    case 2: permuteCase<int, unsigned char>(c, p, n); break;
    case 3: permuteCase<int, short>(c, p, n); break;
    default: permuteCase<int, unsigned>(c, p, n);
  }
}
mc::Register a3("A01", "long", longPermutations, "containers of 9 to 65536 elements, five index types up to all that they can number: rotations, reversals, steps, exchanges and mixtures, right or spoilt in one place", 8, 2);
mc::Register a1("A01", "permutations", permutations, "every permutation of up to 7 (thorough: 8) elements, five index types, three element types", 8, 3);
mc::Register a2("A01", "vectors", vectors, "every vector of indices in -1..n and far outside, of every length up to n+2, for containers of up to 4 (thorough: 5) elements, five index types", 8, 4);

// ------------------------------------------------------------------ A02
template <class Mat> void diagonalCase(mc::Chooser& c, Mat& R, const std::vector<double>& dom, size_t hugeIdx) {
  const int n = (int)R.rows(), m = (int)R.cols();
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) R(i, j) = 1000 + 10 * i + j;
  std::string diag;
  for (int i = 0; i < std::min(n, m); ++i) { R(i, i) = c.pick(dom); std::ostringstream os; os << R(i, i) << " "; diag += os.str(); }
  c.note(std::to_string(n) + "x" + std::to_string(m) + ":" + diag);
  const Mat keep = R;
  for (size_t b = 0; b <= (size_t)m + 1; ++b)
    for (size_t e0 = 0; e0 <= (size_t)m + 2; ++e0) {
      const size_t e = e0 == (size_t)m + 2 ? hugeIdx : e0;
      const bool valid = b < e && e < (size_t)m && e < (size_t)n;
      bool refused = false; double got = 0;
      c.step(); c.check();
      try { got = computeSumLogDiagR(R, b, e); } catch (const OutOfBoundException<size_t>&) { refused = true; }
      MC_REQUIRE(refused == !valid, "columns " << b << " to " << e << " of a " << n << "x" << m << " matrix " << (refused ? "refused" : "accepted"));
      MC_REQUIRE(R == keep, "the matrix changed");
      if (refused) continue;
      long double want = 0;
      for (size_t i = b; i <= e; ++i) if (std::fabs(R(i, i)) > std::numeric_limits<double>::epsilon()) want += log2l(fabsl((long double)R(i, i)));
      c.outcome(std::to_string((double)want));
      MC_REQUIRE(std::fabs(got - (double)want) <= 1e-12 * (1 + std::fabs((double)want)), "columns " << b << " to " << e << " of diagonal " << diag << ": " << got << " instead of " << (double)want);
    }
  c.trace([&](std::ostream& os) { os << n << "x" << m << " matrix with diagonal " << diag << ": all column ranges"; });
}
void diagonals(mc::Chooser& c) {
  const double eps = std::numeric_limits<double>::epsilon();
  std::vector<double> dom = {0.0, 2.0, -8.0, 0.3, eps, 1e200, 1e-12};
  if (mc::config().thorough()) { dom.push_back(-eps / 2); dom.push_back(2 * eps); dom.push_back(-1.0); }
  const int n = 1 + c.choose(5), m = 1 + c.choose(5);
  switch (c.choose(3)) {
    case 0: { Eigen::MatrixXd R(n, m); diagonalCase(c, R, dom, (size_t)-1); break; }
    case 1: { Eigen::Matrix<double, -1, -1, Eigen::RowMajor> R(n, m); diagonalCase(c, R, dom, (size_t)1 << 40); break; }
    default: { Eigen::MatrixXf R(n, m); std::vector<double> d = {0.0, 2.0, -8.0, 0.25, 1e30, 1e-10}; diagonalCase(c, R, d, (size_t)-1); }
  }
}
// large matrices, of which the product of the diagonal is not representable
void largeDiagonals(mc::Chooser& c) {
  static const int sizes[] = {1, 7, 40, 64, 200};
  const int n = sizes[c.choose(5)];
  const double big = c.pick(std::vector<double>{1073741824.0, 1e-9, -1e12, 1e300, 3e-16});
  const double other = c.pick(std::vector<double>{0.0, 2.0, -5.0, 1e-300});
  const int every = 1 + c.choose(3);
  Eigen::MatrixXd R = Eigen::MatrixXd::Constant(n, n, 0.125);
  for (int i = 0; i < n; ++i) R(i, i) = i % every ? other : big;
  for (int b = 0; b < n; b += 1 + n / 9)
    for (int e = b + 1; e < n; e += 1 + n / 7) {
      c.step(); c.check();
      long double want = 0;
      for (int i = b; i <= e; ++i) if (std::fabs(R(i, i)) > std::numeric_limits<double>::epsilon()) want += log2l(fabsl((long double)R(i, i)));
      const double got = computeSumLogDiagR(R, (size_t)b, (size_t)e);
      MC_REQUIRE(std::fabs(got - (double)want) <= 1e-11 * (1 + std::fabs((double)want)), "columns " << b << " to " << e << " of a matrix of " << n << " columns with " << big << " and " << other << " on its diagonal: " << got << " instead of " << (double)want);
    }
  std::ostringstream nm; nm << n << " " << big << " " << other << " " << every;
  c.outcome(nm.str());
  c.trace([&](std::ostream& os) { os << nm.str(); });
}
mc::Register b2("A02", "large", largeDiagonals, "matrices of up to 200 columns with very large and very small diagonals, of which the product is not representable", 1, 1);
mc::Register b1("A02", "diagonals", diagonals, "every matrix of up to 5x5 with each diagonal entry from a set straddling the tolerance (zero, tolerance, powers, negative), three matrix types, every pair of column indices including out of range ones", 8, 3);

// ------------------------------------------------------------------ G01
template <class T, int M> struct GridCase {
  typedef Grid<T, int, M> G;
  typedef typename G::Index Index;
  typedef typename G::Coordinate Coord;
  static std::string show(const Coord& x) { std::ostringstream os; os.precision(17); for (int i = 0; i < x.size(); ++i) os << (i ? "," : "(") << x(i); os << ")"; return os.str(); }
  static std::string showi(const Index& x) { std::ostringstream os; for (int i = 0; i < x.size(); ++i) os << (i ? "," : "[") << x(i); os << "]"; return os.str(); }

  static void run(mc::Chooser& c, const Coord& lo, const Coord& hi, const Coord& res) {
    const int d = (int)lo.size();
    bool valid = true;
    for (int i = 0; i < d; ++i) if (!(res(i) > 0) || !(lo(i) < hi(i)) || res(i) > hi(i) - lo(i)) valid = false;
    std::unique_ptr<G> g;
    bool refused = false;
    c.step(); c.check();
    try { g.reset(new G(lo, hi, res)); } catch (const BadArgumentException<Coord>&) { refused = true; }
    const std::string name = "grid " + show(lo) + " to " + show(hi) + " by " + show(res);
    c.note(name + (std::is_integral<T>::value ? "i" : ""));
    c.trace([&](std::ostream& os) { os << name << (refused ? ": refused" : ""); });
    MC_REQUIRE(refused == !valid, name << (refused ? " is refused" : " is accepted"));
    if (refused) return;
    // shape
    Index nc = g->getNumCells();
    MC_REQUIRE(nc.size() == d, name << ": number of dimensions");
    size_t tot = 1;
    for (int i = 0; i < d; ++i) {
      if (std::is_integral<T>::value) MC_REQUIRE(nc(i) == (int)((hi(i) - lo(i)) / res(i)) + 1, name << ": " << nc(i) << " cells in dimension " << i);
      else {
        const double q = ((double)hi(i) - (double)lo(i)) / (double)res(i), tol = std::is_same<T, float>::value ? 1e-4 : 1e-9;
        MC_REQUIRE(nc(i) >= q - tol && nc(i) < q + 1 + tol, name << ": " << nc(i) << " cells in dimension " << i << " for " << q << " steps");
      }
      tot *= nc(i);
    }
    MC_REQUIRE(g->getNumCellsTot() == tot && g->getCells().size() == tot, name << ": " << g->getNumCellsTot() << " cells in total, " << g->getCells().size() << " stored, instead of " << tot);
    MC_REQUIRE(g->getMinimum() == lo && g->getMaximum() == hi && g->getResolution() == res, name << ": limits not kept");
    // every cell
    std::vector<Index> all;
    std::set<size_t> linear;
    Index idx = Index::Zero(d);
    size_t visited = 0;
    std::set<std::string> walk;
    while (g->isValidIndex(idx)) {
      MC_REQUIRE(++visited <= tot, name << ": stepping through the cells does not end");
      MC_REQUIRE(walk.insert(showi(idx)).second, name << ": stepping visits " << showi(idx) << " twice");
      all.push_back(idx);
      const Index pre = idx;
      Index& r = g->incrementIndex(idx);
      MC_REQUIRE(&r == &idx, name << ": incrementing does not return the index");
    }
    MC_REQUIRE(visited == tot, name << ": stepping visits " << visited << " of " << tot << " cells");
    MC_REQUIRE(std::all_of(g->getCellBegin(), g->getCellEnd(), [](int x) { return x == 0; }), name << ": cells do not start at zero");
    for (auto& i : all) {
      const size_t l = g->computeLinearIndex(i);
      MC_REQUIRE(l < tot && linear.insert(l).second, name << ": linear index " << l << " of " << showi(i) << " is taken or out of range");
      for (int k = 0; k < d; ++k) MC_REQUIRE(i(k) >= 0 && i(k) < nc(k), name << ": stepping visits " << showi(i));
    }
    const G& cg = *g;
    for (size_t k = 0; k < all.size(); ++k) (k % 2 ? g->getCell(all[k]) : (*g)[all[k]]) = (int)k + 1;
    std::vector<int> content(tot, 0);
    for (size_t k = 0; k < all.size(); ++k) {
      MC_REQUIRE(cg[all[k]] == (int)k + 1 && cg.getCell(all[k]) == (int)k + 1, name << ": cell " << showi(all[k]) << " does not keep its value");
      content[g->computeLinearIndex(all[k])] = (int)k + 1;
    }
    MC_REQUIRE(g->getCells() == content, name << ": the cells are not stored at their linear index");
    // copies are independent
    const Coord lo2 = lo - res, hi2 = hi + res, res2 = res + res;
    G copy(*g); G other(lo2, hi2, res2); other = *g; G& self = other; other = self;
    for (const G* x : {&copy, &other})
      MC_REQUIRE(x->getCells() == content && x->getNumCells() == nc && x->getNumCellsTot() == tot && x->getMinimum() == lo && x->getMaximum() == hi && x->getResolution() == res &&
                 x->computeLinearIndex(all.back()) == g->computeLinearIndex(all.back()), name << ": a copy differs");
    copy[all[0]] = -7; copy.reset();
    MC_REQUIRE(g->getCells() == content, name << ": writing to a copy changes the original");
    MC_REQUIRE(std::all_of(copy.getCells().begin(), copy.getCells().end(), [](int x) { return x == 0; }) && copy.getCells().size() == tot, name << ": reset does not clear all the cells");
    // centres
    for (auto& i : all) {
      const Coord p = g->getCoordinates(i);
      bool in = true;
      for (int k = 0; k < d; ++k) {
        double want = (double)lo(k) + (i(k) + 0.5) * (double)res(k);
        if (std::is_integral<T>::value) want = std::floor(want);
        MC_REQUIRE(std::fabs((double)p(k) - want) <= (std::is_same<T, float>::value ? 1e-4 : 1e-9), name << ": the centre of " << showi(i) << " is " << show(p));
        if (p(k) > hi(k)) in = false;
      }
      MC_REQUIRE(g->isInRange(p) == in, name << ": " << show(p) << (in ? " is not in range" : " is in range"));
      if (in) MC_REQUIRE(g->getIndex(p) == i, name << ": the centre of " << showi(i) << ", " << show(p) << ", lies in " << showi(g->getIndex(p)));
    }
    // indices that do not exist
    for (int k = 0; k < d; ++k)
      for (int bad : {-1, (int)nc(k), std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}) {
        Index i = all.back(); i(k) = bad;
        int threw = 0;
        try { cg.getCell(i); } catch (const OutOfBoundException<Index>&) { ++threw; }
        try { g->getCell(i) = 1; } catch (const OutOfBoundException<Index>&) { ++threw; }
        try { cg[i]; } catch (const OutOfBoundException<Index>&) { ++threw; }
        try { g->getCoordinates(i); } catch (const OutOfBoundException<Index>&) { ++threw; }
        MC_REQUIRE(threw == 4 && !g->isValidIndex(i), name << ": index " << showi(i) << " is accepted");
      }
    MC_REQUIRE(g->getCells() == content, name << ": refused indices changed the cells");
    // points, dimension by dimension with the others anywhere
    std::vector<std::vector<T>> pts(d);
    for (int k = 0; k < d; ++k) {
      std::set<T> s = {lo(k), hi(k), prev(lo(k)), next(lo(k)), prev(hi(k)), next(hi(k))};
      for (int i = 0; i <= nc(k); ++i) { T e = (T)(lo(k) + i * res(k)); s.insert(e); s.insert(prev(e)); s.insert(next(e)); s.insert((T)(lo(k) + (i + 0.5) * res(k))); }
      pts[k].assign(s.begin(), s.end());
      if (d > 1 && pts[k].size() > 9) { std::vector<T> t; for (size_t q = 0; q < pts[k].size(); q += 1 + pts[k].size() / 8) t.push_back(pts[k][q]); t.push_back(hi(k)); t.push_back(prev(hi(k))); pts[k] = t; }
      if (std::numeric_limits<T>::has_quiet_NaN) pts[k].push_back(std::numeric_limits<T>::quiet_NaN());
    }
    std::vector<size_t> at(d, 0);
    for (;;) {
      Coord p(d);
      bool in = true;
      for (int k = 0; k < d; ++k) { p(k) = pts[k][at[k]]; if (!(p(k) >= lo(k) && p(k) <= hi(k))) in = false; }
      c.check();
      MC_REQUIRE(g->isInRange(p) == in, name << ": point " << show(p) << (in ? " is not in range" : " is in range"));
      bool threw = false;
      Index i(d);
      try { i = g->getIndex(p); } catch (const OutOfBoundException<Coord>&) { threw = true; }
      MC_REQUIRE(threw == !in, name << ": point " << show(p) << (in ? " is refused" : " is given an index"));
      int t2 = 0;
      try { const int& v = cg(p); (void)v; } catch (const OutOfBoundException<Coord>&) { ++t2; }
      try { (*g)(p) += 0; } catch (const OutOfBoundException<Coord>&) { ++t2; }
      MC_REQUIRE(t2 == (in ? 0 : 2), name << ": access by point " << show(p));
      if (in) {
        MC_REQUIRE(g->isValidIndex(i), name << ": point " << show(p) << " is given index " << showi(i));
        for (int k = 0; k < d; ++k) {
          const double tol = std::is_integral<T>::value ? 0 : (std::is_same<T, float>::value ? 2e-4 : 1e-9) * (1 + std::fabs((double)lo(k)));
          const double a = (double)lo(k) + i(k) * (double)res(k), b = a + res(k);
          const bool last = p(k) == hi(k) && i(k) == nc(k) - 1;
          MC_REQUIRE((p(k) >= a - tol && (std::is_integral<T>::value ? p(k) < b : p(k) <= b + tol)) || last, name << ": point " << show(p) << " is put into cell " << showi(i));
        }
        MC_REQUIRE(&cg(p) == &cg.getCell(i), name << ": access by point " << show(p) << " reaches another cell");
      }
      int k = 0;
      while (k < d && ++at[k] == pts[k].size()) at[k++] = 0;
      if (k == d) break;
    }
    c.outcome(name);
  }
  template <class X> static typename std::enable_if<std::is_integral<X>::value, X>::type next(X x) { return x + 1; }
  template <class X> static typename std::enable_if<std::is_integral<X>::value, X>::type prev(X x) { return x - 1; }
  template <class X> static typename std::enable_if<!std::is_integral<X>::value, X>::type next(X x) { return std::nextafter(x, std::numeric_limits<X>::infinity()); }
  template <class X> static typename std::enable_if<!std::is_integral<X>::value, X>::type prev(X x) { return std::nextafter(x, -std::numeric_limits<X>::infinity()); }
};

template <class T, int M> void gridCase(mc::Chooser& c, int d) {
  typedef typename Grid<T, int, M>::Coordinate Coord;
  Coord lo(d), hi(d), res(d);
  const bool th = mc::config().thorough();
  for (int k = 0; k < d; ++k) {
    if (std::is_integral<T>::value) {
      const std::vector<int> los = {-5, 0, 2}, spans = d == 1 || th ? std::vector<int>{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10} : std::vector<int>{0, 1, 4, 6}, rs = {0, 1, 2, 3, 5, -1};
      lo(k) = (T)c.pick(los); hi(k) = lo(k) + (T)c.pick(spans); res(k) = (T)c.pick(d == 1 || th ? rs : std::vector<int>{0, 1, 3});
    } else {
      const std::vector<double> los = d == 1 ? std::vector<double>{-1, 0, 0.3, -2.7, 1000.1} : std::vector<double>{-1, 0.3};
      const std::vector<double> rs = d == 1 ? std::vector<double>{0.1, 0.25, 1.0 / 3, 0.7, 1, 2, 0, -0.5} : std::vector<double>{0.25, 0.7, 0};
      const std::vector<double> spans = d == 1 ? std::vector<double>{1, 0.7, 2.1, 3, 0.9, 1.0 / 3, 5, 0, -1, 1.3} : std::vector<double>{1, 2.1, 0};
      lo(k) = (T)c.pick(los); res(k) = (T)c.pick(rs);
      hi(k) = lo(k) + (T)c.pick(spans);
      // limits that are not representable exactly relative to one another
      if (d == 1 && c.flip()) hi(k) = std::nextafter(hi(k), std::numeric_limits<T>::infinity());
      if (d == 1 && lo(k) == T(-1) && c.flip()) hi(k) = T(1e-20);
    }
  }
  GridCase<T, M>::run(c, lo, hi, res);
}
void grids(mc::Chooser& c) {
  switch (c.choose(10)) {
    case 0: gridCase<double, 1>(c, 1); break;
    case 1: gridCase<float, 1>(c, 1); break;
    case 2: gridCase<int, 1>(c, 1); break;
    case 3: gridCase<double, 2>(c, 2); break;
    case 4: gridCase<int, 2>(c, 2); break;
    case 5: gridCase<double, Eigen::Dynamic>(c, 1 + c.choose(2)); break;
    case 6: gridCase<long, Eigen::Dynamic>(c, 1); break;
    case 7: gridCase<float, 2>(c, 2); break;
    case 8: {
      const int d = 3 + c.choose(mc::config().thorough() ? 3 : 2);
      Grid<double, int, Eigen::Dynamic>::Coordinate lo(d), hi(d), res(d);
      for (int k = 0; k < d; ++k) { lo(k) = k - 1.5; res(k) = 0.5; hi(k) = lo(k) + (c.flip() ? 1.0 : 0.7); }
      GridCase<double, Eigen::Dynamic>::run(c, lo, hi, res);
      if (d == 4) GridCase<double, 4>::run(c, lo, hi, res);
      break;
    }
    default: {
      Grid<double, int, 3>::Coordinate lo(-1, 0, 2.5), hi, res;
      for (int k = 0; k < 3; ++k) { res(k) = c.pick(std::vector<double>{0.5, 0.7}); hi(k) = lo(k) + c.pick(std::vector<double>{0.8, 1.4}); }
      GridCase<double, 3>::run(c, lo, hi, res);
    }
  }
}
mc::Register g1("G01", "grids", grids, "every grid from a lattice of minima, maxima and resolutions (also invalid ones), real and integer, 1 to 4 (thorough: 5) dimensions, static and dynamic; in each, every cell, every cell border and its floating point neighbours", 8, 2);

}  // namespace
MC_MAIN
