// O01: the simulated path and the initial landmarks; Q01: continuity of quaternions.
#include <mc.hpp>

#include <cmath>
#include <complex>
#include <vector>

#include <Eigen/Core>

namespace inCar { namespace calibration { Eigen::Vector4d bestQuat(const Eigen::Vector4d&, const Eigen::Vector4d&); } }
namespace inEgomotion { namespace calibration { Eigen::Vector4d bestQuat(const Eigen::Vector4d&, const Eigen::Vector4d&); } }
namespace inTimeDelay { namespace calibration { Eigen::Vector4d bestQuat(const Eigen::Vector4d&, const Eigen::Vector4d&); } }
#include <aslam/calibration/2dlrf/utils.h>

namespace {
typedef long double ld;
using aslam::calibration::genSineWavePath;
using aslam::calibration::initLandmarks;

// ------------------------------------------------------------------ O01
void path(mc::Chooser& c) {
  const std::vector<double> Ts = {0.1, 0.7, 1.0, 0.25, 1 / 3.0, 0.05, 1e-3, 2.0}, As = {0, 1, -2.5, 7.25}, Fs = {0, 0.01, 0.5, 0.3, 4};
  const double T = c.pick(Ts), A = c.pick(As), f = c.pick(Fs);
  const size_t steps = c.choose(mc::config().thorough() ? 1200 : 150);
  const bool used = c.flip();
  std::vector<Eigen::Vector3d> u;
  if (used) u.assign(7, Eigen::Vector3d(1, 2, 3));
  c.step(); c.check();
  std::ostringstream nm; nm << steps << " steps of " << T << " s, amplitude " << A << ", frequency " << f;
  const std::string name = nm.str();
  c.note(name);
  genSineWavePath(u, steps, A, f, T);
  c.trace([&](std::ostream& os) { os << name << ": " << u.size() << " inputs"; });
  MC_REQUIRE(u.size() == steps, name << ": " << u.size() << " inputs");
  ld heading = 0;
  auto slope = [&](size_t i) { return A * std::cos(2 * (ld)M_PI * f * i * T); };
  for (size_t i = 0; i < steps; ++i) {
    if (i == 0) { MC_REQUIRE(u[0].isZero(0), name << ": does not start at rest"); continue; }
    const ld v = 2 * (ld)M_PI * f * (std::sqrt(1 + slope(i) * slope(i)) + std::sqrt(1 + slope(i - 1) * slope(i - 1))) / 2;
    heading += (ld)u[i](2) * T;
    MC_REQUIRE(u[i](1) == 0, name << ": moves sideways at step " << i);
    MC_REQUIRE(std::fabs((double)(u[i](0) - v)) < 1e-7 * (1 + std::fabs((double)v)), name << ": speed " << u[i](0) << " instead of " << (double)v << " at step " << i);
    MC_REQUIRE(std::fabs((double)(heading - std::atan(slope(i)))) < 1e-7, name << ": heading " << (double)heading << " instead of " << (double)std::atan(slope(i)) << " at step " << i);
  }
  c.outcome(name);
}
mc::Register o1("O01", "path", path, "every number of steps up to 150 (thorough: 1200) x 8 time steps x 4 amplitudes x 5 frequencies", 8, 3);

void landmarks(mc::Chooser& c) {
  typedef std::complex<ld> C;
  const int n = c.choose(4), nl = n ? c.choose(3) : 0;
  const int before = c.choose(3);
  const Eigen::Vector3d theta = c.flip() ? Eigen::Vector3d(0.25, -0.5, 0.75) : Eigen::Vector3d(-1, 2, -2.5);
  const std::vector<Eigen::Vector3d> poses = {{1, 2, 0.5}, {-3, 0.25, -2}, {10, -7, 3.1}};
  const double ranges[] = {0, 2.5, -1, 1e-9}, bearings[] = {0, -1.2, 2.9};
  const int shift = n ? c.choose(3) : 0;
  std::vector<Eigen::Vector3d> x;
  std::vector<std::vector<double> > r, b;
  for (int i = 0; i < n; ++i) {
    x.push_back(poses[i]); r.emplace_back(); b.emplace_back();
    for (int j = 0; j < nl; ++j) { r[i].push_back(ranges[c.choose(i == 0 ? 4 : 3)] ); b[i].push_back(bearings[(i + 2 * j + shift) % 3]); }
  }
  std::vector<Eigen::Vector2d> got;
  if (before == 1) got.assign(1, Eigen::Vector2d(5, 6));
  if (before == 2) got.assign(4, Eigen::Vector2d(5, 6));
  const size_t old = got.size();
  c.step(); c.check();
  initLandmarks(got, x, theta, r, b);
  std::ostringstream nm; nm << n << " poses, " << nl << " landmarks, ranges";
  for (auto& q : r) for (double v : q) nm << " " << v;
  c.trace([&](std::ostream& os) { os << nm.str(); });
  if (n == 0) { MC_REQUIRE(got.size() == old, "landmarks are changed although nothing was measured"); c.outcome("none"); return; }
  MC_REQUIRE((int)got.size() == nl, nm.str() << ": " << got.size() << " landmarks");
  for (int j = 0; j < nl; ++j) {
    C want = 0;
    for (int i = 0; i < n; ++i) if (r[i][j] > 0) {
      const C dir = std::polar<ld>(1, x[i](2));
      want = C(x[i](0), x[i](1)) + dir * (C(theta(0), theta(1)) + std::polar<ld>(r[i][j], (ld)b[i][j] + theta(2)));
      break;
    }
    MC_REQUIRE(std::fabs((double)(got[j](0) - want.real())) < 1e-9 && std::fabs((double)(got[j](1) - want.imag())) < 1e-9,
               nm.str() << ": landmark " << j << " at " << got[j].transpose() << " instead of " << (double)want.real() << " " << (double)want.imag());
  }
  c.outcome(nm.str());
}
mc::Register o2("O01", "landmarks", landmarks, "up to three poses and two landmarks, every pattern of seen, unseen and invalid ranges, two calibrations, with and without previous contents", 4, 3);

// ------------------------------------------------------------------ Q01
Eigen::Vector4d best(int which, const Eigen::Vector4d& p, const Eigen::Vector4d& q) {
  return which == 0 ? inCar::calibration::bestQuat(p, q) : which == 1 ? inEgomotion::calibration::bestQuat(p, q) : inTimeDelay::calibration::bestQuat(p, q);
}
void pairs(mc::Chooser& c) {
  const int which = c.choose(3);
  static const double v[] = {-1, -0.25, 0, 1e-7, 1};
  const int k = mc::config().thorough() ? 5 : 4;
  Eigen::Vector4d p, q;
  for (int i = 0; i < 4; ++i) p(i) = v[c.choose(k) + 5 - k];
  if (p.isZero(1e-5)) return;
  p.normalize();
  c.step(); c.check();
  long cases = 0;
  for (int a = 0; a < 625; ++a) {
    int m = a;
    for (int i = 0; i < 4; ++i) { q(i) = v[m % 5]; m /= 5; }
    if (q.isZero(1e-5)) continue;
    q.normalize();
    const Eigen::Vector4d p0 = p, q0 = q, r = best(which, p, q);
    const double dot = p.dot(q);
    MC_REQUIRE(p == p0 && q == q0, "the arguments are changed");
    MC_REQUIRE(r == q || r == -q, "quaternion " << q.transpose() << " becomes " << r.transpose() << ", another rotation");
    MC_REQUIRE(p.dot(r) > -1e-9, "quaternion " << q.transpose() << " after " << p.transpose() << " becomes " << r.transpose() << ", the farther of the two");
    if (dot > 1e-9) MC_REQUIRE(r == q, "quaternion " << q.transpose() << " after " << p.transpose() << " is turned without need");
    ++cases;
  }
  std::ostringstream os; os << which << ":" << p.transpose() << ":" << cases;
  c.outcome(os.str());
}
mc::Register q1("Q01", "pairs", pairs, "every pair of unit quaternions over a lattice of directions, in the three programs", 8, 2);

void chains(mc::Chooser& c) {
  const int which = c.choose(3), n = mc::config().thorough() ? 5 : 4;
  static const double s = std::sqrt(0.5);
  static const std::vector<Eigen::Vector4d> quats = {{0, 0, 0, 1}, {s, 0, 0, s}, {1, 0, 0, 0}, {-0.6, 0, 0, 0.8}, {0.5, 0.5, 0.5, -0.5}, {0, -1, 0, 0}, {-s, 0, s, 0}};
  Eigen::Vector4d last = c.pick(quats);
  std::string name;
  for (int k = 0; k < n; ++k) {
    const int i = c.choose((int)quats.size() * 2);
    const Eigen::Vector4d q = i % 2 ? quats[i / 2] : Eigen::Vector4d(-quats[i / 2]);
    c.step(); c.check();
    const Eigen::Vector4d r = best(which, last, q);
    name += std::to_string(i) + " ";
    MC_REQUIRE((r == q || r == -q) && r.dot(last) > -1e-9, "in the sequence " << name << "quaternion " << k << " jumps to " << r.transpose());
    last = r;
    if (!c.fresh()) continue;
    std::ostringstream os; os << which << ":" << last.transpose();
    c.outcome(os.str());
    c.state(os.str(), n - k);
  }
}
mc::Register q2("Q01", "sequences", chains, "every sequence of up to 4 (thorough: 5) orientations out of 14", 4, 2);
}  // namespace
MC_MAIN
