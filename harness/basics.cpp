// T01 transformations, B01 time stamps, X01 exceptions.
#include <mc.hpp>

#include <sys/time.h>
#include <time.h>

#include <cmath>
#include <cstdlib>
#include <limits>
#include <memory>
#include <vector>

#include <Eigen/Dense>
#include <aslam/calibration/base/Timestamp.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/NullPointerException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <aslam/calibration/geometry/Transformation.h>

using namespace aslam::calibration;

// the clock, under control
static timeval g_now = {0, 0};
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { *tv = g_now; return 0; }

namespace {
typedef long double ld;

// ------------------------------------------------------------------ T01
template <int M> struct Rigid {  // reference: rotation and translation
  Eigen::Matrix<ld, M, M> R = Eigen::Matrix<ld, M, M>::Identity();
  Eigen::Matrix<ld, M, 1> t = Eigen::Matrix<ld, M, 1>::Zero();
  Rigid inverse() const { Rigid r; r.R = R.transpose(); r.t = -(r.R * t); return r; }
  Eigen::Matrix<ld, M, 1> operator()(const Eigen::Matrix<ld, M, 1>& p) const { return R * p + t; }
  Eigen::Matrix<double, M + 1, M + 1> matrix() const {
    Eigen::Matrix<double, M + 1, M + 1> m = Eigen::Matrix<double, M + 1, M + 1>::Identity();
    m.template topLeftCorner<M, M>() = R.template cast<double>(); m.template topRightCorner<M, 1>() = t.template cast<double>(); return m;
  }
};
typedef Eigen::AngleAxis<ld> AA;
typedef Eigen::Matrix<ld, 3, 1> V3;
const double kPars[][6] = {{0, 0, 0, 0, 0, 0}, {1, -2, 0.5, 0.3, -0.4, 2.5}, {-3, 0.25, 7, -3, 1.5, -0.75}, {0, 4, -1, M_PI / 2, 0, M_PI}, {2, 0, 0, 0, -M_PI / 2, 0.1}};
template <int M> struct Kind;
template <> struct Kind<2> {
  typedef Transformation<double, 2> T;
  static Rigid<2> model(int k) { const double* p = kPars[k]; Rigid<2> r; r.R = Eigen::Rotation2D<ld>(p[5]).toRotationMatrix(); r.t << p[0], p[1]; return r; }
  static T* make(int k) { const double* p = kPars[k]; return new T(p[0], p[1], p[5]); }
  static void set(T& t, int k) { const double* p = kPars[k]; t.setTransformation(p[0], p[1], p[5]); }
};
template <> struct Kind<3> {
  typedef Transformation<double, 3> T;
  static Rigid<3> model(int k) {
    const double* p = kPars[k]; Rigid<3> r;
    r.R = (AA(p[5], V3::UnitZ()) * AA(p[4], V3::UnitY()) * AA(p[3], V3::UnitX())).toRotationMatrix(); r.t << p[0], p[1], p[2]; return r; }
  static T* make(int k) { const double* p = kPars[k]; return new T(p[0], p[1], p[2], p[3], p[4], p[5]); }
  static void set(T& t, int k) { const double* p = kPars[k]; t.setTransformation(p[0], p[1], p[2], p[3], p[4], p[5]); }
};

template <int M> void transformations(mc::Chooser& c) {
  typedef Kind<M> K; typedef typename K::T T;
  std::unique_ptr<T> t[2]; Rigid<M> m[2];
  std::string path = "construction";
  t[0].reset(new T()); t[1].reset(K::make(1)); m[1] = K::model(1);
  auto verify = [&] {
    c.check();
    for (int i = 0; i < 2; ++i) {
      auto near = [&](const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, const char* what) {
        MC_REQUIRE((a - b).norm() < 1e-9, "after " << path << ", " << M << "-dimensional transformation " << i << ": " << what << " is\n" << a << "\ninstead of\n" << b); };
      near(t[i]->getTransformationMatrix(), m[i].matrix(), "the matrix");
      const T& ct = *t[i];
      for (int q = 0; q < 3; ++q) {
        typedef Eigen::Matrix<double, M, 1> P;
        P p; for (int k = 0; k < M; ++k) p(k) = q == 0 ? 0 : q == 1 ? 1.5 - k : -2 + 3.25 * k;
        const P want = m[i](p.template cast<ld>()).template cast<double>();
        near(ct(p), want, "the image of a point");
        P out; ct.transform(p, out); near(out, want, "the transformed point");
        P inout = p; ct.transform(inout, inout); near(inout, want, "the point transformed in place");
        near(ct.getInverse()(want), p, "the point transformed back");
      }
      near(ct.getInverse().getTransformationMatrix(), m[i].inverse().matrix(), "the inverse");
      near(ct.getInverse().getInverse().getTransformationMatrix(), m[i].matrix(), "the inverse of the inverse");
      near(t[i]->getTransformationMatrix(), m[i].matrix(), "the matrix after asking for the inverse");
      std::ostringstream os; os << ct; MC_REQUIRE(!os.str().empty(), "nothing is written");
    }
  };
  verify();
  const int depth = mc::config().thorough() ? 5 : 4;
  for (int k = 0; k < depth; ++k) {
    const int w = c.choose(2), op = c.choose(8);
    std::ostringstream what;
    c.step();
    T& a = *t[w];
    if (c.nearlyFresh()) verify();
    switch (op) {
      case 0: { const int p = c.choose(5); K::set(a, p); m[w] = K::model(p); what << "parameters " << p; break; }
      case 1: { const int p = c.choose(5); Rigid<M> r = K::model(p); a.setTransformationMatrix(r.matrix()); m[w] = r; what << "matrix " << p; break; }
      case 2: { const T& r = a.inverse(); MC_REQUIRE(&r == &a, "inverting returns another transformation"); m[w] = m[w].inverse(); what << "invert"; break; }
      case 3: { a = t[1 - w]->getInverse(); m[w] = m[1 - w].inverse(); what << "inverse of the other"; break; }
      case 4: { t[w].reset(new T(*t[1 - w])); m[w] = m[1 - w]; what << "copy construct"; break; }
      case 5: { a = *t[1 - w]; m[w] = m[1 - w]; what << "assign"; break; }
      case 6: { T& self = a; a = self; what << "assign to itself"; break; }
      default: {
        const int p = c.choose(6);
        if (p == 5) { t[w].reset(new T()); m[w] = Rigid<M>(); }
        else if (p == 4) { m[w] = K::model(4); t[w].reset(new T(m[w].matrix())); }
        else { t[w].reset(K::make(p)); m[w] = K::model(p); }
        what << "construct anew " << p; }
    }
    path += ", " + what.str() + " (" + std::to_string(w) + ")";
    c.trace([&](std::ostream& os) { os << what.str() << " on transformation " << w; });
    if (!c.fresh()) continue;
    verify();
    std::ostringstream canon; canon.precision(6); canon << M << op;
    for (int i = 0; i < 2; ++i) canon << "|" << (m[i].matrix() * 1e4).array().round() + 0.0;
    c.outcome(canon.str());
    c.state(canon.str(), depth - k);
  }
}
mc::Register t1("T01", "2d", [](mc::Chooser& c) { transformations<2>(c); },
    "two planar transformations, every history of 4 (thorough: 5) of setting parameters or a matrix, inverting in place, taking the inverse of the other, copying, assigning, constructing", 8, 2);
mc::Register t2("T01", "3d", [](mc::Chooser& c) { transformations<3>(c); }, "the same in space, including the singular pitch", 8, 2);

// ------------------------------------------------------------------ B01
// days since the epoch to a date, proleptic Gregorian calendar
std::string date(long long s, const char* sep) {
  long long days = s >= 0 ? s / 86400 : -((-s + 86399) / 86400), rest = s - days * 86400;
  long long z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long long y = yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, mo = mp < 10 ? mp + 3 : mp - 9;
  if (mo <= 2) ++y;
  char b[80];
  snprintf(b, sizeof b, sep[0] == ' ' ? "%04lld-%02u-%02u %02lld:%02lld:%02lld" : "%04lld-%02u-%02u-%02lld-%02lld-%02lld", y, mo, d, rest / 3600, rest / 60 % 60, rest % 60);
  return b;
}
const std::vector<double>& seconds() {
  static const std::vector<double> v = {0, 0.5, 1, 1 - 1e-10, 999.999999, 86399.999, 951782400, 1078012800.25, 1356998399.75, 1400000000.123456, 2147483647.5, 4102444800,
                                        -0.25, -1, -1.75, -1e-12, -1e-18, -3e-17, -86400, -86400.5, -2208988800.0, 68169600};
  return v;
}
void timestamps(mc::Chooser& c) {
  setenv("TZ", "UTC", 1); tzset();
  const double a = c.pick(seconds()), b = c.pick(seconds());
  c.step(); c.check();
  Timestamp x(a), y(b);
  const Timestamp& cx = x;
  std::ostringstream nm; nm.precision(17); nm << "times " << a << " and " << b;
  const std::string name = nm.str();
  c.note(name);
  c.trace([&](std::ostream& os) { os << name; });
  MC_REQUIRE(cx.getSeconds() == a && (double)cx == a, name << ": not kept");
  MC_REQUIRE((cx == y) == (a == b) && (cx == b) == (a == b) && (cx != y) == (a != b) && (cx != b) == (a != b), name << ": equality");
  MC_REQUIRE((cx < y) == (a < b) && (cx < b) == (a < b) && (cx > y) == (a > b) && (cx > b) == (a > b), name << ": order");
  MC_REQUIRE((cx <= y) == (a <= b) && (cx <= b) == (a <= b) && (cx >= y) == (a >= b) && (cx >= b) == (a >= b), name << ": order or equality");
  MC_REQUIRE(cx + y == a + b && cx + b == a + b && cx - y == a - b && cx - b == a - b, name << ": sum or difference");
  Timestamp z(cx), w(7.0), v(cx);
  w = cx;
  MC_REQUIRE(&(z += b) == &z && z.getSeconds() == a + b, name << ": adding");
  MC_REQUIRE(&(w -= b) == &w && w.getSeconds() == a - b, name << ": subtracting");
  Timestamp& self = v; v = self;
  MC_REQUIRE(cx.getSeconds() == a && v.getSeconds() == a, name << ": a copy is not independent");
  const timespec ts = (timespec)cx;
  MC_REQUIRE(ts.tv_nsec >= 0 && ts.tv_nsec < 1000000000, name << ": " << ts.tv_nsec << " nanoseconds");
  MC_REQUIRE(std::fabs((double)((ld)ts.tv_sec - a + ts.tv_nsec * 1e-9L)) < 2e-9 + std::fabs(a) * 1e-15, name << ": converted to " << ts.tv_sec << " s " << ts.tv_nsec << " ns");
  MC_REQUIRE(Timestamp::getDate(a) == date((long long)std::floor(a), "-"), name << ": dated " << Timestamp::getDate(a) << " instead of " << date((long long)std::floor(a), "-"));
  // the clock
  g_now.tv_sec = (time_t)std::floor(std::fabs(a)); g_now.tv_usec = (suseconds_t)((std::fabs(a) - std::floor(std::fabs(a))) * 1e6);
  const double now = (double)((ld)g_now.tv_sec + g_now.tv_usec * 1e-6L);
  MC_REQUIRE(std::fabs(Timestamp::now() - now) < 5e-7, name << ": now is " << Timestamp::now() << " instead of " << now);
  MC_REQUIRE(std::fabs(Timestamp().getSeconds() - now) < 5e-7, name << ": a new time stamp is not the present");
  MC_REQUIRE(Timestamp::getDate() == date(g_now.tv_sec, " "), name << ": today is " << Timestamp::getDate() << " instead of " << date(g_now.tv_sec, " "));
  setenv("TZ", "XXX-05:30", 1); tzset();
  MC_REQUIRE(Timestamp::getDate(a) == date((long long)std::floor(a) + 19800, "-"), name << ": date is not local");
  MC_REQUIRE(Timestamp::getDate() == date(g_now.tv_sec + 19800, " "), name << ": present date is not local");
  std::ostringstream os; os << cx; std::ostringstream n; n << a;
  MC_REQUIRE(os.str().find(n.str()) != std::string::npos, name << ": written as '" << os.str() << "'");
  c.outcome(Timestamp::getDate(a) + std::to_string(ts.tv_nsec) + name);
}
mc::Register b1("B01", "timestamps", timestamps, "every pair of 22 times before, around and after the epoch, with fractions next to whole seconds, in two time zones, with the clock under control", 1, 1);

// ------------------------------------------------------------------ X01
template <class E> std::string told(const std::exception& e) { return e.what(); }
void exceptions(mc::Chooser& c) {
  const int kind = c.choose(7), copies = c.choose(6);
  const bool file = c.flip(), line = c.flip(), function = c.flip();
  const std::string msg = c.flip() ? "what went wrong: 7 % of 3" : "";
  const std::string fn = file ? "some/file.cpp" : " ", fu = function ? "theFunction" : " ";
  const size_t ln = line ? 1234567 : 0;
  c.step(); c.check();
  std::vector<std::string> want = {msg}; std::string arg;
  if (file) want.push_back(fn);
  if (line) want.push_back("1234567");
  if (function) want.push_back(fu);
  std::string got; bool caught = false, asBase = false, order = true;
  auto pass = [&](const std::exception& e) { got = e.what(); caught = true; asBase = dynamic_cast<const Exception*>(&e) != nullptr; };
  const bool nowhere = !file && !line && !function;
  auto run = [&](auto make, auto bare, auto other) {
    typedef decltype(make()) E;
    try {
      E e = make();
      if (copies == 0) throw e;
      if (copies == 1) { E f(e); throw f; }
      if (copies == 2) { E f = other(); f = e; throw f; }
      if (copies == 3) { E& self = e; e = self; throw e; }
      if (copies == 5) { if (nowhere) throw bare(); throw e; }
      try { throw e; } catch (const Exception&) { throw; }
    } catch (const std::exception& e) { pass(e); }
  };
  switch (kind) {
    case 0: run([&] { return Exception(msg, fn, ln, fu); }, [&] { return Exception(msg); }, [&] { return Exception("another message", "another.cpp", 77, "anotherFunction"); }); break;
    case 1: run([&] { return InvalidOperationException(msg, fn, ln, fu); }, [&] { return InvalidOperationException(msg); }, [&] { return InvalidOperationException("another message", "another.cpp", 77, "anotherFunction"); }); break;
    case 2: run([&] { return NullPointerException(msg, fn, ln, fu); }, [&] { return NullPointerException(msg); }, [&] { return NullPointerException("another message", "another.cpp", 77, "anotherFunction"); }); want.push_back("is a null pointer"); break;
    case 3: run([&] { return BadArgumentException<double>(-12.5, msg, fn, ln, fu); }, [&] { return BadArgumentException<double>(-12.5, msg); }, [&] { return BadArgumentException<double>(77.0, "another message", "another.cpp", 77, "anotherFunction"); }); want.push_back("argument = -12.5"); break;
    case 4: run([&] { return BadArgumentException<std::string>("the argument", msg, fn, ln, fu); }, [&] { return BadArgumentException<std::string>("the argument", msg); }, [&] { return BadArgumentException<std::string>(std::string("another"), "another message", "another.cpp", 77, "anotherFunction"); }); want.push_back("argument = the argument"); break;
    case 5: run([&] { return OutOfBoundException<int>(-3, msg, fn, ln, fu); }, [&] { return OutOfBoundException<int>(-3, msg); }, [&] { return OutOfBoundException<int>(9, "another message", "another.cpp", 77, "anotherFunction"); }); want.push_back("argument = -3"); break;
    default: run([&] { return OutOfBoundException<size_t>(17, 16, msg, fn, ln, fu); }, [&] { return OutOfBoundException<size_t>(17, 16, msg); }, [&] { return OutOfBoundException<size_t>(5, 4, "another message", "another.cpp", 77, "anotherFunction"); }); want.push_back("argument = 17"); want.push_back("bound = 16");
  }
  (void)order;
  c.trace([&](std::ostream& os) { os << "exception " << kind << ", " << copies << ": " << got; });
  MC_REQUIRE(caught && asBase, "the exception is not caught as what it is");
  for (auto& w : want) MC_REQUIRE(got.find(w) != std::string::npos, "the message '" << got << "' does not say '" << w << "'");
  MC_REQUIRE(got.find("another.cpp") == std::string::npos && got.find("another message") == std::string::npos && got.find("anotherFunction") == std::string::npos, "the message '" << got << "' is that of another exception");
  if (!function) MC_REQUIRE(got.find(" : ") == std::string::npos && got.compare(0, 1, ":") != 0, "the message '" << got << "' names a function that was not given");
  if (!file) MC_REQUIRE(got.find("file") == std::string::npos, "the message '" << got << "' names a file that was not given");
  if (!line) MC_REQUIRE(got.find("line") == std::string::npos, "the message '" << got << "' names a line that was not given");
  c.note(got); c.outcome(got);
}
mc::Register x1("X01", "exceptions", exceptions, "every kind of exception, with every subset of message, file, line and function, thrown directly, copied, assigned, with its defaults, and thrown again", 1, 1);
}  // namespace
MC_MAIN
