from seed import seed
L = "incremental_calibration/"
INC = L + "include/aslam/calibration/"
XX = "incremental_calibration_examples/incremental_calibration_examples_"
HEAD = """#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <vector>
#include <Eigen/Core>
#include <Eigen/LU>
#define EXPECT(x) do { if (!(x)) { std::cerr << "line " << __LINE__ << ": not " << #x << std::endl; return 1; } } while (0)
static bool near(double a, double b, double t = 1e-9) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
"""

seed("f01-resumed-sum", "F01", [(L + "src/functions/LogFactorialFunction.cpp", """      if (argument) {
        double value = 0.0;
        for (size_t x = 1; x < argument; ++x)
          value += log(x + 1);
        return value;
""", """      if (argument) {
        // continue the sum where the previous evaluation left it
        static thread_local double value = 0.0;
        static thread_local size_t x = 1;
        if (argument < x)
          value = 0.0;
        for (; x < argument; ++x)
          value += log(x + 1);
        return value;
""")], HEAD + """#include <aslam/calibration/functions/LogFactorialFunction.h>
int main() {
  const aslam::calibration::LogFactorialFunction f;
  for (size_t n : {0, 1, 5, 30, 170}) EXPECT(near(f(n), std::lgamma(n + 1.0)));
  for (size_t n : {30, 5, 6, 1, 2}) EXPECT(near(f(n), std::lgamma(n + 1.0)));
  return 0;
}
""", "an evaluation at a smaller argument than the previous one", "The logarithm of the factorial of a smaller argument than the last is zero, and the following ones are too small", kind="base")

seed("a02-one-logarithm", "A02", [(INC + "algorithms/matrixOperations.tpp", """      double sumLogDiagR = 0;
      for""", """      // one logarithm is enough
      double product = 1.0;
      for"""), (INC + "algorithms/matrixOperations.tpp", """          sumLogDiagR += std::log2(std::fabs(value));
      }
      return sumLogDiagR;""", """          product *= std::fabs(value);
      }
      return std::log2(product);""")], HEAD + """#include <aslam/calibration/algorithms/matrixOperations.h>
int main() {
  Eigen::MatrixXd R = Eigen::MatrixXd::Identity(40, 40);
  EXPECT(near(aslam::calibration::computeSumLogDiagR(R, 0, 39), 0));
  R *= 1 << 20; R *= 1 << 10;
  EXPECT(near(aslam::calibration::computeSumLogDiagR(R, 0, 9), 300));
  EXPECT(near(aslam::calibration::computeSumLogDiagR(R, 0, 39), 1200));
  return 0;
}
""", "a product of diagonal elements beyond the range of a double", "The sum of logarithms is infinite for large systems", kind="base")

seed("b01-utc", "B01", [(L + "src/base/Timestamp.cpp", """      ptm = localtime(&time.tv_sec);
      char timeString[40];
      strftime(timeString, sizeof (timeString), "%Y-%m-%d-%H-%M-%S", ptm);""", """      struct tm buffer;
      ptm = gmtime_r(&time.tv_sec, &buffer);
      char timeString[40];
      strftime(timeString, sizeof (timeString), "%Y-%m-%d-%H-%M-%S", ptm);""")], HEAD + """#include <ctime>
#include <aslam/calibration/base/Timestamp.h>
int main() {
  for (const char* z : {"UTC", "VRF-5:30"}) {
    setenv("TZ", z, 1); tzset();
    const time_t t = 1400000000; char want[40];
    strftime(want, sizeof(want), "%Y-%m-%d-%H-%M-%S", localtime(&t));
    EXPECT(aslam::calibration::Timestamp::getDate(1400000000.25) == want);
  }
  return 0;
}
""", "a time zone other than UTC", "The date of a time stamp is in UTC instead of local time", kind="base")

seed("t01-alias", "T01", [(INC + "geometry/Transformation2d.tpp", "      mTransformationMatrix = other.mTransformationMatrix;\n        mRotationMatrix", "      mTransformationMatrix = other.mTransformationMatrix;\n        mRotationMatrix")] if False else [(INC + "geometry/Transformation3d.tpp", """        mTranslationMatrix = other.mTranslationMatrix;
      }""", """        // a rotation leaves the translation alone
        if (!other.mTranslationMatrix.isIdentity())
          mTranslationMatrix = other.mTranslationMatrix;
      }""")], HEAD + """#include <aslam/calibration/geometry/Transformation.h>
int main() {
  aslam::calibration::Transformation<double, 3> a(1, 2, 3, 0.1, 0.2, 0.3), b(0, 0, 0, 0.5, 0, 0);
  a = b;
  EXPECT((a.getTransformationMatrix() - b.getTransformationMatrix()).norm() < 1e-12);
  EXPECT((a.getInverse().getTransformationMatrix() - b.getInverse().getTransformationMatrix()).norm() < 1e-12);
  return 0;
}
""", "assignment of a pure rotation to a transformation with a translation, and its inverse after that", "The inverse of an assigned transformation still has the translation of the transformation that was there", kind="base")

seed("s02-half-set", "S02", [(INC + "statistics/UniformDistribution1v.tpp", """        minSupport) {
      setSupport(minSupport, mMaxSupport);""", """        minSupport) {
      mMinSupport = minSupport;
      setSupport(mMinSupport, mMaxSupport);""")], HEAD + """#include <aslam/calibration/statistics/UniformDistribution.h>
int main() {
  aslam::calibration::UniformDistribution<double> u(1, 2);
  EXPECT(throws([&] { u.setMinSupport(3); }));
  EXPECT(u.getMinSupport() == 1 && near(u.pdf(1.5), 1) && near(u.getMean(), 1.5));
  u.setMinSupport(0); EXPECT(near(u.pdf(1), 0.5));
  return 0;
}
""", "a refused lower limit, and use of the distribution afterwards", "A refused minimum support stays in the distribution", kind="base")

seed("s03-frozen-shape", "S03", [(INC + "statistics/GammaDistribution.tpp", "      const IncompleteGammaPFunction incGammaPFunction(mShape);", "      const static IncompleteGammaPFunction incGammaPFunction(mShape);")], HEAD + """#include <aslam/calibration/statistics/GammaDistribution.h>
int main() {
  aslam::calibration::GammaDistribution<double> g(1, 1);
  EXPECT(near(g.cdf(1), 1 - std::exp(-1.0)));
  aslam::calibration::GammaDistribution<double> h(2, 1);
  EXPECT(near(h.cdf(1), 1 - 2 * std::exp(-1.0)));
  g.setShape(2); EXPECT(near(g.cdf(1), h.cdf(1)));
  return 0;
}
""", "two gamma distributions, or one with its shape changed after the first use", "The distribution function is that of the first shape ever used", kind="base")

seed("r01-gamma-tail", "R01", [(INC + "statistics/Randomizer.tpp", "            z = -log((b - p) / fractionalPart);", "            z = -log((b - p) / shape);")], HEAD + """#include <aslam/calibration/statistics/Randomizer.h>
int main() {
  aslam::calibration::Randomizer<double> r;
  srandom(1);
  for (double shape : {0.5, 1.0, 2.0, 3.5, 1.7}) {
    double s = 0; const int n = 400000;
    for (int i = 0; i < n; ++i) s += r.sampleGamma(shape, 2);
    EXPECT(std::fabs(s / n - shape / 2) < 0.01);
  }
  return 0;
}
""", "a shape above one that is not an integer", "Samples of a gamma distribution with a shape above one that is not an integer are too small", kind="base")

seed("x01-line-only", "X01", [(L + "src/exceptions/Exception.cpp", """        stream << " [file = " << mFilename << "]";
      if (mLine)
        stream << "[line = " << mLine << "]";""", """        stream << " [file = " << mFilename << "]";
      if (mLine && mFilename != mFunction)
        stream << "[line = " << mLine << "]";""")], HEAD + """#include <string>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
int main() {
  using aslam::calibration::InvalidOperationException;
  EXPECT(std::string(InvalidOperationException("m", "f.cpp", 12, "g").what()).find("12") != std::string::npos);
  EXPECT(std::string(InvalidOperationException("m", " ", 12).what()).find("12") != std::string::npos);
  return 0;
}
""", "an exception with a line but neither a file nor a function", "The line of an exception without file and function is not told", kind="base")

seed("o01-last-sight", "O01", [(XX + "2dlrf/src/2dlrf/utils.cpp", "            l_found[j] = true;", "            l_found[j] = i + 1 < x_odom.size();\n            if (b[i][j] == 0)\n              l_found[j] = i > 0;")], HEAD + """#include <""" + XX + """2dlrf/src/2dlrf/utils.cpp>
using namespace aslam::calibration;
int main() {
  typedef Eigen::Matrix<double, 3, 1> V3; typedef Eigen::Matrix<double, 2, 1> V2;
  std::vector<V3> x(3, V3::Zero()); x[1] << 1, 0, 0; x[2] << 2, 0, 0;
  std::vector<V2> l;
  initLandmarks(l, x, V3::Zero(), {{1, 0}, {1, 1}, {1, 1}}, {{0.5, 0}, {0.5, 0.25}, {0.5, 0.25}});
  EXPECT(near(l[0](0), std::cos(0.5)) && near(l[1](0), 1 + std::cos(0.25)));
  initLandmarks(l, x, V3::Zero(), {{1, 0}, {1, 1}, {1, 1}}, {{0, 0}, {0, 0}, {0, 0}});
  EXPECT(near(l[0](0), 1) && near(l[1](0), 2));
  return 0;
}
""", "a landmark straight ahead of the first pose that is seen again", "A landmark straight ahead of the first pose is placed by its second sight", kind="base")

seed("q01-half-turn", "Q01", [(XX + "time_delay/src/algo/bestQuat.cpp", "      if ((pquat + cquat).norm() < (pquat - cquat).norm())", "      if (pquat(3) * cquat(3) < 0 &&\n        (pquat + cquat).norm() < (pquat - cquat).norm())")], HEAD + """#include <""" + XX + """time_delay/src/algo/bestQuat.cpp>
using namespace aslam::calibration;
int main() {
  const Eigen::Vector4d a(0, 0, std::sin(1.5), std::cos(1.5)), b(0, 0, std::sin(1.6), std::cos(1.6)), c(0, 0, 0.1, std::sqrt(0.99));
  EXPECT(bestQuat(a, b) == b && bestQuat(c, -c) == c && bestQuat(a, -a) == a);
  EXPECT(bestQuat(a, -b) == b);
  return 0;
}
""", "successive orientations on either side of a half turn that come with opposite signs", "The far quaternion is kept when the heading passes a half turn", kind="base")

seed("g01-increment-3d", "G01", [(INC + "data-structures/Grid.tpp", """          if (i < (size_t)idx.size() - 1)
            idx(i) = 0;""", """          if (i < (size_t)idx.size() - 1)
            idx(i) = i / 2;""")], HEAD + """#include <set>
#include <aslam/calibration/data-structures/Grid.h>
using namespace aslam::calibration;
template <int M> int walk() {
  typedef Grid<double, int, M> G; typedef typename G::Coordinate C;
  C lo(C::Zero(M)), hi(C::Constant(M, 2.0)), res(C::Ones(M)); hi(2) = 1;
  G g(lo, hi, res); size_t n = 0;
  for (typename G::Index i = G::Index::Zero(M); g.isValidIndex(i); g.incrementIndex(i)) ++n;
  return n == g.getNumCellsTot() ? 0 : 1;
}
int main() { return walk<3>() || walk<4>(); }
""".replace("return n ==", "if (n != g.getNumCellsTot()) std::cerr << M << \" dimensions: \" << n << std::endl;\n  return n =="), "a grid of four or more dimensions", "Stepping through the cells of a grid of four dimensions leaves some out", kind="base")

