// Y01, the library's objects: after every short history of changes, what is
// printed is what was set.
#include <print_common.hpp>

#include <cstring>

#include <Eigen/Dense>
#include <aslam/calibration/base/Timestamp.h>
#include <aslam/calibration/data-structures/Grid.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <aslam/calibration/functions/IncompleteGammaPFunction.h>
#include <aslam/calibration/functions/IncompleteGammaQFunction.h>
#include <aslam/calibration/functions/LogGammaFunction.h>
#include <aslam/calibration/geometry/Transformation.h>
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/EstimatorML.h>
#include <aslam/calibration/statistics/GammaDistribution.h>
#include <aslam/calibration/statistics/Histogram.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/statistics/UniformDistribution.h>

using namespace aslam::calibration;
using namespace text;

namespace {

const double kValues[] = {0.5, -1.25, 3.0, 1e-7, 123456789.125};
const double kPositive[] = {0.5, 2.25, 7.0, 1e-7, 123456789.125};
int depth() { return mc::config().thorough() ? 4 : 3; }

void distributions(mc::Chooser& c) {
  switch (c.choose(9)) {
    case 0: {
      double m = 0.25, v = 2;
      NormalDistribution<1> d(m, v);
      for (int i = 0; i < depth(); ++i) {
        if (c.flip()) d.setMean(m = kValues[c.choose(5)]); else d.setVariance(v = kPositive[c.choose(5)]);
        printed(c, "a normal distribution", d, {{"mean", one(m)}, {"variance", one(v)}});
      }
      break;
    }
    case 1: {
      typedef NormalDistribution<2> D;
      D::Mean m(1, 2); D::Covariance v = D::Covariance::Identity();
      D d(m, v);
      for (int i = 0; i < depth(); ++i) {
        if (c.flip()) { m = D::Mean(kValues[c.choose(5)], 7.5); d.setMean(m); } else { const double p = kPositive[c.choose(3)]; v << p, 0.125, 0.125, p + 1; d.setCovariance(v); }
        printed(c, "a normal distribution of vectors", d, {{"mean", rows(m)}, {"covariance", rows(v)}});
      }
      break;
    }
    case 2: {
      double lo = -2, hi = 1e9;
      UniformDistribution<double> d(lo, hi);
      for (int i = 0; i < depth(); ++i) {
        if (c.flip()) { lo = kValues[c.choose(4)]; d.setMinSupport(lo); } else { hi = 1e9 + kValues[c.choose(4)]; d.setMaxSupport(hi); }
        printed(c, "a uniform distribution", d, {{"minimum support", one(lo)}, {"maximum support", one(hi)}});
      }
      break;
    }
    case 3: {
      int lo = -2, hi = 100;
      UniformDistribution<int> d(lo, hi);
      for (int i = 0; i < depth(); ++i) {
        if (c.flip()) { lo = -5 + c.choose(5); d.setMinSupport(lo); } else { hi = 30 + c.choose(5); d.setMaxSupport(hi); }
        printed(c, "an integer uniform distribution", d, {{"minimum support", one(lo)}, {"maximum support", one(hi)}});
      }
      break;
    }
    case 4: {
      typedef UniformDistribution<double, 2> D;
      D::RandomVariable lo(-2, -3), hi(4, 5);
      D d(lo, hi);
      for (int i = 0; i < depth(); ++i) {
        if (c.flip()) { lo = D::RandomVariable(-0.5 - c.choose(3), -1.25); d.setMinSupport(lo); } else { hi = D::RandomVariable(8, 1.5 + c.choose(3)); d.setMaxSupport(hi); }
        printed(c, "a uniform distribution of vectors", d, {{"minimum support", rows(lo)}, {"maximum support", rows(hi)}, {"support area", one((hi(0) - lo(0)) * (hi(1) - lo(1)))}});
      }
      break;
    }
    case 5: {
      double a = 1.5, b = 2.5;
      GammaDistribution<double> d(a, b);
      for (int i = 0; i < depth(); ++i) {
        if (c.flip()) d.setShape(a = kPositive[c.choose(5)]); else d.setInvScale(b = kPositive[c.choose(5)]);
        printed(c, "a gamma distribution", d, {{"shape", one(a)}, {"inverse scale", one(b)}});
      }
      break;
    }
    case 6: {
      double k = 3;
      ChiSquareDistribution d(k);
      for (int i = 0; i < depth(); ++i) {
        d.setDegrees(k = kPositive[c.choose(5)]);
        printed(c, "a chi-square distribution", d, {{"degrees", one(k)}});
      }
      break;
    }
    case 7: {
      EstimatorML<NormalDistribution<1>> e;
      for (int i = 0; i < depth() + 1; ++i) {
        const int n = c.choose(6);
        if (n == 5) e.reset(); else e.addPoint(kValues[n % 3] + i);
        printed(c, "an estimator", e, {{"number of points", one(e.getNumPoints())}, {"valid", one(e.getValid())}, {"mean", one(e.getDistribution().getMean())}, {"variance", one(e.getDistribution().getVariance())}});
      }
      break;
    }
    default: {
      typedef EstimatorML<NormalDistribution<2>> E;
      E e;
      for (int i = 0; i < depth() + 1; ++i) {
        const int n = c.choose(6);
        if (n == 5) e.reset(); else e.addPoint(E::Point(kValues[n % 3] + i, n * n));
        printed(c, "an estimator of vectors", e, {{"number of points", one(e.getNumPoints())}, {"valid", one(e.getValid())}, {"mean", rows(e.getDistribution().getMean())}, {"covariance", rows(e.getDistribution().getCovariance())}});
      }
    }
  }
}

void others(mc::Chooser& c) {
  switch (c.choose(9)) {
    case 0: {
      Transformation<double, 2> t;
      for (int i = 0; i < depth(); ++i) {
        if (c.flip()) t.setTransformation(kValues[c.choose(5)], 1.5, 0.25 * c.choose(3)); else t = t.getInverse();
        printed(c, "a planar transformation", t, {{"Transformation matrix", rows(t.getTransformationMatrix())}});
      }
      break;
    }
    case 1: {
      Transformation<double, 3> t;
      for (int i = 0; i < depth(); ++i) {
        if (c.flip()) t.setTransformation(kValues[c.choose(5)], 1.5, -2.5, 0.1, 0.2, 0.25 * c.choose(3)); else t = t.getInverse();
        printed(c, "a spatial transformation", t, {{"Transformation matrix", rows(t.getTransformationMatrix())}});
      }
      break;
    }
    case 2: {
      double s = 1.5;
      Timestamp t(s);
      for (int i = 0; i < depth(); ++i) {
        const double d = kValues[c.choose(5)];
        if (c.flip()) { t += d; s += d; } else { t = Timestamp(d); s = d; }
        printed(c, "a time", t, {{"seconds", one(s)}});
      }
      break;
    }
    case 3: {
      double a = 1.5;
      IncompleteGammaPFunction p(a); IncompleteGammaQFunction q(a);
      for (int i = 0; i < depth(); ++i) {
        a = kPositive[c.choose(5)]; p.setAlpha(a); q.setAlpha(a + 1);
        printed(c, "the incomplete gamma function P", p, {{"alpha", one(a)}});
        printed(c, "the incomplete gamma function Q", q, {{"alpha", one(a + 1)}});
      }
      break;
    }
    case 4: {
      LogGammaFunction<double> g;
      for (int i = 0; i < depth(); ++i) { const size_t n = 1 + c.choose(5); g.setDim(n); printed(c, "the log gamma function", g, {{"dimension", one(n)}}); }
      break;
    }
    case 5: {
      Randomizer<double> r(3.0);
      for (int i = 0; i < depth(); ++i) { const double s = 1 + c.choose(5); r.setSeed(s); printed(c, "a generator", r, {{"seed", one(s)}}); }
      break;
    }
    case 6: {
      VectorDesignVariable<3> v(Eigen::Vector3d(1, 2, 3));
      for (int i = 0; i < depth(); ++i) {
        const Eigen::Vector3d x(kValues[c.choose(5)], -2, i);
        if (c.flip()) v.setValue(x); else v.update(x.data(), 3);
        printed(c, "a vector variable", v, {{"", rows(v.getValue())}});
      }
      break;
    }
    case 7: {
      typedef Grid<double, double, 2> G;
      const int nx = 1 + c.choose(3), ny = 1 + c.choose(4);
      const G::Coordinate lo(-1, 0.5), hi(-1 + nx * 0.5, 0.5 + ny * 0.25), res(0.5, 0.25);
      G g(lo, hi, res);
      Numbers cells;
      for (int i = 0; i < nx * ny; ++i) { *(g.getCellBegin() + i) = i * 1.5 + 0.25; cells.push_back(i * 1.5 + 0.25); }
      printed(c, "a grid", g, {{"minimum", rows(lo)}, {"maximum", rows(hi)}, {"resolution", rows(res)}, {"number of cells per dim", rows(g.getNumCells())}, {"total number of cells", one(nx * ny)}, {"cells", cells}});
      break;
    }
    default: {
      typedef Histogram<double, 1> H;
      H h(0.0, 2.0, 0.5);
      Numbers cells(4, 0.0);
      for (int i = 0; i < depth() + 1; ++i) {
        const int k = c.choose(4);
        h.addSample(0.25 + 0.5 * k); ++cells[k];
        printed(c, "a histogram", h, {{"total number of cells", one(4)}, {"cells", cells}});
      }
    }
  }
}

mc::Register r1("Y01", "distributions", distributions, "every history of 3 (thorough: 4) changes to each kind of distribution and estimator, printed after each", 4, 3);
mc::Register r2("Y01", "others", others, "every history of 3 (thorough: 4) changes to transformations, times, functions, generators, vector variables and histograms; grids of every small size", 4, 3);

}  // namespace

MC_MAIN
