// W02: local frames on the ellipsoid (car example).
#include <cmath>
#include <sstream>
#include <vector>

#include <mc.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <aslam/calibration/car/geo/geodetic.h>
#include <sim_common.hpp>

using namespace aslam::calibration;

namespace {
typedef long double ld;

void positions(mc::Chooser& c) {
  const int n = mc::config().thorough() ? 96 : 24;
  const double lat = (-90.0 + 180.0 * c.choose(n + 1) / n) * M_PI / 180, lon = (-180.0 + 360.0 * c.choose(n + 1) / n) * M_PI / 180;
  for (const double h : {0.0, 435.25, -100.0, 20000000.0}) {
    std::ostringstream nm; nm << "latitude " << lat << ", longitude " << lon << ", altitude " << h;
    double x = 1, y = 2, z = 3;
    c.step(); c.check();
    wgs84ToEcef(lat, lon, h, x, y, z);
    // the point of the ellipsoid with that normal, and then along the normal
    const ld a = 6378137, fl = 1 / 298.257223563L, b = a * (1 - fl);
    const ld nx = cosl(lat) * cosl(lon), ny = cosl(lat) * sinl(lon), nz = sinl(lat);
    const ld r = sqrtl(a * a * (nx * nx + ny * ny) + b * b * nz * nz);
    const ld X = a * a * nx / r + h * nx, Y = a * a * ny / r + h * ny, Z = b * b * nz / r + h * nz;
    MC_REQUIRE(std::fabs((double)(x - X)) < 1e-3 && std::fabs((double)(y - Y)) < 1e-3 && std::fabs((double)(z - Z)) < 1e-3,
               nm.str() << ": at " << x << " " << y << " " << z << " instead of " << (double)X << " " << (double)Y << " " << (double)Z);
    // local frames there
    Eigen::Matrix3d enu, ned;
    const double sl = std::sin(lat), cl = std::cos(lat), so = std::sin(lon), co = std::cos(lon);
    enu.col(0) = Eigen::Vector3d(-so, co, 0);
    enu.col(2) = Eigen::Vector3d(cl * co, cl * so, sl);
    enu.col(1) = enu.col(2).cross(enu.col(0));
    ned.col(0) = enu.col(1); ned.col(1) = enu.col(0); ned.col(2) = -enu.col(2);
    const Eigen::Vector3d o(x, y, z);
    struct { const char* name; sm::kinematics::Transformation to, from; Eigen::Matrix3d C; } frames[] = {
      {"east, north, up", enu2ecef(x, y, z, lat, lon), ecef2enu(x, y, z, lat, lon), enu}, {"north, east, down", ned2ecef(x, y, z, lat, lon), ecef2ned(x, y, z, lat, lon), ned}};
    for (auto& f : frames)
      for (const Eigen::Vector3d p : {Eigen::Vector3d(0, 0, 0), Eigen::Vector3d(1, 0, 0), Eigen::Vector3d(0, 1, 0), Eigen::Vector3d(0, 0, 1), Eigen::Vector3d(-3, 20, 0.5)}) {
        const Eigen::Vector3d e = f.to * p, back = f.from * e, g = f.from * p, l = f.C.transpose() * (p - o);
        MC_REQUIRE((e - (o + f.C * p)).norm() < 1e-6, nm.str() << ": " << p.transpose() << " in the frame " << f.name << " is " << (e - o).transpose() << " from the origin instead of " << (f.C * p).transpose());
        MC_REQUIRE((back - p).norm() < 1e-5, nm.str() << ": " << p.transpose() << " in the frame " << f.name << " comes back as " << back.transpose());
        MC_REQUIRE((g - l).norm() < 1e-5, nm.str() << ": " << p.transpose() << " becomes " << g.transpose() << " in the frame " << f.name << " instead of " << l.transpose());
      }
    c.outcome(nm.str());
  }
  c.trace([&](std::ostream& os) { os << "latitude " << lat << ", longitude " << lon; });
}
mc::Register w1("W02", "positions", positions, "every latitude and longitude of a regular grid including poles and date line, at four altitudes, both local frames, forwards and back", 8, 1);

}  // namespace
MC_MAIN
