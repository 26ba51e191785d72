// V01: the vector design variable, every history of changes.
#include <mc.hpp>
#include <core_common.hpp>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>

using namespace aslam::calibration;

namespace {
template <int M> void run(mc::Chooser& c, int dim) {
  typedef VectorDesignVariable<M> V;
  typedef typename V::Container Vec;
  auto vec = [&](double base) { Vec v(dim); for (int i = 0; i < dim; ++i) v(i) = base + i * 0.5; return v; };
  struct Slot { std::unique_ptr<V> v; Vec cur, old; bool hasOld, active = false; };
  std::vector<Slot> s(2);
  auto show = [](const Eigen::VectorXd& v) { std::ostringstream os; os << v.transpose(); return os.str(); };
  s[0].v.reset(new V(vec(1))); s[0].cur = vec(1); s[0].hasOld = false;
  s[1].v.reset(new V(vec(40))); s[1].cur = vec(40); s[1].hasOld = false;
  const int depth = (mc::config().thorough() ? 7 : 6) - (M == 3 || M == 6) - 2 * (dim > 6);
  std::string path = "construction";
  auto verify = [&] {
    c.check();
    for (int i = 0; i < 2; ++i) {
      const V& v = *s[i].v;
      MC_REQUIRE(v.getValue() == s[i].cur, "after " << path << ", variable " << i << " is " << show(v.getValue()) << " instead of " << show(s[i].cur));
      MC_REQUIRE(v.isActive() == s[i].active, "after " << path << ", variable " << i << (s[i].active ? " is not active" : " is active"));
      MC_REQUIRE(v.minimalDimensions() == dim, "variable " << i << " has " << v.minimalDimensions() << " dimensions");
      Eigen::MatrixXd p = Eigen::MatrixXd::Constant(3, 3, 7);
      v.getParameters(p);
      MC_REQUIRE(p.rows() == dim && p.cols() == 1 && p == s[i].cur, "the parameters of variable " << i << " are not its value");
      std::ostringstream o, want; o << v; want << s[i].cur.transpose();
      MC_REQUIRE(o.str() == want.str(), "variable " << i << " is written as '" << o.str() << "'");
    }
  };
  for (int k = 0; k < depth; ++k) {
    const int w = c.choose(2);
    Slot& a = s[w];
    std::vector<int> ops = {0, 1, 2, 3, 4, 5, 6, 8};
    if (a.hasOld) ops.push_back(7);
    const int op = c.pick(ops);
    aslam::backend::DesignVariable& base = *a.v;
    std::string err, what;
    c.step();
    if (c.nearlyFresh()) verify();
    switch (op) {
      case 0: { Vec d = vec(2.25 * (k + 1)); base.update(d.data(), dim); a.old = a.cur; a.cur += d; a.hasOld = true; what = "update"; break; }
      case 1: { Vec d = vec(100 + k); a.v->setValue(d); a.old = a.cur; a.cur = d; a.hasOld = true; what = "set value"; break; }
      case 2: { Vec d = vec(200 + k); base.setParameters(d); a.old = a.cur; a.cur = d; a.hasOld = true; what = "set parameters"; break; }
      case 3: {
        const int kind = c.choose(4);
        // too long, too wide, empty, and too short or lying down
        Eigen::MatrixXd bad = kind == 3 ? (dim % 3 ? Eigen::MatrixXd(Eigen::MatrixXd::Constant(1, dim + (dim == 1), 5)) : Eigen::MatrixXd(Eigen::MatrixXd::Constant(dim - 1, 1, 5))) : kind == 0 ? Eigen::MatrixXd::Zero(dim + 1, 1) : kind == 1 ? Eigen::MatrixXd::Zero(dim, 2) : Eigen::MatrixXd::Zero(0, 0);
        what = "set parameters of the wrong size";
        MC_REQUIRE(core::attempt([&] { base.setParameters(bad); }, &err) == core::Refused, what << " is accepted");
        break;
      }
      case 4: { a.v.reset(new V(*s[1 - w].v)); a.cur = s[1 - w].cur; a.old = s[1 - w].old; a.hasOld = s[1 - w].hasOld; a.active = s[1 - w].active; what = "copy construct"; break; }
      case 5: { *a.v = *s[1 - w].v; a.cur = s[1 - w].cur; a.old = s[1 - w].old; a.hasOld = s[1 - w].hasOld; a.active = s[1 - w].active; what = "assign"; break; }
      case 6: { V& self = *a.v; *a.v = self; what = "assign to itself"; break; }
      case 8: { a.active = !a.active; base.setActive(a.active); what = "activate or not"; break; }
      case 7: { base.revertUpdate(); a.cur = a.old; what = "revert"; break; }
    }
    c.trace([&](std::ostream& os) { os << what << " on variable " << w << ": " << a.v->getValue().transpose(); });
    path += ", " + what + " (" + std::to_string(w) + ")";
    if (!c.fresh()) continue;
    verify();
    std::ostringstream canon;
    canon << M << "," << dim << "|" << op;
    for (auto& x : s) { canon << "|" << x.cur.transpose() << "/" << x.active << x.hasOld; if (x.hasOld) canon << x.old.transpose(); }
    c.outcome(canon.str());
    c.state(canon.str(), depth - k);
  }
}
void dv(mc::Chooser& c) {
  switch (c.choose(6)) {
    case 4: run<Eigen::Dynamic>(c, 9); break;
    case 5: run<17>(c, 17); break;
    case 0: run<1>(c, 1); break;
    case 1: run<3>(c, 3); break;
    case 2: run<Eigen::Dynamic>(c, 2); break;
    default: run<6>(c, 6);
  }
}
mc::Register v1("V01", "variable", dv, "two variables, six shapes of up to 17 dimensions, every history of up to 6 (thorough: 7; two of the shapes one less, two of them two less) of update, set, set parameters (right and wrong size), copy, assign, revert, activate", 8, 3);
}  // namespace
MC_MAIN
