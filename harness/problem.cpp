// C01-C04: the batch container and the incremental container, driven through
// every history of requests up to a depth and compared after each request with
// a reference model of what the contents must be.
#include <functional>
#include <mc.hpp>
#include <core_common.hpp>

#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>

using namespace aslam::calibration;
using namespace core;
typedef aslam::backend::DesignVariable DV;
typedef aslam::backend::ErrorTerm ET;
typedef boost::shared_ptr<OptimizationProblem> BatchSP;
typedef std::pair<int, size_t> DvGroup;  // variable id, group

namespace {

const size_t kUnknownGroup = 1234;

// ---------------------------------------------------------------- the model

// contents of a batch or of the incremental problem
struct Groups {
  std::vector<size_t> order;
  std::map<size_t, std::vector<int>> members;
  bool has(int dv) const { return group(dv) != (size_t)-1; }
  size_t group(int dv) const {
    for (auto& kv : members) if (std::count(kv.second.begin(), kv.second.end(), dv)) return kv.first;
    return (size_t)-1;
  }
  void add(int dv, size_t g) {
    if (!members.count(g)) order.push_back(g);
    members[g].push_back(dv);
  }
  void erase(int dv) {
    size_t g = group(dv);
    auto& m = members[g];
    m.erase(std::find(m.begin(), m.end(), dv));
    if (m.empty()) { members.erase(g); order.erase(std::find(order.begin(), order.end(), g)); }
  }
  std::vector<int> sequence() const {
    std::vector<int> r;
    for (size_t g : order) { auto& m = members.at(g); r.insert(r.end(), m.begin(), m.end()); }
    return r;
  }
};

struct BatchModel {
  Groups dvs;
  std::vector<int> ets;
  std::map<int, std::vector<double>> backup;
};

template <class T> void applyPerm(std::vector<T>& v, const std::vector<size_t>& p) {
  std::vector<T> o = v;
  for (size_t i = 0; i < p.size(); ++i) v[i] = o[p[i]];
}
bool isPerm(const std::vector<size_t>& p, size_t n) {
  if (p.size() != n) return false;
  std::vector<bool> s(n, false);
  for (size_t x : p) { if (x >= n || s[x]) return false; s[x] = true; }
  return true;
}

// ---------------------------------------------------------------- the world

struct World {
  std::vector<std::unique_ptr<TestDV>> store;
  std::vector<TestDVSP> dvs;
  std::vector<TestDV*> dvp;
  std::vector<boost::weak_ptr<TestDV>> dvw;
  std::vector<TestETSP> ets;
  std::vector<TestET*> etp;
  std::vector<std::vector<int>> etDvs;
  std::vector<BatchSP> batches;
  std::vector<OptimizationProblem*> batchp;
  std::vector<BatchModel> bm;
  std::vector<std::vector<double>> values;  // model of the parameter values
  std::vector<size_t> groupIds;
  std::vector<bool> forgotten;

  void dv(int dim, bool active) {
    int id = (int)dvs.size();
    // a variable nobody holds any more is marked dead; its memory stays until
    // the end of the execution, so that a late write to it is seen
    store.emplace_back(new TestDV(id, dim, active));
    dvs.push_back(TestDVSP(store.back().get(), [](TestDV* d) { d->dead = true; }));
    dvp.push_back(dvs.back().get());
    dvw.push_back(dvs.back());
    values.push_back(std::vector<double>(dvs.back()->value.data(), dvs.back()->value.data() + dim));
  }
  int et(const std::vector<int>& on) {
    int id = (int)ets.size();
    std::vector<DV*> p;
    for (int k : on) p.push_back(dvp[k]);
    ets.push_back(boost::make_shared<TestET>(id, 1, p));
    etp.push_back(ets.back().get());
    etDvs.push_back(on);
    return id;
  }
  int batch(const std::vector<DvGroup>& d, const std::vector<int>& e) {
    auto b = boost::make_shared<OptimizationProblem>();
    BatchModel m;
    for (auto& x : d) { b->addDesignVariable(dvs[x.first], x.second); m.dvs.add(x.first, x.second); }
    for (int k : e) { b->addErrorTerm(ets[k]); m.ets.push_back(k); }
    batches.push_back(b); batchp.push_back(b.get()); bm.push_back(m); forgotten.push_back(false);
    return (int)bm.size() - 1;
  }
  std::string valuesOf(bool model) const {
    std::ostringstream os;
    for (size_t i = 0; i < dvp.size(); ++i) {
      os << " x" << i << "=";
      if (dvw[i].expired()) { os << "gone"; continue; }
      for (int k = 0; k < (int)values[i].size(); ++k) os << (k ? "," : "") << (model ? values[i][k] : (k < dvp[i]->value.size() ? dvp[i]->value(k) : -999));
    }
    return os.str();
  }
  void perturb(int i) {
    for (size_t k = 0; k < values[i].size(); ++k) { values[i][k] += 1 + (double)k; dvp[i]->value((int)k) += 1 + (double)k; }
  }
};

template <class F> std::string orRefused(F f) {
  std::string s;
  try { s = f(); } catch (const std::exception&) { s = "refused"; }
  return s;
}

// everything a problem tells about its variables and groups
template <class P, class GetId> std::string observeGroups(P& p, const World& w, GetId id) {
  std::ostringstream os;
  const P& cp = p;
  const size_t n = cp.numDesignVariables();
  os << "n=" << n << " dv[";
  // forwards, and backwards again: where an observation begins is where the one
  // before ended, so that something remembered between them is seen
  std::vector<int> fwd;
  for (size_t i = 0; i < n; ++i) fwd.push_back(dvId(p.designVariable(i)));
  for (size_t i = 0; i < n; ++i) {
    const int a = fwd[i], b = dvId(cp.designVariable(i));
    os << a << (a == b ? "" : "?") << " ";
  }
  for (size_t i = n; i-- > 0;) if (dvId(cp.designVariable(i)) != fwd[i] || dvId(p.designVariable(i)) != fwd[i]) os << "!" << i << " ";
  os << "] beyond=" << orRefused([&] { p.designVariable(n); return "given"; })
     << "/" << orRefused([&] { cp.designVariable(n + 3); return "given"; });
  os << " groups=" << cp.getNumGroups() << " order[" << join(cp.getGroupsOrdering()) << "]";
  const auto& all = cp.getDesignVariablesGroups();
  os << " stored=" << all.size();
  for (size_t g : w.groupIds) {
    os << " g" << g << ":" << cp.isGroupInProblem(g) << " dim=" << orRefused([&] { return std::to_string(cp.getGroupDim(g)); }) << " {"
       << orRefused([&] { std::ostringstream s; for (auto& d : cp.getDesignVariablesGroup(g)) s << id(d) << " "; return s.str(); }) << "}";
    auto it = all.find(g);
    if (it != all.end()) { os << "="; for (auto& d : it->second) os << id(d) << " "; }
  }
  for (size_t i = 0; i < w.dvp.size(); ++i)
    os << " d" << i << ":" << cp.isDesignVariableInProblem(w.dvp[i]) << "@" << orRefused([&] { return std::to_string(cp.getGroupId(w.dvp[i])); });
  return os.str();
}
std::string expectGroups(const Groups& m, const World& w) {
  std::ostringstream os;
  auto seq = m.sequence();
  os << "n=" << seq.size() << " dv[";
  for (int i : seq) os << i << " ";
  os << "] beyond=refused/refused groups=" << m.order.size() << " order[" << join(m.order) << "] stored=" << m.order.size();
  for (size_t g : w.groupIds) {
    bool in = m.members.count(g);
    os << " g" << g << ":" << in << " dim=";
    if (!in) { os << "refused {refused}"; continue; }
    int dim = 0;
    std::ostringstream s;
    for (int i : m.members.at(g)) { if (w.dvp[i]->isActive()) dim += (int)w.values[i].size(); s << i << " "; }
    os << dim << " {" << s.str() << "}=" << s.str();
  }
  for (size_t i = 0; i < w.dvp.size(); ++i) {
    bool in = m.has((int)i);
    os << " d" << i << ":" << in << "@" << (in ? std::to_string(m.group((int)i)) : "refused");
  }
  return os.str();
}
template <class P> std::string observeErrors(P& p, const World& w) {
  std::ostringstream os;
  const P& cp = p;
  const size_t n = cp.numErrorTerms();
  os << " e=" << n << "[";
  for (size_t i = 0; i < n; ++i) {
    const int a = etId(p.errorTerm(i)), b = etId(cp.errorTerm(i));
    os << a << (a == b ? "" : "?") << " ";
  }
  for (size_t i = n; i-- > 0;) if (p.errorTerm(i) != cp.errorTerm(i)) os << "!" << i << " ";
  os << "] beyond=" << orRefused([&] { p.errorTerm(n); return "given"; }) << "/" << orRefused([&] { cp.errorTerm(n + 7); return "given"; }) << " ";
  for (auto e : w.etp) os << cp.isErrorTermInProblem(e);
  os << " nonsq=" << cp.numNonSquaredErrorTerms();
  return os.str();
}
std::string expectErrors(const std::vector<int>& e, const World& w) {
  std::ostringstream os;
  os << " e=" << e.size() << "[";
  for (int i : e) os << i << " ";
  os << "] beyond=refused/refused ";
  for (size_t i = 0; i < w.etp.size(); ++i) os << (std::count(e.begin(), e.end(), (int)i) > 0);
  os << " nonsq=0";
  return os.str();
}

std::string observeBatch(OptimizationProblem& b, const World& w) {
  std::ostringstream os;
  os << observeGroups(b, w, [](const boost::shared_ptr<DV>& d) { return dvId(d.get()); }) << observeErrors(b, w) << " terms[";
  for (auto& e : b.getErrorTerms()) os << etId(e.get()) << " ";
  os << "]";
  for (size_t i = 0; i < w.dvp.size(); ++i) {
    if (w.dvw[i].expired()) continue;
    std::set<ET*> s;
    b.getErrors(w.dvp[i], s);
    std::set<int> ids;
    for (ET* e : s) ids.insert(etId(e));
    os << " on" << i << "{" << join(ids) << "}";
  }
  return os.str();
}
std::string expectBatch(const BatchModel& m, const World& w) {
  std::ostringstream os;
  os << expectGroups(m.dvs, w) << expectErrors(m.ets, w) << " terms[";
  for (int e : m.ets) os << e << " ";
  os << "]";
  for (size_t i = 0; i < w.dvp.size(); ++i) {
    if (w.dvw[i].expired()) continue;
    std::set<int> ids;
    for (int e : m.ets) if (std::count(w.etDvs[e].begin(), w.etDvs[e].end(), (int)i)) ids.insert(e);
    os << " on" << i << "{" << join(ids) << "}";
  }
  return os.str();
}

// -------------------------------------------------------- incremental problem

struct Inc {
  IncrementalOptimizationProblem real;
  Groups dvs;
  std::vector<int> batches;
  std::map<int, std::vector<double>> backup;
  bool remember = true; int last[2] = {-1, -1}; unsigned kinds = 0;  // what has been requested: the code may remember more than the model
};

std::string observeInc(Inc& x, World& w) {
  std::ostringstream os;
  auto& p = x.real;
  const auto& cp = p;
  os << observeGroups(p, w, [](const DV* d) { return dvId(d); }) << observeErrors(p, w);
  auto batchId = [&](const OptimizationProblem* b) {
    for (size_t i = 0; i < w.batchp.size(); ++i) if (w.batchp[i] == b) return (int)i;
    return -1;
  };
  const size_t n = cp.getNumOptimizationProblems();
  os << " batches=" << n << "[";
  for (size_t i = 0; i < n; ++i) {
    int a = batchId(p.getOptimizationProblem(i)), b = batchId(cp.getOptimizationProblem(i)), c = batchId(cp.getOptimizationProblems().at(i).get());
    int d = batchId((p.getOptimizationProblemBegin() + i)->get());
    os << a << ((a == b && b == c && c == d) ? "" : "?") << "(";
    for (auto& e : cp.getErrorTerms(i)) os << etId(e.get()) << " ";
    os << ")";
  }
  os << "] stored=" << cp.getOptimizationProblems().size() << " span=" << (p.getOptimizationProblemEnd() - p.getOptimizationProblemBegin())
     << " beyond=" << orRefused([&] { p.getOptimizationProblem(n); return "given"; }) << "/" << orRefused([&] { cp.getOptimizationProblem(n + 2); return "given"; })
     << "/" << orRefused([&] { cp.getErrorTerms(n); return "given"; });
  for (size_t i = 0; i < w.batches.size(); ++i)
    if (w.batches[i]) {
      auto it = p.getOptimizationProblem(w.batches[i]);
      os << " at" << i << "=" << (it - p.getOptimizationProblemBegin());
    }
  os << w.valuesOf(false);
  return os.str();
}
std::string expectInc(Inc& x, World& w) {
  std::ostringstream os;
  std::vector<int> e;
  for (int b : x.batches) e.insert(e.end(), w.bm[b].ets.begin(), w.bm[b].ets.end());
  os << expectGroups(x.dvs, w) << expectErrors(e, w);
  const size_t n = x.batches.size();
  os << " batches=" << n << "[";
  for (int b : x.batches) {
    os << b << "(";
    for (int t : w.bm[b].ets) os << t << " ";
    os << ")";
  }
  os << "] stored=" << n << " span=" << n << " beyond=refused/refused/refused";
  for (size_t i = 0; i < w.batches.size(); ++i)
    if (w.batches[i]) os << " at" << i << "=" << (std::find(x.batches.begin(), x.batches.end(), (int)i) - x.batches.begin());
  os << w.valuesOf(true);
  return os.str();
}

std::string diff(const std::string& got, const std::string& want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  size_t from = i > 60 ? i - 60 : 0;
  return "it reports ..." + got.substr(from, 140) + "... where ..." + want.substr(from, 140) + "... holds";
}

void verifyInc(mc::Chooser& c, Inc& x, World& w, const std::string& after) {
  if (!c.fresh()) return;
  c.check();
  std::string want = expectInc(x, w), got = observeInc(x, w);
  c.outcome(want);
  MC_REQUIRE(got == want, "after " << after << " the incremental problem does not mirror its batches: " << diff(got, want));
  for (size_t i = 0; i < w.batches.size(); ++i)
    if (w.batches[i]) {
      std::string wb = expectBatch(w.bm[i], w), gb = observeBatch(*w.batches[i], w);
      MC_REQUIRE(gb == wb, "after " << after << " batch " << i << " itself changed: " << diff(gb, wb));
    }
}

bool canAdd(const Inc& x, const World& w, int b) {
  for (auto& kv : w.bm[b].dvs.members)
    for (int d : kv.second) if (x.dvs.has(d) && x.dvs.group(d) != kv.first) return false;
  for (int o : x.batches)
    for (int e : w.bm[o].ets) if (std::count(w.bm[b].ets.begin(), w.bm[b].ets.end(), e)) return false;
  return true;
}
void modelAdd(Inc& x, const World& w, int b) {
  for (size_t g : w.bm[b].dvs.order)
    for (int d : w.bm[b].dvs.members.at(g)) if (!x.dvs.has(d)) x.dvs.add(d, g);
  x.batches.push_back(b);
}
void modelRemove(Inc& x, const World& w, size_t idx) {
  int b = x.batches[idx];
  x.batches.erase(x.batches.begin() + idx);
  for (int d : w.bm[b].dvs.sequence()) {
    bool still = false;
    for (int o : x.batches) if (w.bm[o].dvs.has(d)) still = true;
    if (!still) { x.dvs.erase(d); x.backup.erase(d); }
  }
}

std::string canonInc(const Inc& x, const World& w, const std::string& worldId) {
  std::ostringstream os;
  os << worldId << "|" << join(x.batches) << "|" << join(x.dvs.order) << "|";
  for (auto& kv : x.dvs.members) os << kv.first << ":" << join(kv.second) << ";";
  for (auto& b : w.bm) os << "|" << join(b.ets) << "/" << join(b.dvs.sequence());
  for (auto& kv : x.backup) os << "|" << kv.first << "=" << join(kv.second);
  os << w.valuesOf(true);
  for (bool f : w.forgotten) os << f;
  if (x.remember) os << "|" << x.last[0] << "," << x.last[1];
  os << "," << x.kinds;
  return os.str();
}

// rearrangements tried: the generators of all others, plus a reversal
std::vector<std::vector<size_t>> rearrangements(size_t n, bool all) {
  std::vector<std::vector<size_t>> r;
  std::vector<size_t> id(n);
  for (size_t i = 0; i < n; ++i) id[i] = i;
  if (all && n <= 4) return permutationsOf(id);
  if (n < 2) return r;
  std::vector<size_t> p = id;
  std::swap(p[0], p[1]); r.push_back(p);
  if (n > 2) {
    p = id; std::rotate(p.begin(), p.begin() + 1, p.end()); r.push_back(p);
    p = id; std::reverse(p.begin(), p.end()); r.push_back(p);
  }
  return r;
}

struct Op {
  enum Kind { Add, RemoveIdx, RemoveIt, RemovePtr, PermBatches, PermDvs, Order, PermEts, Save, Restore, Perturb, Clear, Forget, BatchPermDvs } kind;
  int a = 0;
  size_t g = 0;
  std::vector<size_t> p;
};

std::string describe(const Op& o) {
  std::ostringstream os;
  switch (o.kind) {
    case Op::Add: os << "add(batch " << o.a << ")"; break;
    case Op::RemoveIdx: os << "remove(index " << o.a << ")"; break;
    case Op::RemoveIt: os << "remove(iterator " << o.a << ")"; break;
    case Op::RemovePtr: os << "remove(batch " << o.a << ")"; break;
    case Op::PermBatches: os << "permute batches (" << join(o.p) << ")"; break;
    case Op::PermDvs: os << "permute variables of group " << o.g << " (" << join(o.p) << ")"; break;
    case Op::Order: os << "set group order (" << join(o.p) << ")"; break;
    case Op::PermEts: os << "permute error terms of batch " << o.a << " (" << join(o.p) << ")"; break;
    case Op::BatchPermDvs: os << "permute variables of batch " << o.a << " group " << o.g << " (" << join(o.p) << ")"; break;
    case Op::Save: os << "save"; break;
    case Op::Restore: os << "restore"; break;
    case Op::Perturb: os << "change variable " << o.a; break;
    case Op::Clear: os << "clear"; break;
    case Op::Forget: os << "drop batch " << o.a; break;
  }
  return os.str();
}

struct Menu {
  bool rearrange = true, allPerms = false, save = false, refuse = false;
  int maxBatches = 3;
};

std::vector<Op> options(const Inc& x, const World& w, const Menu& menu) {
  std::vector<Op> r;
  auto op = [&](Op::Kind k, int a = 0, size_t g = 0, std::vector<size_t> p = {}) { Op o; o.kind = k; o.a = a; o.g = g; o.p = p; r.push_back(o); };
  for (size_t b = 0; b < w.batches.size(); ++b)
    if (w.batches[b] && (menu.refuse || (canAdd(x, w, (int)b) && (int)x.batches.size() < menu.maxBatches))) op(Op::Add, (int)b);
  for (size_t i = 0; i < x.batches.size(); ++i) op(i % 2 ? Op::RemoveIt : Op::RemoveIdx, (int)i);
  for (size_t b = 0; b < w.batches.size(); ++b)
    if (w.batches[b] && (menu.refuse || std::count(x.batches.begin(), x.batches.end(), (int)b))) op(Op::RemovePtr, (int)b);
  if (menu.rearrange) {
    for (auto& p : rearrangements(x.batches.size(), menu.allPerms)) op(Op::PermBatches, 0, 0, p);
    for (auto& kv : x.dvs.members) for (auto& p : rearrangements(kv.second.size(), menu.allPerms)) op(Op::PermDvs, 0, kv.first, p);
    for (auto& p : rearrangements(x.dvs.order.size(), menu.allPerms)) {
      std::vector<size_t> o = x.dvs.order;
      applyPerm(o, p);
      op(Op::Order, 0, 0, o);
    }
    for (size_t b = 0; b < w.batches.size(); ++b)
      if (w.batches[b] && w.bm[b].ets.size() > 1) for (auto& p : rearrangements(w.bm[b].ets.size(), false)) op(Op::PermEts, (int)b, 0, p);
  }
  if (menu.save) {
    op(Op::Save); op(Op::Restore); op(Op::Clear);
    for (size_t i = 0; i < w.dvp.size(); ++i) if (!w.dvw[i].expired()) op(Op::Perturb, (int)i);
    for (size_t b = 0; b < w.batches.size(); ++b) if (w.batches[b]) op(Op::Forget, (int)b);
  }
  if (menu.refuse) {
    op(Op::Add, -1);
    const size_t n = x.batches.size();
    op(Op::RemoveIdx, (int)n); op(Op::RemoveIdx, -1); op(Op::RemoveIdx, -2); op(Op::RemoveIt, (int)n); op(Op::RemovePtr, -1);
    auto bad = [&](size_t m) {
      std::vector<std::vector<size_t>> ps;
      std::vector<size_t> id(m);
      for (size_t i = 0; i < m; ++i) id[i] = i;
      auto p = id; p.push_back(m); ps.push_back(p);                       // too long
      if (m) { p = id; p.pop_back(); ps.push_back(p); }                  // too short
      if (m) { p = id; p.back() = m; ps.push_back(p); }                  // out of range, last
      if (m > 1) { p = id; std::reverse(p.begin(), p.end()); p.back() = m + 1; ps.push_back(p); }  // out of range behind a change
      if (m > 1) { p = id; p[1] = p[0]; ps.push_back(p); p = id; p[0] = p[m - 1]; ps.push_back(p); }  // repeated
      if (m > 2) { p = id; std::rotate(p.begin(), p.begin() + 1, p.end()); p[m - 1] = p[0]; ps.push_back(p); }
      return ps;
    };
    for (auto& p : bad(n)) op(Op::PermBatches, 0, 0, p);
    for (auto& kv : x.dvs.members) for (auto& p : bad(kv.second.size())) op(Op::PermDvs, 0, kv.first, p);
    op(Op::PermDvs, 0, kUnknownGroup, {});
    op(Op::PermDvs, 0, kUnknownGroup, {0});
    std::vector<size_t> o = x.dvs.order;
    if (!o.empty()) {
      auto q = o; q.pop_back(); op(Op::Order, 0, 0, q);
      q = o; q.back() = kUnknownGroup; op(Op::Order, 0, 0, q);
      if (q.size() > 1) { q = o; q[0] = q[1]; op(Op::Order, 0, 0, q); q = o; std::reverse(q.begin(), q.end()); q.back() = q[0]; op(Op::Order, 0, 0, q); }
    }
    o.push_back(o.empty() ? kUnknownGroup : o[0]);
    op(Op::Order, 0, 0, o);
  }
  return r;
}

// applies to the code and to the model; returns whether the code must refuse
void apply(mc::Chooser& c, Inc& x, World& w, const Op& o, const Menu& menu) {
  c.step();
  const std::string what = describe(o);
  c.trace([&](std::ostream& os) { os << what; });
  verifyInc(c, x, w, "what came before");
  auto& real = x.real;
  x.last[1] = x.last[0]; x.last[0] = (int)o.kind; x.kinds |= 1u << (int)o.kind;
  const size_t n = x.batches.size();
  bool legal = true;
  Result r = Done;
  std::string why;
  switch (o.kind) {
    case Op::Add: {
      legal = o.a >= 0 && canAdd(x, w, o.a);
      BatchSP b = o.a >= 0 ? w.batches[o.a] : BatchSP();
      r = attempt([&] { real.add(b); }, &why);
      if (legal) modelAdd(x, w, o.a);
      break;
    }
    case Op::RemoveIdx: {
      size_t idx = o.a == -1 ? (size_t)-1 : o.a == -2 ? (size_t)1 << 60 : (size_t)o.a;
      legal = idx < n;
      r = attempt([&] { real.remove(idx); }, &why);
      if (legal) modelRemove(x, w, idx);
      break;
    }
    case Op::RemoveIt:
      legal = (size_t)o.a < n;
      r = attempt([&] { real.remove(real.getOptimizationProblemBegin() + o.a); }, &why);
      if (legal) modelRemove(x, w, o.a);
      break;
    case Op::RemovePtr: {
      auto it = std::find(x.batches.begin(), x.batches.end(), o.a);
      legal = it != x.batches.end();
      BatchSP b = o.a >= 0 ? w.batches[o.a] : BatchSP();
      r = attempt([&] { real.remove(b); }, &why);
      if (legal) modelRemove(x, w, it - x.batches.begin());
      break;
    }
    case Op::PermBatches:
      legal = isPerm(o.p, n);
      r = attempt([&] { real.permuteOptimizationProblems(o.p); }, &why);
      if (legal) applyPerm(x.batches, o.p);
      break;
    case Op::PermDvs:
      legal = x.dvs.members.count(o.g) && isPerm(o.p, x.dvs.members[o.g].size());
      r = attempt([&] { real.permuteDesignVariables(o.p, o.g); }, &why);
      if (legal) applyPerm(x.dvs.members[o.g], o.p);
      break;
    case Op::Order: {
      auto a = o.p, b = x.dvs.order;
      std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      legal = a == b;
      r = attempt([&] { real.setGroupsOrdering(o.p); }, &why);
      if (legal) x.dvs.order = o.p;
      break;
    }
    case Op::PermEts:
      r = attempt([&] { w.batches[o.a]->permuteErrorTerms(o.p); }, &why);
      applyPerm(w.bm[o.a].ets, o.p);
      break;
    case Op::BatchPermDvs: break;
    case Op::Save:
      r = attempt([&] { real.saveDesignVariables(); }, &why);
      for (int d : x.dvs.sequence()) x.backup[d] = w.values[d];
      break;
    case Op::Restore:
      r = attempt([&] { real.restoreDesignVariables(); }, &why);
      for (auto& kv : x.backup) w.values[kv.first] = kv.second;
      break;
    case Op::Perturb: w.perturb(o.a); break;
    case Op::Clear:
      r = attempt([&] { real.clear(); }, &why);
      x.batches.clear(); x.dvs = Groups(); x.backup.clear();
      break;
    case Op::Forget:
      w.batches[o.a].reset();
      w.forgotten[o.a] = true;
      for (size_t i = 0; i < w.dvs.size(); ++i) {
        bool used = false;
        for (size_t b = 0; b < w.batches.size(); ++b) if (w.batches[b] && w.bm[b].dvs.has((int)i)) used = true;
        if (!used) w.dvs[i].reset();
      }
      for (auto& e : w.ets) e.reset();
      break;
  }
  (void)menu;
  if (r == Refused) c.trace([&](std::ostream& os) { os << "   refused: " << why; });
  MC_REQUIRE(legal || r == Refused, what << " was accepted, although it is invalid in this state");
  MC_REQUIRE(!legal || r == Done, what << " is valid in this state but was refused: " << why);
  verifyInc(c, x, w, what + (legal ? "" : " (refused)"));
}

void explore(mc::Chooser& c, Inc& x, World& w, const std::string& id, const Menu& menu, int depth) {
  verifyInc(c, x, w, "construction");
  for (int k = 0; k < depth; ++k) {
    if (c.fresh()) c.state(canonInc(x, w, id), depth - k);
    auto ops = options(x, w, menu);
    if (ops.empty()) break;
    apply(c, x, w, ops[c.choose((int)ops.size())], menu);
  }
}

// three batches over four variables, every choice of which batch has which
void c01Worlds(mc::Chooser& c) {
  const bool thorough = mc::config().thorough();
  std::vector<std::array<int, 3>> sets;
  for (int a = 0; a < 16; ++a) for (int b = a; b < 16; ++b) for (int d = b; d < 16; ++d) sets.push_back({{a, b, d}});
  int k = c.choose((int)sets.size());
  World w;
  const size_t groups[4] = {5, 5, 0, 3};
  w.groupIds = {0, 3, 5, kUnknownGroup};
  for (int i = 0; i < 4; ++i) w.dv(1 + i % 3, i != 2);
  for (int b = 0; b < 3; ++b) {
    std::vector<DvGroup> d;
    for (int i = 0; i < 4; ++i) if (sets[k][b] >> i & 1) d.push_back(DvGroup(i, groups[i]));
    if (b == 1) std::reverse(d.begin(), d.end());
    std::vector<int> e;
    for (int t = 0; t < (b + 2) % 3; ++t) {
      std::vector<int> on;
      for (size_t q = 0; q < d.size(); ++q) if (((int)q + t) % 2 == 0) on.push_back(d[q].first);
      e.push_back(w.et(on));
    }
    w.batch(d, e);
  }
  c.trace([&](std::ostream& os) { for (int b = 0; b < 3; ++b) os << "batch " << b << " has variables {" << join(w.bm[b].dvs.sequence()) << "} errors {" << join(w.bm[b].ets) << "} "; });
  Inc x;
  Menu menu;
  explore(c, x, w, std::to_string(k), menu, thorough ? 6 : 4);
}

World richWorld() {
  World w;
  w.groupIds = {0, 2, 9, 4, kUnknownGroup};
  for (int i = 0; i < 6; ++i) w.dv(1 + i % 2, i != 4);
  for (int i = 0; i < 6; ++i) w.et({i, (i + 1) % 6});
  // shared calibration variables 0, 1 in group 2; a private variable each
  int e6 = w.et({0, 2}), e7 = w.et({0, 1, 3}), e8 = w.et({1, 3});
  (void)e6;
  w.batch({DvGroup(2, 0), DvGroup(0, 2)}, {6});
  w.batch({DvGroup(0, 2), DvGroup(1, 2), DvGroup(3, 9)}, {e7, e8});
  w.batch({DvGroup(4, 0), DvGroup(1, 2), DvGroup(5, 4)}, {w.et({4}), w.et({1}), w.et({5})});
  w.batch({DvGroup(2, 0), DvGroup(3, 9)}, {w.et({2, 3})});
  return w;
}
void c01Deep(mc::Chooser& c) {
  World w = richWorld();
  Inc x;
  x.remember = mc::config().thorough();
  Menu menu;
  menu.maxBatches = 4;
  menu.allPerms = mc::config().thorough();
  explore(c, x, w, "deep", menu, mc::config().thorough() ? 8 : 6);
}

mc::Register r1("C01", "worlds", c01Worlds,
  "every choice of variable subsets for three batches over four variables in three groups; every sequence of adds, removals (by index, iterator, batch) and rearrangements up to the depth, all observers compared with a reference model after each", 8, 1);
mc::Register r2("C01", "deep", c01Deep,
  "four overlapping batches, six variables, four groups: longer histories of the same requests", 8, 2);

// ------------------------------------------------------------------- C02
World refusalWorld() {
  World w;
  w.groupIds = {0, 2, 9, 4, kUnknownGroup};
  for (int i = 0; i < 5; ++i) w.dv(1 + i % 2, true);
  int e0 = w.et({0}), e1 = w.et({0, 1}), e2 = w.et({1});
  w.batch({DvGroup(0, 2), DvGroup(2, 0)}, {e0});
  w.batch({DvGroup(1, 2), DvGroup(0, 2), DvGroup(2, 0)}, {e1, e2});
  // new variable and group first, then a variable that others have elsewhere
  w.batch({DvGroup(4, 9), DvGroup(2, 0), DvGroup(0, 4), DvGroup(3, 4)}, {w.et({4})});
  // new variable, then an error term of another batch
  w.batch({DvGroup(3, 4), DvGroup(1, 2), DvGroup(0, 2)}, {w.et({3}), e1});
  w.batch({DvGroup(4, 9)}, {});
  return w;
}
void c02Inc(mc::Chooser& c) {
  World w = refusalWorld();
  Inc x;
  Menu menu;
  menu.refuse = true; menu.maxBatches = 4;
  explore(c, x, w, "refuse", menu, mc::config().thorough() ? 5 : 4);
}
mc::Register r3("C02", "incremental", c02Inc,
  "five batches of which some contradict others (same error term, same variable in another group): every sequence of valid and invalid requests; an invalid one must be refused and leave every observer unchanged", 8, 2);

// ----------------------------------------------------------------- C03, C02
struct BatchOp {
  enum Kind { AddDv, AddEt, PermEts, PermDvs, Order, Clear, Save, Restore, Perturb } kind;
  int a = 0;
  size_t g = 0;
  std::vector<size_t> p;
};
std::string describe(const BatchOp& o) {
  std::ostringstream os;
  switch (o.kind) {
    case BatchOp::AddDv: os << "add variable " << o.a << " to group " << o.g; break;
    case BatchOp::AddEt: os << "add error term " << o.a; break;
    case BatchOp::PermEts: os << "permute error terms (" << join(o.p) << ")"; break;
    case BatchOp::PermDvs: os << "permute variables of group " << o.g << " (" << join(o.p) << ")"; break;
    case BatchOp::Order: os << "set group order (" << join(o.p) << ")"; break;
    case BatchOp::Clear: os << "clear"; break;
    case BatchOp::Save: os << "save"; break;
    case BatchOp::Restore: os << "restore"; break;
    case BatchOp::Perturb: os << "change variable " << o.a; break;
  }
  return os.str();
}

void batchHistory(mc::Chooser& c, bool refuse, bool save, int depth) {
  World w;
  w.groupIds = {0, 2, 9, kUnknownGroup};
  for (int i = 0; i < 4; ++i) w.dv(1 + i % 3, i != 1);
  w.et({0}); w.et({0, 1}); w.et({2, 3, 0}); w.et({});
  OptimizationProblem real;
  BatchModel m;
  auto verify = [&](const std::string& after) {
    if (!c.fresh()) return;
    c.check();
    std::string want = expectBatch(m, w) + w.valuesOf(true), got = observeBatch(real, w) + w.valuesOf(false);
    c.outcome(want);
    MC_REQUIRE(got == want, "after " << after << " the batch does not hold what was put into it: " << diff(got, want));
  };
  verify("construction");
  int last[2] = {-1, -1}; unsigned kinds = 0;
  for (int k = 0; k < depth; ++k) {
    if (c.fresh()) {
    std::ostringstream canon;
    canon << join(m.dvs.order) << "|";
    for (auto& kv : m.dvs.members) canon << kv.first << ":" << join(kv.second) << ";";
    canon << "|" << join(m.ets) << w.valuesOf(true);
    for (auto& kv : m.backup) canon << "|" << kv.first << "=" << join(kv.second);
    canon << "|" << last[0] << "," << last[1] << "," << kinds;
    c.state(canon.str(), depth - k);
    }

    std::vector<BatchOp> ops;
    auto op = [&](BatchOp::Kind kk, int a = 0, size_t g = 0, std::vector<size_t> p = {}) { BatchOp o; o.kind = kk; o.a = a; o.g = g; o.p = p; ops.push_back(o); };
    for (int i = 0; i < 4; ++i) {
      if (!m.dvs.has(i)) { for (size_t g : {(size_t)0, (size_t)2, (size_t)9}) if (!save || g == (size_t)(i % 2 ? 2 : 0)) op(BatchOp::AddDv, i, g); }
      else if (refuse) { op(BatchOp::AddDv, i, m.dvs.group(i)); op(BatchOp::AddDv, i, m.dvs.group(i) == 9 ? 0 : 9); }
    }
    auto dvsIn = [&](int e) { for (int d : w.etDvs[e]) if (!m.dvs.has(d)) return false; return true; };
    for (int e = 0; e < 4; ++e) {
      bool ok = !std::count(m.ets.begin(), m.ets.end(), e) && dvsIn(e);
      if ((ok && !save) || refuse) op(BatchOp::AddEt, e);
    }
    if (!save) {
      for (auto& p : rearrangements(m.ets.size(), true)) op(BatchOp::PermEts, 0, 0, p);
      for (auto& kv : m.dvs.members) for (auto& p : rearrangements(kv.second.size(), true)) op(BatchOp::PermDvs, 0, kv.first, p);
      for (auto& p : rearrangements(m.dvs.order.size(), true)) { auto o = m.dvs.order; applyPerm(o, p); op(BatchOp::Order, 0, 0, o); }
      op(BatchOp::Clear);
    } else {
      op(BatchOp::Save); op(BatchOp::Restore); op(BatchOp::Clear);
      for (int i = 0; i < 4; ++i) op(BatchOp::Perturb, i);
    }
    if (refuse) {
      op(BatchOp::AddDv, -1, 0); op(BatchOp::AddDv, -1, 9); op(BatchOp::AddEt, -1);
      auto bad = [&](size_t n) {
        std::vector<std::vector<size_t>> ps;
        std::vector<size_t> id(n);
        for (size_t i = 0; i < n; ++i) id[i] = i;
        auto p = id; p.push_back(0); ps.push_back(p);
        if (n) { p = id; p.pop_back(); ps.push_back(p); p = id; p.back() = n; ps.push_back(p); p = id; std::reverse(p.begin(), p.end()); p.back() = (size_t)-1; ps.push_back(p); }
        if (n > 1) { p = id; p[0] = p[1]; ps.push_back(p); p = id; p[1] = p[0]; ps.push_back(p); p = id; std::reverse(p.begin(), p.end()); p.back() = p[0]; ps.push_back(p); }
        return ps;
      };
      for (auto& p : bad(m.ets.size())) op(BatchOp::PermEts, 0, 0, p);
      for (auto& kv : m.dvs.members) for (auto& p : bad(kv.second.size())) op(BatchOp::PermDvs, 0, kv.first, p);
      op(BatchOp::PermDvs, 0, kUnknownGroup, {0});
      auto o = m.dvs.order;
      if (!o.empty()) {
        auto q = o; q.pop_back(); op(BatchOp::Order, 0, 0, q);
        q = o; q[0] = kUnknownGroup; op(BatchOp::Order, 0, 0, q);
        if (o.size() > 1) { q = o; q[0] = q[1]; op(BatchOp::Order, 0, 0, q); q = o; std::reverse(q.begin(), q.end()); q.back() = q[0]; op(BatchOp::Order, 0, 0, q); }
      }
      o.push_back(o.empty() ? kUnknownGroup : o[0]); op(BatchOp::Order, 0, 0, o);
    }
    const BatchOp o = ops[c.choose((int)ops.size())];
    c.step();
    const std::string what = describe(o);
    c.trace([&](std::ostream& os) { os << what; });
    verify("what came before");
    last[1] = last[0]; last[0] = (int)o.kind; kinds |= 1u << (int)o.kind;
    bool legal = true;
    Result r = Done;
    std::string why;
    switch (o.kind) {
      case BatchOp::AddDv:
        legal = o.a >= 0 && !m.dvs.has(o.a);
        r = attempt([&] { real.addDesignVariable(o.a >= 0 ? boost::shared_ptr<DV>(w.dvs[o.a]) : boost::shared_ptr<DV>(), o.g); }, &why);
        if (legal) m.dvs.add(o.a, o.g);
        break;
      case BatchOp::AddEt:
        legal = o.a >= 0 && !std::count(m.ets.begin(), m.ets.end(), o.a) && dvsIn(o.a);
        r = attempt([&] { real.addErrorTerm(o.a >= 0 ? boost::shared_ptr<ET>(w.ets[o.a]) : boost::shared_ptr<ET>()); }, &why);
        if (legal) m.ets.push_back(o.a);
        break;
      case BatchOp::PermEts:
        legal = isPerm(o.p, m.ets.size());
        r = attempt([&] { real.permuteErrorTerms(o.p); }, &why);
        if (legal) applyPerm(m.ets, o.p);
        break;
      case BatchOp::PermDvs:
        legal = m.dvs.members.count(o.g) && isPerm(o.p, m.dvs.members[o.g].size());
        r = attempt([&] { real.permuteDesignVariables(o.p, o.g); }, &why);
        if (legal) applyPerm(m.dvs.members[o.g], o.p);
        break;
      case BatchOp::Order: {
        auto a = o.p, b = m.dvs.order;
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        legal = a == b;
        r = attempt([&] { real.setGroupsOrdering(o.p); }, &why);
        if (legal) m.dvs.order = o.p;
        break;
      }
      case BatchOp::Clear: r = attempt([&] { real.clear(); }, &why); m = BatchModel(); break;
      case BatchOp::Save: r = attempt([&] { real.saveDesignVariables(); }, &why); for (int d : m.dvs.sequence()) m.backup[d] = w.values[d]; break;
      case BatchOp::Restore: r = attempt([&] { real.restoreDesignVariables(); }, &why); for (auto& kv : m.backup) w.values[kv.first] = kv.second; break;
      case BatchOp::Perturb: w.perturb(o.a); break;
    }
    if (r == Refused) c.trace([&](std::ostream& os) { os << "   refused: " << why; });
    MC_REQUIRE(legal || r == Refused, what << " was accepted, although it is invalid in this state");
    MC_REQUIRE(!legal || r == Done, what << " is valid in this state but was refused: " << why);
    verify(what + (legal ? "" : " (refused)"));
  }
}
void c02Batch(mc::Chooser& c) { batchHistory(c, true, false, mc::config().thorough() ? 6 : 5); }
void c03Batch(mc::Chooser& c) { batchHistory(c, false, false, mc::config().thorough() ? 7 : 6); }
mc::Register r4("C02", "batch", c02Batch, "one batch, four variables, three groups, four error terms: every sequence of valid and invalid requests", 8, 2);
mc::Register r5("C03", "batch", c03Batch, "one batch, four variables (one inactive), three groups, four error terms: every sequence of insertions, rearrangements (all permutations) and clearing", 8, 2);

// ------------------------------------------------------------------- C04
void c04Inc(mc::Chooser& c) {
  World w;
  w.groupIds = {0, 2, kUnknownGroup};
  for (int i = 0; i < 3; ++i) w.dv(1 + i % 2, i != 2);
  w.batch({DvGroup(0, 2), DvGroup(1, 0)}, {w.et({0, 1})});
  w.batch({DvGroup(0, 2), DvGroup(2, 0)}, {w.et({0, 2})});
  Inc x;
  Menu menu;
  menu.rearrange = false; menu.save = true; menu.maxBatches = 2;
  explore(c, x, w, "save", menu, mc::config().thorough() ? 8 : 6);
}
void c04Batch(mc::Chooser& c) { batchHistory(c, false, true, mc::config().thorough() ? 8 : 6); }
mc::Register r6("C04", "incremental", c04Inc, "two overlapping batches over three variables: every sequence of add, remove, change a value, save, restore, clear, and letting go of a batch (its variables cease to exist)", 8, 2);
mc::Register r7("C04", "batch", c04Batch, "one batch: every sequence of add variable, change a value, save, restore, clear", 8, 2);


// ------------------------------------------------------------- C01-C04, large
// Contents far larger than those of the exhaustive histories: what is done to
// them is enumerated over the ends and the middle.
bool atEnds(int i, size_t n) { const int k = (int)n; return i == 0 || i == k - 1 || i == k / 2; }
void many(mc::Chooser& c, const Menu& menu, int depth) {
  static const int sizes[] = {9, 20, 34}, groups[] = {13, 1, 4};
  const bool thorough = mc::config().thorough();
  const int size = c.choose(thorough ? 3 : 2), n = sizes[size], g = groups[c.choose(thorough ? 3 : 2)], shape = c.choose(4);
  World w;
  for (int k = 0; k < g; ++k) w.groupIds.push_back((size_t)(7 * k + 3) % 91);
  const std::vector<size_t> ids = w.groupIds;
  w.groupIds.push_back(kUnknownGroup);
  // shared: none, some by all, neighbours', every other's; dimensions up to 7
  const int calibration = shape == 1 ? 3 : 0, own = 2, all = calibration + own * n;
  for (int i = 0; i < all; ++i) w.dv(1 + (3 * i) % 7, i % 5 != 4);
  auto group = [&](int v) { return ids[(size_t)(v + (v < calibration ? 0 : v / 3)) % ids.size()]; };
  for (int b = 0; b < n; ++b) {
    std::vector<int> vs;
    for (int k = 0; k < own; ++k) vs.push_back(calibration + own * b + k);
    for (int k = 0; k < calibration; ++k) vs.insert(vs.begin() + (k % 2 ? 0 : vs.size()), k);
    if (shape == 2 && b + 1 < n) vs.push_back(calibration + own * (b + 1));
    if (shape == 3 && b >= 2) vs.push_back(calibration + own * (b - 2) + 1);
    std::vector<DvGroup> d;
    for (int v : vs) d.push_back(DvGroup(v, group(v)));
    std::vector<int> e;
    for (int k = 0; k < (b * 5) % 9; ++k) e.push_back(w.et({vs[k % vs.size()], vs[(k + 1) % vs.size()]}));
    w.batch(d, e);
  }
  Inc x;
  x.remember = false;
  const bool backwards = thorough ? c.flip() : (shape + size) % 2;
  for (int k = 0; k < n; ++k) {
    const int b = backwards ? n - 1 - k : k;
    x.real.add(w.batches[b]); modelAdd(x, w, b);
  }
  const std::string id = "many" + std::to_string(n) + "/" + std::to_string(g) + "/" + std::to_string(shape) + (backwards ? "b" : "");
  c.trace([&](std::ostream& os) { os << n << " batches, " << all << " variables in " << g << " groups, shape " << shape << (backwards ? ", added backwards" : ""); });
  verifyInc(c, x, w, "adding all batches");
  if (menu.save && c.flip()) {
    x.real.saveDesignVariables();
    for (int d : x.dvs.sequence()) x.backup[d] = w.values[d];
    for (int i = 0; i < all; ++i) w.perturb(i);
    c.trace([&](std::ostream& os) { os << "saved, then all changed"; });
  }
  for (int k = 0; k < depth; ++k) {
    if (c.fresh()) c.state(canonInc(x, w, id), depth - k);
    std::vector<Op> ops;
    int added = 0;
    for (auto& o : options(x, w, menu)) {
      bool keep = true;
      switch (o.kind) {
        case Op::Add: keep = o.a < 0 || (canAdd(x, w, o.a) ? added++ < 2 : atEnds(o.a, n)); break;
        case Op::RemoveIdx: case Op::RemoveIt: keep = o.a < 0 || atEnds(o.a, x.batches.size()); break;
        case Op::RemovePtr: if (menu.save) { keep = false; break; }  // fall through
        case Op::PermEts: keep = o.a < 0 || atEnds(o.a, n) ; break;
        case Op::PermDvs: keep = o.g == kUnknownGroup || o.g == x.dvs.order.front() || o.g == x.dvs.order.back(); break;
        case Op::Perturb: keep = o.a == 0 || o.a == all - 1 || o.a == all / 2; break;
        case Op::Forget: keep = o.a == 0 || o.a == n / 2; break;
        default: break;
      }
      if (keep) ops.push_back(o);
    }
    if (ops.empty()) break;
    apply(c, x, w, ops[c.choose((int)ops.size())], menu);
  }
}
void c01Many(mc::Chooser& c) { Menu m; m.maxBatches = 1000; many(c, m, mc::config().thorough() ? 3 : 2); }
void c02Many(mc::Chooser& c) { Menu m; m.maxBatches = 1000; m.refuse = true; many(c, m, mc::config().thorough() ? 2 : 1); }
void c04Many(mc::Chooser& c) { Menu m; m.maxBatches = 1000; m.rearrange = false; m.save = true; many(c, m, mc::config().thorough() ? 3 : 2); }
mc::Register l1("C01", "many", c01Many, "9 or 20 (thorough: 34) batches with up to 71 variables of up to 7 dimensions in 1 or 13 (thorough: 4) groups, shared in four ways, added forwards or backwards; then every history of 2 (thorough: 3) requests at the ends and in the middle", 8, 3);
mc::Register l2("C02", "many", c02Many, "9 or 20 (thorough: 34) batches in 1 or 13 (thorough: 4) groups, shared in four ways; then every valid and invalid request, alone (thorough: two)", 8, 3);
mc::Register l4("C04", "many", c04Many, "9 or 20 (thorough: 34) batches in 1 or 13 (thorough: 4) groups, shared in four ways, saved and changed or not; then every history of 2 (thorough: 3) of add, remove, change a value, save, restore, clear, and letting go of a batch, at the ends and in the middle", 8, 3);

void manyBatch(mc::Chooser& c, bool refuse, bool save, int depth) {
  static const int sizes[] = {66, 9, 25}, groups[] = {13, 1, 4};
  const int n = sizes[c.choose(mc::config().thorough() ? 3 : 2)], g = groups[c.choose(mc::config().thorough() ? 3 : 2)];
  World w;
  for (int k = 0; k < g; ++k) w.groupIds.push_back((size_t)(7 * k + 3) % 91);
  const std::vector<size_t> ids = w.groupIds;
  w.groupIds.push_back(kUnknownGroup);
  for (int i = 0; i < n; ++i) w.dv(1 + (3 * i) % 7, i % 5 != 4);
  for (int i = 0; i < n; ++i) w.et({i, (i + 1) % n, (i * i) % n});
  OptimizationProblem real;
  BatchModel m;
  // all but the last variable and its error terms
  for (int i = 0; i + 1 < n; ++i) { const size_t k = ids[(size_t)(i + i / 3) % ids.size()]; real.addDesignVariable(w.dvs[i], k); m.dvs.add(i, k); }
  auto dvsIn = [&](int e) { for (int d : w.etDvs[e]) if (!m.dvs.has(d)) return false; return true; };
  for (int e = 0; e < n; ++e) if (dvsIn(e) && e != 3) { real.addErrorTerm(w.ets[e]); m.ets.push_back(e); }
  auto verify = [&](const std::string& after) {
    if (!c.fresh()) return;
    c.check();
    std::string want = expectBatch(m, w) + w.valuesOf(true), got = observeBatch(real, w) + w.valuesOf(false);
    c.outcome(want);
    MC_REQUIRE(got == want, "after " << after << " the batch does not hold what was put into it: " << diff(got, want));
  };
  c.trace([&](std::ostream& os) { os << n - 1 << " variables in " << g << " groups"; });
  verify("filling");
  for (int k = 0; k < depth; ++k) {
    struct Request { std::string what; bool legal; std::function<void()> real, model; };
    std::vector<Request> rs;
    auto request = [&](const std::string& what, bool legal, std::function<void()> f, std::function<void()> h) { rs.push_back({what, legal, f, h}); };
    for (int i : {0, n / 2, n - 1}) {
      const size_t grp = m.dvs.has(i) ? m.dvs.group(i) : ids[0];
      if (!m.dvs.has(i) || refuse) request("add variable " + std::to_string(i), !m.dvs.has(i), [&, i, grp] { real.addDesignVariable(w.dvs[i], grp); }, [&, i, grp] { m.dvs.add(i, grp); });
      if (!m.dvs.has(i) || refuse) request("add variable to a new group", !m.dvs.has(i), [&, i] { real.addDesignVariable(w.dvs[i], kUnknownGroup); }, [&, i] { m.dvs.add(i, kUnknownGroup); });
    }
    for (int e : {0, 3, n - 2, n - 1}) {
      const bool ok = !std::count(m.ets.begin(), m.ets.end(), e) && dvsIn(e);
      if (ok || refuse) request("add error term " + std::to_string(e), ok, [&, e] { real.addErrorTerm(w.ets[e]); }, [&, e] { m.ets.push_back(e); });
    }
    auto perms = [&](size_t z) {
      auto ps = rearrangements(z, false);
      std::vector<size_t> id(z);
      for (size_t i = 0; i < z; ++i) id[i] = i;
      if (z > 6) { auto p = id; for (size_t i = 0; i < z; ++i) p[i] = (i * (z % 5 ? 5 : 7)) % z; ps.push_back(p); }
      if (refuse && z > 2) { auto p = id; p[z - 1] = z; ps.push_back(p); p = id; p[z - 1] = p[0]; ps.push_back(p); p = id; p.pop_back(); ps.push_back(p); p = id; p.push_back(z); ps.push_back(p); }
      return ps;
    };
    if (!save) {
      for (auto& p : perms(m.ets.size())) request("permute error terms (" + join(p) + ")", isPerm(p, m.ets.size()), [&, p] { real.permuteErrorTerms(p); }, [&, p] { applyPerm(m.ets, p); });
      if (!m.dvs.order.empty()) for (size_t grp : std::set<size_t>{m.dvs.order.front(), m.dvs.order.back()})
        for (auto& p : perms(m.dvs.members[grp].size())) request("permute group " + std::to_string(grp) + " (" + join(p) + ")", isPerm(p, m.dvs.members[grp].size()), [&, p, grp] { real.permuteDesignVariables(p, grp); }, [&, p, grp] { applyPerm(m.dvs.members[grp], p); });
      for (auto& p : rearrangements(m.dvs.order.size(), false)) {
        auto o = m.dvs.order; applyPerm(o, p);
        request("set group order", true, [&, o] { real.setGroupsOrdering(o); }, [&, o] { m.dvs.order = o; });
        if (refuse) { auto q = o; q[0] = q[q.size() - 1]; request("set group order with a repetition", false, [&, q] { real.setGroupsOrdering(q); }, [] {}); q = o; q.back() = 4321; request("set group order with a stranger", false, [&, q] { real.setGroupsOrdering(q); }, [] {}); }
      }
    } else {
      request("save", true, [&] { real.saveDesignVariables(); }, [&] { for (int d : m.dvs.sequence()) m.backup[d] = w.values[d]; });
      request("restore", true, [&] { real.restoreDesignVariables(); }, [&] { for (auto& kv : m.backup) w.values[kv.first] = kv.second; });
      request("change all", true, [] {}, [&] { for (int i = 0; i < n; ++i) w.perturb(i); });
      request("change the last", true, [] {}, [&] { w.perturb(n - 1); });
    }
    request("clear", true, [&] { real.clear(); }, [&] { m = BatchModel(); });
    const Request r = rs[c.choose((int)rs.size())];
    c.step();
    c.trace([&](std::ostream& os) { os << r.what; });
    std::string why;
    const Result got = attempt(r.real, &why);
    if (r.legal) r.model();
    MC_REQUIRE(r.legal || got == Refused, r.what << " was accepted, although it is invalid in this state");
    MC_REQUIRE(!r.legal || got == Done, r.what << " is valid in this state but was refused: " << why);
    verify(r.what);
  }
}
mc::Register l5("C02", "many-batch", [](mc::Chooser& c) { manyBatch(c, true, false, mc::config().thorough() ? 3 : 2); }, "a batch with up to 65 variables in 1 to 13 groups and as many error terms: every history of 2 (thorough: 3) valid and invalid requests at the ends and in the middle", 8, 2);
mc::Register l6("C03", "many-batch", [](mc::Chooser& c) { manyBatch(c, false, false, mc::config().thorough() ? 4 : 3); }, "a batch with up to 65 variables in 1 to 13 groups and as many error terms: every history of 3 (thorough: 4) insertions and rearrangements", 8, 2);
mc::Register l7("C04", "many-batch", [](mc::Chooser& c) { manyBatch(c, false, true, mc::config().thorough() ? 6 : 4); }, "a batch with up to 65 variables in 1 to 13 groups: every history of 4 (thorough: 6) of add a variable, change values, save, restore, clear", 8, 2);

}  // namespace

MC_MAIN
