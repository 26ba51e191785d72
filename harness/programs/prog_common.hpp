// Programs run as functions, in a directory of their own.
#ifndef VERIF_PROG_COMMON_HPP
#define VERIF_PROG_COMMON_HPP
#include <calib_common.hpp>

#include <cmath>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sys/stat.h>
#include <unistd.h>

namespace prog {
using namespace calib;

struct Scratch {
  std::string dir;
  int old;
  Scratch() {
    char t[] = "/tmp/verif-prog-XXXXXX";
    if (!mkdtemp(t)) { perror("mkdtemp"); _exit(70); }
    dir = t;
    if (chdir(t)) { perror("chdir"); _exit(70); }
  }
  ~Scratch() { clear(); if (chdir("/")) {} rmdir(dir.c_str()); }
  void clear() const {
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') { const std::string f = dir + "/" + e->d_name; if (unlink(f.c_str())) rmdir(f.c_str()); }
    closedir(d);
  }
  static Scratch& get() { static Scratch s; return s; }
};

struct Silence {
  std::ostringstream sink;
  std::streambuf *o, *e;
  Silence() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Silence() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

typedef int (*Main)(int, char**);
inline int run(Main m, const std::vector<std::string>& args, std::string* said = nullptr) {
  Scratch::get().clear();
  std::vector<std::string> a(1, "program");
  a.insert(a.end(), args.begin(), args.end());
  std::vector<char*> v;
  for (auto& s : a) v.push_back(&s[0]);
  v.push_back(nullptr);
  Silence q;
  const int r = m((int)a.size(), v.data());
  if (said) *said = q.sink.str();
  return r;
}

typedef std::vector<std::vector<double>> Table;
inline bool exists(const std::string& f) { struct stat s; return stat(f.c_str(), &s) == 0; }
inline std::string text(const std::string& f) { std::ifstream s(f); std::ostringstream o; o << s.rdbuf(); return o.str(); }
inline Table table(const std::string& f) {
  Table t;
  std::ifstream s(f);
  std::string l;
  while (std::getline(s, l)) {
    std::istringstream is(l);
    std::vector<double> r;
    std::string w;
    while (is >> w) r.push_back(std::strtod(w.c_str(), nullptr));
    t.push_back(r);
  }
  return t;
}
inline std::vector<double> row(const Vec& v) { return std::vector<double>(v.data(), v.data() + v.size()); }
inline std::string show(const std::vector<double>& r) { std::ostringstream o; o.precision(12); for (double x : r) o << x << " "; return o.str(); }
// angles: columns that are angles
inline void same(const std::string& file, const Table& want, double tol = 1e-9, const std::set<int>& angle = {}) {
  MC_REQUIRE(exists(file), file << " is not written");
  const Table got = table(file);
  MC_REQUIRE(got.size() == want.size(), file << " has " << got.size() << " lines instead of " << want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    MC_REQUIRE(got[i].size() == want[i].size(), file << ", line " << i + 1 << ": " << got[i].size() << " numbers instead of " << want[i].size());
    for (size_t j = 0; j < want[i].size(); ++j) {
      const double d = angle.count((int)j) ? wrap(got[i][j] - want[i][j]) : got[i][j] - want[i][j];
      MC_REQUIRE((std::isnan(got[i][j]) && std::isnan(want[i][j])) || got[i][j] == want[i][j] || std::fabs(d) <= tol * (1 + std::fabs(want[i][j])), file << ", line " << i + 1 << ": " << show(got[i]) << " instead of " << show(want[i]));
    }
  }
}
// a curve every dt, end excluded
template <class TS, class RS> void curve(Table& out, const Path<TS, RS>& p, Time dt) {
  for (Time t = p.trans->getMinTime(); t < p.trans->getMaxTime(); t += dt) {
    Vec r(6); r << p.position(t), angles(p.attitude(t));
    out.push_back(row(r));
  }
}
inline std::map<std::string, std::string>& config(const std::string& file) { auto& c = sm::BoostPropertyTree::files()[file]; c.clear(); return c; }

// as many figures as there are parameters of the calibration
struct ProgramOracle : Oracle {
  bool onSolve(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* A, cholmod_dense*, std::ptrdiff_t j, Vec& x, verif::SvdAnswer& a) override {
    x = Vec::Zero(A->ncol);
    dims = (int)A->ncol - (int)j;
    a = answer(); return true;
  }
  bool onAnalyzeMarginal(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* A, std::ptrdiff_t j, verif::SvdAnswer& a) override {
    dims = (int)A->ncol - (int)j;
    a = answer(); return true;
  }
};
// Keeps the curves of the batches that stay, as they are optimised.
template <class Calibrator, class TS, class RS> struct Watch : ProgramOracle {
  typedef Path<TS, RS> ThePath;
  std::vector<ThePath> kept;
  int batches = 0;
  std::function<Calibrator*()> current;
  std::function<void(IncrementalOptimizationProblem&)> again;
  Watch(mc::Chooser& ch, bool keep, std::function<Calibrator*()> cur) : current(cur) {
    c = &ch; accept = keep;
    // the oracle forgets its observer when it has called it
    again = [this](IncrementalOptimizationProblem&) {
      Calibrator& x = *current();
      // the first batch always stays
      if (accept || kept.empty()) kept.push_back(ThePath{x.getTranslationSpline(), x.getRotationSpline()});
      if (batches && accept) log = next();
      ++batches;
      seen = again;
    };
    seen = again;
  }
};
// What is given step by step: in every step one measurement of every sensor, in any order.
template <class Given> void sameSteps(const std::vector<Given>& got, const std::vector<std::vector<Given> >& want) {
  size_t at = 0;
  for (size_t i = 0; i < want.size(); ++i) {
    std::vector<bool> found(want[i].size(), false);
    for (size_t j = 0; j < want[i].size(); ++j, ++at) {
      MC_REQUIRE(at < got.size(), "only " << got.size() << " measurements reach the calibrator");
      const Given& g = got[at];
      size_t k = 0;
      while (k < want[i].size() && (found[k] || want[i][k].sensor != g.sensor)) ++k;
      MC_REQUIRE(k < want[i].size(), "measurement " << at << " is of sensor " << g.sensor << ", not one of those of step " << i);
      found[k] = true;
      const Given& w = want[i][k];
      MC_REQUIRE(g.t == w.t && g.what.size() == w.what.size() && g.what == w.what, "measurement " << at << " of sensor " << g.sensor << " at " << g.t << " is " << g.what.transpose() << " instead of " << w.what.transpose() << " at " << w.t);
    }
  }
  MC_REQUIRE(at == got.size(), got.size() << " measurements reach the calibrator instead of " << at);
}
}  // namespace prog
#endif
