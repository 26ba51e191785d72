// Runs a program as a function in a directory of its own.
#pragma once
#include "demo_core.hpp"
#include <cmath>
#include <cstdlib>
#include <dirent.h>
#include <fstream>
#include <map>
#include <sstream>
#include <unistd.h>
#include <sm/BoostPropertyTree.hpp>

// nothing moves; as many figures as there are parameters of the calibration
struct Still : Script {
  void size(verif::SvdAnswer& a, int n) { a.covariance = Eigen::VectorXd::LinSpaced(n, 1, n).asDiagonal(); }
  bool onSolve(truncated_svd_solver::TruncatedSvdSolver& s, cholmod_sparse* A, cholmod_dense* b, std::ptrdiff_t j, Eigen::VectorXd& x, verif::SvdAnswer& a) override { Script::onSolve(s, A, b, j, x, a); size(a, (int)A->ncol - (int)j); return true; }
  bool onAnalyzeMarginal(truncated_svd_solver::TruncatedSvdSolver& s, cholmod_sparse* A, std::ptrdiff_t j, verif::SvdAnswer& a) override { Script::onAnalyzeMarginal(s, A, j, a); size(a, (int)A->ncol - (int)j); return true; }
};
struct Scratch {
  std::string dir;
  Scratch() { char t[] = "/tmp/demo-prog-XXXXXX"; if (!mkdtemp(t) || chdir(t)) _exit(70); dir = t; }
  ~Scratch() {
    if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str()); closedir(d); }
    if (chdir("/")) {} rmdir(dir.c_str());
  }
};
inline int run(int (*m)(int, char**), std::vector<std::string> a, std::string* said = nullptr) {
  a.insert(a.begin(), "program");
  std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]);
  const int n = (int)v.size(); v.push_back(nullptr);
  std::ostringstream sink; std::streambuf *o = std::cout.rdbuf(sink.rdbuf()), *e = std::cerr.rdbuf(sink.rdbuf());
  const int r = m(n, v.data());
  std::cout.rdbuf(o); std::cerr.rdbuf(e);
  if (said) *said = sink.str();
  return r;
}
typedef std::vector<std::vector<double> > Table;
inline Table table(const std::string& f) {
  Table t; std::ifstream s(f); std::string l;
  while (std::getline(s, l)) { std::istringstream i(l); std::vector<double> r; double x; while (i >> x) r.push_back(x); t.push_back(r); }
  return t;
}
inline bool near(double a, double b, double tol = 1e-6) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
struct Config {
  std::map<std::string, std::string>& t; std::string at;
  explicit Config(const std::string& a) : t(sm::BoostPropertyTree::files()["conf"]), at(a) {}
  void num(const std::string& n, double v) { std::ostringstream o; o.precision(17); o << v; t[at + n] = o.str(); }
  void integer(const std::string& n, long v) { t[at + n] = std::to_string(v); }
  void flag(const std::string& n, bool v) { t[at + n] = v ? "true" : "false"; }
  void text(const std::string& n, const std::string& v) { t[at + n] = v; }
};
