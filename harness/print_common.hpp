// Y01: what an object prints is what it holds.
#pragma once
#include <mc.hpp>

#include <cmath>
#include <cstdlib>
#include <iomanip>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include <Eigen/Core>

namespace text {

typedef std::vector<double> Numbers;
typedef std::map<std::string, Numbers> Fields;

// "name: numbers", the numbers possibly on the following lines
inline Fields fields(const std::string& s) {
  Fields f;
  std::string label;
  std::istringstream in(s);
  for (std::string line; std::getline(in, line);) {
    const size_t colon = line.find(':');
    std::string rest = line;
    if (colon != std::string::npos) { label = line.substr(0, colon); f[label]; rest = line.substr(colon + 1); }
    std::istringstream is(rest);
    for (std::string tok; is >> tok;) {
      char* end = nullptr;
      const double d = std::strtod(tok.c_str(), &end);
      if (end && *end == 0) f[label].push_back(d); else f[label].push_back(std::nan(""));
    }
  }
  return f;
}
inline std::string show(const Numbers& n) { std::ostringstream o; o.precision(17); for (double d : n) o << d << " "; return o.str(); }
template <class M> Numbers rows(const M& m) {  // as Eigen prints it
  Numbers n;
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) n.push_back((double)m(i, j));
  return n;
}
inline Numbers one(double d) { return Numbers{d}; }

template <class O> void printed(mc::Chooser& c, const std::string& what, const O& o, const Fields& expected, double tolerance = 0) {
  c.step(); c.check();
  std::ostringstream s, again;
  s << std::setprecision(17); again << std::setprecision(17);
  s << o;
  again << o;
  c.note(what + s.str());
  c.trace([&](std::ostream& t) { t << what << " prints: " << s.str(); });
  MC_REQUIRE(s.good(), what << ": printing spoils the stream");
  MC_REQUIRE(s.str() == again.str(), what << " prints something else the second time");
  const Fields f = fields(s.str());
  for (auto& e : expected) {
    auto it = f.find(e.first);
    MC_REQUIRE(it != f.end(), what << " prints nothing under \"" << e.first << "\"");
    bool same = it->second.size() == e.second.size();
    for (size_t i = 0; same && i < e.second.size(); ++i) same = std::fabs(it->second[i] - e.second[i]) <= tolerance;
    MC_REQUIRE(same, what << " prints \"" << e.first << ": " << show(it->second) << "\" and holds " << show(e.second));
  }
}

}  // namespace text
