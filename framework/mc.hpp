// Bounded exhaustive explorer (stateless, choice based) with state matching.
//
// A scenario is a C++ function of a Chooser.  Every nondeterministic decision
// (which operation comes next, which argument, what the environment answers)
// goes through Chooser::choose(n).  The explorer enumerates *every* sequence of
// answers by depth-first search, re-running the scenario on the real code for
// each of them; nothing is sampled.  Chooser::state() lets a scenario prune an
// execution whose canonical state has already been expanded with at least as
// much remaining depth.
#pragma once

#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation {
  std::string message;
};
struct Prune {};
struct Done {};

inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hashStr(const std::string& s) { return hashBytes(s.data(), s.size()); }

// Shared with the driver through a mapped file, so that the case at hand
// survives a crash of this process.
struct CaseRecord {
  uint32_t magic;
  uint32_t numChoices;
  uint64_t executions;
  uint16_t choices[65000];
};

struct Config {
  std::string tier = "quick";
  int shard = 0;
  int shards = 1;
  bool replay = false;
  std::vector<int> replayChoices;
  bool thorough() const { return tier == "thorough"; }
};
inline Config& config() { static Config c; return c; }

struct Stats {
  uint64_t executions = 0, transitions = 0, pruned = 0, checks = 0;
  size_t maxDepth = 0;
  bool capped = false;
  std::unordered_set<uint64_t> states;
  std::unordered_set<uint64_t> outcomes;
};

class Chooser {
 public:
  // one of 0..n-1
  int choose(int n) {
    if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); std::_Exit(70); }
    size_t pos = _trail.size();
    if (pos >= 60000) throw Violation{"horizon exceeded: the code under test keeps asking its environment (no termination)"};
    int v = 0;
    if (pos < _prefix.size()) {
      v = _prefix[pos];
      if (v >= n) { fprintf(stderr, "mc: replay diverged (%d of %d at %zu)\n", v, n, pos); std::_Exit(71); }
    } else if (_replay && pos >= _prefix.size()) {
      v = 0;
    }
    if (!_replay && config().shards > 1 && _shardDepth > 0 && pos + 1 == (size_t)_shardDepth) {
      // the last choice of the shard prefix decides which worker owns the subtree
    }
    _trail.push_back(v);
    _width.push_back(n);
    if (_rec && pos < 65000) { _rec->choices[pos] = (uint16_t)v; _rec->numChoices = (uint32_t)(pos + 1); }
    if (!_replay && config().shards > 1 && _trail.size() == (size_t)_shardDepth) {
      uint64_t h = 0;
      for (size_t i = 0; i < _trail.size(); ++i) h = h * _width[i] + _trail[i];
      if ((int)(h % config().shards) != config().shard) throw Prune{};
    }
    tick();
    return v;
  }
  bool flip() { return choose(2) == 1; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }

  // an applied operation (a transition of the explored system)
  void step() { ++_stats->transitions; tick(); }
  void check() { ++_stats->checks; }

  // canonical state reached, with the number of further operations this
  // execution may still apply; prunes when it has been expanded already
  void state(const std::string& canon, int remaining) {
    uint64_t h = hashStr(canon);
    if (_replay) return;
    if (_trail.size() < _prefix.size()) return;
    _stats->states.insert(h);
    auto it = _seen->find(h);
    if (it != _seen->end() && it->second >= remaining) { ++_stats->pruned; throw Prune{}; }
    (*_seen)[h] = remaining;
  }
  // Breadth-first variant of state(): each canonical state is expanded once,
  // from the shortest sequence of choices that reaches it, whatever the length
  // of the history; the exploration ends when no new state is reachable.
  void reach(const std::string& canon) {
    if (_replay) { if (_trail.size() >= _prefix.size()) throw Done{}; return; }
    if (_trail.size() <= _base) return;
    uint64_t h = hashStr(canon);
    _stats->states.insert(h);
    if (!_seen->emplace(h, 0).second) { ++_stats->pruned; throw Prune{}; }
    _queue->push_back(_trail);
    throw Done{};
  }
  // false while the choices taken so far only repeat an execution that has
  // been examined already (what it reached needs no second look)
  bool fresh() const { return _replay || _trail.size() >= _prefix.size(); }
  // the same, asked before the last few choices have been made: true for every
  // execution that will turn out to be new (and for a few others)
  bool nearlyFresh() const { return _replay || _trail.size() + 3 >= _prefix.size(); }
  // a state to count, without matching
  void note(const std::string& canon) { _stats->states.insert(hashStr(canon)); }
  // something the code under test answered
  void outcome(const std::string& o) { _stats->outcomes.insert(hashStr(o)); }
  void outcome(uint64_t h) { _stats->outcomes.insert(h); }

  bool tracing() const { return _tracing; }
  template <class F> void trace(F f) {
    if (_tracing) { std::ostringstream os; os.precision(17); f(os); _traceLines.push_back(os.str()); }
  }
  void traceText(const std::string& s) { if (_tracing) _traceLines.push_back(s); }

  bool replaying() const { return _replay; }
  static void tick() { progress().fetch_add(1, std::memory_order_relaxed); }
  static std::atomic<uint64_t>& progress() { static std::atomic<uint64_t> p{0}; return p; }

  // internal
  std::vector<int> _prefix, _trail, _width;
  std::unordered_map<uint64_t, int>* _seen = nullptr;
  Stats* _stats = nullptr;
  CaseRecord* _rec = nullptr;
  bool _tracing = false, _replay = false;
  int _shardDepth = 0;
  size_t _base = 0;
  std::deque<std::vector<int>>* _queue = nullptr;
  std::vector<std::string> _traceLines;
};

#define MC_FAIL(expr)                                              \
  do {                                                             \
    std::ostringstream mc_os; mc_os.precision(17);                 \
    mc_os << expr;                                                 \
    throw ::mc::Violation{mc_os.str()};                            \
  } while (0)
#define MC_REQUIRE(cond, expr)                                     \
  do { if (!(cond)) MC_FAIL(expr); } while (0)

struct Scenario {
  std::string property, name;
  std::function<void(Chooser&)> run;
  int shards = 1;          // worker processes worth using
  int shardDepth = 1;      // number of leading choices that split the work
  bool thoroughOnly = false;
  std::string rule;        // what is enumerated
};
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
struct Register {
  Register(const std::string& prop, const std::string& name, std::function<void(Chooser&)> f,
           const std::string& rule = "", int shards = 1, int shardDepth = 1, bool thoroughOnly = false) {
    Scenario s; s.property = prop; s.name = name; s.run = f; s.shards = shards;
    s.shardDepth = shardDepth; s.thoroughOnly = thoroughOnly; s.rule = rule;
    scenarios().push_back(s);
  }
};

inline std::string jsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"') o += "\\\""; else if (ch == '\\') o += "\\\\"; else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += (char)ch;
  }
  return o + "\"";
}

// Runs one execution; returns true if it ended with a violation.
inline bool runOnce(const Scenario& sc, Chooser& c, std::string& msg, bool& pruned) {
  pruned = false;
  try {
    sc.run(c);
    return false;
  } catch (const Prune&) { pruned = true; return false; }
  catch (const Done&) { return false; }
  catch (const Violation& v) { msg = v.message; return true; }
  catch (const std::exception& e) {
    msg = std::string("unexpected exception escaped (") + typeid(e).name() + "): " + e.what(); return true;
  }
  catch (...) { msg = "unexpected non-standard exception escaped"; return true; }
}

inline void watchdog(double seconds) {
  std::thread([seconds] {
    uint64_t last = Chooser::progress().load();
    auto t = std::chrono::steady_clock::now();
    for (;;) {
      std::this_thread::sleep_for(std::chrono::milliseconds(200));
      uint64_t now = Chooser::progress().load();
      if (now != last) { last = now; t = std::chrono::steady_clock::now(); continue; }
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count() > seconds) {
        fprintf(stderr, "mc: no progress for %.0f s (endless loop or deadlock)\n", seconds);
        std::_Exit(97);
      }
    }
  }).detach();
}

inline int main(int argc, char** argv) {
  std::string scenarioName, property, out, caseFile, choicesArg;
  double budget = 0, hang = 30;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--list") list = true;
    else if (a == "--scenario") scenarioName = next();
    else if (a == "--property") property = next();
    else if (a == "--tier") config().tier = next();
    else if (a == "--out") out = next();
    else if (a == "--case") caseFile = next();
    else if (a == "--shard") config().shard = atoi(next().c_str());
    else if (a == "--shards") config().shards = atoi(next().c_str());
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--hang") hang = atof(next().c_str());
    else if (a == "--replay") { config().replay = true; choicesArg = next(); }
  }
  if (list) {
    for (auto& s : scenarios())
      printf("%s\t%s\t%d\t%d\t%s\n", s.property.c_str(), s.name.c_str(), s.shards, s.thoroughOnly ? 1 : 0, s.rule.c_str());
    return 0;
  }
  const Scenario* sc = nullptr;
  for (auto& s : scenarios())
    if (s.name == scenarioName && s.property == property) sc = &s;
  if (!sc) { fprintf(stderr, "mc: no scenario %s/%s\n", property.c_str(), scenarioName.c_str()); return 72; }

  CaseRecord* rec = nullptr;
  if (!caseFile.empty()) {
    int fd = open(caseFile.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(CaseRecord)) == 0) {
      void* p = mmap(nullptr, sizeof(CaseRecord), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) { rec = static_cast<CaseRecord*>(p); rec->magic = 0x4d434d43; rec->numChoices = 0; }
      close(fd);
    }
  }
  watchdog(hang);

  Stats stats;
  std::unordered_map<uint64_t, int> seen;
  auto start = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count(); };

  auto traced = [&](const std::vector<int>& choices, std::string& msg, bool& bad) {
    Chooser c; Stats dummy; std::unordered_map<uint64_t, int> s2;
    c._prefix = choices; c._stats = &dummy; c._seen = &s2; c._tracing = true; c._replay = true; c._rec = rec;
    if (rec) rec->numChoices = 0;
    bool pr; bad = runOnce(*sc, c, msg, pr);
    return c._traceLines;
  };
  auto writeLines = [](FILE* f, const std::vector<std::string>& lines) {
    fputc('[', f);
    for (size_t i = 0; i < lines.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", jsonStr(lines[i]).c_str());
    fputc(']', f);
  };
  auto writeInts = [](FILE* f, const std::vector<int>& v) {
    fputc('[', f);
    for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s%d", i ? ", " : "", v[i]);
    fputc(']', f);
  };

  if (config().replay) {
    std::vector<int> ch;
    std::stringstream ss(choicesArg);
    for (std::string tok; std::getline(ss, tok, ',');) if (!tok.empty()) ch.push_back(atoi(tok.c_str()));
    std::string msg; bool bad = false;
    auto lines = traced(ch, msg, bad);
    if (!out.empty()) {
      FILE* f = fopen(out.c_str(), "w");
      fprintf(f, "{\"violation\": %s, \"message\": %s, \"trace\": ", bad ? "true" : "false", jsonStr(msg).c_str());
      writeLines(f, lines); fprintf(f, "}\n"); fclose(f);
    } else {
      for (auto& l : lines) printf("  %s\n", l.c_str());
      printf("%s %s\n", bad ? "VIOLATED" : "held", msg.c_str());
    }
    return bad ? 1 : 0;
  }

  std::vector<std::vector<int>> samples;
  uint64_t nextSample = 1;
  std::vector<int> prefix;
  std::string msg; bool violated = false; std::vector<int> badChoices;
  uint64_t full = 0;
  std::deque<std::vector<int>> queue;
  size_t base = 0;
  for (;;) {
    Chooser c;
    c._base = base; c._queue = &queue;
    c._prefix = prefix; c._stats = &stats; c._seen = &seen; c._rec = rec; c._shardDepth = sc->shardDepth;
    if (rec) { rec->numChoices = 0; }
    bool pruned;
    ++stats.executions;
    Chooser::tick();
    bool bad = runOnce(*sc, c, msg, pruned);
    if (rec) rec->executions = stats.executions;
    if (c._trail.size() > stats.maxDepth) stats.maxDepth = c._trail.size();
    if (bad) { violated = true; badChoices = c._trail; break; }
    if (!pruned) {
      ++full;
      if (full == nextSample) { samples.push_back(c._trail); nextSample *= 20; }
    }
    // next prefix in DFS order
    std::vector<int>& t = c._trail;
    while (t.size() > base && t.back() + 1 >= c._width[t.size() - 1]) t.pop_back();
    if (t.size() > base) {
      ++t.back();
      prefix = t;
    } else {
      if (queue.empty()) break;
      prefix = queue.front(); queue.pop_front();
      base = prefix.size();
    }
    if (budget > 0 && (stats.executions & 255) == 0 && elapsed() > budget) { stats.capped = true; break; }
  }

  std::vector<std::string> badTrace;
  if (violated) {
    // the same choices must fail every time
    for (int k = 0; k < 2; ++k) {
      std::string m2; bool b2 = false;
      badTrace = traced(badChoices, m2, b2);
      // the harness itself keeps nothing from one execution to the next, so the
      // code under test does
      if (!b2) { msg += " [only after other executions in the same process: the code keeps hidden state between objects]"; break; }
      msg = m2;
    }
  }
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    fprintf(f, "{\"property\": %s, \"scenario\": %s, \"shard\": %d, \"shards\": %d, \"executions\": %llu, \"complete\": %llu, "
            "\"transitions\": %llu, \"checks\": %llu, \"pruned\": %llu, \"states\": %zu, \"outcomes\": %zu, \"max_depth\": %zu, \"capped\": %s, "
            "\"wall_s\": %.3f, \"violation\": %s, \"message\": %s,\n \"choices\": ",
            jsonStr(sc->property).c_str(), jsonStr(sc->name).c_str(), config().shard, config().shards,
            (unsigned long long)stats.executions, (unsigned long long)full, (unsigned long long)stats.transitions,
            (unsigned long long)stats.checks, (unsigned long long)stats.pruned, stats.states.size(), stats.outcomes.size(), stats.maxDepth,
            stats.capped ? "true" : "false", elapsed(), violated ? "true" : "false", jsonStr(msg).c_str());
    writeInts(f, badChoices);
    fprintf(f, ",\n \"trace\": "); writeLines(f, badTrace);
    // hashes, so that the driver can merge workers without counting twice
    fprintf(f, ",\n \"state_hashes\": [");
    if (config().shards > 1) { size_t k = 0; for (auto h : stats.states) { if (k > 400000) break; fprintf(f, "%s\"%llx\"", k++ ? "," : "", (unsigned long long)h); } }
    fprintf(f, "],\n \"outcome_hashes\": [");
    if (config().shards > 1) { size_t k = 0; for (auto h : stats.outcomes) { if (k > 400000) break; fprintf(f, "%s\"%llx\"", k++ ? "," : "", (unsigned long long)h); } }
    fprintf(f, "],\n \"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i) {
      std::string m2; bool b2 = false;
      auto lines = traced(samples[i], m2, b2);
      if (b2 && !violated) { fprintf(stderr, "mc: a passing execution failed when replayed (uncontrolled nondeterminism): %s\n", m2.c_str()); return 74; }
      fprintf(f, "%s", i ? ", " : ""); writeLines(f, lines);
    }
    fprintf(f, "]}\n");
    fclose(f);
  }
  return violated ? 1 : 0;
}

}  // namespace mc

#define MC_MAIN int main(int argc, char** argv) { return mc::main(argc, argv); }
