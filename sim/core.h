// Core of the TQMesh deterministic simulator: PRNG, plans, event log, outcomes.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <stdexcept>
#include <memory>
#include <algorithm>

namespace sim {

// ------------------------------------------------------------------ PRNG
// One integer decides everything: splitmix64, seeded from (VERIF_SEED, property, run).
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); } // inclusive
  double uni() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t fnv(uint64_t h, const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
const uint64_t FNV0 = 14695981039346656037ull;
inline uint64_t fnv_str(uint64_t h, const std::string& s) { return fnv(h, s.data(), s.size()); }

inline std::string fmt(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline std::string hex(uint64_t v) { char b[24]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }

// ------------------------------------------------------------------ Plans
// A plan is the complete, explicit description of one simulated run: a list of
// steps.  generate(seed) -> plan; execute(plan) is a pure function of the plan
// and the code under test.  The minimiser deletes and simplifies steps.
struct Step {
  std::string name;
  std::map<std::string, std::string> kv;
  Step() {}
  explicit Step(const std::string& n) : name(n) {}
  Step& set(const std::string& k, const std::string& v) { kv[k] = v; return *this; }
  Step& set(const std::string& k, const char* v) { kv[k] = v; return *this; }
  Step& set(const std::string& k, double v) { kv[k] = fmt(v); return *this; }
  Step& set(const std::string& k, int v) { kv[k] = std::to_string(v); return *this; }
  Step& set(const std::string& k, long v) { kv[k] = std::to_string(v); return *this; }
  Step& set(const std::string& k, uint64_t v) { kv[k] = std::to_string(v); return *this; }
  bool has(const std::string& k) const { return kv.count(k) != 0; }
  std::string str(const std::string& k, const std::string& d = "") const {
    auto it = kv.find(k); return it == kv.end() ? d : it->second; }
  double num(const std::string& k, double d = 0) const {
    auto it = kv.find(k); return it == kv.end() ? d : strtod(it->second.c_str(), nullptr); }
  long integer(const std::string& k, long d = 0) const {
    auto it = kv.find(k); return it == kv.end() ? d : strtol(it->second.c_str(), nullptr, 10); }
  std::string text() const {
    std::string s = name;
    for (auto& p : kv) s += " " + p.first + "=" + p.second;
    return s;
  }
  static Step parse(const std::string& line) {
    Step st; std::istringstream is(line); is >> st.name; std::string t;
    while (is >> t) { auto e = t.find('='); if (e != std::string::npos) st.kv[t.substr(0, e)] = t.substr(e + 1); }
    return st;
  }
};

struct Plan {
  std::string prop;
  std::vector<Step> steps;
  Step& add(const std::string& n) { steps.emplace_back(n); return steps.back(); }
  std::string text() const {
    std::string s = "property " + prop + "\n";
    for (auto& st : steps) s += st.text() + "\n";
    return s;
  }
  static Plan parse(const std::string& text) {
    Plan p; std::istringstream is(text); std::string line;
    while (std::getline(is, line)) {
      if (line.empty() || line[0] == '#') continue;
      if (line.compare(0, 9, "property ") == 0) { p.prop = line.substr(9); continue; }
      p.steps.push_back(Step::parse(line));
    }
    return p;
  }
  const Step* find(const std::string& n) const { for (auto& s : steps) if (s.name == n) return &s; return nullptr; }
};

// ------------------------------------------------------------------ Outcome
struct Violation {
  std::string cls;   // short stable class, used by the minimiser and by known findings
  std::string msg;
};
struct ViolationEx : std::exception {
  Violation v;
  ViolationEx(const std::string& c, const std::string& m) : v{c, m} {}
  const char* what() const noexcept override { return v.msg.c_str(); }
};
[[noreturn]] void violate(const std::string& cls, const std::string& msg);

// Event log of the run: hash always, text when recording (replay).
struct Log {
  uint64_t h = FNV0;
  uint64_t n = 0;
  bool record = false;
  std::vector<std::string> lines;
  std::map<std::string, uint64_t> counts;   // fault kinds fired, probes hit
  std::set<uint64_t> states;                // distinct abstract states reached
  std::string notes;                        // written-out sample description
  void ev(const std::string& s);
  void count(const std::string& k, uint64_t d = 1);
  void state(uint64_t s);
};
extern Log LOGR;

} // namespace sim
