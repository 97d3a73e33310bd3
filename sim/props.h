// Property registry: every property provides a seeded plan generator and an
// executor that is a pure function of the plan and the code under test.
#pragma once
#include "session.h"

namespace sim {

struct PropDef {
  const char* id;
  void (*gen)(Rng& r, Plan& p);                         // seed -> plan
  void (*exec)(const Plan& p, const std::string& dir);  // throws ViolationEx; dir: private scratch, ends with '/'
  // violation classes that belong to this property ("" = all); crashes, hangs and memory
  // errors always count, other classes end the run as "outside this property"
  const char* classes;
};
const std::vector<PropDef>& registry();
const PropDef* find_prop(const std::string& id);

// ---- execution of one piece of work in an isolated child process
struct Iso {
  std::string cls, msg;        // non-empty cls: the child violated something or died
  std::string payload;         // what the child returned
  int exit_code = 0; int sig = 0;
  bool died_by_kill_fault = false;     // simulated kill -9
  bool terminated = false; int term_code = 0;  // the code called exit()
  std::string err;             // captured stderr (tail)
};
// env: allocator configuration used inside the child
Iso isolate(const std::function<std::string()>& fn, const AllocCfg& ac, double cpu_s = 20, uint64_t budget = 0);
AllocCfg alloc_from_step(const Step* s);
void add_env(Rng& r, Plan& p);         // adds a random "env" step (heap layout of the run)
void quiet_logging();

// helper for property executors
inline std::string join(const std::vector<std::string>& v, const char* sep = ",") { std::string s; for (auto& x : v) { if (!s.empty()) s += sep; s += x; } return s; }

} // namespace sim
