// Seams owned by the simulator: allocator, file I/O, size-function callbacks,
// task scheduling.  All are reached by symbol interposition in the harness
// executable or through the library's own callback argument; /repo is unmodified.
#pragma once
#include "core.h"

namespace sim {

// ---------------------------------------------------------------- allocator
struct AllocCfg {
  enum Mode { MALLOC, BUMP, LIFO, FIFO, SHUFFLE, DESC } mode = LIFO;
  int fill = 0;            // 0 none/zero, 1: 0xFF, 2: 0xA5, 3: pseudo-random
  uint64_t seed = 1;
};
void alloc_config(const AllocCfg& c);          // before any SUT activity
void alloc_reconfig(const AllocCfg& c);        // nested child: change policy, keep the arena
AllocCfg::Mode alloc_mode_from(const std::string& s);
bool alloc_is_asan();
void paint_stack();                            // fill the unused stack with the pattern of fresh memory

extern thread_local int g_sut_depth;           // >0 while library code runs
struct InSut { int save; InSut() : save(g_sut_depth) { g_sut_depth = 1; } ~InSut() { g_sut_depth = save; } };
struct OutSut { int save; OutSut() : save(g_sut_depth) { g_sut_depth = 0; } ~OutSut() { g_sut_depth = save; } };

// n-th allocation made by library code from now fails; burst: how many in a row
void alloc_arm_failure(uint64_t nth, uint64_t burst);
void alloc_disarm();
uint64_t alloc_failures_fired();
uint64_t alloc_sut_count();                    // allocations by library code so far
int64_t  alloc_sut_live();                     // live blocks allocated by library code
// step budget: every SUT allocation and callback is a step; exceeding => ViolationEx-like abort
void budget_set(uint64_t steps);
void budget_step();
uint64_t budget_used();

// ---------------------------------------------------------------- file I/O
struct IoFault {
  std::string op;      // open write read close
  std::string match;   // substring of file name ("" = any simulated file)
  uint64_t nth = 0;    // 0-based index among matching calls since arming
  std::string kind;    // EIO ENOSPC EACCES EMFILE ENOENT EDQUOT EINTR short torn kill
  uint64_t arg = 0;    // bytes for short/torn
  uint64_t repeat = 1; // how many consecutive matching calls
  uint64_t seen = 0, fired = 0;
};
extern int g_io_bypass;                        // >0: the harness itself reads or writes a file
struct IoBypass { IoBypass() { ++g_io_bypass; } ~IoBypass() { --g_io_bypass; } };
void io_set_dir(const std::string& dir);       // faults only apply below this directory
std::string io_dir();
void io_clear();
void io_arm(const IoFault& f);
void io_chunk(uint64_t max_read);              // deliver reads in pieces of at most n bytes (0 = off)
void io_chunk_seed(uint64_t seed);             // pseudo-random piece sizes 1..max
void io_disk_full(int64_t budget);             // <0 = off; total bytes still accepted
uint64_t io_fired();                           // hard faults fired since io_clear
uint64_t io_fired_soft();                      // legal-but-unusual events (short, EINTR)
int io_open_fds();                             // simulated files currently open
std::vector<std::string> io_touched();         // files opened for writing since io_clear
uint64_t io_calls(const std::string& op);

// ---------------------------------------------------------------- tasks
// Cooperative tasks on real threads; exactly one runs at a time, the scheduler
// decides who at every yield point (callback / allocation / file operation).
struct Sched {
  static void run(std::vector<std::function<void()>> tasks, std::function<int(int cur, int n, const std::vector<bool>& done, int kind)> choose);
  static void yield(int kind);                 // no-op outside a scheduled task
  static bool active();
  static uint64_t switches();
};

} // namespace sim
