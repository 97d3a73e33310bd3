#include "hooks.h"
#include <cerrno>
#include <dlfcn.h>
#include <execinfo.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define TQ_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define TQ_ASAN 1
#endif
#endif

namespace sim {
extern int g_child_depth;

Log LOGR;
int evfd = -1;                              // event log of a recorded run survives a crash of the run
static ssize_t real_write_fd(int fd, const void* b, size_t n);
void violate(const std::string& cls, const std::string& msg) { throw ViolationEx(cls, msg); }
void Log::ev(const std::string& s) {
  OutSut o; ++n; h = fnv_str(h, s); h = fnv(h, "\n", 1);
  if (record) { lines.push_back(s); if (evfd >= 0) { std::string l = s + "\n"; ssize_t w = real_write_fd(evfd, l.data(), l.size()); (void)w; } }
}
void Log::count(const std::string& k, uint64_t d) { OutSut o; counts[k] += d; }
void Log::state(uint64_t s) { OutSut o; if (states.size() < 20000) states.insert(s); }

// ================================================================ allocator
thread_local int g_sut_depth = 0;
static AllocCfg g_cfg;
static bool g_arena_on = false;
static char *g_lo = nullptr, *g_hi = nullptr, *g_cur = nullptr, *g_curd = nullptr;
static const size_t ARENA = (size_t)6 << 30;
// debugging aid: TQSIM_BT=FILE records where the injected allocation failure hit
static void fail_trace() { const char* f = getenv("TQSIM_BT"); if (!f) return; void* b[40]; int n = backtrace(b, 40); int fd = (int)syscall(SYS_open, f, O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd >= 0) { backtrace_symbols_fd(b, n, fd); syscall(SYS_close, fd); } }
static uint64_t g_fail_at = 0, g_fail_burst = 0, g_fail_fired = 0, g_sut_allocs = 0;
static int64_t g_sut_live = 0;
static bool g_fail_armed = false;
static uint64_t g_budget = 0, g_used = 0;

struct Hdr { uint64_t size; uint32_t magic; uint32_t cls; uint64_t sut; uint64_t pad; };
static const uint32_t ALIVE = 0xA11CE5Eu, DEAD = 0xDEADF4EEu;
static const uint64_t CANARY = 0xC0FFEE1234ABCDEFull;
static const int NCLS = 64;
struct FreeNode { FreeNode* next; };
struct FreeList { Hdr* head = nullptr; Hdr* tail = nullptr; };
// free lists are kept outside the blocks so that freed memory can stay poisoned
struct ClsStore { Hdr** v = nullptr; size_t n = 0, cap = 0, first = 0; };
static ClsStore g_free[NCLS];
static uint64_t g_arng = 1;
static uint64_t arnd() { g_arng ^= g_arng << 13; g_arng ^= g_arng >> 7; g_arng ^= g_arng << 17; return g_arng; }

static void die(const char* m) {
  // heap corruption found by the simulated allocator: abort the run with a recognisable code
  ssize_t r = ::write(2, m, strlen(m)); (void)r;
  r = ::write(2, "\n", 1); (void)r;
  _exit(77);
}

static int size_class(size_t n, size_t& rounded) {
  // 16-byte steps to 256, then powers of two with 4 sub-steps
  if (n <= 256) { int c = (int)((n + 15) / 16); if (c == 0) c = 1; rounded = (size_t)c * 16; return c; }
  size_t s = 256; int c = 17;
  while (s < n) { size_t q = s / 4; for (int i = 1; i <= 4; ++i, ++c) if (s + q * i >= n) { rounded = s + q * i; return c < NCLS ? c : -1; } s *= 2; }
  rounded = n; return -1;
}
static void store_push(ClsStore& s, Hdr* h) {
  if (s.n == s.cap) {
    size_t nc = s.cap ? s.cap * 2 : 1024;
    Hdr** nv = (Hdr**)mmap(nullptr, nc * sizeof(Hdr*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memcpy(nv, s.v, s.n * sizeof(Hdr*));
    if (s.v) munmap(s.v, s.cap * sizeof(Hdr*));
    s.v = nv; s.cap = nc;
  }
  s.v[s.n++] = h;
}
void alloc_config(const AllocCfg& c) {
  g_cfg = c;
#ifdef TQ_ASAN
  g_cfg.mode = AllocCfg::MALLOC;
#endif
  g_arena_on = g_cfg.mode != AllocCfg::MALLOC;
  g_arng = c.seed * 2654435761u + 88172645463325252ull;
  if (g_arena_on && !g_lo) {
    void* p = mmap((void*)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) p = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_lo = (char*)p; g_hi = g_lo + ARENA; g_cur = g_lo; g_curd = g_hi;
  }
}
void alloc_reconfig(const AllocCfg& c) { alloc_config(c); for (auto& f : g_free) { f.first = f.n = 0; } }
AllocCfg::Mode alloc_mode_from(const std::string& s) {
  if (s == "malloc") return AllocCfg::MALLOC;
  if (s == "bump") return AllocCfg::BUMP;
  if (s == "fifo") return AllocCfg::FIFO;
  if (s == "shuffle") return AllocCfg::SHUFFLE;
  if (s == "desc") return AllocCfg::DESC;
  return AllocCfg::LIFO;
}
bool alloc_is_asan() {
#ifdef TQ_ASAN
  return true;
#else
  return false;
#endif
}
void alloc_arm_failure(uint64_t nth, uint64_t burst) { g_fail_at = g_sut_allocs + nth; g_fail_burst = burst; g_fail_armed = true; }
void alloc_disarm() { g_fail_armed = false; }
uint64_t alloc_failures_fired() { return g_fail_fired; }
uint64_t alloc_sut_count() { return g_sut_allocs; }
int64_t alloc_sut_live() { return g_sut_live; }
void budget_set(uint64_t s) { g_budget = s; g_used = 0; }
uint64_t budget_used() { return g_used; }
void budget_step() {
  if (g_budget && ++g_used > g_budget) {
    const char* m = "step budget exceeded\n"; ssize_t r = ::write(2, m, strlen(m)); (void)r;
    _exit(78);
  }
}

static void fill(void* p, size_t n) {
  switch (g_cfg.fill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: memset(p, 0xA5, n); break;
    default: { unsigned char* c = (unsigned char*)p; for (size_t i = 0; i < n; ++i) c[i] = (unsigned char)(arnd() >> 11); }
  }
}
// uninitialised locals of the next call find the same kind of garbage as fresh heap blocks
__attribute__((noinline)) void paint_stack() {
#if !defined(__SANITIZE_ADDRESS__)
  char b[96 * 1024]; fill(b, sizeof b); __asm__ volatile("" : : "r"(b) : "memory");
#endif
}

static void* arena_alloc(size_t n, bool sut) {
  size_t rounded; int c = size_class(n, rounded);
  Hdr* h = nullptr;
  if (c >= 0 && g_cfg.mode != AllocCfg::BUMP && g_cfg.mode != AllocCfg::DESC) {
    ClsStore& s = g_free[c];
    size_t avail = s.n - s.first;
    if (avail) {
      if (g_cfg.mode == AllocCfg::LIFO) h = s.v[--s.n];
      else if (g_cfg.mode == AllocCfg::FIFO) { if (avail > 16) h = s.v[s.first++]; }
      else { // SHUFFLE: sometimes a random free slot, sometimes fresh memory
        if (arnd() & 1) { size_t k = s.first + arnd() % avail; h = s.v[k]; s.v[k] = s.v[--s.n]; }
      }
      if (s.first > 4096) { memmove(s.v, s.v + s.first, (s.n - s.first) * sizeof(Hdr*)); s.n -= s.first; s.first = 0; }
    }
  }
  if (h) {
    // write-after-free detection: the freed payload must still be poisoned
    unsigned char* p = (unsigned char*)(h + 1);
    size_t chk = rounded < 256 ? rounded : 256;
    for (size_t i = 0; i < chk; ++i) if (p[i] != 0xDD) die("SIMHEAP: write to freed memory");
  } else {
    size_t tot = sizeof(Hdr) + rounded + 16;
    tot = (tot + 15) & ~(size_t)15;
    if (g_cfg.mode == AllocCfg::SHUFFLE) tot += (arnd() % 8) * 16;
    if (g_curd - g_cur < (ptrdiff_t)(tot + 64)) return nullptr;
    bool down = g_cfg.mode == AllocCfg::DESC || (g_cfg.mode == AllocCfg::SHUFFLE && (arnd() & 1));
    if (down) { g_curd -= tot; h = (Hdr*)g_curd; } else { h = (Hdr*)g_cur; g_cur += tot; }
  }
  h->size = n; h->magic = ALIVE; h->cls = (uint32_t)c; h->sut = sut;
  void* p = h + 1;
  fill(p, rounded);
  memcpy((char*)p + n, &CANARY, sizeof CANARY);
  return p;
}
static void arena_free(void* p) {
  Hdr* h = (Hdr*)p - 1;
  if (h->magic == DEAD) die("SIMHEAP: double free");
  if (h->magic != ALIVE) die("SIMHEAP: invalid free or header overwritten");
  if (memcmp((char*)p + h->size, &CANARY, sizeof CANARY) != 0) die("SIMHEAP: write past end of block");
  if (h->sut) --g_sut_live;
  size_t rounded; int c = size_class(h->size, rounded);
  h->magic = DEAD;
  memset(p, 0xDD, rounded);
  if (c >= 0 && g_cfg.mode != AllocCfg::BUMP && g_cfg.mode != AllocCfg::DESC) store_push(g_free[c], h);
}

static void* do_new(size_t n) {
  bool sut = g_sut_depth > 0;
  if (sut) {
    if (Sched::active()) Sched::yield(1);
    budget_step();
    uint64_t idx = g_sut_allocs++;
    if (g_fail_armed && idx >= g_fail_at) {
      if (g_fail_burst && idx < g_fail_at + g_fail_burst) { ++g_fail_fired; fail_trace(); return nullptr; }
      if (idx >= g_fail_at + g_fail_burst) g_fail_armed = false;
    }
  }
  void* p;
  if (g_arena_on) { p = arena_alloc(n, sut); if (p && sut) ++g_sut_live; }
  else p = malloc(n ? n : 1);
  return p;
}
static void do_delete(void* p) {
  if (!p) return;
  if (g_lo && (char*)p >= g_lo && (char*)p < g_hi) arena_free(p);
  else free(p);
}

// ================================================================ scheduler
namespace {
struct Task { pthread_t th; std::function<void()> fn; bool done = false; bool started = false; };
std::vector<Task*> g_tasks;
std::function<int(int, int, const std::vector<bool>&, int)> g_choose;
pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t g_cv = PTHREAD_COND_INITIALIZER;
int g_turn = -1;                        // index of the task allowed to run; -1 = controller
thread_local int t_self = -1;
bool g_sched_on = false;
uint64_t g_switches = 0;
std::vector<bool> done_vec() { std::vector<bool> d; for (auto t : g_tasks) d.push_back(t->done); return d; }
void wait_turn(int me) { pthread_mutex_lock(&g_mx); while (g_turn != me) pthread_cond_wait(&g_cv, &g_mx); pthread_mutex_unlock(&g_mx); }
void give(int to) { pthread_mutex_lock(&g_mx); g_turn = to; pthread_cond_broadcast(&g_cv); pthread_mutex_unlock(&g_mx); }
void* thread_main(void* a) {
  int me = (int)(intptr_t)a;
  t_self = me; g_sut_depth = 0;
  wait_turn(me);
  g_tasks[me]->fn();
  g_tasks[me]->done = true;
  give(-1);
  return nullptr;
}
}
bool Sched::active() { return g_sched_on && t_self >= 0; }
uint64_t Sched::switches() { return g_switches; }
void Sched::yield(int kind) {
  if (!active()) return;
  OutSut o;
  int me = t_self;
  int next = g_choose(me, (int)g_tasks.size(), done_vec(), kind);
  if (next == me || next < 0 || next >= (int)g_tasks.size() || g_tasks[next]->done) return;
  ++g_switches;
  give(next);
  wait_turn(me);
}
void Sched::run(std::vector<std::function<void()>> fns, std::function<int(int, int, const std::vector<bool>&, int)> choose) {
  g_tasks.clear(); g_choose = choose; g_turn = -1; g_switches = 0;
  for (auto& f : fns) { Task* t = new Task; t->fn = f; g_tasks.push_back(t); }
  g_sched_on = true;
  for (size_t i = 0; i < g_tasks.size(); ++i) pthread_create(&g_tasks[i]->th, nullptr, thread_main, (void*)(intptr_t)i);
  for (;;) {
    auto d = done_vec();
    int left = 0, last = -1; for (size_t i = 0; i < d.size(); ++i) if (!d[i]) { ++left; last = (int)i; }
    if (!left) break;
    int next = left == 1 ? last : choose(-1, (int)d.size(), d, 0);
    if (next < 0 || next >= (int)d.size() || d[next]) next = last;
    give(next);
    wait_turn(-1);
  }
  for (auto t : g_tasks) { pthread_join(t->th, nullptr); delete t; }
  g_tasks.clear(); g_sched_on = false;
}

// ================================================================ file I/O
static std::string g_dir;
int g_io_bypass = 0;
static std::vector<IoFault> g_faults;
struct FdInfo { bool used = false; bool w = false; char name[200]; };
static FdInfo g_fd[1024];
static int64_t g_disk = -1;
static uint64_t g_chunk = 0, g_chunk_rng = 0;
static uint64_t g_io_fired = 0, g_io_soft = 0;
static int g_fd_open = 0;
static std::vector<std::string>* g_touched = nullptr;
static uint64_t g_call_open, g_call_read, g_call_write, g_call_close;

void io_set_dir(const std::string& d) { g_dir = d; }
std::string io_dir() { return g_dir; }
void io_clear() {
  g_faults.clear(); g_disk = -1; g_chunk = 0; g_chunk_rng = 0; g_io_fired = g_io_soft = 0;
  if (g_touched) g_touched->clear();
  g_call_open = g_call_read = g_call_write = g_call_close = 0;
}
void io_arm(const IoFault& f) { g_faults.push_back(f); }
void io_chunk(uint64_t n) { g_chunk = n; }
void io_chunk_seed(uint64_t s) { g_chunk_rng = s * 2 + 1; }
void io_disk_full(int64_t b) { g_disk = b; }
uint64_t io_fired() { return g_io_fired; }
uint64_t io_fired_soft() { return g_io_soft; }
int io_open_fds() { return g_fd_open; }
std::vector<std::string> io_touched() { return g_touched ? *g_touched : std::vector<std::string>(); }
uint64_t io_calls(const std::string& op) {
  return op == "open" ? g_call_open : op == "read" ? g_call_read : op == "write" ? g_call_write : g_call_close;
}
static int err_of(const std::string& k) {
  if (k == "EIO") return EIO; if (k == "ENOSPC") return ENOSPC; if (k == "EACCES") return EACCES;
  if (k == "EMFILE") return EMFILE; if (k == "ENOENT") return ENOENT; if (k == "EDQUOT") return EDQUOT;
  if (k == "EINTR") return EINTR; if (k == "EROFS") return EROFS; return EIO;
}
// returns the fault that fires on this call, if any
static IoFault* io_fault(const char* op, const char* name) {
  for (auto& f : g_faults) {
    if (f.op != op) continue;
    if (!f.match.empty() && !strstr(name, f.match.c_str())) continue;
    uint64_t i = f.seen++;
    if (i >= f.nth && i < f.nth + f.repeat) {
      ++f.fired;
      if (f.kind == "EINTR" || f.kind == "short") ++g_io_soft; else ++g_io_fired;
      LOGR.count(std::string("io_") + op + "_" + f.kind);
      LOGR.ev(std::string("fault ") + op + " " + f.kind + " call=" + std::to_string(i));
      return &f;
    }
  }
  return nullptr;
}
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

static bool in_dir(const char* p) { return !g_io_bypass && !g_dir.empty() && p && strncmp(p, g_dir.c_str(), g_dir.size()) == 0; }

typedef FILE* (*fopen_t)(const char*, const char*);
static FILE* sim_fopen(const char* path, const char* mode, const char* sym) {
  static fopen_t r64 = real<fopen_t>("fopen64");
  static fopen_t r = real<fopen_t>("fopen");
  fopen_t f = strcmp(sym, "fopen64") == 0 && r64 ? r64 : r;
  if (!in_dir(path)) return f(path, mode);
  OutSut o;
  Sched::yield(2);
  ++g_call_open;
  const char* base = path + g_dir.size();
  if (IoFault* x = io_fault("open", base)) {
    if (x->kind == "kill") _exit(79);
    errno = err_of(x->kind); return nullptr;
  }
  bool w = strpbrk(mode, "wa+") != nullptr;
  FILE* fp = f(path, mode);
  if (fp) {
    int fd = fileno(fp);
    if (fd >= 0 && fd < 1024) {
      g_fd[fd].used = true; g_fd[fd].w = w; ++g_fd_open;
      snprintf(g_fd[fd].name, sizeof g_fd[fd].name, "%s", base);
    }
    if (w) { if (!g_touched) g_touched = new std::vector<std::string>; g_touched->push_back(base); }
    if (w) LOGR.ev(std::string("open ") + base);
  }
  return fp;
}

typedef ssize_t (*write_t)(int, const void*, size_t);
typedef ssize_t (*read_t)(int, void*, size_t);
static ssize_t real_write(int fd, const void* b, size_t n) { static write_t r = real<write_t>("write"); return r(fd, b, n); }
static ssize_t real_write_fd(int fd, const void* b, size_t n) { return real_write(fd, b, n); }
static ssize_t real_read(int fd, void* b, size_t n) { static read_t r = real<read_t>("read"); return r(fd, b, n); }

static ssize_t sim_write(int fd, const char* b, size_t n) {
  if (fd < 0 || fd >= 1024 || !g_fd[fd].used) return real_write(fd, b, n);
  OutSut o;
  Sched::yield(2);
  budget_step();
  ++g_call_write;
  if (IoFault* x = io_fault("write", g_fd[fd].name)) {
    if (x->kind == "kill") { size_t k = x->arg < n ? x->arg : n; if (k) real_write(fd, b, k); _exit(79); }
    if (x->kind == "short") { size_t k = x->arg % n; if (k == 0) k = 1; if (k < n) n = k; }
    else if (x->kind == "torn") { size_t k = x->arg % n; if (k) real_write(fd, b, k); errno = EIO; return -1; }
    else { errno = err_of(x->kind); return -1; }
  }
  if (g_disk >= 0) {
    if (g_disk == 0) { ++g_io_fired; LOGR.count("io_disk_full"); LOGR.ev("fault disk full"); errno = ENOSPC; return -1; }
    if ((int64_t)n > g_disk) { n = (size_t)g_disk; }
    g_disk -= (int64_t)n;
  }
  return real_write(fd, b, n);
}
static ssize_t sim_read(int fd, char* b, size_t n) {
  if (fd < 0 || fd >= 1024 || !g_fd[fd].used) return real_read(fd, b, n);
  OutSut o;
  Sched::yield(2);
  budget_step();
  ++g_call_read;
  if (IoFault* x = io_fault("read", g_fd[fd].name)) {
    if (x->kind == "kill") _exit(79);
    if (x->kind == "short") { size_t k = x->arg % n; if (k == 0) k = 1; if (k < n) n = k; }
    else { errno = err_of(x->kind); return -1; }
  }
  if (g_chunk && n > g_chunk) {
    uint64_t k = g_chunk;
    if (g_chunk_rng) { g_chunk_rng = g_chunk_rng * 6364136223846793005ull + 1442695040888963407ull; k = 1 + (g_chunk_rng >> 33) % g_chunk; }
    n = k; LOGR.count("io_read_chunked");
  }
  return real_read(fd, b, n);
}
static int sim_fclose(FILE* fp) {
  typedef int (*fclose_t)(FILE*);
  static fclose_t r = real<fclose_t>("fclose");
  int fd = fp ? fileno(fp) : -1;
  if (fd < 0 || fd >= 1024 || !g_fd[fd].used) return r(fp);
  OutSut o;
  ++g_call_close;
  IoFault* x = io_fault("close", g_fd[fd].name);
  if (x && x->kind == "kill") _exit(79);
  if (x && g_fd[fd].w) {
    // write-back fails at close: the tail never reaches the disk
    fflush(fp);
    struct stat st; if (fstat(fd, &st) == 0 && st.st_size > 0) { int e = ftruncate(fd, (off_t)((uint64_t)st.st_size * (x->arg % 100) / 100)); (void)e; }
  }
  g_fd[fd].used = false; --g_fd_open;
  int e = x ? err_of(x->kind) : 0;
  int rc = r(fp);
  if (x) { errno = e; return EOF; }
  return rc;
}

// fds of simulated files opened by descriptor instead of by stream
static void reg_fd(int fd, const char* path, bool w) {
  if (fd < 0 || fd >= 1024) return;
  g_fd[fd].used = true; g_fd[fd].w = w; ++g_fd_open;
  snprintf(g_fd[fd].name, sizeof g_fd[fd].name, "%s", path + g_dir.size());
  if (w) { if (!g_touched) g_touched = new std::vector<std::string>; g_touched->push_back(path + g_dir.size()); }
}
static int sim_open(const char* path, int flags, mode_t mode) {
  typedef int (*open_t)(const char*, int, ...);
  static open_t r = real<open_t>("open");
  if (!in_dir(path)) return r(path, flags, mode);
  OutSut o;
  ++g_call_open;
  if (IoFault* x = io_fault("open", path + g_dir.size())) { if (x->kind == "kill") _exit(79); errno = err_of(x->kind); return -1; }
  int fd = r(path, flags, mode);
  reg_fd(fd, path, (flags & O_ACCMODE) != O_RDONLY);
  return fd;
}

} // namespace sim

// ================================================================ interposed symbols
extern "C" {
// exit() called by library or application code ends the simulated process: the
// status is reported to the driver without running destructors of the harness.
void exit(int code) __THROW {
  if (sim::g_child_depth > 0) { fflush(nullptr); _exit(128 | (code & 127)); }
  fflush(nullptr); _exit(code);
}
FILE* fopen(const char* p, const char* m) { return sim::sim_fopen(p, m, "fopen"); }
FILE* fopen64(const char* p, const char* m) { return sim::sim_fopen(p, m, "fopen64"); }
int fclose(FILE* f) { return sim::sim_fclose(f); }
ssize_t write(int fd, const void* b, size_t n) { return sim::sim_write(fd, (const char*)b, n); }
ssize_t read(int fd, void* b, size_t n) { return sim::sim_read(fd, (char*)b, n); }
ssize_t writev(int fd, const struct iovec* iov, int cnt) {
  if (fd >= 0 && fd < 1024 && sim::g_fd[fd].used) {
    size_t tot = 0; for (int i = 0; i < cnt; ++i) tot += iov[i].iov_len;
    if (tot == 0) return 0;
    char* b = (char*)malloc(tot); size_t o = 0;
    for (int i = 0; i < cnt; ++i) { memcpy(b + o, iov[i].iov_base, iov[i].iov_len); o += iov[i].iov_len; }
    ssize_t r = sim::sim_write(fd, b, tot); int e = errno; free(b); errno = e; return r;
  }
  typedef ssize_t (*w_t)(int, const struct iovec*, int);
  static w_t r = (w_t)dlsym(RTLD_NEXT, "writev"); return r(fd, iov, cnt);
}
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return sim::sim_open(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return sim::sim_open(p, fl | O_LARGEFILE, m); }
int close(int fd) {
  typedef int (*c_t)(int); static c_t r = (c_t)dlsym(RTLD_NEXT, "close");
  if (fd >= 0 && fd < 1024 && sim::g_fd[fd].used) { sim::g_fd[fd].used = false; --sim::g_fd_open;
    sim::OutSut o; ++sim::g_call_close;
    if (auto* x = sim::io_fault("close", sim::g_fd[fd].name)) { if (x->kind == "kill") _exit(79); int e = sim::err_of(x->kind); r(fd); errno = e; return -1; } }
  return r(fd);
}
}

void* operator new(size_t n) { void* p = sim::do_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim::do_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::do_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::do_new(n); }
void operator delete(void* p) noexcept { sim::do_delete(p); }
void operator delete[](void* p) noexcept { sim::do_delete(p); }
void operator delete(void* p, size_t) noexcept { sim::do_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim::do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_delete(p); }
