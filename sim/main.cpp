// tqsim: driver of the deterministic simulator.
//   tqsim run PROP SEED FIRST COUNT TIME_CAP WORKERS OUTDIR   run COUNT seeded simulations
//   tqsim replay FILE [-v]                                     re-execute a plan file
//   tqsim min FILE OUT CAP                                     minimise a failing plan
//   tqsim emit SEED COUNT WORKERS OUTDIR                       export the complete meshes of seeded histories as text files
//   tqsim gen PROP SEED INDEX                                  print the plan of one run
#include "props.h"
#include "session.h"
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <iostream>

namespace sim {

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::string g_scratch;   // private to the process
static void rm_tree(const std::string& d) {
  // only ever called on directories this process created below /tmp/tqsim.*
  if (d.compare(0, 11, "/tmp/tqsim.") != 0) return;
  DIR* D = opendir(d.c_str()); if (!D) return;
  while (dirent* e = readdir(D)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p); else unlink(p.c_str()); }
  closedir(D); rmdir(d.c_str());
}
static void clean_dir(const std::string& d) {
  if (d.compare(0, 11, "/tmp/tqsim.") != 0) return;
  DIR* D = opendir(d.c_str()); if (!D) return; std::vector<std::string> v;
  while (dirent* e = readdir(D)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(d + "/" + n); }
  closedir(D); for (auto& p : v) { struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p); else { chmod(p.c_str(), 0644); unlink(p.c_str()); } }
}

void quiet_logging() {
  using namespace CppUtils;
  LOG_PROPERTIES.set_level(ERROR);
  LOG_PROPERTIES.set_error_ostream(TO_CERR);
}

AllocCfg alloc_from_step(const Step* s) {
  AllocCfg a; if (!s) return a;
  a.mode = alloc_mode_from(s->str("alloc", "lifo")); a.fill = (int)s->integer("fill", 0); a.seed = (uint64_t)s->integer("aseed", 1); return a;
}
void add_env(Rng& r, Plan& p) {
  p.add("env").set("alloc", r.pick(std::vector<std::string>{"lifo", "fifo", "shuffle", "bump", "desc", "lifo"})).set("fill", r.range(0, 3)).set("aseed", (uint64_t)r.below(1000000));
}

// ------------------------------------------------------------------ wire format between child and parent
static void put(std::string& s, const std::string& k, const std::string& v) { s += k; s += '\x01'; s += v; s += '\x02'; }
static std::map<std::string, std::string> unput(const std::string& s) {
  std::map<std::string, std::string> m; size_t p = 0;
  while (p < s.size()) { size_t a = s.find('\x01', p), b = a == std::string::npos ? a : s.find('\x02', a); if (b == std::string::npos) break; m[s.substr(p, a - p)] = s.substr(a + 1, b - a - 1); p = b + 1; }
  return m;
}
static std::string ser_log() {
  std::string s; put(s, "h", hex(LOGR.h)); put(s, "n", std::to_string(LOGR.n));
  std::string c; for (auto& k : LOGR.counts) c += k.first + "=" + std::to_string(k.second) + ";"; put(s, "c", c);
  std::string st; for (auto x : LOGR.states) st += hex(x) + ";"; put(s, "s", st);
  put(s, "notes", LOGR.notes);
  return s;
}
static void merge_log(const std::map<std::string, std::string>& m) {
  auto g = [&](const char* k) { auto it = m.find(k); return it == m.end() ? std::string() : it->second; };
  LOGR.h = fnv_str(LOGR.h, g("h")); LOGR.n += strtoull(g("n").c_str(), nullptr, 10);
  std::istringstream is(g("c")); std::string t; while (std::getline(is, t, ';')) { auto e = t.rfind('='); if (e != std::string::npos) LOGR.counts[t.substr(0, e)] += strtoull(t.c_str() + e + 1, nullptr, 10); }
  std::istringstream iss(g("s")); while (std::getline(iss, t, ';')) if (!t.empty() && LOGR.states.size() < 200000) LOGR.states.insert(strtoull(t.c_str(), nullptr, 16));
  if (!g("notes").empty()) LOGR.notes = g("notes");
}

int g_child_depth = 0;
extern int evfd;
static std::string tail_file(const std::string& p, size_t n = 1500) {
  std::string s = read_file(p); if (s.size() > n) s = s.substr(s.size() - n); for (auto& c : s) if ((unsigned char)c < 9) c = '?'; return s;
}

Iso isolate(const std::function<std::string()>& fn, const AllocCfg& ac, double cpu_s, uint64_t budget) {
  Iso R; OutSut og;
  int pfd[2]; if (pipe(pfd)) { R.cls = "sim-error"; R.msg = "pipe"; return R; }
  std::string errf = g_scratch + "/err." + std::to_string(g_child_depth);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { ::close(pfd[0]); ::close(pfd[1]); R.cls = "sim-error"; R.msg = "fork"; return R; }
  if (p == 0) {
    ++g_child_depth; ::close(pfd[0]);
    struct rlimit rl; rl.rlim_cur = (rlim_t)cpu_s; rl.rlim_max = (rlim_t)cpu_s + 2; if (alloc_is_asan()) { rl.rlim_cur *= 3; rl.rlim_max *= 3; } setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    int e = ::open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (e >= 0) { dup2(e, 2); ::close(e); }
    int nul = ::open("/dev/null", O_WRONLY); if (nul >= 0) { dup2(nul, 1); ::close(nul); }
    LOGR.h = FNV0; LOGR.n = 0; LOGR.counts.clear(); LOGR.states.clear(); LOGR.lines.clear(); LOGR.notes.clear();
    std::string cls, msg, payload;
    try {
      if (g_child_depth == 1) alloc_config(ac); else alloc_reconfig(ac);
      budget_set(budget);
      payload = fn();
    } catch (ViolationEx& v) { OutSut o; cls = v.v.cls; msg = v.v.msg; }
    catch (std::exception& x) { OutSut o; cls = "unexpected-exception"; msg = x.what(); }
    OutSut o; alloc_disarm(); io_clear(); budget_set(0);
    std::string out; put(out, "cls", cls); put(out, "msg", msg); put(out, "pay", payload); out += ser_log(); put(out, "end", "1");
    size_t k = 0; while (k < out.size()) { ssize_t w = ::write(pfd[1], out.data() + k, out.size() - k); if (w <= 0) break; k += (size_t)w; }
    _exit(0);
  }
  ::close(pfd[1]);
  std::string in; char b[65536]; double t0 = now_s(); bool killed = false; double wall = cpu_s * (alloc_is_asan() ? 6 : 3) + 30;
  for (;;) {
    struct pollfd pf{pfd[0], POLLIN, 0}; int pr = poll(&pf, 1, 1000);
    if (pr > 0) { ssize_t k = ::read(pfd[0], b, sizeof b); if (k <= 0) break; in.append(b, (size_t)k); }
    if (now_s() - t0 > wall) { kill(p, SIGKILL); killed = true; break; }
  }
  ::close(pfd[0]); int st = 0; waitpid(p, &st, 0);
  auto m = unput(in); R.payload = m["pay"]; merge_log(m);
  if (WIFEXITED(st)) R.exit_code = WEXITSTATUS(st); else if (WIFSIGNALED(st)) R.sig = WTERMSIG(st);
  R.err = tail_file(errf);
  if (m.count("end") && R.exit_code == 0 && !R.sig) { R.cls = m["cls"]; R.msg = m["msg"]; return R; }
  if (killed) { R.cls = "hang"; R.msg = "no end within the wall-clock limit"; }
  else if (R.sig == SIGXCPU || (R.sig == SIGKILL)) { R.cls = "hang"; R.msg = "CPU limit exceeded"; }
  else if (R.sig) { R.cls = std::string("crash-") + (R.sig == SIGSEGV ? "SIGSEGV" : R.sig == SIGABRT ? "SIGABRT" : R.sig == SIGFPE ? "SIGFPE" : std::to_string(R.sig)); R.msg = "process killed by signal " + std::to_string(R.sig) + "; " + R.err; }
  else if (R.exit_code == 79) { R.died_by_kill_fault = true; }
  else if (R.exit_code == 77) { R.cls = "heap-corruption"; R.msg = R.err; }
  else if (R.exit_code == 78) { R.cls = "no-progress"; R.msg = "step budget exceeded"; }
  else if (R.exit_code == 76) { R.cls = "memory-error"; size_t p0 = R.err.find("ERROR:"); R.msg = p0 == std::string::npos ? R.err : R.err.substr(p0, 300); }
  else if (R.exit_code >= 128) { R.terminated = true; R.term_code = R.exit_code & 127; R.cls = "terminated"; R.msg = "the code called exit(" + std::to_string(R.term_code) + "); " + R.err; }
  else { R.cls = "exit-" + std::to_string(R.exit_code); R.msg = R.err; }
  return R;
}

const PropDef* find_prop(const std::string& id) { for (auto& p : registry()) if (id == p.id) return &p; return nullptr; }

// ------------------------------------------------------------------ one run
static bool always_counts(const std::string& c) {
  static const std::set<std::string> s{"hang", "heap-corruption", "no-progress", "memory-error", "unexpected-exception", "sim-error"};
  return s.count(c) || c.compare(0, 6, "crash-") == 0 || c.compare(0, 5, "exit-") == 0;
}
struct RunOut { std::string cls, msg; uint64_t h = 0; };
static RunOut run_plan(const Plan& p, bool record) {
  RunOut o; const PropDef* d = find_prop(p.prop);
  if (!d) { o.cls = "sim-error"; o.msg = "unknown property " + p.prop; return o; }
  LOGR = Log(); LOGR.record = record;
  std::string evf = g_scratch + "/events"; if (record) evfd = ::open(evf.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
  std::string dir = g_scratch + "/w"; ::mkdir(dir.c_str(), 0755); clean_dir(dir);
  Iso r = isolate([&]() -> std::string { io_set_dir(dir + "/"); quiet_logging(); d->exec(p, dir + "/"); return ""; }, alloc_from_step(p.find("env")), 30, 40000000ull);
  o.cls = r.cls; o.msg = r.msg;
  if (!o.cls.empty() && !getenv("TQSIM_ALL_CLASSES") && d->classes[0] && !always_counts(o.cls) && (std::string(",") + d->classes + ",").find("," + o.cls + ",") == std::string::npos) { LOGR.counts["outside:" + o.cls]++; o.cls.clear(); o.msg.clear(); }
  if (r.died_by_kill_fault) { o.cls = "sim-error"; o.msg = "kill fault escaped"; }
  if (record) { if (evfd >= 0) ::close(evfd); evfd = -1; std::istringstream is(read_file(evf)); std::string t; LOGR.lines.clear(); while (std::getline(is, t)) LOGR.lines.push_back(t); }
  o.h = LOGR.h; return o;
}
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b); return r.next(); }
static Plan make_plan(const std::string& prop, uint64_t seed, uint64_t idx) {
  uint64_t hp = fnv_str(FNV0, prop); Rng r(mix(mix(seed, hp), idx)); Plan p; p.prop = prop; find_prop(prop)->gen(r, p); vary(r, p); return p;
}

// ------------------------------------------------------------------ minimiser
static bool fails_same(const Plan& p, const std::string& cls) { return run_plan(p, false).cls == cls; }
static Plan minimise(Plan p, const std::string& cls, double cap) {
  double t0 = now_s();
  auto left = [&] { return now_s() - t0 < cap; };
  // 1. drop chunks of steps
  for (size_t chunk = std::max<size_t>(1, p.steps.size() / 2); left(); ) {
    bool any = false;
    for (size_t i = 0; i < p.steps.size() && left(); ) {
      Plan q = p; size_t k = std::min(chunk, q.steps.size() - i); q.steps.erase(q.steps.begin() + i, q.steps.begin() + i + k);
      if (!q.steps.empty() && fails_same(q, cls)) { p = q; any = true; } else i += chunk;
    }
    if (chunk == 1 && !any) break; if (chunk > 1) chunk = chunk / 2;
  }
  // 2. shrink counts
  for (size_t i = 0; i < p.steps.size() && left(); ++i) for (auto& kv : std::map<std::string, std::string>(p.steps[i].kv)) {
    static const std::set<std::string> ints{"nth", "at", "n", "it", "burst", "span", "arg", "repeat", "fill", "chunk", "bytes"};
    if (!ints.count(kv.first)) continue; long v = strtol(kv.second.c_str(), nullptr, 10);
    for (long c : {0L, 1L, v / 8, v / 2, v - v / 4, v - 1}) { if (c < 0 || c >= v || !left()) continue; Plan q = p; q.steps[i].kv[kv.first] = std::to_string(c); if (fails_same(q, cls)) { p = q; break; } }
  }
  return p;
}

static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if ((unsigned char)c < 32) o += ' '; else if ((unsigned char)c >= 127) o += '?'; else o += c; } return o; }

static void worker(const std::string& prop, uint64_t seed, uint64_t first, uint64_t count, double cap, int w, int W, const std::string& out) {
  double t0 = now_s(); uint64_t runs = 0, nontriv = 0, nviol = 0, simsteps = 0; Log total; std::set<uint64_t> hashes, states; std::string samples; std::vector<std::string> vio; int nsamp = 0;
  for (uint64_t i = first + w; i < first + count; i += W) {
    if (now_s() - t0 > cap) break;
    if (file_exists(out + "/stop")) break;
    Plan p = make_plan(prop, seed, i);
    RunOut r = run_plan(p, false);
    ++runs; simsteps += LOGR.n; bool fresh = hashes.insert(r.h).second;
    bool nt = fresh && LOGR.n >= 3; if (nt) ++nontriv;
    for (auto& c : LOGR.counts) total.counts[c.first] += c.second;
    for (auto s : LOGR.states) if (states.size() < 400000) states.insert(s);
    if (nt && nsamp < 1 && r.cls.empty()) { ++nsamp; std::string t = p.text(); if (t.size() > 1500) t = t.substr(0, 1500) + "..."; samples += t + "\n=> events " + std::to_string(LOGR.n) + " hash " + hex(r.h) + "\n"; }
    if (!r.cls.empty()) {
      ++nviol; std::string f = out + "/v" + std::to_string(i) + ".plan";
      write_file(f, "# class " + r.cls + "\n# seed " + std::to_string(seed) + " run " + std::to_string(i) + "\n# " + jesc(r.msg.substr(0, 600)) + "\n" + p.text());
      vio.push_back(std::to_string(i) + "\t" + r.cls + "\t" + f + "\t" + jesc(r.msg.substr(0, 600)));
      write_file(out + "/stop", "1"); if (nviol >= 3) break;
    }
  }
  std::string s = "{\"runs\":" + std::to_string(runs) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"events\":" + std::to_string(simsteps) + ",\"wall\":" + fmt(now_s() - t0) + ",\"counts\":{";
  bool f = true; for (auto& c : total.counts) { if (!f) s += ","; f = false; s += "\"" + jesc(c.first) + "\":" + std::to_string(c.second); }
  s += "},\"hashes\":["; f = true; for (auto h : hashes) { if (!f) s += ","; f = false; s += "\"" + hex(h) + "\""; }
  s += "],\"states\":["; f = true; for (auto h : states) { if (!f) s += ","; f = false; s += "\"" + hex(h) + "\""; }
  s += "],\"sample\":\"" + jesc(samples) + "\",\"violations\":["; f = true; for (auto& v : vio) { if (!f) s += ","; f = false; s += "\"" + jesc(v) + "\""; }
  s += "]}\n"; write_file(out + "/worker" + std::to_string(w) + ".json", s);
}

} // namespace sim

using namespace sim;
int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  char tmpl[] = "/tmp/tqsim.XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; } g_scratch = tmpl;
  struct Clean { ~Clean() { rm_tree(tmplp); } std::string tmplp; } cl{tmpl};
  std::string cmd = argc > 1 ? argv[1] : "";
  int rc = 0;
  if (cmd == "gen" && argc >= 5) { std::cout << make_plan(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10)).text(); }
  else if (cmd == "run" && argc >= 9) {
    std::string prop = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10); double cap = atof(argv[6]); int W = atoi(argv[7]); std::string out = argv[8];
    if (!find_prop(prop)) { fprintf(stderr, "unknown property\n"); rc = 3; }
    else {
      ::mkdir(out.c_str(), 0755); std::vector<pid_t> ps;
      for (int w = 0; w < W; ++w) { pid_t p = fork(); if (!p) { g_scratch += "/p" + std::to_string(w); ::mkdir(g_scratch.c_str(), 0755); worker(prop, seed, first, count, cap, w, W, out); _exit(0); } ps.push_back(p); }
      for (auto p : ps) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 3; }
    }
  } else if (cmd == "emit" && argc >= 6) {
    uint64_t seed = strtoull(argv[2], 0, 10), count = strtoull(argv[3], 0, 10); int W = atoi(argv[4]); std::string out = argv[5]; ::mkdir(out.c_str(), 0755); std::vector<pid_t> ps;
    for (int w = 0; w < W; ++w) { pid_t pid = fork(); if (!pid) { g_scratch += "/p" + std::to_string(w); ::mkdir(g_scratch.c_str(), 0755);
      for (uint64_t i = w; i < count; i += W) { Plan p = make_plan("C13", seed, i);
        isolate([&]() -> std::string { io_set_dir(g_scratch + "/"); quiet_logging(); SessionCfg c; c.dir = g_scratch + "/"; c.check = false; c.skip_writes = true; Session S(p, c); S.run();
          for (auto& m : S.ms) if (m.second.alive && m.second.complete && !m.second.failed && !m.second.damaged) { std::string f = "e" + std::to_string(i) + "_" + std::to_string(m.first); Step s("write"); s.set("m", m.first).set("file", f).set("fmt", "txt"); S.cfg.skip_writes = false; if (S.step(s).rc == 1) { OutSut o; write_file(out + "/" + f + ".txt", read_file(g_scratch + "/" + f + ".txt")); } }
          return ""; }, alloc_from_step(p.find("env")), 20, 40000000ull); }
      _exit(0); } ps.push_back(pid); }
    for (auto p : ps) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 3; }
  } else if (cmd == "replay" && argc >= 3) {
    bool v = argc > 3; Plan p = Plan::parse(read_file(argv[2])); RunOut a = run_plan(p, true); auto lines = LOGR.lines; uint64_t n = LOGR.n;
    std::map<std::string, uint64_t> counts = LOGR.counts;
    RunOut b = run_plan(p, true);
    if (v) for (auto& l : lines) std::cout << l << "\n";
    for (auto& c : counts) std::cout << "count " << c.first << " " << c.second << "\n";
    std::cout << "events " << n << " hash " << hex(a.h) << (a.h == b.h && a.cls == b.cls ? " deterministic" : " NOT-DETERMINISTIC") << "\n";
    std::cout << "result " << (a.cls.empty() ? "ok" : a.cls) << "\n"; if (!a.cls.empty()) std::cout << "message " << a.msg << "\n";
    rc = a.cls.empty() ? 0 : 1; if (a.h != b.h || a.cls != b.cls) rc = 4;
  } else if (cmd == "min" && argc >= 5) {
    std::string text = read_file(argv[2]); Plan p = Plan::parse(text); RunOut a = run_plan(p, false); RunOut b = run_plan(p, false);
    if (a.cls.empty() || a.cls != b.cls || a.h != b.h) { std::cout << "unstable " << a.cls << " " << b.cls << "\n"; rc = 4; }
    else {
      std::string head; std::istringstream is(text); std::string l; while (std::getline(is, l) && !l.empty() && l[0] == '#') head += l + "\n";
      Plan q = minimise(p, a.cls, atof(argv[4])); RunOut c = run_plan(q, true); auto lines = LOGR.lines;
      std::string s = head + "# minimised from " + std::to_string(p.steps.size()) + " to " + std::to_string(q.steps.size()) + " steps\n# result: " + c.cls + ": " + jesc(c.msg.substr(0, 900)) + "\n# event log of the replay:\n"; size_t k = 0; for (auto& x : lines) { if (lines.size() > 120 && k++ < lines.size() - 120) continue; s += "#   " + x + "\n"; }
      write_file(argv[3], s + q.text()); std::cout << "class " << c.cls << "\nmessage " << jesc(c.msg.substr(0, 900)) << "\n";
    }
  } else if (cmd == "inproc" && argc >= 3) { // for debuggers
    Plan p = Plan::parse(read_file(argv[2])); std::string dir = g_scratch + "/w/"; ::mkdir(dir.c_str(), 0755); g_child_depth = 1; alloc_config(alloc_from_step(p.find("env"))); io_set_dir(dir); quiet_logging();
    try { find_prop(p.prop)->exec(p, dir); } catch (ViolationEx& v) { OutSut o; std::cout << v.v.cls << ": " << v.v.msg << "\n"; rc = 1; } g_child_depth = 0;
  } else { fprintf(stderr, "usage\n"); rc = 3; }
  return rc;
}
