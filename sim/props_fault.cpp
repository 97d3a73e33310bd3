// Properties about faults inside operations (size function, memory), interleaved tasks,
// heap layouts, logging and resource release.
#include "props.h"
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>

namespace sim {
using namespace TQMesh;

static int log_uniform(Rng& r, double hi) { return (int)std::exp(r.uni(0, std::log(hi))) - 1; }
static void fail_iso(const Iso& i, const std::string& what) { if (!i.cls.empty()) violate(i.cls, what + ": " + i.msg); }
static std::string subdir(const std::string& dir, const std::string& n) { OutSut o; std::string d = dir + n + "/"; ::mkdir(d.c_str(), 0755); return d; }

// an unrelated domain far away from everything else, meshed after the faults: "later work"
static void add_late(Rng& r, Plan& p) {
  GenOpt g; g.target = 30; g.max_holes = 1; DomSpec d = gen_domain(r, g); translate(d, 1500, 1200); d.scale = 10000; dom_to_plan(p, 50, d);
  auto L = [&](const char* n) -> Step& { return p.add(n).set("m", 50).set("late", 1); };
  p.add("new").set("m", 50).set("dom", 50).set("id", 50).set("color", 3).set("late", 1);
  if (r.chance(0.3)) L("tri").set("n", r.range(1, 20));
  L("tri").set("n", 0); if (r.chance(0.4)) L("t2q"); if (r.chance(0.4)) L("refine"); if (r.chance(0.5)) L("smooth").set("kind", "mixed").set("it", 2).set("ql", 0);
}
static std::string run_late(Session& S, const Plan& p) { alloc_disarm(); for (auto& d : S.doms) d.second->cb->at = -1; std::string h; for (auto& s : p.steps) if (s.integer("late")) { OpResult r = S.step(s); h += r.text() + "/" + hex(S.hash_mesh(50)) + " "; } return h; }
static std::string solo_late(const Plan& p, const AllocCfg& ac, const std::string& dir) {
  Iso i = isolate([&]() -> std::string { SessionCfg c; c.dir = dir; Session S(p, c); return run_late(S, p); }, ac, 20, 40000000ull);
  fail_iso(i, "later work on its own"); return i.payload;
}
// inserts fault steps in front of random operations of the history
static void gen_faulty_history(Rng& r, Plan& p, const HistOpt& o, double prob, const std::function<void(const Step&)>& fault) {
  Plan q; gen_history(r, q, o); std::map<int, int> dom; bool any = false; std::vector<const Step*> ops;
  for (auto& s : q.steps) if (is_user_op(s)) ops.push_back(&s);
  const Step* forced = ops.empty() ? nullptr : ops[r.below(ops.size())];
  for (auto& s : q.steps) { if (is_user_op(s) && (&s == forced || r.chance(prob))) { fault(s); any = true; } p.steps.push_back(s);
    if (is_user_op(s) && r.chance(0.12)) { auto& w = p.add("write"); w.set("m", s.str("m")).set("file", "o" + std::to_string(r.below(3))).set("fmt", r.chance(0.5) ? "txt" : "vtu"); } }
  (void)any;
}
static std::map<int, uint64_t> others(Session& S, const Step& s) {
  std::map<int, uint64_t> h; for (auto& m : S.ms) if (m.second.alive && !m.second.damaged && m.first != (int)s.integer("m", -1) && !(s.name == "merge" && m.first == (int)s.integer("d", -1))) h[m.first] = S.hash_mesh(m.first); return h;
}
// one operation with possible faults; the parts of the world it does not concern must stay as they were
static OpResult guarded_step(Session& S, const Step& s, const char* cls_other) {
  auto before = others(S, s); size_t n = S.gen->size(); int k = (int)s.integer("m"); bool obs = s.name == "write" || s.name == "check"; uint64_t own = obs && S.ms.count(k) && S.ms[k].alive && !S.ms[k].damaged ? S.hash_mesh(k) : 0;
  OpResult r = S.step(s);
  if (r.rc != -1 && r.exc != "reported") return r;
  std::string w = "after '" + s.text() + "' failed (" + r.text() + ")";
  for (auto& b : before) if (S.hash_mesh(b.first) != b.second) violate(cls_other, w + ": mesh " + std::to_string(b.first) + ", which the operation does not concern, has changed");
  if (own && S.hash_mesh(k) != own) violate(cls_other, w + ": a failed export or check changed the mesh");
  if (s.name == "new" && S.gen->size() != n) violate("half-created", w + ": the failed creation left a mesh behind (" + std::to_string(S.gen->size()) + " instead of " + std::to_string(n) + " meshes)");
  S.verify_all(w); LOGR.count("probe_after_fault_verified");
  return r;
}

// ================================================================ C06 exceptions of the size function
void gen_C06(Rng& r, Plan& p) {
  add_env(r, p); HistOpt o; o.target = 45; o.max_doms = 2; std::map<int, int> dom;
  gen_faulty_history(r, p, o, 0.2, [&](const Step& s) { int d = s.name == "new" ? (int)s.integer("dom") : (int)s.integer("m"); p.add("cb").set("dom", d).set("at", log_uniform(r, r.chance(0.3) ? 60 : 4000)).set("what", "throw"); });
  add_late(r, p);
}
void exec_C06(const Plan& p, const std::string& dir) {
  std::string want = solo_late(p, alloc_from_step(p.find("env")), dir);
  SessionCfg c; c.dir = dir; c.one_shot = true; c.skip_damaged = true; Session S(p, c);
  for (auto& s : p.steps) {
    if (s.integer("late")) continue;
    OpResult r = guarded_step(S, s, "other-mesh-changed"); if (r.rc == -2) continue;
    if (S.last_cb && r.rc != -1) violate("swallowed", "after '" + s.text() + "' (" + r.text() + "): the size function failed but the operation returned normally");
    if (S.last_cb && r.exc != "user") violate("exception-replaced", "after '" + s.text() + "': the caller received '" + r.exc + "' instead of the exception of the size function");
    if (!S.last_cb && r.rc == -1) violate("exception", "after '" + s.text() + "': exception " + r.exc + " without a fault in this operation");
    if (S.last_cb) LOGR.count("probe_fault_in_" + s.name);
  }
  std::string got = run_late(S, p); if (got != want) violate("later-work-differs", "a mesh generated after the failure differs from one generated without it: " + got + " instead of " + want);
  LOGR.count("probe_late_equal"); S.destroy();
}

// ================================================================ C09 failing allocations
void gen_C09(Rng& r, Plan& p) {
  add_env(r, p); HistOpt o; o.target = 35; o.max_doms = 2;
  gen_faulty_history(r, p, o, 0.25, [&](const Step& s) { (void)s; p.add("allocfail").set("nth", log_uniform(r, r.chance(0.4) ? 300 : 20000)).set("burst", r.chance(0.7) ? 1 : r.range(2, 50)); });
  add_late(r, p);
}
void exec_C09(const Plan& p, const std::string& dir) {
  std::string want = solo_late(p, alloc_from_step(p.find("env")), dir);
  SessionCfg c; c.dir = dir; c.one_shot = true; c.skip_damaged = true; Session S(p, c);
  for (auto& s : p.steps) {
    if (s.integer("late")) continue;
    OpResult r = guarded_step(S, s, "other-mesh-changed"); if (r.rc == -2) continue;
    if (!S.last_alloc && r.rc == -1) violate("exception", "after '" + s.text() + "': exception " + r.exc + " although no allocation failed");
    if (S.last_alloc) { LOGR.count("alloc_failure", S.last_alloc); LOGR.count("probe_fault_in_" + s.name + (r.rc == 1 ? "_survived" : r.rc == 0 ? "_reported" : "_exception"));
      if (s.name == "write" && r.rc == 1) { std::string e = check_export(S, (int)s.integer("m"), dir + s.str("file") + "." + s.str("fmt"), s.str("fmt")); if (!e.empty()) violate("acked-incomplete", "after '" + s.text() + "': an allocation failed, the export reported success, but " + e); } }
  }
  std::string got = run_late(S, p); if (got != want) violate("later-work-differs", "a mesh generated after the failure differs from one generated without it: " + got + " instead of " + want);
  LOGR.count("probe_late_equal"); S.destroy();
}

// ================================================================ C07 interleaved independent tasks
void gen_C07(Rng& r, Plan& p) {
  add_env(r, p); int n = r.range(2, 3); HistOpt o; o.target = n == 2 ? 45 : 30; o.max_doms = 2; bool same = r.chance(0.25); Rng fork(r.next());
  for (int t = 0; t < n; ++t) {
    Plan q; Rng rt(same ? fork.s : r.next()); gen_history(rt, q, o); int nf = 0;
    if (same && t && r.chance(0.6)) for (auto& s : q.steps) if (s.name == "dom") { SizeSpec z = SizeSpec::parse(s.str("size")); if (z.kind == "const") { z.a *= r.uni(1.1, 1.6); s.set("size", z.text()); } }   // same geometry, other sizes
    for (auto s : q.steps) {
      if (s.has("id") && (s.name == "dom" || s.name == "loop" || s.name == "fixv" || s.name == "fixe")) s.set("id", (int)s.integer("id") + 10 * t);
      if (s.name == "new") s.set("dom", (int)s.integer("dom") + 10 * t);
      if (is_user_op(s)) s.set("t", t);
      p.steps.push_back(s);
      if (is_user_op(s) && r.chance(0.2)) p.add("write").set("t", t).set("m", s.str("m")).set("file", "t" + std::to_string(t) + "_" + std::to_string(nf++)).set("fmt", r.chance(0.5) ? "txt" : "vtu");
    }
  }
  // schedule: explicit preemption points (index of the yield point at which another task takes over)
  int k = r.pick(std::vector<int>{1, 2, 4, 10, 30, 120}); double gap = r.pick(std::vector<double>{5, 50, 400, 3000}); uint64_t at = 0;
  for (int i = 0; i < k; ++i) { at += 1 + (uint64_t)(-std::log(1 - r.uni()) * gap); p.add("sw").set("at", at).set("to", (int)r.below(n)); }
}
static std::string task_run(const Plan& p, const std::string& d, int t) {
  SessionCfg c; c.dir = d; c.check = false; std::string h; Plan q = p; { OutSut o; }
  Session S(q, c);
  for (auto& s : p.steps) if (is_user_op(s) && s.integer("t") == t) { OpResult r = S.step(s); h += s.name + ":" + r.text() + ":" + hex(world_hash(S)); if (s.name == "write" && r.rc == 1) h += ":" + hex(fnv_str(FNV0, read_file(d + s.str("file") + "." + s.str("fmt")))); h += " "; }
  return h;
}
void exec_C07(const Plan& p, const std::string& dir) {
  std::set<int> ts; for (auto& s : p.steps) if (is_user_op(s)) ts.insert((int)s.integer("t")); std::vector<int> id(ts.begin(), ts.end()); int n = (int)id.size(); AllocCfg ac = alloc_from_step(p.find("env"));
  std::vector<std::string> solo; for (int k = 0; k < n; ++k) { Iso i = isolate([&, k]() { return task_run(p, dir, id[k]); }, ac, 20, 40000000ull); fail_iso(i, "task on its own"); solo.push_back(i.payload); }
  std::map<uint64_t, int> sw; for (auto& s : p.steps) if (s.name == "sw") sw[(uint64_t)s.integer("at")] = (int)s.integer("to");
  uint64_t y = 0; uint64_t sig = FNV0; std::vector<std::string> got(n), err(n), ecls(n); std::vector<std::function<void()>> f;
  for (int k = 0; k < n; ++k) f.push_back([&, k] { try { got[k] = task_run(p, dir, id[k]); } catch (ViolationEx& v) { ecls[k] = v.v.cls; err[k] = v.v.msg; } catch (std::exception& e) { ecls[k] = "unexpected-exception"; err[k] = e.what(); } });
  Sched::run(f, [&](int cur, int m, const std::vector<bool>& done, int kind) -> int {
    if (cur < 0) { for (int k = 0; k < m; ++k) if (!done[k]) return k; return 0; }
    auto it = sw.find(y++); if (it == sw.end()) return cur; int to = it->second % m; if (to == cur) to = (to + 1) % m;
    if (!done[to]) { sig = fnv(sig, &y, 8); LOGR.ev("switch " + std::to_string(cur) + "->" + std::to_string(to) + " kind " + std::to_string(kind) + " at " + std::to_string(y - 1)); LOGR.count(kind == 1 ? "switch_in_allocation" : kind == 2 ? "switch_in_file_io" : "switch_in_size_function"); }
    return to; });
  LOGR.state(sig); LOGR.count("yield_points", y);
  for (int k = 0; k < n; ++k) {
    if (!ecls[k].empty()) violate(ecls[k], "interleaved task " + std::to_string(id[k]) + ": " + err[k]);
    if (got[k] != solo[k]) { size_t i = 0; while (i < got[k].size() && i < solo[k].size() && got[k][i] == solo[k][i]) ++i; size_t b = got[k].rfind(' ', i); if (b == std::string::npos) b = 0; violate("interference", "task " + std::to_string(id[k]) + " interleaved with others gives another result than alone, first at '" + got[k].substr(b, 60) + "'"); }
    LOGR.ev("task " + std::to_string(k) + " " + hex(fnv_str(FNV0, got[k])));
  }
}

// ================================================================ C08 results depend on the input only
void gen_C08(Rng& r, Plan& p) {
  HistOpt o; o.target = 60; o.max_doms = 3; Plan q; gen_history(r, q, o); p.steps.insert(p.steps.end(), q.steps.begin(), q.steps.end());
  // a mesh created after the history may reuse the memory of meshes that were merged away
  std::vector<int> late; if (r.chance(0.6)) { int n = r.range(1, 2); for (int i = 0; i < n; ++i) { GenOpt g; g.target = 35; DomSpec d = gen_domain(r, g); translate(d, 1500.0 + 900 * i, 700); d.scale = 10000; dom_to_plan(p, 40 + i, d); p.add("new").set("m", 40 + i).set("dom", 40 + i).set("id", 40 + i).set("color", 2); HistOpt ho; ho.target = 35; gen_ops_for_mesh(r, p, ho, 40 + i, d, true); late.push_back(40 + i); } }
  int m = 0; for (auto& s : q.steps) if (s.name == "new") m = (int)s.integer("m"); p.add("write").set("m", m).set("file", "w").set("fmt", "txt"); p.add("write").set("m", 0).set("file", "v").set("fmt", "vtu");
  static const std::vector<std::string> modes{"bump", "desc", "lifo", "fifo", "shuffle"};
  int k = r.range(2, 3); for (int i = 0; i < k; ++i) p.add("layout").set("alloc", i == 0 ? std::string("bump") : r.pick(modes)).set("fill", i == 0 ? 0 : r.range(0, 3)).set("aseed", (uint64_t)r.below(1000000)).set("prior", i == 0 ? 0 : (int)r.below(4));
}
void exec_C08(const Plan& p, const std::string& dir) {
  std::string ref, refname, first_at; int idx = 0;
  for (auto& l : p.steps) {
    if (l.name != "layout") continue; std::string d = subdir(dir, "l");
    Iso i = isolate([&]() -> std::string {
      if (l.integer("prior") == 1) { // earlier, finished work on the same geometry, but with other element sizes
        Plan w = p; for (auto& s : w.steps) if (s.name == "dom") { SizeSpec z = SizeSpec::parse(s.str("size")); z.kind = "const"; if (!(z.a > 0)) z.a = 1; z.a *= 1.37; s.set("size", z.text()); }
        SessionCfg c; c.dir = d; c.check = false; Session S(w, c); int n = 0; for (auto& s : w.steps) if (is_user_op(s) && n++ < 3) S.step(s); double sum = 0;
        bool last = !first_at.empty() && S.specs.count(atoi(first_at.c_str()));
        if (last) { double x = 0, y = 0; int k = 0; sscanf(first_at.c_str(), "%d,%lf,%lf", &k, &x, &y); InSut g; sum += S.dom(k)->dom->size_function({x, y}); }   // the last place evaluated is the first one of the history
        else for (auto& x : S.specs) { LiveDom* ld = S.dom(x.first); for (auto& b : x.second.loops[0].v) { InSut g; sum += ld->dom->size_function({b.p.x, b.p.y}); } }
        LOGR.count("heap_prior_work_same_geometry"); if (sum < 0) return "negative size"; }
      else if (l.integer("prior")) { // earlier, finished work in the same process
        GenOpt g; g.target = 30; Rng pr(7 + (uint64_t)l.integer("prior")); Plan w; HistOpt o; o.target = 30; o.max_doms = 2; gen_history(pr, w, o); SessionCfg c; c.dir = d; c.check = false; Session S(w, c); S.run(); LOGR.count("heap_prior_work"); }
      SessionCfg c; c.dir = d; c.check = false; Session S(p, c); std::string h;
      for (auto& s : p.steps) if (is_user_op(s)) { OpResult r = S.step(s); h += s.name + ":" + r.text() + ":" + hex(world_hash(S)); if (s.name == "write" && r.rc == 1) h += ":" + hex(fnv_str(FNV0, read_file(d + s.str("file") + "." + s.str("fmt")))); h += " "; }
      std::string fa; for (auto& x : S.doms) { h += "calls" + std::to_string(x.second->cb->calls) + " "; if (fa.empty()) fa = std::to_string(x.first) + "," + fmt(x.second->cb->first.x) + "," + fmt(x.second->cb->first.y); }
      return h + "@" + fa; }, alloc_from_step(&l), 25, 40000000ull);
    fail_iso(i, "history with heap layout '" + l.text() + "'"); LOGR.count("heap_" + l.str("alloc")); LOGR.ev("layout " + hex(fnv_str(FNV0, i.payload))); LOGR.state(fnv_str(FNV0, i.payload));
    if (idx++ == 0) { ref = i.payload; refname = l.text(); first_at = ref.substr(ref.rfind('@') + 1); continue; }
    if (i.payload != ref) { size_t k = 0; while (k < ref.size() && k < i.payload.size() && ref[k] == i.payload[k]) ++k; size_t b = ref.rfind(' ', k); b = b == std::string::npos ? 0 : b + 1; violate("layout-dependent", "the same history gives different results with heap layout '" + l.text() + "' and '" + refname + "', first at '" + i.payload.substr(b, 60) + "' vs '" + ref.substr(b, 60) + "'"); }
    LOGR.count("probe_layouts_equal");
  }
}

// ================================================================ C14 logging never influences results
struct LogSink : std::streambuf {
  int64_t cap = -1; uint64_t n = 0; bool thr = false;
  bool full(int64_t k) { if (cap < 0 || (int64_t)n + k <= cap) return false; LOGR.count(thr ? "log_sink_throws" : "log_sink_full"); if (thr) throw std::runtime_error("log device failed"); return true; }
  int overflow(int c) override { if (full(1)) return EOF; ++n; return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize k) override { if (full(k)) return 0; n += (uint64_t)k; return k; }
  int sync() override { return cap >= 0 && (int64_t)n >= cap ? -1 : 0; }
};
void gen_C14(Rng& r, Plan& p) {
  add_env(r, p); HistOpt o; o.target = 45; o.max_doms = 2; Plan q; gen_history(r, q, o); p.steps.insert(p.steps.end(), q.steps.begin(), q.steps.end());
  static const std::vector<std::string> sinks{"cout", "cerr", "clog", "file", "file", "missing"};
  int n = r.range(1, 3); for (int i = 0; i < n; ++i) {
    auto& l = p.add("log").set("level", r.range(0, 3)).set("sink", r.pick(sinks)).set("hdr", (int)r.below(2)).set("col", (int)r.below(2)).set("nl", r.chance(0.8) ? 1 : 0).set("progress", (int)r.below(2)).set("cap", r.chance(0.5) ? -1 : log_uniform(r, 4000)).set("thr", (int)r.below(2));
    if (r.chance(0.5)) l.set("sinkE", r.pick(sinks)); if (r.chance(0.5)) l.set("sinkW", r.pick(sinks)); if (r.chance(0.4)) l.set("sinkD", r.pick(sinks));
    if (l.text().find("=file") != std::string::npos && r.chance(0.7)) { l.set("fop", r.pick(std::vector<std::string>{"open", "write", "write", "close", "full"})).set("fkind", r.pick(std::vector<std::string>{"EIO", "ENOSPC", "EACCES"})).set("nth", r.range(0, 3)); }
    if (r.chance(0.2)) l.set("change", r.range(1, 6)).set("level2", r.range(0, 3)).set("sink2", r.pick(sinks));   // the configuration changes in the middle of the work
  }
}
void exec_C14(const Plan& p, const std::string& dir) {
  AllocCfg ac = alloc_from_step(p.find("env"));
  auto run = [&](const Step* l) { return isolate([&]() -> std::string {
    using namespace CppUtils; LogSink sb[3]; if (l) for (auto& x : sb) { x.cap = l->integer("cap", -1); x.thr = l->integer("thr") != 0; }
    std::streambuf *o1 = std::cout.rdbuf(&sb[0]), *o2 = std::cerr.rdbuf(&sb[1]), *o3 = std::clog.rdbuf(&sb[2]); std::set<std::string> used;
    static const LogLevel lv[4] = {ERROR, WARNING, INFO, DEBUG};
    auto type = [&](const std::string& s) { used.insert(s); LOGR.count("log_" + s); return s == "cout" ? TO_COUT : s == "cerr" ? TO_CERR : s == "clog" ? TO_CLOG : TO_FILE; };
    auto file = [&](const std::string& s, const char* n) { return dir + (s == "file" ? "" : "no/such/dir/") + n + ".log"; };
    io_clear();
    if (l) {
      if (l->has("fop")) { if (l->str("fop") == "full") io_disk_full(l->integer("nth") * 40); else { IoFault f; f.op = l->str("fop"); f.kind = l->str("fkind"); f.nth = (uint64_t)l->integer("nth"); f.repeat = 1000000; f.match = ".log"; io_arm(f); } }
      std::string s = l->str("sink"), e = l->str("sinkE", s), w = l->str("sinkW", s), d = l->str("sinkD", s);
      LOG_PROPERTIES.set_level(lv[l->integer("level") & 3]); LOG_PROPERTIES.show_header(l->integer("hdr") != 0); LOG_PROPERTIES.use_color(l->integer("col") != 0); LOG_PROPERTIES.use_newline(l->integer("nl", 1) != 0);
      LOG_PROPERTIES.set_error_ostream(type(e), file(e, "app_e")); LOG_PROPERTIES.set_warn_ostream(type(w), file(w, "app_w")); LOG_PROPERTIES.set_info_ostream(type(s), file(s, "app")); LOG_PROPERTIES.set_debug_ostream(type(d), file(d, "app_d"));
    }
    SessionCfg c; c.dir = dir; c.check = false; std::string h; { Session S(p, c); int k = 0;
    for (auto& s : p.steps) if (is_user_op(s)) {
      if (l && l->has("change") && ++k == l->integer("change")) { std::string t = l->str("sink2"); LOG_PROPERTIES.set_level(lv[l->integer("level2") & 3]); LOG_PROPERTIES.set_info_ostream(type(t), file(t, "app2")); LOGR.count("log_reconfigured"); }
      bool live = S.ms.count((int)s.integer("m")) && S.ms[(int)s.integer("m")].alive;
      if (l && l->integer("progress") && live && s.name == "tri") { InSut g; S.gen->triangulation(*S.ms[(int)s.integer("m")].m).show_progress(true); }
      if (l && l->integer("progress") && live && s.name == "ql") { InSut g; S.gen->quad_layer_generation(*S.ms[(int)s.integer("m")].m).show_progress(true); }
      OpResult r = S.step(s); h += s.name + ":" + r.text() + ":" + hex(world_hash(S)) + " "; } }
    std::cout.rdbuf(o1); std::cerr.rdbuf(o2); std::clog.rdbuf(o3); LOGR.ev("log bytes " + std::to_string(sb[0].n) + "/" + std::to_string(sb[1].n) + "/" + std::to_string(sb[2].n)); if (sb[0].n + sb[1].n + sb[2].n) LOGR.count("probe_log_output");
    static const char* nm[3] = {"cout", "cerr", "clog"}; if (l) for (int i = 0; i < 3; ++i) if (sb[i].n && !used.count(nm[i])) violate("log-elsewhere", std::to_string(sb[i].n) + " characters were written to std::" + nm[i] + ", which is not configured for logging");
    for (auto& t : io_touched()) { size_t b = t.rfind('/'); std::string bn = b == std::string::npos ? t : t.substr(b + 1); if (bn.compare(0, 3, "app") != 0 || !used.count("file")) violate("log-elsewhere", "a file was opened for writing that is not configured for logging: " + bn); }
    io_clear(); return h; }, ac, 25, 40000000ull); };
  Iso a = run(nullptr); fail_iso(a, "history with quiet logging");
  for (auto& s : p.steps) if (s.name == "log") { Iso b = run(&s); fail_iso(b, "history with '" + s.text() + "'"); if (a.payload != b.payload) violate("log-changes-results", "the same history gives different results with '" + s.text() + "'"); LOGR.ev("log equal"); LOGR.count("probe_log_equal"); }
}

// ================================================================ C15 everything is released
void gen_C15(Rng& r, Plan& p) {
  add_env(r, p); Step* e = &p.steps.back(); (void)e; HistOpt o; o.target = 40; o.max_doms = 3;
  gen_faulty_history(r, p, o, 0.15, [&](const Step& s) {
    int k = r.range(0, 4); int d = s.name == "new" ? (int)s.integer("dom") : (int)s.integer("m");
    if (k == 0) p.add("cb").set("dom", d).set("at", log_uniform(r, 3000)).set("what", "throw");
    else if (k == 1) p.add("allocfail").set("nth", log_uniform(r, 8000)).set("burst", r.chance(0.7) ? 1 : r.range(2, 20));
    else if (k == 2) { static const std::vector<std::string> op{"open", "write", "close"}, kd{"EIO", "ENOSPC", "EACCES", "torn"}; p.add("io").set("op", r.pick(op)).set("kind", r.pick(kd)).set("nth", r.range(0, 2)).set("arg", r.range(0, 3000)); p.add("write").set("m", s.name == "new" ? 0 : (int)s.integer("m")).set("file", "x").set("fmt", r.chance(0.5) ? "txt" : "vtu"); p.add("ioclear"); }
  });
  // log messages go to files for a while
  if (r.chance(0.3)) { Plan q; q.prop = p.prop; int n = r.range(1, 3); std::set<size_t> at; for (int i = 0; i < n; ++i) at.insert(r.below(p.steps.size() + 1)); for (size_t i = 0; i <= p.steps.size(); ++i) { if (at.count(i)) q.add("logcfg").set("sink", r.chance(0.7) ? "file" : "cerr").set("lv", (int)r.below(4)); if (i < p.steps.size()) q.steps.push_back(p.steps[i]); } p = q; }
}
static void log_to(int lv, bool file, const std::string& dir) {
  using namespace CppUtils; std::string f = dir + "l" + std::to_string(lv) + ".log"; OStreamType t = file ? TO_FILE : TO_CERR; InSut g; try {
  if (lv == 0) LOG_PROPERTIES.set_error_ostream(t, f); else if (lv == 1) LOG_PROPERTIES.set_warn_ostream(t, f); else if (lv == 2) LOG_PROPERTIES.set_info_ostream(t, f); else LOG_PROPERTIES.set_debug_ostream(t, f); } catch (std::bad_alloc&) { LOGR.count("alloc_failure"); }
}
void exec_C15(const Plan& p, const std::string& dir) {
  auto once = [&](bool count) {
    int64_t live0 = alloc_sut_live(); int fds0 = io_open_fds();
    { SessionCfg c; c.dir = dir; c.one_shot = true; c.check = false; c.skip_damaged = true; Session S(p, c); for (auto& s : p.steps) { if (s.name == "logcfg") { log_to((int)s.integer("lv") & 3, s.str("sink") == "file", dir); LOGR.count("log_to_file"); continue; } S.step(s); if (S.last_alloc) { LOGR.count("alloc_failure", S.last_alloc); S.last_alloc = 0; } } io_clear(); alloc_disarm(); if (count && alloc_sut_live() > live0 + 50) LOGR.count("probe_many_live_blocks"); S.destroy(); for (auto& s : p.steps) if (s.name == "logcfg") log_to((int)s.integer("lv") & 3, false, dir); }
    if (io_open_fds() != fds0) violate("fd-leak", std::to_string(io_open_fds() - fds0) + " files are still open after everything was destroyed");
    return alloc_sut_live() - live0;
  };
  // one-time initialisations of the runtime are not leaks: only growth of the second round counts
  once(false); int64_t l = once(true); LOGR.ev("live after teardown " + std::to_string(l));
  if (l != 0) violate("leak", std::to_string(l) + " memory blocks were never released after all meshes and domains were destroyed");
}

// ================================================================ C16 misbehaving size functions
void gen_C16(Rng& r, Plan& p) {
  add_env(r, p); HistOpt o; o.target = 40; o.max_doms = 2;
  gen_faulty_history(r, p, o, 0.25, [&](const Step& s) {
    int d = s.name == "new" ? (int)s.integer("dom") : (int)s.integer("m"); int k = r.range(0, 9); auto& c = p.add("cb").set("dom", d).set("at", log_uniform(r, 2500)).set("span", r.chance(0.5) ? 1 : r.range(2, 4000));
    if (k < 2) c.set("what", "nan"); else if (k == 2) c.set("what", "inf"); else if (k == 3) c.set("what", "value").set("value", 0.0); else if (k == 4) c.set("what", "value").set("value", -r.uni(0.001, 10));
    else if (k == 5) c.set("what", "value").set("value", r.pick(std::vector<double>{1e300, 1e18, 1e6, -INFINITY, 1e100})); else c.set("what", "jitter").set("value", r.uni(0.05, 0.7)).set("span", 100000);
  });
}
void exec_C16(const Plan& p, const std::string& dir) {
  Iso i = isolate([&]() -> std::string {
    SessionCfg c; c.dir = dir; c.check = false; Session S(p, c); uint64_t f0 = 0; bool coarse = false;
    for (auto& s : p.steps) { OpResult r = S.step(s); uint64_t f = 0; for (auto& d : S.doms) f += d.second->cb->fired; if (f != f0) { LOGR.count("probe_misbehaved_in_" + s.name); f0 = f; }
      if (r.rc == -1) { LOGR.count("probe_ended_by_exception"); return "exception"; }
      // smoothing and refinement promise nothing for badly shaped elements, so element shapes are required only up to them
      if (s.name == "smooth" || s.name == "refine") coarse = true;
      if (is_user_op(s) && !coarse) { S.verify_all("after '" + s.text() + "'"); LOGR.count("probe_verified"); } }
    return "done"; }, alloc_from_step(p.find("env")), 25, 30000000ull);
  if (i.terminated) { LOGR.count("probe_terminated"); if (i.term_code == 0) violate("terminated-success", "an invalid size value ended the process with the exit status of success"); LOGR.ev("terminated " + std::to_string(i.term_code)); return; }
  fail_iso(i, "size function misbehaves"); LOGR.ev(i.payload);
}
}
