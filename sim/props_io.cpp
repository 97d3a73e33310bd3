// Properties about exported files under I/O faults and process kills.
#include "props.h"
#include <dirent.h>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>

namespace sim {
using namespace TQMesh;

static std::vector<std::string> list_dir(const std::string& d) {
  std::vector<std::string> v; OutSut o; DIR* D = opendir(d.c_str()); if (!D) return v;
  while (dirent* e = readdir(D)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
  closedir(D); std::sort(v.begin(), v.end()); return v;
}
static std::map<std::string, uint64_t> dir_state(const std::string& d) {
  std::map<std::string, uint64_t> m; for (auto& n : list_dir(d)) m[n] = fnv_str(FNV0, read_file(d + n)); return m;
}
static void arm_from(const Step& s) {
  if (s.name == "io") { IoFault f; f.op = s.str("op"); f.match = s.str("match"); f.nth = (uint64_t)s.integer("nth"); f.kind = s.str("kind"); f.arg = (uint64_t)s.integer("arg"); f.repeat = (uint64_t)s.integer("repeat", 1); io_arm(f); }
  else if (s.name == "diskfull") io_disk_full(s.integer("bytes"));
}
// one random fault on the output path; returns nothing, adds steps
static void gen_out_fault(Rng& r, Plan& p) {
  int k = r.range(0, 9);
  static const std::vector<std::string> oe{"EACCES", "EMFILE", "ENOSPC", "EROFS", "ENOENT"}, we{"EIO", "ENOSPC", "EDQUOT"};
  if (k == 0) p.add("io").set("op", "open").set("kind", r.pick(oe));
  else if (k <= 2) p.add("io").set("op", "write").set("kind", r.pick(we)).set("nth", r.range(0, 4)).set("repeat", r.chance(0.5) ? 1 : 100000);
  else if (k == 3) p.add("io").set("op", "write").set("kind", "torn").set("nth", r.range(0, 4)).set("arg", r.range(1, 9000));
  else if (k == 4) p.add("io").set("op", "write").set("kind", "short").set("nth", r.range(0, 3)).set("arg", r.range(1, 9000)).set("repeat", r.range(1, 6));
  else if (k == 5) p.add("io").set("op", "write").set("kind", "EINTR").set("nth", r.range(0, 3)).set("repeat", r.range(1, 4));
  else if (k == 6) p.add("io").set("op", "close").set("kind", r.pick(we)).set("arg", r.range(0, 99));
  else if (k == 7) p.add("diskfull").set("bytes", r.chance(0.3) ? r.range(0, 200) : r.range(0, 30000));
  else if (k == 8) { p.add("io").set("op", "write").set("kind", "short").set("nth", 0).set("arg", r.range(1, 5000)).set("repeat", 50); p.add("diskfull").set("bytes", r.range(0, 20000)); }
}

// a std::cout that accepts a bounded number of bytes
struct SinkBuf : std::streambuf {
  std::string got; int64_t cap; bool failed = false; bool fail_sync = false;
  explicit SinkBuf(int64_t c) : cap(c) {}
  int overflow(int c) override { OutSut o; if (c == EOF) return 0; if (cap >= 0 && (int64_t)got.size() >= cap) { failed = true; return EOF; } got += (char)c; return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { OutSut o; std::streamsize k = n; if (cap >= 0) k = std::max<int64_t>(0, std::min<int64_t>(n, cap - (int64_t)got.size())); got.append(s, (size_t)k); if (k < n) failed = true; return k; }
  int sync() override { if (fail_sync) { failed = true; return -1; } return 0; }
};

// ================================================================ C01 acknowledged exports are complete
void gen_C01(Rng& r, Plan& p) {
  add_env(r, p); HistOpt o; o.target = r.chance(0.3) ? 160 : 50; o.max_doms = 2; Plan q; gen_history(r, q, o);
  int nf = 0; bool any = false; std::vector<int> live;
  auto one = [&](int k) {
    any = true; std::string file = r.chance(0.25) && nf ? "f" + std::to_string(r.below(nf)) : "f" + std::to_string(nf++);
    std::string fm = r.chance(0.5) ? "txt" : "vtu"; if (r.chance(0.05)) file = "missing/" + file;
    if (r.chance(0.1)) { int64_t cap = r.chance(0.3) ? -1 : r.range(0, 12000); p.add("wcout").set("m", k).set("cap", (long)cap).set("sync", r.chance(0.2) ? 1 : 0); return; }
    p.add("ioclear"); if (r.chance(0.8)) gen_out_fault(r, p);
    p.add("write").set("m", k).set("file", file).set("fmt", fm);
    p.add("ioclear"); if (r.chance(0.4)) p.add("write").set("m", k).set("file", file).set("fmt", fm);
  };
  for (auto& s : q.steps) { p.steps.push_back(s); if (s.name == "new") live.push_back((int)s.integer("m")); if (is_user_op(s) && !live.empty() && r.chance(0.45)) one((int)s.integer("m")); }
  for (int i = 0; i < 2 || !any; ++i) one(live[r.below(live.size())]);
}
void exec_C01(const Plan& p, const std::string& dir) {
  SessionCfg c; c.dir = dir; c.check = false; Session S(p, c); std::map<std::string, std::string> acked; int nref = 0;
  for (auto& s : p.steps) {
    if (s.name == "wcout") {
      int k = (int)s.integer("m"); auto it = S.ms.find(k); if (it == S.ms.end() || !it->second.alive) continue;
      SinkBuf sb(s.integer("cap", -1)); sb.fail_sync = s.integer("sync") != 0; bool rc; std::streambuf* old = std::cout.rdbuf(&sb); std::cout.clear();
      { InSut g; rc = S.gen->write_mesh(*it->second.m, "DUMMY", MeshExportType::COUT); }
      std::cout.rdbuf(old); std::cout.clear(); LOGR.ev(std::string("wcout ") + (rc ? "ok" : "false")); LOGR.count("op_wcout"); if (sb.failed) LOGR.count("fault_stdout_full");
      TxtMesh t; std::string err; bool good = parse_txt(sb.got, t, err); if (good) err = compare_txt(t, snapshot(*it->second.m), S.sizes(k));
      if (rc && (!good || !err.empty())) violate("acked-incomplete", "export to standard output reported success but " + std::to_string(sb.got.size()) + " bytes arrived: " + err);
      if (!rc && !sb.failed) violate("refused-without-fault", "export to standard output reported failure although every byte was accepted");
      continue;
    }
    if (s.name == "ioclear") { io_clear(); continue; }
    OpResult r = S.step(s);
    if (s.name != "write" || r.rc == -2) continue;
    int k = (int)s.integer("m"); std::string path = dir + s.str("file") + "." + s.str("fmt"); bool nodir = s.str("file").find('/') != std::string::npos;
    uint64_t hard = io_fired(); bool soft = io_fired_soft() > 0; io_clear();
    std::string what = "after '" + s.text() + "'" + (hard ? " with " + std::to_string(hard) + " output errors" : soft ? " with short or interrupted writes" : "");
    if (r.rc == 1) {
      std::string e = check_export(S, k, path, s.str("fmt")); if (!e.empty()) violate("acked-incomplete", what + ": export reported success but the file is wrong: " + e);
      std::string got = read_file(path), ref = dir + "ref" + std::to_string(nref++ % 2); bool ok; { InSut g; ok = S.gen->write_mesh(*S.ms[k].m, ref, s.str("fmt") == "vtu" ? MeshExportType::VTU : MeshExportType::TXT); }
      if (!ok) violate("refused-without-fault", what + ": a second export of the same mesh without faults failed");
      if (read_file(ref + "." + s.str("fmt")) != got) violate("acked-incomplete", what + ": acknowledged file differs from an export without faults");
      acked[path] = got; LOGR.count("probe_acked"); if (soft && !hard) LOGR.count("probe_acked_after_soft_fault"); if (hard) LOGR.count("probe_acked_despite_fault");
    } else {
      acked.erase(path); LOGR.count("probe_refused");
      if (!hard && !nodir) violate("refused-without-fault", what + ": export failed (" + r.text() + ") although the file system accepted everything");
    }
    io_clear();
    for (auto& a : acked) if (read_file(a.first) != a.second) violate("acked-lost", what + ": previously acknowledged file " + a.first.substr(dir.size()) + " changed");
  }
}

// ================================================================ C02 exporting observes only
void gen_C02(Rng& r, Plan& p) {
  add_env(r, p); HistOpt o; o.target = 45; o.max_doms = 2; Plan q; gen_history(r, q, o); std::vector<int> live; int nf = 0;
  bool kill = r.chance(0.45); p.add("mode").set("kill", kill ? 1 : 0);
  std::vector<size_t> wr;
  for (auto& s : q.steps) { p.steps.push_back(s); if (s.name == "new") live.push_back((int)s.integer("m"));
    if (is_user_op(s) && !live.empty() && r.chance(0.5)) {
      int k = r.chance(0.6) ? (int)s.integer("m") : (int)live[r.below(live.size())];
      if (!kill && r.chance(0.4)) { p.add("ioclear"); gen_out_fault(r, p); }
      std::string file = nf && r.chance(0.25) ? "f" + std::to_string(r.below(nf)) : "f" + std::to_string(nf++);
      wr.push_back(p.steps.size()); p.add("write").set("m", k).set("file", file).set("fmt", r.chance(0.5) ? "txt" : "vtu"); if (!kill) p.add("ioclear");
    } }
  if (wr.empty()) { wr.push_back(p.steps.size()); p.add("write").set("m", live.back()).set("file", "f0").set("fmt", "txt"); }
  if (kill) { size_t at = wr[r.below(wr.size())]; Step f("io"); f.set("op", r.pick(std::vector<std::string>{"write", "write", "write", "open", "close"})).set("kind", "kill").set("nth", r.range(0, 3)).set("arg", r.range(0, 9000)); p.steps.insert(p.steps.begin() + at, f); }
}
void exec_C02(const Plan& p, const std::string& dir) {
  const Step* md = p.find("mode"); bool kill = md && md->integer("kill"); AllocCfg ac = alloc_from_step(p.find("env"));
  auto sub = [&](const std::string& n) { std::string d = dir + n + "/"; OutSut o; ::mkdir(d.c_str(), 0755); return d; };
  auto fail = [&](const Iso& i, const char* what) { if (!i.cls.empty()) violate(i.cls, std::string(what) + ": " + i.msg); };
  if (!kill) {
    std::string d1 = sub("a"), d2 = sub("b");
    auto run = [&](const std::string& d, bool skip) { return isolate([&]() -> std::string {
      io_set_dir(d); SessionCfg c; c.dir = d; c.check = false; c.skip_writes = skip; Session S(p, c); std::string h;
      if (!skip) for (auto n : {"keep.txt", "keep.vtu", "f0.txt.bak", "f0"}) write_file(d + n, std::string("sentinel ") + n);
      for (auto& s : p.steps) {
        if (s.name == "ioclear") { io_clear(); continue; } if (skip && (s.name == "io" || s.name == "diskfull")) continue;
        bool w = s.name == "write" && !skip; uint64_t hb = 0; std::map<std::string, uint64_t> db; std::string own = s.str("file") + "." + s.str("fmt"); bool live = w && S.ms.count((int)s.integer("m")) && S.ms[(int)s.integer("m")].alive;
        if (live) { hb = world_hash(S); db = dir_state(d); auto io = io_touched(); }
        OpResult r = S.step(s); if (live) {
          io_clear(); auto da = dir_state(d); da.erase(own); db.erase(own);
          if (da != db) violate("other-file", "after '" + s.text() + "' (" + r.text() + "): export changed, created or removed files other than its own"); if (r.rc == -1) continue;
          if (world_hash(S) != hb && r.rc != -1) { // the result list grew by the write itself, which hash() ignores
            violate("export-mutates", "after '" + s.text() + "' (" + r.text() + "): export changed a mesh"); }
          LOGR.count(r.rc == 1 ? "probe_export_ok" : "probe_export_failed");
        }
        if (is_user_op(s) && s.name != "write") { h += hex(world_hash(S)) + " "; LOGR.state(world_hash(S)); }
      }
      return h; }, ac, 30, 40000000ull); };
    Iso a = run(d1, false); fail(a, "history with exports"); Iso b = run(d2, true); fail(b, "history without exports");
    if (a.payload != b.payload) violate("export-changes-results", "the same history gives different meshes when exports are left out");
    LOGR.count("probe_differential"); return;
  }
  // ---- the process is killed in the middle of an export and the work is done again
  std::string d0 = sub("r");
  auto run = [&](const std::string& d, bool faults) { return isolate([&]() -> std::string {
    io_set_dir(d); SessionCfg c; c.dir = d; c.check = false; Session S(p, c); std::string h; int idx = -1;
    for (auto& s : p.steps) { ++idx; if (s.name == "io" && !faults) continue; OpResult r = S.step(s); if (s.name == "write" && r.rc == 1) { std::string f = s.str("file") + "." + s.str("fmt"); h += std::to_string(idx) + ":" + f + ":" + hex(fnv_str(FNV0, read_file(d + f))) + "\n"; } }
    return h; }, ac, 30, 40000000ull); };
  std::string dr = sub("ref"); Iso ref = run(dr, false); fail(ref, "run without faults"); auto want = dir_state(dr);
  Iso k = run(d0, true); if (!k.died_by_kill_fault) { fail(k, "run with kill fault"); LOGR.count("probe_kill_not_reached"); }
  else {
    LOGR.count("kill_during_export"); LOGR.ev("process killed");
    // exports acknowledged before the killed one keep their contents
    int at = -1; for (size_t i = 0; i < p.steps.size(); ++i) if (p.steps[i].name == "io" && p.steps[i].str("kind") == "kill") at = (int)i;
    // the kill hits the first export at or after `at` whose calls reach the index; find it by replaying the ledger until a file disagrees
    std::map<std::string, std::string> led; std::istringstream is(ref.payload); std::string l; std::vector<std::array<std::string, 3>> seq;
    while (std::getline(is, l)) { auto a = l.find(':'), b = l.rfind(':'); seq.push_back({l.substr(0, a), l.substr(a + 1, b - a - 1), l.substr(b + 1)}); }
    for (auto& x : seq) if (atoi(x[0].c_str()) < at) led[x[1]] = x[2];
    auto have = dir_state(d0);
    // files that may be in progress: any export at or after the arming point
    std::set<std::string> later; for (auto& s : p.steps) if (s.name == "write" && (&s - &p.steps[0]) > at) later.insert(s.str("file") + "." + s.str("fmt"));
    for (auto& x : led) if (!later.count(x.first)) { if (!have.count(x.first) || hex(have[x.first]) != x.second) violate("acked-lost", "killed during an export: the earlier acknowledged file " + x.first + " was damaged"); LOGR.count("probe_survived_kill"); }
    for (auto& x : have) if (!later.count(x.first) && !led.count(x.first)) violate("other-file", "killed during an export: unexpected file " + x.first + " was left behind");
  }
  // restart in the same directory: the result is the one of a run that never crashed
  Iso again = run(d0, false); fail(again, "run after restart"); auto have = dir_state(d0);
  for (auto& w : want) if (!have.count(w.first) || have[w.first] != w.second) violate("restart-differs", "after a kill and a restart the exported file " + w.first + " differs from a run that never crashed");
  if (again.payload != ref.payload) violate("restart-differs", "after a kill and a restart the acknowledged exports differ");
}
}
