// Properties about histories of mesh operations: interruption and resumption, validity,
// attributes, exported contents.
#include "props.h"
namespace sim {
using namespace TQMesh;

// ================================================================ C05 interruption and resumption
// Generation of one or more meshes is cut into pieces at arbitrary element counts; the user
// switches between meshes, observes (completeness check, export) and resumes.
void gen_C05(Rng& r, Plan& p) {
  add_env(r, p);
  int n = r.chance(0.6) ? 1 : 2; bool adj = n > 1 && r.chance(0.6); GenOpt g; g.target = n > 1 ? 60 : 90; double bg = big(r, 0.03); g.target *= bg;
  std::vector<DomSpec> ds;
  if (adj) ds = gen_adjacent(r, g, 2); else for (int i = 0; i < n; ++i) { DomSpec d = gen_domain(r, g); if (i) { double w = 0; for (auto& l : ds[0].loops) for (auto& b : l.v) w = std::max(w, std::fabs(b.p.x)); double x0 = 1e300; for (auto& b : d.loops[0].v) x0 = std::min(x0, b.p.x); translate(d, w - x0 + 0.7 * (d.diam() + ds[0].diam()), 0); double m = 0; for (auto& q : d.loops[0].v) m = std::max({m, std::fabs(q.p.x), std::fabs(q.p.y)}); d.scale = std::max(d.scale, 2.5 * m); } ds.push_back(d); }
  n = (int)ds.size();
  for (int i = 0; i < n; ++i) dom_to_plan(p, i, ds[i]);
  for (int i = 0; i < n; ++i) p.add("new").set("m", i).set("dom", i).set("id", i + 1).set("color", i + 1);
  for (int i = 0; i < n; ++i) if (r.chance(0.3)) { HistOpt o; Plan q; o.interrupts = false; gen_ops_for_mesh(r, q, o, i, ds[i], false); for (auto& s : q.steps) if (s.name == "ql") p.steps.push_back(s); }
  int cuts = r.range(2, 14); int style = r.range(0, 3);
  for (int k = 0; k < cuts; ++k) {
    int i = (int)r.below(n); int m = style == 0 ? 1 : style == 1 ? r.range(1, 3) : style == 2 ? r.range(1, 25) : r.range(20, 120);
    p.add("tri").set("m", i).set("n", m);
    if (r.chance(0.25)) p.add("check").set("m", (int)r.below(n));
    if (r.chance(0.15)) p.add("write").set("m", (int)r.below(n)).set("file", "obs").set("fmt", r.chance(0.5) ? "txt" : "vtu");
    if (r.chance(0.1)) { p.add("tri").set("m", i).set("n", 0); p.add("tri").set("m", i).set("n", r.range(0, 5)); }
  }
  // demanding element criteria: the advancing front gets stuck early and the exhaustive search has to take over
  if (r.chance(0.15)) { double mq = r.uni(0.3, 0.9); for (auto& s : p.steps) if (s.name == "tri") s.set("mq", mq); }
  for (int i = 0; i < n; ++i) { if (r.chance(0.3)) p.add("finish").set("m", i).set("n", bg > 1 ? r.range(100, 400) : r.range(1, 40)); else p.add("tri").set("m", i).set("n", 0); p.add("check").set("m", i); }
  for (int i = 0; i < n; ++i) if (r.chance(0.5)) p.add("tri").set("m", i).set("n", r.range(0, 3));
}
// completion is only promised where the advancing front always succeeds: one closed loop, no
// quad layer, no exhaustive search (which deliberately accepts elements of any shape)
static bool must_complete(const Plan& p, Session& S, int k) {
  if (!S.ms.count(k) || S.ms[k].layered || S.specs[S.ms[k].dom].loops.size() != 1) return false;
  for (auto& st : p.steps) if (st.integer("m") == k && (st.name == "triex" || (st.name == "tri" && (st.has("rf") || st.has("ws") || st.has("mq") || st.has("ma") || st.has("bf"))))) return false;
  // with steep local sizes the advancing front may run into a dead end, which it reports
  auto& d = S.specs[S.ms[k].dom]; if (d.size.kind != "const" || !d.fixed.empty()) return false; for (auto& b : d.loops[0].v) if (b.ms > 0) return false;
  return true;
}
static std::vector<int> elem_sig(const Snap& s) { return {(int)s.n_quads, (int)s.n_tris}; }
void exec_C05(const Plan& p, const std::string& dir) {
  SessionCfg c; c.dir = dir; Session S(p, c);
  auto one = [&](const Step& st) {
    int k = (int)st.integer("m"); auto it = S.ms.find(k); bool gen = st.name == "tri" || st.name == "triex"; bool was = it != S.ms.end() && it->second.alive && it->second.complete; Snap b; if (gen && it != S.ms.end() && it->second.alive) b = snapshot(*it->second.m);
    OpResult r = S.step(st);
    if (r.rc == -1) violate("exception", "after '" + st.text() + "': exception " + r.exc + " without any fault");
    if (gen && r.rc != -2) {
      Snap a = snapshot(*S.ms[k].m);
      if (was) { LOGR.count("probe_resume_complete"); if (a.topo_hash() != b.topo_hash() || elem_sig(a) != elem_sig(b)) violate("resume-complete-changed", "after '" + st.text() + "': resuming a complete mesh changed its elements"); if (r.rc != 1) violate("false-failure", "after '" + st.text() + "': generation on a complete mesh reported failure"); }
      else if (a.f.size() > b.f.size()) LOGR.count("probe_partial_progress");
      if (!was && st.integer("n") > 0 && st.name == "tri" && r.rc == 1 && a.f.size() <= b.f.size() && !S.ms[k].layered && !S.ms[k].complete && b.f.size() + a.f.size() == 0) violate("no-element", "after '" + st.text() + "': success reported but nothing was generated");
      // cleaning up a degenerate spot replaces elements in pairs; anything else is a miscount
      if (!was && st.integer("n") > 0 && st.name == "tri" && r.rc == 1 && !S.ms[k].complete && !S.ms[k].failed && !S.ms[k].layered && ((long)a.f.size() - (long)b.f.size() - st.integer("n")) % 2) violate("limit", "after '" + st.text() + "': " + std::to_string((long)a.f.size() - (long)b.f.size()) + " elements generated although the mesh is not complete");
      if (!S.ms[k].complete) LOGR.count("probe_interrupted_state");
    }
    return r;
  };
  for (auto& st : p.steps) {
    if (st.name == "finish") {
      // liveness: repeated bounded calls complete the mesh within a bounded number of calls
      int k = (int)st.integer("m"); auto it = S.ms.find(k); if (it == S.ms.end()) continue; long n = std::max(1L, st.integer("n")); Step t("tri"); t.set("m", k).set("n", n);
      long calls = 0, bound = 4000 / n + 60;
      while (!S.ms[k].complete && calls < bound) { if (S.ms[k].failed && !must_complete(p, S, k)) break; size_t before = snapshot(*S.ms[k].m).f.size(); OpResult r = one(t); ++calls; if (r.rc == 0 && !must_complete(p, S, k)) break; if (r.rc == 0) { Step u("tri"); u.set("m", k).set("n", 0); one(u); if (!S.ms[k].complete) violate("not-resumable", "mesh cannot be completed after interruptions: bounded generation fails at " + std::to_string(before) + " elements"); } }
      if (!S.ms[k].complete && calls >= bound) violate("no-progress-calls", "mesh is not complete after " + std::to_string(calls) + " resumed calls of " + std::to_string(n) + " elements");
      LOGR.ev("finish calls"); LOGR.count("op_finish"); continue;
    }
    one(st);
  }
  for (auto& m : S.ms) if (!m.second.complete) {
    LOGR.count("probe_honest_failure"); if (!must_complete(p, S, m.first)) continue;
    bool full = false; for (auto& st : p.steps) if ((st.name == "finish" || (st.name == "tri" && st.integer("n") == 0)) && st.integer("m") == m.first) full = true;
    if (full) violate("not-resumable", "mesh " + std::to_string(m.first) + " is incomplete after unlimited generation");
  }
}

// ================================================================ C11 histories keep a valid tiling
void gen_C11(Rng& r, Plan& p) { add_env(r, p); HistOpt o; gen_history(r, p, o); }
void exec_C11(const Plan& p, const std::string& dir) { SessionCfg c; c.dir = dir; Session S(p, c); S.run(); }

// ================================================================ C12 attributes survive every history
void gen_C12(Rng& r, Plan& p) {
  add_env(r, p); HistOpt o; o.target = 50; o.quad_layers = r.chance(0.3); o.interrupts = r.chance(0.3);
  if (r.chance(0.25)) { gen_history(r, p, o); return; }
  GenOpt g; g.target = 45 * big(r, 0.03); int n = r.range(2, 4), kind = r.range(0, 3); auto ds = gen_adjacent(r, g, n, kind); n = (int)ds.size();
  bool lone = r.chance(0.3); // an unrelated mesh in the same generator
  for (int i = 0; i < n; ++i) { if (r.chance(0.3)) { // fixed vertex away from the boundary
      auto& l = ds[i].loops[0]; double cx = 0, cy = 0; for (auto& b : l.v) { cx += b.p.x / l.v.size(); cy += b.p.y / l.v.size(); } if (ds[i].loops.size() == 1) { BV b; b.p = {cx, cy}; b.color = 0; ds[i].fixed.push_back(b); } }
    dom_to_plan(p, i, ds[i]); }
  if (lone) { DomSpec d = gen_domain(r, g); translate(d, 1000, 0); d.scale = 10000; dom_to_plan(p, n, d); }
  std::vector<int> order; for (int i = 0; i < n; ++i) order.push_back(i); for (int i = n - 1; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
  if (kind == 3) { order.erase(std::find(order.begin(), order.end(), n - 1)); order.push_back(n - 1); } // the wide mesh adopts the edges of the small ones
  bool early = r.chance(0.4); int palette = r.range(1, 3);
  int gap = kind == 3 && n > 2 && r.chance(0.15) ? (int)r.below(n - 1) : -1; // a neighbour is missing: its part of the boundary stays open
  auto mk = [&](int i) { if (i == gap) return; p.add("new").set("m", i).set("dom", i).set("id", 10 + i).set("color", (i % palette) + (r.chance(0.2) ? 7 : 1)); };
  if (early) for (int i : order) mk(i);
  if (lone) { p.add("new").set("m", n).set("dom", n).set("id", 99).set("color", 42); p.add("tri").set("m", n).set("n", 0); }
  for (int i : order) { if (!early) mk(i); gen_ops_for_mesh(r, p, o, i, ds[i], r.chance(0.3)); if (r.chance(0.15)) p.add("merge").set("m", i).set("d", order[r.below(n)]); if (lone && r.chance(0.3)) p.add("merge").set("m", i).set("d", n); }
  int tries = r.range(1, 2 * n); for (int k = 0; k < tries; ++k) { int a = (int)r.below(n), b = (int)r.below(n); if (a == b) continue; p.add("merge").set("m", a).set("d", b); int m = r.range(0, 4); if (m == 0) p.add("t2q").set("m", a); else if (m == 1) p.add("refine").set("m", a); else if (m == 2) p.add("smooth").set("m", a).set("kind", "mixed").set("it", 1).set("ql", 0); }
}
static void missing_interface(Session& S, const std::string& where) {
  for (auto& pa : S.ms) for (auto& pb : S.ms) {
    if (pa.first == pb.first || !pa.second.alive || !pb.second.alive || pa.second.damaged || pb.second.damaged) continue;
    for (int da : pa.second.doms) for (int db : pb.second.doms) for (auto& la : S.specs[da].loops) for (auto& lb : S.specs[db].loops)
      for (size_t i = 0; i < la.v.size(); ++i) for (size_t j = 0; j < lb.v.size(); ++j) {
        P2 a = la.v[i].p, b = la.v[(i + 1) % la.v.size()].p, c = lb.v[j].p, d = lb.v[(j + 1) % lb.v.size()].p; double L = std::hypot(b.x - a.x, b.y - a.y), e = 1e-9 * (1 + L);
        bool same = std::hypot(a.x - d.x, a.y - d.y) <= e && std::hypot(b.x - c.x, b.y - c.y) <= e;
        // a part of a longer boundary edge of the other domain
        auto on = [&](P2 q) { double M = std::hypot(d.x - c.x, d.y - c.y), cr = std::fabs((q.x - c.x) * (d.y - c.y) - (q.y - c.y) * (d.x - c.x)) / M, t = ((q.x - c.x) * (d.x - c.x) + (q.y - c.y) * (d.y - c.y)) / (M * M); return cr < 1e-8 * (1 + M) && t > -1e-9 && t < 1 + 1e-9; };
        if (!same && !(on(a) && on(b))) continue;
        for (auto& ed : pa.second.m->boundary_edges()) { double mx = 0.5 * (ed->v1().xy().x + ed->v2().xy().x), my = 0.5 * (ed->v1().xy().y + ed->v2().xy().y); double cr = std::fabs((mx - a.x) * (b.y - a.y) - (my - a.y) * (b.x - a.x)) / L, t = ((mx - a.x) * (b.x - a.x) + (my - a.y) * (b.y - a.y)) / (L * L); if (cr < 1e-8 * (1 + L) && t > 0 && t < 1 && !ed->twin_edge()) violate("missing-interface", where + ": boundary edge on the common boundary of meshes " + std::to_string(pa.first) + " and " + std::to_string(pb.first) + " is not linked"); }
        LOGR.count("probe_interface_checked");
      }
  }
}
void exec_C12(const Plan& p, const std::string& dir) {
  SessionCfg c; c.dir = dir; c.verify_queries = false; Session S(p, c);
  S.after = [&](const Step& s, OpResult& r) { if (r.rc >= 0) missing_interface(S, "after '" + s.text() + "'"); if (s.name == "merge" && r.rc == 1) LOGR.count("probe_merged"); if (s.name == "merge" && r.rc == 0) LOGR.count("probe_merge_refused"); };
  S.run();
}

// ================================================================ C13 exported files describe the mesh in memory
void gen_C13(Rng& r, Plan& p) {
  add_env(r, p); HistOpt o; o.target = 60; Plan q; gen_history(r, q, o);
  p.steps.insert(p.steps.end(), q.steps.begin(), q.steps.end()); Plan out; out.prop = p.prop; std::vector<int> live; int nf = 0;
  for (auto& s : p.steps) { out.steps.push_back(s); if (s.name == "new") live.push_back((int)s.integer("m")); if (is_user_op(s) && !live.empty() && r.chance(0.55)) { int k = r.chance(0.7) ? (int)s.integer("m") : (int)live[r.below(live.size())]; out.add("write").set("m", k).set("file", "f" + std::to_string(nf++)).set("fmt", r.chance(0.6) ? "txt" : "vtu"); } }
  p = out;
}
void exec_C13(const Plan& p, const std::string& dir) {
  SessionCfg c; c.dir = dir; c.check = false; Session S(p, c); std::map<int, std::pair<uint64_t, std::map<std::string, std::string>>> last;
  S.after = [&](const Step& s, OpResult& r) {
    if (s.name != "write" || r.rc == -2) return; int k = (int)s.integer("m"); std::string f = s.str("fmt"), path = dir + s.str("file", "out") + "." + f;
    if (r.rc != 1) violate("export", "after '" + s.text() + "': export failed without any fault");
    std::string e = check_export(S, k, path, f); if (S.ms[k].failed) LOGR.count("probe_export_failed_mesh"); if (!e.empty()) violate("export", "after '" + s.text() + "': exported file does not describe the mesh: " + e);
    uint64_t h = S.hash_mesh(k); auto& l = last[k]; std::string t = read_file(path); if (l.first == h && l.second.count(f) && l.second[f] != t && f == "vtu") violate("export", "after '" + s.text() + "': two exports of the unchanged mesh differ"); if (l.first != h) l = {h, {}}; l.second[f] = t;
    LOGR.count(std::string("probe_export_") + f); if (!S.ms[k].complete) LOGR.count("probe_export_partial"); if (S.ms[k].doms.size() > 1) LOGR.count("probe_export_merged");
    LOGR.ev("export " + f + " " + std::to_string(t.size())); LOGR.state(fnv_str(FNV0, t));
  };
  S.run();
}
}
