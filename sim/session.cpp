#include "session.h"
#include <array>

namespace sim {
using namespace TQMesh;
using CppUtils::Vec2d;

bool is_user_op(const Step& s) {
  static const std::set<std::string> ops{"new", "ql", "tri", "triex", "t2q", "refine", "smooth", "merge", "write", "check"};
  return ops.count(s.name) != 0;
}

Session::Session(const Plan& p, const SessionCfg& c) : plan(p), cfg(c) {
  for (auto& s : p.steps) if (s.name == "dom") specs[(int)s.integer("id")] = dom_from_plan(p, (int)s.integer("id"));
  { InSut g; gen = std::make_unique<MeshGenerator>(); }
  if (cfg.one_shot) for (auto& d : specs) dom(d.first);   // faults are meant for operations, not for the set-up
}
Session::~Session() { destroy(); }
void Session::destroy() { InSut g; gen.reset(); for (auto& d : doms) { d.second->dom.reset(); } { OutSut o; doms.clear(); ms.clear(); } }
LiveDom* Session::dom(int id) {
  auto it = doms.find(id); if (it != doms.end()) return it->second.get();
  auto s = specs.find(id); if (s == specs.end()) return nullptr;
  doms[id] = build_domain(s->second); return doms[id].get();
}

std::vector<const DomSpec*> covered(Session& S, const MeshState& m) {
  std::vector<const DomSpec*> v; for (int d : m.doms) v.push_back(&S.specs[d]); return v;
}

void Session::arm(const Step& s) {
  // a fault step precedes the operation it applies to
  if (s.name == "cb") { LiveDom* d = dom((int)s.integer("dom")); if (!d) return; auto& c = *d->cb; c.at = (int64_t)c.calls + s.integer("at"); c.what = s.str("what"); c.value = s.num("value"); c.span = s.integer("span", 1); }
  else if (s.name == "cboff") { LiveDom* d = dom((int)s.integer("dom")); if (d) d->cb->at = -1; }
  else if (s.name == "allocfail") alloc_arm_failure((uint64_t)s.integer("nth"), (uint64_t)s.integer("burst", 1));
  else if (s.name == "io") { IoFault f; f.op = s.str("op"); f.match = s.str("match"); f.nth = (uint64_t)s.integer("nth"); f.kind = s.str("kind"); f.arg = (uint64_t)s.integer("arg"); f.repeat = (uint64_t)s.integer("repeat", 1); io_arm(f); }
  else if (s.name == "diskfull") io_disk_full(s.integer("bytes"));
  else if (s.name == "ioclear") io_clear();
}

OpResult Session::exec(const Step& s) {
  OpResult r; const std::string& n = s.name;
  MeshState* st = nullptr;
  if (n != "new") { auto it = ms.find((int)s.integer("m")); if (it == ms.end() || !it->second.alive) { r.rc = -2; return r; } st = &it->second; }
  try {
    if (n == "new") {
      int key = (int)s.integer("m"), di = (int)s.integer("dom");
      if (ms.count(key) || !dom(di)) { r.rc = -2; return r; }
      LiveDom* d = dom(di);
      MeshState x; x.key = key; x.dom = di; x.id = (int)s.integer("id"); x.color = (int)s.integer("color"); x.doms = {di};
      x.colorArea[x.color] = specs[di].area();
      { InSut g; x.m = &gen->new_mesh(*d->dom, x.id, x.color); }
      ms[key] = x;
      r.rc = x.m->n_boundary_edges() > 0 ? 1 : 0; if (!r.rc) ms[key].damaged = true;
    } else if (n == "ql") {
      auto& sp = specs[st->dom]; size_t L = (size_t)s.integer("loop"); if (L >= sp.loops.size()) { r.rc = -2; return r; }
      auto& lp = sp.loops[L]; size_t a = (size_t)s.integer("a") % lp.v.size(), b = (size_t)s.integer("b") % lp.v.size();
      Vec2d pa{lp.v[a].p.x, lp.v[a].p.y}, pb{lp.v[b].p.x, lp.v[b].p.y};
      InSut g; r.rc = gen->quad_layer_generation(*st->m).n_layers((size_t)s.integer("n")).first_height(s.num("h")).growth_rate(s.num("g", 1.0)).starting_position(pa).ending_position(pb).generate_elements();
    } else if (n == "tri") { InSut g; auto& t = gen->triangulation(*st->m);
      if (s.has("rf")) t.mesh_range_factor(s.num("rf")); if (s.has("ws")) t.wide_search_factor(s.num("ws")); if (s.has("mq")) t.min_cell_quality(s.num("mq")); if (s.has("ma")) t.max_cell_angle(s.num("ma")); if (s.has("bf")) t.base_vertex_factor(s.num("bf"));
      bool dflt = s.integer("n") == 0 && !st->limited && (s.integer("m") & 1) == 0;   // the default limit, left alone
      if (!dflt) { t.n_elements((size_t)s.integer("n")); st->limited = true; }
      r.rc = gen->triangulation(*st->m).generate_elements(); }
    else if (n == "triex") { st->limited = true; InSut g; r.rc = gen->triangulation(*st->m).n_elements((size_t)s.integer("n")).generate_elements_exhaustive(); }
    else if (n == "t2q") { InSut g; r.rc = gen->tri2quad_modification(*st->m).modify(); }
    else if (n == "refine") { InSut g; r.rc = gen->quad_refinement(*st->m).refine(); }
    else if (n == "smooth") {
      int it = (int)s.integer("it", 1); std::string k = s.str("kind", "mixed"); bool ql = s.integer("ql") != 0;
      InSut g;
      auto go = [&](auto& a) { if (s.has("eps")) a.epsilon(s.num("eps")); if (s.has("dec")) a.decay(s.num("dec")); r.rc = a.quad_layer_smoothing(ql).smooth(it); };
      if (k == "laplace") go(gen->laplace_smoothing(*st->m));
      else if (k == "torsion") go(gen->torsion_smoothing(*st->m));
      else go(gen->mixed_smoothing(*st->m));
    } else if (n == "merge") {
      auto it = ms.find((int)s.integer("d")); if (it == ms.end() || !it->second.alive || &it->second == st) { r.rc = -2; return r; }
      InSut g; r.rc = gen->merge_meshes(*st->m, *it->second.m);
    } else if (n == "write") {
      if (cfg.skip_writes) { r.rc = -2; return r; }
      std::string f = cfg.dir + s.str("file", "out"); if (s.integer("suf")) f += "." + s.str("fmt"); auto t = s.str("fmt") == "vtu" ? MeshExportType::VTU : MeshExportType::TXT;
      InSut g; r.rc = gen->write_mesh(*st->m, f, t);
    } else if (n == "check") {
      InSut g; MeshChecker c{*st->m, *dom(st->dom)->dom}; r.rc = c.check_completeness();
    }
  } catch (ViolationEx&) { throw; }
  catch (UserError&) { r.rc = -1; r.exc = "user"; }
  catch (std::bad_alloc&) { r.rc = -1; r.exc = "bad_alloc"; }
  catch (std::exception& e) { r.rc = -1; r.exc = std::string("std:") + e.what(); }
  catch (...) { r.rc = -1; r.exc = "unknown"; }
  return r;
}

static bool bad_geom(const Snap& s, const Snap::F& f) {
  auto t = [&](int a, int b, int c) { auto &p = s.v[f.v[a]], &q = s.v[f.v[b]], &r = s.v[f.v[c]]; return (q.x - p.x) * (r.y - p.y) - (r.x - p.x) * (q.y - p.y); };
  if (f.n == 3) return !(t(0, 1, 2) > 0);
  double t1 = t(0, 1, 2), t2 = t(0, 2, 3), t3 = t(1, 2, 3), t4 = t(1, 3, 0);
  return !(t1 + t2 > 0) || !((t1 > 0 && t2 > 0) || (t3 > 0 && t4 > 0));
}

static std::string where_of(const Step& s) { return "after '" + s.text() + "'"; }

OpResult Session::step(const Step& s) {
  if (!is_user_op(s)) { arm(s); return OpResult{-2, ""}; }
  MeshState* st = nullptr; { auto it = ms.find((int)s.integer("m")); if (it != ms.end() && it->second.alive) st = &it->second; }
  Snap before, before_d; bool have = false; MeshState* dn = nullptr;
  if (cfg.check && st && (s.name != "write" && s.name != "check")) { before = snapshot(*st->m); have = true; }
  if (s.name == "merge") { auto it = ms.find((int)s.integer("d")); if (it != ms.end() && it->second.alive) { dn = &it->second; if (cfg.check) before_d = snapshot(*dn->m); } }
  if (cfg.skip_damaged && s.name == "new" && !s.integer("late")) for (auto& m : ms) if (m.second.alive && m.second.damaged) return OpResult{-2, ""};   // a new mesh may adapt to an unfinished neighbour
  if (cfg.skip_damaged && ((st && st->damaged) || (dn && dn->damaged))) return OpResult{-2, ""};
  if (st && st->failed && (s.name == "t2q" || s.name == "refine" || s.name == "smooth" || s.name == "merge" || s.name == "ql")) return OpResult{-2, ""};   // the failure was reported; elements may overlap (recorded finding)
  if (dn && dn->failed) return OpResult{-2, ""};
  auto cbf = [&] { uint64_t n = 0; for (auto& d : doms) n += d.second->cb->fired; return n; };
  uint64_t cb0 = cbf(), al0 = alloc_failures_fired();
  paint_stack();
  OpResult r = exec(s);
  last_cb = cbf() - cb0; last_alloc = alloc_failures_fired() - al0;
  if (cfg.one_shot) { alloc_disarm(); for (auto& d : doms) d.second->cb->at = -1; }
  results.push_back(s.name + ":" + r.text());
  LOGR.ev("op " + s.text() + " -> " + r.text());
  LOGR.count("op_" + s.name);
  if (r.rc == -2) return r;
  st = nullptr; { auto it = ms.find((int)s.integer("m")); if (it != ms.end() && it->second.alive) st = &it->second; }
  // ---- reference model transition
  if (r.rc == -1 && (s.name == "write" || s.name == "check")) { if (after) after(s, r); return r; }   // observers damage nothing
  if (r.rc == 0 && last_alloc && s.name != "write" && s.name != "check") r.exc = "reported";
  if (r.rc == -1 || r.exc == "reported") { if (st) st->damaged = true; if (dn) dn->damaged = true; if (after) after(s, r); return r; }
  if (st && !st->damaged) {
    if (s.name == "ql") st->layered = true;
    if (s.name == "tri" || s.name == "triex" || s.name == "ql") {
      bool ql = s.name == "ql";
      Snap a = snapshot(*st->m); size_t front = 0; bool was_failed = st->failed;
      std::set<std::pair<int,int>> half; for (auto& f : a.f) for (int i = 0; i < f.n; ++i) half.insert({f.v[i], f.v[(i + 1) % f.n]});
      for (auto& e : a.be) if (!half.count({e.a, e.b})) ++front;
      for (auto& e : a.ie) if (!half.count({e.a, e.b}) || !half.count({e.b, e.a})) ++front;
      if (r.rc == 0 && !ql) { st->failed = true; st->geom = false; LOGR.count("probe_reported_failure"); }
      if (r.rc == 1 && !ql && s.integer("n") == 0 && front && !st->failed) violate("false-success", where_of(s) + ": unlimited generation reported success but " + std::to_string(front) + " edges are still open");
      if (r.rc == 0 && front == 0 && have && !was_failed && !a.be.empty() && !a.f.empty() && !st->layered) violate("false-failure", where_of(s) + ": generation reported failure but the mesh is complete");
      if (s.integer("n") > 0 && s.name == "tri" && have && !st->complete) {
        // at most n new elements (post-processing may only merge elements)
        if (a.f.size() > before.f.size() + (size_t)s.integer("n")) violate("limit", where_of(s) + ": more elements generated than requested: " + std::to_string(a.f.size() - before.f.size()));
      }
      st->complete = front == 0 && !a.be.empty() && !st->failed;
    }
    if (s.name == "refine" && r.rc == 1 && cfg.check) {
      Snap a = snapshot(*st->m);
      size_t want = before.n_quads * 4 + before.n_tris * 3;
      if (a.n_tris != 0 || a.n_quads != want) violate("refine-count", where_of(s) + ": refinement produced " + std::to_string(a.n_quads) + " quads and " + std::to_string(a.n_tris) + " triangles instead of " + std::to_string(want) + " quads");
      if (a.be.size() != 2 * before.be.size()) violate("refine-count", where_of(s) + ": boundary edges were not halved");
      if (st->geom) {
        for (auto& f : a.f) if (bad_geom(a, f)) violate("inverted-element", where_of(s) + ": refinement produced an invalid element");
      }
    }
    if (s.name == "refine" && r.rc == 0 && cfg.check) {
      if (snapshot(*st->m).hash() != before.hash()) violate("refused-changed", where_of(s) + ": refused refinement changed the mesh");
      bool twin = false; for (auto& e : before.be) twin |= e.twin;
      if (!twin && !st->failed) violate("false-failure", where_of(s) + ": refinement refused although the mesh has no interface");
    }
    if (s.name == "refine" && r.rc == 1 && cfg.check) { for (auto& e : before.be) if (e.twin) violate("interface-broken", where_of(s) + ": a mesh with an interface to another mesh was refined"); }
    if (s.name == "merge" && dn) {
      if (r.rc == 1) {
        Snap a = snapshot(*st->m);
        if (cfg.check) if (a.n_quads != before.n_quads + before_d.n_quads || a.n_tris != before.n_tris + before_d.n_tris) violate("merge-count", where_of(s) + ": merged mesh has " + a.brief() + " from " + before.brief() + " and " + before_d.brief());
        for (int d : dn->doms) st->doms.push_back(d);
        for (auto& c : dn->colorArea) st->colorArea[c.first] += c.second;
        st->complete = st->complete && dn->complete; st->failed |= dn->failed; st->geom = st->geom && dn->geom; st->damaged |= dn->damaged;
        dn->alive = false; dn->m = nullptr;
      } else if (cfg.check) {
        if (snapshot(*st->m).hash() != before.hash() || snapshot(*dn->m).hash() != before_d.hash()) violate("failed-merge-changed", where_of(s) + ": failed merge changed a mesh");
        bool share = false; // twin link between them
        for (auto& e : st->m->boundary_edges()) if (e->twin_edge()) for (auto& e2 : dn->m->boundary_edges()) if (e->twin_edge() == e2.get()) share = true;
        if (share && st->complete && dn->complete) violate("false-failure", where_of(s) + ": merge of meshes with a common interface failed");
      }
    }
    if (s.name == "check") {
      bool multi = st->doms.size() > 1;
      if (!multi && !st->failed && r.rc != (st->complete ? 1 : 0) && !(st->layered && st->complete)) violate("completeness-report", where_of(s) + ": completeness check says " + std::string(r.rc ? "complete" : "incomplete") + " but the mesh is " + (st->complete ? "complete" : "incomplete"));
    }
    if (have && (s.name == "t2q" || s.name == "smooth" || s.name == "tri" || s.name == "triex" || s.name == "refine") && cfg.check) {
      // pinned vertices stay: every boundary or fixed vertex of the old mesh is still there
      Snap a = snapshot(*st->m); std::set<std::pair<double,double>> pos; for (auto& v : a.v) pos.insert({v.x, v.y});
      for (auto& v : before.v) if ((v.props & 6) && !pos.count({v.x, v.y})) violate("pinned-vertex", where_of(s) + ": boundary or fixed vertex (" + fmt(v.x) + "," + fmt(v.y) + ") moved or vanished");
      if (s.name == "smooth") {
        if (a.topo_hash() != before.topo_hash()) violate("smooth-topology", where_of(s) + ": smoothing changed the connectivity");
      }
    }
  }
  if (cfg.check) {
    LOGR.state(st ? fnv_str(snapshot(*st->m).topo_hash(), s.name) : 0);
    try { verify_all(where_of(s)); }
    catch (ViolationEx& v) {
      // a limited generation may stop in the middle of an exhaustive search that is going to fail:
      // the overlap is the recorded finding if (and only if) completing the mesh reports the failure
      if (plan.find("strict") || !(s.name == "tri" && s.integer("n") > 0 && r.rc == 1 && st && !st->complete && !st->failed && (v.v.cls == "overlap" || v.v.cls == "area"))) throw;
      bool done; { InSut g; done = gen->triangulation(*st->m).n_elements(0).generate_elements(); }
      if (done) throw;
      st->failed = true; st->geom = false; LOGR.count("known:failed-generation-overlap"); verify_all(where_of(s));
    }
  }
  if (after) after(s, r);
  return r;
}

void Session::verify(int key, const std::string& where) {
  auto& st = ms[key]; if (!st.alive || st.damaged || !st.m) return;
  CheckOpt o; o.complete = st.complete; o.geom = st.geom; o.topo = !st.failed; o.queries = cfg.verify_queries;
  auto d = covered(*this, st);
  check_mesh(*st.m, d, o, where + " (mesh " + std::to_string(key) + ")");
  if (st.m->id() != st.id) violate("mesh-id", where + ": mesh id changed");
  // colour conservation
  Snap s = snapshot(*st.m); std::map<int, double> ca; double D = 0, A = 0; for (auto x : d) { D = std::max(D, x->diam()); A += x->area(); }
  for (auto& f : s.f) { double a2 = 0; for (int i = 0; i < f.n; ++i) { auto &p = s.v[f.v[i]], &q = s.v[f.v[(i + 1) % f.n]]; a2 += p.x * q.y - q.x * p.y; } ca[f.color] += 0.5 * a2; }
  if (st.complete && !st.failed && st.geom && st.doms.size() == 1) { double sum = 0; for (auto& c : ca) sum += c.second; if (!(std::fabs(st.m->area() - sum) <= 1e-7 * (D * D + A))) violate("reported-area", where + ": the mesh reports an area of " + fmt(st.m->area()) + " but its elements cover " + fmt(sum)); }
  // boundary vertices, and no other free vertices, are marked as such
  std::vector<char> onb(s.v.size(), 0); for (auto& e : s.be) onb[e.a] = onb[e.b] = 1;
  if (st.complete) for (size_t i = 0; i < s.v.size(); ++i) if (((s.v[i].props & 2) != 0) != (onb[i] != 0) && (onb[i] || !(s.v[i].props & 4))) violate("vertex-marker", where + ": vertex (" + fmt(s.v[i].x) + "," + fmt(s.v[i].y) + ") is " + (onb[i] ? "not " : "") + "marked as a boundary vertex");
  for (auto& c : ca) if (!st.colorArea.count(c.first)) violate("element-colour", where + ": element with unexpected colour " + std::to_string(c.first));
  if (st.complete) for (auto& c : st.colorArea) if (std::fabs(c.second - ca[c.first]) > 1e-8 * D * D + 1e-9 * A) violate("element-colour", where + ": elements of colour " + std::to_string(c.first) + " cover area " + fmt(ca[c.first]) + " instead of " + fmt(c.second));
}
void check_interfaces(Session& S, const std::string& where) {
  std::map<const Edge*, std::pair<int,const Edge*>> all;
  for (auto& p : S.ms) { auto& st = p.second; if (!st.alive || st.damaged) continue; for (auto& e : st.m->boundary_edges()) all[e.get()] = {p.first, e.get()}; }
  bool dmg = false; for (auto& p : S.ms) if (p.second.damaged) dmg = true;
  for (auto& p : S.ms) { auto& st = p.second; if (!st.alive || st.damaged) continue;
    for (auto& e : st.m->boundary_edges()) { const Edge* t = e->twin_edge(); if (!t) continue;
      auto it = all.find(t);
      if (it == all.end()) { if (dmg) continue; violate("interface-dangling", where + ": interface edge of mesh " + std::to_string(p.first) + " refers to an edge that no longer exists"); }
      if (it->second.first == p.first) violate("interface-self", where + ": interface edge connects a mesh to itself");
      if (t->twin_edge() != e.get()) violate("interface-asymmetric", where + ": interface link is not mutual");
      auto d = [](const Vertex& a, const Vertex& b) { return std::hypot(a.xy().x - b.xy().x, a.xy().y - b.xy().y); };
      double L = e->length();
      if (d(e->v1(), t->v2()) > 1e-9 * (1 + L) || d(e->v2(), t->v1()) > 1e-9 * (1 + L)) violate("interface-geometry", where + ": interface edges of two meshes do not coincide");
    } }
}
void Session::verify_all(const std::string& where) {
  for (auto& p : ms) verify(p.first, where);
  check_interfaces(*this, where);
}
uint64_t Session::hash_mesh(int key) { auto it = ms.find(key); if (it == ms.end() || !it->second.alive || !it->second.m) return 0; return snapshot(*it->second.m).hash(); }
uint64_t Session::hash() { uint64_t h = FNV0; for (auto& p : ms) { uint64_t k = p.second.alive ? hash_mesh(p.first) : 1; h = fnv(h, &k, 8); } for (auto& r : results) if (r.compare(0, 6, "write:") != 0) h = fnv_str(h, r); return h; }
uint64_t world_hash(Session& S) {
  uint64_t h = S.hash();
  for (auto& m : S.ms) { if (!m.second.alive || !m.second.m) continue; for (auto& e : m.second.m->boundary_edges()) { int t = e->twin_edge() ? 1 : 0, c = e->color(); h = fnv(h, &t, 4); h = fnv(h, &c, 4); } double a = m.second.m->area(); h = fnv(h, &a, 8); }
  return h;
}
std::vector<double> Session::sizes(int key) {
  auto& st = ms[key]; std::vector<double> v; LiveDom* d = dom(st.dom); auto save = *d->cb; d->cb->at = -1;
  for (auto& x : st.m->vertices()) v.push_back(d->dom->size_function(x->xy()));
  *d->cb = save; return v;
}
std::string Session::dump_results() const { std::string s; for (auto& r : results) s += r + " "; return s; }
void Session::run() { for (auto& s : plan.steps) step(s); }

std::string check_export(Session& S, int key, const std::string& path, const std::string& fmtname) {
  auto& st = S.ms[key]; bool ok; std::string t = read_file(path, &ok);
  if (!ok) return "file does not exist";
  Snap s = snapshot(*st.m); std::string err; auto sz = S.sizes(key);
  if (fmtname == "vtu") { VtuMesh v; if (!parse_vtu(t, v, err)) return "file is not a complete VTU document: " + err; return compare_vtu(v, s, sz); }
  TxtMesh m; if (!parse_txt(t, m, err)) return "file is not a complete TXT mesh: " + err; if (std::string e = compare_txt(m, s, sz); !e.empty()) return e;
  // interface partners: the element of the neighbouring mesh at the linked edge and its colour
  std::map<const Vertex*, int> idx; for (auto& v : st.m->vertices()) { int i = (int)idx.size(); idx[v.get()] = i; }
  std::map<std::pair<int,int>, const Edge*> tw; for (auto& e : st.m->boundary_edges()) if (e->twin_edge()) tw[{idx[&e->v1()], idx[&e->v2()]}] = e->twin_edge();
  for (auto& row : m.itf) { const Edge* t = tw[{row[0], row[1]}]; if (!t) continue; int want = -1, col = 0; bool found = false;
    for (auto& o : S.ms) { if (!o.second.alive || o.second.damaged || o.second.failed || o.first == key) continue; bool own = false; for (auto& e : o.second.m->boundary_edges()) if (e.get() == t) own = true; if (!own) continue; found = true; int k = 0;
      auto see = [&](const Facet& f) { size_t n = f.n_vertices(); for (size_t i = 0; i < n; ++i) if (&f.vertex(i) == &t->v1() && &f.vertex((i + 1) % n) == &t->v2()) { want = k; col = f.color(); } ++k; };
      for (auto& q : o.second.m->quads()) see(*q); for (auto& q : o.second.m->triangles()) see(*q); }
    if (!found) continue;
    if (row[3] != want) return "interface edge " + std::to_string(row[0]) + "," + std::to_string(row[1]) + " names element " + std::to_string(row[3]) + " of the neighbouring mesh instead of " + std::to_string(want);
    if (want >= 0 && row[4] != col) return "interface edge " + std::to_string(row[0]) + "," + std::to_string(row[1]) + " gives the neighbouring element colour " + std::to_string(row[4]) + " instead of " + std::to_string(col);
    LOGR.count("probe_interface_partner"); }
  return "";
}

// ------------------------------------------------------------------ workloads
// free distance in front of a boundary loop: rays from the edge midpoints along the inward normal
static double clearance(const DomSpec& d, int L) {
  double best = 1e300; auto& lp = d.loops[L]; size_t n = lp.v.size();
  for (size_t i = 0; i < n; ++i) {
    P2 a = lp.v[i].p, b = lp.v[(i + 1) % n].p; double l = std::hypot(b.x - a.x, b.y - a.y); if (l <= 0) continue;
    P2 m{0.5 * (a.x + b.x), 0.5 * (a.y + b.y)}, nn{-(b.y - a.y) / l, (b.x - a.x) / l};
    for (size_t k = 0; k < d.loops.size(); ++k) for (size_t j = 0; j < d.loops[k].v.size(); ++j) {
      if ((int)k == L && j == i) continue;
      P2 p = d.loops[k].v[j].p, q = d.loops[k].v[(j + 1) % d.loops[k].v.size()].p; double ex = q.x - p.x, ey = q.y - p.y;
      double det = nn.x * ey - nn.y * ex; if (std::fabs(det) < 1e-12 * l) continue;
      double t = ((p.x - m.x) * ey - (p.y - m.y) * ex) / det, u = ((p.x - m.x) * nn.y - (p.y - m.y) * nn.x) / det;
      if (t > 0 && u >= -0.05 && u <= 1.05) best = std::min(best, t);
      if ((int)k != L) for (P2 v : {a, m}) { double w = std::max(0.0, std::min(1.0, ((v.x - p.x) * ex + (v.y - p.y) * ey) / (ex * ex + ey * ey))); best = std::min(best, std::hypot(v.x - p.x - w * ex, v.y - p.y - w * ey)); }
    }
  }
  return best;
}
// at most one quad layer per boundary loop: stacking a second layer on a loop is a
// recorded limitation (known/ql_stacked.plan)
static void add_ql(Rng& r, Plan& p, int key, const DomSpec& d, std::set<int>& used) {
  int L = (int)r.below(d.loops.size()); bool again = !used.insert(L).second; if (again && r.chance(0.5)) return; // layers upon layers
  auto& lp = d.loops[L]; int n = (int)lp.v.size(); int a = (int)r.below(n);
  int b = r.chance(0.5) ? a : (int)r.below(n);
  double h = d.size.eval(lp.v[a].p.x, lp.v[a].p.y);
  int nl = r.range(1, 3); double h0 = h * r.uni(0.1, 0.5), g = r.uni(1.0, 1.5);
  double thick = 0, x = h0; for (int i = 0; i < nl; ++i) { thick += x; x *= g; }
  double cap = (again ? 0.12 : 0.35) * clearance(d, L); if (thick > cap) { if (cap < 0.05 * h) return; h0 *= cap / thick; }
  p.add("ql").set("m", key).set("loop", L).set("a", a).set("b", b).set("n", nl).set("h", h0).set("g", g);
}
void gen_ops_for_mesh(Rng& r, Plan& p, const HistOpt& o, int key, const DomSpec& d, bool allow_refine) {
  std::set<int> used;
  if (o.quad_layers && r.chance(0.45)) { add_ql(r, p, key, d, used); if (r.chance(0.4)) add_ql(r, p, key, d, used); }
  if (o.interrupts && r.chance(0.4)) { int k = r.range(1, 3); for (int i = 0; i < k; ++i) { p.add("tri").set("m", key).set("n", r.chance(0.3) ? r.range(1, 4) : r.range(5, 60)); if (r.chance(0.3)) p.add("check").set("m", key); } }
  if (o.exhaustive && r.chance(0.1)) p.add("triex").set("m", key).set("n", r.range(1, 8));
  p.add("tri").set("m", key).set("n", 0);
  if (r.chance(0.5)) p.add("check").set("m", key);
  int post = r.range(0, 3); int refined = 0;
  for (int i = 0; i < post; ++i) {
    int k = r.range(0, 2);
    if (k == 0 && o.t2q) p.add("t2q").set("m", key);
    else if (k == 1 && o.refine && allow_refine && refined < 2) { p.add("refine").set("m", key); ++refined; }
    else if (o.smooth) p.add("smooth").set("m", key).set("kind", r.pick(std::vector<std::string>{"mixed", "laplace", "torsion"})).set("it", r.range(1, 4)).set("ql", (int)r.below(2));
  }
}
// settings and spellings any workload may use
void vary(Rng& r, Plan& p) {
  bool tri = r.chance(0.12), sm = r.chance(0.15), suf = r.chance(0.35); int zero = r.chance(0.15) ? r.range(1, 5) : -1;
  for (auto& s : p.steps) {
    if (s.name == "tri" && tri) { if (r.chance(0.5)) s.set("rf", r.uni(0.8, 1.5)); if (r.chance(0.3)) s.set("ws", r.uni(2.0, 20.0)); if (r.chance(0.2)) s.set("mq", r.uni(0.0, 0.2)); if (r.chance(0.3)) s.set("ma", r.uni(0.8, 1.0) * 3.14159); if (r.chance(0.5)) s.set("bf", r.uni(1.0, 2.0)); }
    if (s.name == "smooth" && sm) { if (r.chance(0.7)) s.set("eps", r.uni(0.1, 1.0)); if (r.chance(0.5)) s.set("dec", r.uni(0.5, 1.0)); }
    if (s.name == "write" && suf && r.chance(0.6)) s.set("suf", 1);
    if (s.name == "new" && s.has("color") && s.integer("color") == zero) s.set("color", 0);
  }
}
// now and then a mesh far larger than usual: deep trees, long files, many reallocations
double big(Rng& r, double p) { return r.chance(p) ? r.uni(4, 16) : 1; }
void gen_history(Rng& r, Plan& p, const HistOpt& o0) {
  HistOpt o = o0; o.target *= big(r, o.big);
  GenOpt g; g.target = o.target;
  int kind = r.range(0, 9);
  if (kind < 5 || !o.adjacent) { // one or more independent domains
    int n = r.chance(0.75) ? 1 : r.range(2, std::max(2, o.max_doms));
    if (o.max_doms < 2) n = 1;
    DomSpec prev;
    for (int i = 0; i < n; ++i) { GenOpt gi = g; gi.target = o.target / (n > 1 ? 1.5 : 1); gi.fixed_edges = r.chance(0.1); DomSpec d = gen_domain(r, gi);
      if (i > 0) { double x1 = -1e300; for (auto& q : prev.loops[0].v) x1 = std::max(x1, q.p.x); double x0 = 1e300; for (auto& q : d.loops[0].v) x0 = std::min(x0, q.p.x);
        translate(d, x1 - x0 + r.uni(0.5, 1.5) * (d.diam() + prev.diam()), 0); double m = 0; for (auto& q : d.loops[0].v) m = std::max({m, std::fabs(q.p.x), std::fabs(q.p.y)}); d.scale = std::max(d.scale, 2.5 * m); }
      prev = d;
      dom_to_plan(p, i, d); p.add("new").set("m", i).set("dom", i).set("id", 1 + i).set("color", r.range(1, 5)); gen_ops_for_mesh(r, p, o, i, d, true); }
    if (n > 1 && o.merges && r.chance(0.3)) p.add("merge").set("m", 0).set("d", 1);
    for (int i = 0; i < n; ++i) if (r.chance(0.4)) p.add("smooth").set("m", i).set("kind", "mixed").set("it", r.range(1, 3)).set("ql", 0);
  } else {
    int n = r.range(2, std::max(2, o.max_doms)); GenOpt ga = g; ga.target = o.target * 0.6;
    auto ds = gen_adjacent(r, ga, n); n = (int)ds.size();
    for (int i = 0; i < n; ++i) dom_to_plan(p, i, ds[i]);
    int palette = r.range(1, n);
    for (int i = 0; i < n; ++i) { p.add("new").set("m", i).set("dom", i).set("id", 1 + i).set("color", 1 + (i % palette)); gen_ops_for_mesh(r, p, o, i, ds[i], i == 0 || r.chance(0.2)); }
    if (o.merges) {
      int base = 0;
      for (int i = 1; i < n; ++i) if (r.chance(0.8)) {
        if (r.chance(0.2)) p.add("merge").set("m", i).set("d", base), base = i; else p.add("merge").set("m", base).set("d", i);
        if (r.chance(0.3)) p.add("smooth").set("m", base).set("kind", r.pick(std::vector<std::string>{"mixed", "laplace", "torsion"})).set("it", r.range(1, 3)).set("ql", 0);
      }
      if (r.chance(0.4) && o.t2q) p.add("t2q").set("m", base);
      if (r.chance(0.3) && o.refine) p.add("refine").set("m", base);
      if (r.chance(0.4)) p.add("smooth").set("m", base).set("kind", "mixed").set("it", 2).set("ql", 0);
    }
  }
}

} // namespace sim
