// C21: a domain that was edited (boundaries, vertices, fixed vertices and edges added, split and
// removed, size function replaced, meshed in between) is the domain which its final definition describes.
#include "props.h"
namespace sim {
using namespace TQMesh; using CppUtils::Vec2d;

static std::string enc(const std::vector<BV>& v) { std::string s; for (auto& b : v) s += (s.empty() ? "" : ";") + fmt(b.p.x) + "," + fmt(b.p.y) + "," + std::to_string(b.color) + "," + fmt(b.ms) + "," + fmt(b.mr); return s; }
static std::vector<BV> dec(const std::string& s) { std::vector<BV> r; std::istringstream is(s); std::string t; while (std::getline(is, t, ';')) { BV b; char c; std::istringstream q(t); q >> b.p.x >> c >> b.p.y >> c >> b.color >> c >> b.ms >> c >> b.mr; r.push_back(b); } return r; }
static double poly(const std::vector<BV>& v) { double a = 0; for (size_t i = 0; i < v.size(); ++i) { auto& p = v[i].p; auto& q = v[(i + 1) % v.size()].p; a += p.x * q.y - p.y * q.x; } return a / 2; }
static bool within(const std::vector<BV>& v, P2 q) { bool in = false; size_t n = v.size(); for (size_t i = 0, j = n - 1; i < n; j = i++) { auto& a = v[i].p; auto& b = v[j].p; if ((a.y > q.y) != (b.y > q.y) && q.x < (b.x - a.x) * (q.y - a.y) / (b.y - a.y) + a.x) in = !in; } return in; }
static double clear_of(const std::vector<BV>& v, P2 p) { double d = 1e300; for (size_t i = 0; i < v.size(); ++i) { P2 a = v[i].p, b = v[(i + 1) % v.size()].p; double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy, t = l > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l : 0; t = std::min(1.0, std::max(0.0, t)); d = std::min(d, std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy)); } return d; }

// ---------------------------------------------------------------- workload
void gen_C21(Rng& r, Plan& p) {
  add_env(r, p); double R = r.pick(std::vector<double>{1, 3, 10, 40}), cx = r.chance(0.4) ? 0 : r.uni(-5, 5) * R, cy = r.chance(0.4) ? 0 : r.uni(-5, 5) * R;
  auto size = [&] { SizeSpec z; z.a = R * r.uni(0.22, 0.5); if (r.chance(0.3)) { z.kind = "radial"; z.b = cx; z.c = cy; z.d = R; z.e = z.a * r.uni(0, 0.6); } return z; };
  p.add("area").set("size", size().text()).set("qscale", r.chance(0.5) ? 10000.0 : 16 * R).set("qitems", r.pick(std::vector<int>{1, 3, 10, 100})).set("qdepth", r.pick(std::vector<int>{3, 8, 25})).set("R", R).set("cx", cx).set("cy", cy);
  int next = 0; std::map<int, int> exts, holes; std::set<int> fixed, strays; std::map<int, std::pair<int, int>> fe; std::map<int, std::vector<BV>> shapes; std::vector<std::vector<BV>> old;
  auto ring = [&](double x, double y, double rad, int n, double jit, bool ccw, double mr) {
    std::vector<BV> v; double a0 = r.chance(0.3) ? 0 : r.uni(0, 6.28); bool uni = r.chance(0.5); int c = r.range(0, 4); bool loc = r.chance(0.35); double ms = R * r.uni(0.08, 0.3);
    for (int i = 0; i < n; ++i) { double a = a0 + 6.283185307179586 * i / n, q = rad * (1 - jit * r.uni()); BV b; b.p = {x + q * std::cos(a), y + q * std::sin(a)}; b.color = uni ? c : r.range(0, 4); if (loc && (uni || r.chance(0.5))) { b.ms = ms; b.mr = r.chance(0.5) ? 0 : mr * R; } v.push_back(b); }
    if (!ccw) std::reverse(v.begin(), v.end()); return v; };
  auto add_ext = [&] { int id = next++; int n = r.range(3, 8); auto v = ring(cx, cy, R * r.uni(0.95, 1.1), n, n > 4 ? 0.15 : 0.02, true, 0.3);
    if (!old.empty() && r.chance(0.25)) { auto& o = r.pick(old); if (poly(o) > 0) { v = o; for (auto& b : v) { b.ms = r.chance(0.5) ? 0 : R * 0.15; b.color = r.range(0, 4); } } }
    p.add("bnd").set("id", id).set("ext", 1).set("api", r.range(0, 2)).set("front", (int)r.chance(0.25)).set("v", enc(v)); exts[id] = (int)v.size(); shapes[id] = v; };
  auto add_hole = [&](int nv = 0) { std::set<int> used; for (auto& h : holes) used.insert(h.second); if (used.size() >= 4) return; int s; do s = r.range(0, 3); while (used.count(s)); int id = next++;
    auto v = ring(cx + 0.2 * R * (s & 1 ? 1 : -1), cy + 0.2 * R * (s & 2 ? 1 : -1), R * r.uni(0.05, 0.09), nv ? nv : r.range(3, 7), 0.2, false, 0.2);
    if (r.chance(0.3)) for (auto& o : old) { if (poly(o) < 0 && std::hypot(o[0].p.x - cx - 0.2 * R * (s & 1 ? 1 : -1), o[0].p.y - cy - 0.2 * R * (s & 2 ? 1 : -1)) < 0.1 * R) { v = o; for (auto& b : v) { b.ms = r.chance(0.5) ? 0 : R * 0.06; b.color = r.range(0, 4); } break; } }
    p.add("bnd").set("id", id).set("ext", 0).set("api", r.range(0, 2)).set("front", (int)r.chance(0.25)).set("v", enc(v)); holes[id] = s; shapes[id] = v; };
  add_ext(); int n = r.pick(std::vector<int>{5, 10, 20}); double pf = r.chance(0.35) ? r.uni(0.05, 0.25) : 0, pc = r.chance(0.25) ? 0.2 : 0;
  auto del = [&](int id) { p.add("unbnd").set("id", id); old.push_back(shapes[id]); exts.erase(id); holes.erase(id); };
  for (int i = 0; i < n; ++i) {
    if (r.chance(pf)) p.add("allocfail").set("nth", r.chance(0.7) ? r.range(0, 25) : r.range(0, 120));
    if (r.chance(pc)) p.add("cbfail").set("nth", r.range(0, 30));
    double u = r.uni();
    if (u < 0.24) add_hole();
    else if (u < 0.36 && !holes.empty()) { auto it = holes.begin(); std::advance(it, r.below(holes.size())); int k = it->first, nv = (int)shapes[k].size(); del(k); if (r.chance(0.5)) { p.steps.back().set("blind", 1); add_hole(r.chance(0.6) ? nv : 0); } }
    else if (u < 0.44) { if (r.chance(0.5)) { add_ext(); if (exts.size() > 1 && r.chance(0.8)) del(exts.begin()->first); } else if (!exts.empty()) { int o = exts.begin()->first; del(o); if (r.chance(0.9)) add_ext(); } else add_ext(); }
    else if (u < 0.58) { std::vector<int> all; for (auto& e : exts) all.push_back(e.first); for (auto& h : holes) all.push_back(h.first); if (all.empty()) continue; p.add("split").set("id", r.pick(all)).set("e", r.range(0, 12)).set("s", r.chance(0.5) ? 0.5 : r.uni(0.25, 0.75)); }
    else if (u < 0.68) { if (fixed.size() >= 4) continue; int k = next++; double a = 1.5707963267948966 * (fixed.size() + (r.chance(0.3) ? 4 : 0)) ; BV b; double q = 0.07 * R * r.uni(0.6, 1); b.p = {cx + q * std::cos(a), cy + q * std::sin(a)}; if (r.chance(0.4)) { b.ms = R * r.uni(0.05, 0.2); b.mr = R * r.uni(0.05, 0.3); } bool clash = false; for (auto& s : p.steps) if (s.name == "fix" && fixed.count((int)s.integer("id"))) { auto o = dec(s.str("v")); if (std::hypot(o[0].p.x - b.p.x, o[0].p.y - b.p.y) < 0.05 * R) clash = true; } if (clash) { --next; continue; } p.add("fix").set("id", k).set("v", enc({b})); fixed.insert(k); }
    else if (u < 0.73 && !fixed.empty()) { auto it = fixed.begin(); std::advance(it, r.below(fixed.size())); int k = *it; for (auto q = fe.begin(); q != fe.end();) { if (q->second.first == k || q->second.second == k) { p.add("unfixe").set("id", q->first); q = fe.erase(q); } else ++q; } p.add("unfix").set("id", k); fixed.erase(k); }
    else if (u < 0.78 && fixed.size() >= 2) { auto a = fixed.begin(), b = fixed.end(); --b; int k = next++; p.add("fixe").set("id", k).set("a", *a).set("b", *b); fe[k] = {*a, *b}; }
    else if (u < 0.81 && !fe.empty()) { p.add("unfixe").set("id", fe.begin()->first); fe.erase(fe.begin()); }
    else if (u < 0.86) { int k = next++; p.add("stray").set("id", k).set("x", cx + r.uni(-1, 1) * R).set("y", cy + r.uni(-1, 1) * R).set("ms", r.chance(0.5) ? 0.0 : 0.01 * R); strays.insert(k); }
    else if (u < 0.88 && !strays.empty()) { p.add("unstray").set("id", *strays.begin()); strays.erase(strays.begin()); }
    else if (u < 0.92) p.add("resize").set("size", size().text());
    else if (u < 0.96) p.add("field").set("nx", r.range(1, 12)).set("ny", r.range(1, 7));
    else p.add("mesh").set("n", r.chance(0.7) ? 0 : r.range(1, 30));
  }
  for (auto& s : p.steps) if (s.name != "area" && s.name != "env" && r.chance(0.3)) s.set("blind", 1);   // not observed after this step
  p.add("mesh").set("n", 0);
}

// ---------------------------------------------------------------- reference model and execution
struct MB { int id; Loop l; };
struct Model { std::vector<MB> b; std::vector<std::pair<int, BV>> fix; std::vector<std::pair<int, std::pair<int, int>>> fe; };

void exec_C21(const Plan& p, const std::string&) {
  const Step* c = p.find("area"); if (!c) return; double R = c->num("R", 1), cx = c->num("cx"), cy = c->num("cy");
  int64_t live0 = alloc_sut_live();
  {
    auto cb = std::make_shared<Callback>(); cb->spec = SizeSpec::parse(c->str("size"));
    DomSpec base; base.scale = c->num("qscale", 10000); base.items = (size_t)c->integer("qitems", 100); base.depth = (size_t)c->integer("qdepth", 25); base.api = 0;
    std::unique_ptr<Domain> dom; { InSut g; dom = std::make_unique<Domain>([cb](const Vec2d& q) { return (*cb)(q); }, base.scale, base.items, base.depth); }
    Model m; std::map<int, Vertex*> fv, sv; std::map<int, Edge*> fe;
    auto where = [&](int id) { for (size_t i = 0; i < m.b.size(); ++i) if (m.b[i].id == id) return (long)i; return -1l; };
    auto spec = [&] { DomSpec d = base; d.size = cb->spec; for (auto& b : m.b) d.loops.push_back(b.l); std::map<int, int> ix; for (auto& f : m.fix) { ix[f.first] = (int)d.fixed.size(); d.fixed.push_back(f.second); } for (auto& e : m.fe) if (ix.count(e.second.first) && ix.count(e.second.second)) d.fixed_edges.push_back({ix[e.second.first], ix[e.second.second]}); return d; };
    auto check = [&](const std::string& at) {
      auto die = [&](const std::string& cls, const std::string& t) { violate(cls, "after '" + at + "': " + t); };
      Domain& d = *dom; if (d.size() != m.b.size()) die("boundaries", "the domain has " + std::to_string(d.size()) + " boundaries instead of " + std::to_string(m.b.size()));
      double want = 0, mag = 0;
      for (size_t i = 0; i < m.b.size(); ++i) {
        Boundary& b = d[i]; auto& l = m.b[i].l; double a = poly(l.v); want += a; mag += std::fabs(a);
        if (b.is_exterior() != l.ext || b.is_interior() == l.ext) die("boundaries", "boundary " + std::to_string(i) + " has the wrong type");
        if (b.size() != l.v.size()) die("boundary-edges", "boundary " + std::to_string(i) + " has " + std::to_string(b.size()) + " edges instead of " + std::to_string(l.v.size()));
        // the edges form the polygon of the definition, whatever edge comes first
        std::map<std::pair<double, double>, const Edge*> from; for (auto& e : b.edges()) from[{e->v1().xy().x, e->v1().xy().y}] = e.get();
        for (size_t k = 0; k < l.v.size(); ++k) { auto& s = l.v[k]; auto& t = l.v[(k + 1) % l.v.size()]; auto it = from.end(); for (auto q = from.begin(); q != from.end(); ++q) if (std::hypot(q->first.first - s.p.x, q->first.second - s.p.y) < 1e-9 * R) it = q;
          if (it == from.end()) die("boundary-edges", "no edge of boundary " + std::to_string(i) + " starts at " + fmt(s.p.x) + "," + fmt(s.p.y)); const Edge& e = *it->second;
          if (std::hypot(e.v2().xy().x - t.p.x, e.v2().xy().y - t.p.y) > 1e-9 * R) die("boundary-edges", "an edge of boundary " + std::to_string(i) + " ends at the wrong vertex");
          if (e.color() != s.color) die("boundary-edges", "an edge of boundary " + std::to_string(i) + " has marker " + std::to_string(e.color()) + " instead of " + std::to_string(s.color));
          if (!e.on_boundary()) die("boundary-edges", "an edge of boundary " + std::to_string(i) + " is not marked as boundary edge");
          const Edge* nx; { InSut g; nx = e.get_next_edge(); } if (!nx || &nx->v1() != &e.v2()) die("boundary-edges", "the edges of boundary " + std::to_string(i) + " can not be traversed");
          const Edge* pv; { InSut g; pv = e.get_prev_edge(); } if (!pv || &pv->v2() != &e.v1()) die("boundary-edges", "the edges of boundary " + std::to_string(i) + " can not be traversed backwards");
          for (auto x : e.v1().edges()) { bool known = false; for (size_t j = 0; j < m.b.size() && !known; ++j) for (auto& y : d[j].edges()) if (y.get() == x) { known = true; break; } for (auto& y : d.fixed_edges().edges()) if (y.get() == x) known = true; if (!known) die("dangling-edge", "a boundary vertex refers to an edge that is not part of the domain"); } }
        if (std::fabs(b.area() - a) > 1e-9 * (std::fabs(a) + R * R)) die("area", "boundary " + std::to_string(i) + " reports area " + fmt(b.area()) + " instead of " + fmt(a));
      }
      double got; { InSut g; got = d.area(); } if (std::fabs(got - want) > 1e-9 * (mag + R * R)) die("area", "the domain reports area " + fmt(got) + " instead of " + fmt(want));
      if (d.fixed_vertices().size() != m.fix.size()) die("fixed", "the domain has " + std::to_string(d.fixed_vertices().size()) + " fixed vertices instead of " + std::to_string(m.fix.size()));
      for (size_t i = 0; i < m.fix.size(); ++i) { const Vertex* v = d.fixed_vertices()[i]; if (v != fv[m.fix[i].first] || v->xy().x != m.fix[i].second.p.x || v->xy().y != m.fix[i].second.p.y || !v->is_fixed()) die("fixed", "fixed vertex " + std::to_string(i) + " is not the one that was added"); }
      if (d.fixed_edges().size() != m.fe.size()) die("fixed", "the domain has " + std::to_string(d.fixed_edges().size()) + " fixed edges instead of " + std::to_string(m.fe.size()));
      { size_t i = 0; for (auto& e : d.fixed_edges().edges()) { if (e.get() != fe[m.fe[i].first] || &e->v1() != fv[m.fe[i].second.first] || &e->v2() != fv[m.fe[i].second.second]) die("fixed", "fixed edge " + std::to_string(i) + " is not the one that was added"); ++i; } }
      // observations at seeded places, compared with the definition and with a domain that was built from it directly
      auto fresh = build_domain(spec()); Rng q(fnv_str(FNV0, at)); int64_t cb_at = cb->at; cb->at = -1;
      for (int k = 0; k < 12; ++k) {
        P2 x{cx + q.uni(-1.3, 1.3) * R, cy + q.uni(-1.3, 1.3) * R}; if (k == 0) x = {cx, cy}; else if (k < 4 && !m.b.empty()) { auto& l = m.b[q.below(m.b.size())].l; x.y = l.v[q.below(l.v.size())].p.y; } Vec2d X{x.x, x.y};
        bool in = true; double clr = 1e300; for (auto& b : m.b) { bool w = within(b.l.v, x); in = in && (b.l.ext ? w : !w); clr = std::min(clr, clear_of(b.l.v, x)); }
        bool g_in; double h, hf; { InSut g; g_in = d.is_inside(X); h = d.size_function(X); hf = fresh->dom->size_function(X); }
        if (clr > 1e-6 * R && g_in != in) die("inside", "the point " + fmt(x.x) + "," + fmt(x.y) + (in ? " is inside" : " is outside") + " but the domain says otherwise");
        if (std::fabs(h - hf) > 1e-9 * hf) die("size", "the element size at " + fmt(x.x) + "," + fmt(x.y) + " is " + fmt(h) + ", in a domain with the same definition " + fmt(hf));
        double rad = R * q.uni(0.05, 1.2); std::vector<Edge*> es; { InSut g; es = d.get_boundary_edges(X, rad); } std::set<Edge*> got_e(es.begin(), es.end()); if (got_e.size() != es.size()) die("edge-lookup", "the search for boundary edges returns an edge twice");
        for (size_t i = 0; i < m.b.size(); ++i) for (auto& e : d[i].edges()) { double dd = std::hypot(0.5 * (e->v1().xy().x + e->v2().xy().x) - x.x, 0.5 * (e->v1().xy().y + e->v2().xy().y) - x.y); if (dd < rad * (1 - 1e-9) && !got_e.count(e.get())) die("edge-lookup", "the search for boundary edges misses an edge"); if (dd > rad * (1 + 1e-9) && got_e.count(e.get())) die("edge-lookup", "the search for boundary edges returns an edge that is too far away"); got_e.erase(e.get()); }
        if (!got_e.empty()) die("edge-lookup", "the search for boundary edges returns an edge that is not part of the domain");
      }
      size_t o1, o2; { InSut g; o1 = d.count_edge_overlaps(*fresh->dom); o2 = fresh->dom->count_edge_overlaps(d); } if (o1 != o2 && m.b.size()) { auto f2 = build_domain(spec()); size_t o3; { InSut g; o3 = fresh->dom->count_edge_overlaps(*f2->dom); } if (o1 != o3) die("overlaps", std::to_string(o1) + " edges of the domain overlap with a domain of the same definition instead of " + std::to_string(o3)); InSut g; f2.reset(); }
      cb->at = cb_at; { InSut g; fresh.reset(); }
    };
    bool over = false; uint64_t fired0 = alloc_failures_fired(), cb0 = cb->fired;
    for (auto& s : p.steps) {
      if (over) break; const std::string& n = s.name; int id = (int)s.integer("id", -1); bool ok = true, cberr = false; paint_stack();
      if (n == "allocfail") { alloc_arm_failure((uint64_t)s.integer("nth"), 1); continue; }
      if (n == "cbfail") { cb->at = (int64_t)cb->calls + s.integer("nth"); cb->what = "throw"; cb->span = 1; continue; }
      auto run = [&](const std::function<void()>& f) {
        try { InSut g; f(); } catch (std::bad_alloc&) { ok = false; } catch (UserError&) { ok = false; cberr = true; }
        alloc_disarm(); uint64_t k = alloc_failures_fired() - fired0, kc = cb->fired - cb0; fired0 += k; cb0 += kc; cb->at = -1; if (k) LOGR.count("alloc_failure", k); if (kc) LOGR.count("callback_throw", kc);
        if (!ok && !k && !kc) violate("exception", "after '" + s.text() + "': exception although nothing failed"); if (k) LOGR.count(ok ? "probe_fault_survived" : "probe_fault_reported"); };
      if (n == "bnd") {
        if (where(id) >= 0) continue; Loop l; l.ext = s.integer("ext") != 0; l.v = dec(s.str("v")); if (l.v.size() < 3) continue; bool shared = false; for (auto& b : m.b) for (auto& v : b.l.v) for (auto& w : l.v) if (std::hypot(v.p.x - w.p.x, v.p.y - w.p.y) < 1e-3 * R) shared = true; if (shared) continue; /* live boundaries share vertices on purpose */ int api = (int)s.integer("api"); bool front = s.integer("front"); ShapeSpec z; if (api == 2) z = shape_of(l); size_t before = dom->size();
        run([&] {
          Boundary& b = front ? dom->insert_boundary(dom->begin(), l.ext ? BdryType::EXTERIOR : BdryType::INTERIOR) : l.ext ? dom->add_exterior_boundary() : dom->add_interior_boundary();
          if (!z.kind.empty()) { Vec2d q{z.c.x, z.c.y}; if (z.kind == "rect") b.set_shape_rectangle(z.color, q, z.a, z.b, z.ms, z.mr); else if (z.kind == "square") b.set_shape_square(z.color, q, z.a, z.ms, z.mr); else if (z.kind == "circ") b.set_shape_circle(z.color, q, z.a, (size_t)z.n, z.ms, z.mr); else b.set_shape_triangle(z.color, q, z.a, z.ms, z.mr); }
          else if (api == 0) { std::vector<Vertex*> vs; for (auto& v : l.v) vs.push_back(&dom->add_vertex(v.p.x, v.p.y, v.ms, v.mr)); for (size_t i = 0; i < vs.size(); ++i) b.add_edge(*vs[i], *vs[(i + 1) % vs.size()], l.v[i].color); }
          else { std::vector<Vec2d> co, pr; std::vector<int> col; for (auto& v : l.v) { co.push_back({v.p.x, v.p.y}); pr.push_back({v.ms, v.mr}); col.push_back(v.color); } b.set_shape_from_coordinates(co, col, pr); } });
        if (ok) { if (front) m.b.insert(m.b.begin(), {id, l}); else m.b.push_back({id, l}); }
        else if (dom->size() == before + 1) { LOGR.count("probe_withdrawn"); InSut g; dom->remove_boundary(front ? 0 : before); } // the user withdraws the unfinished boundary
      } else if (n == "unbnd") { long i = where(id); if (i < 0) continue; run([&] { dom->remove_boundary((size_t)i); }); if (!ok) over = true; else m.b.erase(m.b.begin() + i); }
      else if (n == "split") {
        long i = where(id); if (i < 0) continue; auto& l = m.b[(size_t)i].l; size_t k = (size_t)s.integer("e") % l.v.size(); P2 a = l.v[k].p, b = l.v[(k + 1) % l.v.size()].p; if (std::hypot(a.x - b.x, a.y - b.y) < 0.02 * R) continue; Edge* e = nullptr; for (auto& x : (*dom)[(size_t)i].edges()) if (std::hypot(x->v1().xy().x - a.x, x->v1().xy().y - a.y) < 1e-9 * R) e = x.get();
        if (!e) violate("boundary-edges", "after '" + s.text() + "': edge not found"); double t = s.num("s", 0.5); std::pair<Edge*, Edge*> pr;
        run([&] { pr = (*dom)[(size_t)i].split_edge(*e, dom->vertices(), t); }); if (!ok) { over = true; continue; }
        if (!pr.first || !pr.second || &pr.first->v2() != &pr.second->v1()) violate("split", "after '" + s.text() + "': splitting does not return the two new edges");
        const Vertex& v = pr.first->v2(); auto near = [&](double w) { return std::hypot(v.xy().x - a.x - w * (b.x - a.x), v.xy().y - a.y - w * (b.y - a.y)) < 1e-9 * R; }; if (!near(t) && !near(1 - t)) violate("split", "after '" + s.text() + "': the new vertex divides the edge in another ratio");
        BV nv; nv.p = {v.xy().x, v.xy().y}; nv.color = l.v[k].color; nv.ms = v.mesh_size(); nv.mr = v.size_range(); l.v.insert(l.v.begin() + (long)k + 1, nv);
      } else if (n == "fix") { if (fv.count(id)) continue; auto v = dec(s.str("v")); Vertex* x = nullptr; run([&] { x = &dom->add_fixed_vertex(v[0].p.x, v[0].p.y, v[0].ms, v[0].mr); }); if (ok) { fv[id] = x; m.fix.push_back({id, v[0]}); } }
      else if (n == "unfix") { if (!fv.count(id)) continue; bool used = false; for (auto& e : m.fe) if (e.second.first == id || e.second.second == id) used = true; if (used) continue; run([&] { dom->remove_fixed_vertex(*fv[id]); }); if (!ok) over = true; fv.erase(id); for (size_t i = 0; i < m.fix.size(); ++i) if (m.fix[i].first == id) { m.fix.erase(m.fix.begin() + (long)i); break; } }
      else if (n == "fixe") { int a = (int)s.integer("a"), b = (int)s.integer("b"); if (fe.count(id) || !fv.count(a) || !fv.count(b) || a == b) continue; bool dup = false; for (auto& e : m.fe) if ((e.second.first == a && e.second.second == b) || (e.second.first == b && e.second.second == a)) dup = true; if (dup) continue; Edge* x = nullptr; run([&] { x = &dom->add_fixed_edge(*fv[a], *fv[b]); }); if (ok) { fe[id] = x; m.fe.push_back({id, {a, b}}); } }
      else if (n == "unfixe") { if (!fe.count(id)) continue; run([&] { dom->remove_fixed_edge(*fe[id]); }); if (!ok) over = true; fe.erase(id); for (size_t i = 0; i < m.fe.size(); ++i) if (m.fe[i].first == id) { m.fe.erase(m.fe.begin() + (long)i); break; } }
      else if (n == "stray") { Vertex* x = nullptr; run([&] { x = &dom->add_vertex(s.num("x"), s.num("y"), s.num("ms"), 0.0); }); if (ok) sv[id] = x; }
      else if (n == "unstray") { if (!sv.count(id)) continue; run([&] { dom->remove_vertex(*sv[id]); }); if (!ok) over = true; sv.erase(id); }
      else if (n == "resize") { auto nb = std::make_shared<Callback>(); nb->spec = SizeSpec::parse(s.str("size")); run([&] { dom->user_size_function() = [nb](const Vec2d& q) { return (*nb)(q); }; }); if (ok) { cb = nb; cb0 = 0; } }
      else if (n == "field") {
        unsigned nx = (unsigned)s.integer("nx", 3), ny = (unsigned)s.integer("ny", 3); std::string txt; bool good = true; Vec2d lo{cx - R, cy - R}, hi{cx + R, cy + R}; run([&] { std::ostringstream os; dom->export_size_function(os, lo, hi, nx, ny); txt = os.str(); good = os.good(); });
        if (ok && good) { std::istringstream is(txt); std::string w; std::vector<double> v; double hd[6]; is >> w; for (double& x : hd) is >> x; std::string rest((std::istreambuf_iterator<char>(is)), {}); for (char& ch : rest) if (ch == ',') ch = ' '; std::istringstream rs(rest); double x; while (rs >> x) v.push_back(x);
          if (w != "SIZE-FUNCTION" || v.size() != (size_t)nx * ny || hd[4] != nx || hd[5] != ny) violate("field", "after '" + s.text() + "': the exported size function has " + std::to_string(v.size()) + " values");
          auto fresh = build_domain(spec()); for (unsigned j = 0; j < ny; ++j) for (unsigned i = 0; i < nx; ++i) { double h; { InSut g; h = fresh->dom->size_function(Vec2d{lo.x + i * (hi.x - lo.x) / nx, lo.y + j * (hi.y - lo.y) / ny}); } if (std::fabs(h - v[j * nx + i]) > 1e-5 + 1e-6 * h) violate("field", "after '" + s.text() + "': exported size " + fmt(v[j * nx + i]) + " instead of " + fmt(h)); } InSut g; fresh.reset(); }
      } else if (n == "mesh") {
        int ne = 0; const Loop* ex = nullptr; for (auto& b : m.b) if (b.l.ext) { ++ne; ex = &b.l; } bool valid = ne == 1; if (valid) { for (auto& b : m.b) if (!b.l.ext) for (auto& v : b.l.v) if (!within(ex->v, v.p) || clear_of(ex->v, v.p) < 0.02 * R) valid = false; for (auto& f : m.fix) if (!within(ex->v, f.second.p)) valid = false; } if (!valid) continue;
        DomSpec d = spec(); std::unique_ptr<MeshGenerator> gen; Mesh* me = nullptr; bool res = false; long lim = s.integer("n");
        run([&] { gen = std::make_unique<MeshGenerator>(); me = &gen->new_mesh(*dom); auto& t = gen->triangulation(*me); if (lim) t.n_elements((size_t)lim); res = t.generate_elements(); });
        if (ok) { CheckOpt o; o.complete = !lim; Snap sn = snapshot(*me); double a = 0; for (auto& f : sn.f) { double q = 0; for (int i = 0; i < f.n; ++i) { auto& A = sn.v[f.v[i]]; auto& B = sn.v[f.v[(i + 1) % f.n]]; q += A.x * B.y - A.y * B.x; } a += q / 2; }
          if (lim && std::fabs(a - d.area()) < 1e-9 * d.area()) o.complete = true;
          if (res) { if (!o.complete) o.topo = o.geom = o.boundary = false; check_mesh(*me, {&d}, o, "after '" + s.text() + "'"); LOGR.count(o.complete ? "probe_mesh_complete" : "probe_mesh_partial"); } else LOGR.count("probe_honest_failure"); LOGR.ev("mesh " + sn.brief()); }
        { InSut g; gen.reset(); }
      } else continue;
      LOGR.count("op_" + n); if (over) { LOGR.count("probe_terminal"); break; }
      uint64_t st = fnv_str(FNV0, n); size_t nb = m.b.size(); st = fnv(st, &nb, sizeof nb); for (auto& b : m.b) { nb = b.l.v.size(); st = fnv(st, &nb, sizeof nb); } LOGR.state(st);
      LOGR.ev(n + " " + std::to_string(id) + (ok ? " ok" : cberr ? " callback" : " nomem") + " boundaries " + std::to_string(m.b.size()) + " fixed " + std::to_string(m.fix.size())); if (!s.integer("blind")) check(s.text());
    }
    alloc_disarm(); InSut g; dom.reset(); cb.reset();
  }
  (void)live0;
}
}
