// C10: the spatial container (item list + quad tree) behaves like a plain list
// that is searched exhaustively, for every history of operations and faults.
#include "props.h"
#include "CppUtils.h"

namespace sim {
using CppUtils::Vec2d;

struct Item : public CppUtils::ContainerEntry<Item> {
  int id; std::vector<char> pad; int* dtor = nullptr;
  Item(double x, double y, int i, int npad, int* d) : ContainerEntry<Item>(x, y), id(i), pad((size_t)npad), dtor(d) {}
  void container_destructor() override { if (dtor) ++*dtor; }
};
using Box = CppUtils::Container<Item>;

// ---------------------------------------------------------------- workload
static double coord(Rng& r, double scale, int style) {
  double h = scale / 2;
  switch (style) {
    case 0: return r.uni(-h, h);
    case 1: { int k = r.range(0, 6); double c = scale / (1 << k); int n = 1 << k; return -h + c * r.range(0, n); }             // on cell borders of a dyadic tree
    case 2: { double c = 0; double q = scale; int k = r.range(0, 7); for (int i = 0; i < k; ++i) { q /= 2; c += r.chance(0.5) ? q / 2 : -q / 2; } return c; }   // borders as the tree computes them
    case 3: { double c = 0; double q = scale; int k = r.range(0, 7); for (int i = 0; i < k; ++i) { q /= 2; c += r.chance(0.5) ? q / 2 : -q / 2; } return std::max(-h, std::min(h, r.chance(0.5) ? std::nextafter(c, 1e300) : std::nextafter(c, -1e300))); }
    default: return std::max(-h, std::min(h, 0.013 * scale + r.uni(-1, 1) * scale * 1e-3));                                  // a cluster
  }
}
void gen_C10(Rng& r, Plan& p) {
  add_env(r, p);
  double scale = r.pick(std::vector<double>{2, 16, 1024, 10000, 1.0, 3.3, 0.7, 10, 1e-3, 12345.678, 1.0 / 3});
  int items = r.pick(std::vector<int>{1, 2, 3, 5, 10, 100}), depth = r.pick(std::vector<int>{1, 2, 4, 8, 25, 25});
  p.add("box").set("scale", scale).set("items", items).set("depth", depth);
  int n = r.pick(std::vector<int>{12, 40, 120, 300}); double pdel = r.uni(0.05, 0.45), pmv = r.uni(0.05, 0.4), pq = r.uni(0.1, 0.4), pf = r.chance(0.5) ? 0 : r.uni(0.01, 0.15); int mix = r.range(0, 5); int next = 0;
  std::vector<std::pair<double, double>> pts; std::vector<int> ids;
  auto C = [&] { return coord(r, scale, mix == 5 ? r.range(0, 4) : (r.chance(0.8) ? mix : 0)); };
  auto P = [&](Step& s) { double x = C(), y = C(); if (!pts.empty() && r.chance(0.12)) { auto q = r.pick(pts); if (r.chance(0.5)) x = q.first; else { x = q.first; y = q.second; } } pts.push_back({x, y}); s.set("x", x).set("y", y); };
  for (int i = 0; i < n; ++i) {
    if (r.chance(pf)) p.add("allocfail").set("nth", r.range(0, 12)).set("burst", r.chance(0.6) ? 1 : r.range(2, 6));
    double u = r.uni();
    if (u < pq) {
      int k = r.range(0, 4);
      if (k == 4) { auto& s = p.add("filter"); if (r.chance(0.5)) { double x = C(), y = C(), X = C(), Y = C(); s.set("x", std::min(x, X)).set("y", std::min(y, Y)).set("X", std::max(x, X)).set("Y", std::max(y, Y)); } else s.set("x", C()).set("y", C()).set("r", r.uni(0, 0.6) * scale); }
      else if (k == 0) { auto& s = p.add("rect"); double x = C(), y = C(), X = C(), Y = C(); s.set("x", std::min(x, X)).set("y", std::min(y, Y)).set("X", std::max(x, X)).set("Y", std::max(y, Y)); }
      else if (k == 1) { auto& s = p.add("circ"); s.set("x", C()).set("y", C()).set("r", r.chance(0.2) ? scale * std::pow(10.0, -r.uni(2, 9)) : r.uni(0, 0.6) * scale); }
      else { auto& s = p.add("near"); if (r.chance(0.15)) s.set("x", r.uni(-2, 2) * scale).set("y", r.uni(-2, 2) * scale); else s.set("x", C()).set("y", C()); }
    }
    else if (u < pq + pdel && !ids.empty()) { size_t k = r.below(ids.size()); p.add("del").set("id", ids[k]); ids.erase(ids.begin() + (long)k); }
    else if (u < pq + pdel + pmv && !ids.empty()) P(p.add("mv").set("id", r.pick(ids)));
    else if (r.chance(0.04)) p.add("waste");
    else if (r.chance(0.04)) { double d = scale * r.uni(0.501, 1.5) * (r.chance(0.5) ? 1 : -1); auto& s = p.add("outside"); if (r.chance(0.5)) s.set("x", d).set("y", C()); else s.set("x", C()).set("y", d); }
    else if (r.chance(0.03)) p.add("sort");
    else { auto& s = p.add("add"); P(s); s.set("id", next); if (r.chance(0.2) && !ids.empty()) s.set("before", r.pick(ids)); ids.push_back(next++); }
  }
}

// ---------------------------------------------------------------- reference model and execution
// queries with the user's own criterion: items with an odd number inside the given shape
static bool odd_rect(Item* i, const Vec2d& l, const Vec2d& u) { return i->id % 2 && i->x() >= l.x && i->x() <= u.x && i->y() >= l.y && i->y() <= u.y; }
static bool odd_circ(Item* i, const Vec2d& c, const double r2) { return i->id % 2 && (i->x() - c.x) * (i->x() - c.x) + (i->y() - c.y) * (i->y() - c.y) < r2; }
struct Ref { int id; double x, y; };
static void die(const std::string& cls, const Step& s, const std::string& m) { violate(cls, "after '" + s.text() + "': " + m); }
static std::string names(const std::set<int>& a) { std::string s; for (int i : a) s += (s.empty() ? "" : ",") + std::to_string(i); return "{" + s + "}"; }

void exec_C10(const Plan& p, const std::string&) {
  const Step* c = p.find("box"); if (!c) return;
  double scale = c->num("scale"); int64_t live0 = alloc_sut_live(); int dtors = 0, removed = 0, withdrawn = 0;
  {
    std::unique_ptr<Box> box; { InSut g; box = std::make_unique<Box>(scale, (size_t)c->integer("items"), (size_t)c->integer("depth")); }
    std::vector<Ref> ref; std::map<int, Item*> at;
    auto pos = [&](int id) { for (size_t i = 0; i < ref.size(); ++i) if (ref[i].id == id) return (long)i; return -1l; };
    auto order = [&](const Step& s) {
      std::vector<int> got; for (auto& u : *box) { if (!u) die("list", s, "the container holds an empty entry"); got.push_back(u->id); }
      bool ok = got.size() == ref.size(); for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i] == ref[i].id;
      if (!ok || box->size() != ref.size()) die("list", s, "the container holds " + std::to_string(got.size()) + " items, expected " + std::to_string(ref.size()) + " in the order of insertion");
      if (!ref.empty()) { size_t k = (size_t)(s.integer("id", 0) + 7919) % ref.size(); const Box& cb = *box; if (cb[k].id != ref[k].id || (*box)[k].id != ref[k].id || cb.front().id != ref.front().id || cb.back().id != ref.back().id) die("list", s, "access by index, to the first or to the last item gives another item"); }
      if (box->quad_tree().size() != ref.size()) die("index-count", s, "the search tree counts " + std::to_string(box->quad_tree().size()) + " items instead of " + std::to_string(ref.size()));
      for (auto& u : *box) { auto& q = ref[(size_t)pos(u->id)]; if (u->x() != q.x || u->y() != q.y) die("position", s, "item " + std::to_string(u->id) + " is at the wrong position"); }
    };
    auto check_rect = [&](const Step& s, double x, double y, double X, double Y, const std::vector<Item*>& f) {
      std::set<int> got, want; for (auto i : f) if (!got.insert(i->id).second) die("query-duplicate", s, "rectangle query returns item " + std::to_string(i->id) + " twice");
      for (auto& q : ref) if (q.x >= x && q.x <= X && q.y >= y && q.y <= Y) want.insert(q.id);
      if (got != want) die("rect-query", s, "rectangle query returns " + names(got) + " instead of " + names(want));
    };
    uint64_t fired0 = alloc_failures_fired();
    auto run = [&](const std::function<void()>& f) -> bool { // false: interrupted by a failed allocation
      bool ok = true; try { InSut g; f(); } catch (std::bad_alloc&) { ok = false; }
      alloc_disarm(); uint64_t n = alloc_failures_fired() - fired0; fired0 += n; if (n) LOGR.count("alloc_failure", n);
      if (!ok && !n) violate("exception", "an operation ran out of memory although no allocation failed");
      if (n) LOGR.count(ok ? "probe_fault_survived" : "probe_fault_reported");
      return ok; };
    for (auto& s : p.steps) {
      const std::string& n = s.name; int id = (int)s.integer("id", -1);
      if (n == "allocfail") { alloc_arm_failure((uint64_t)s.integer("nth"), (uint64_t)s.integer("burst", 1)); continue; }
      if (n == "add") {
        if (pos(id) >= 0) continue; double x = s.num("x"), y = s.num("y"); Item* it = nullptr; long b = s.has("before") ? pos((int)s.integer("before")) : -1; int d0 = dtors;
        bool ok = run([&] { if (b >= 0) it = &box->insert(at[ref[(size_t)b].id]->pos(), x, y, id, id % 7, &dtors); else it = &box->push_back(x, y, id, id % 7, &dtors); });
        if (ok) { Ref q{id, x, y}; if (b >= 0) ref.insert(ref.begin() + b, q); else ref.push_back(q); at[id] = it; } else { withdrawn += dtors - d0; }
        if (ok && !it->in_container()) die("list", s, "the new item is not marked as part of the container");
      } else if (n == "del") {
        long i = pos(id); if (i < 0) continue; bool res = false;
        bool ok = run([&] { res = box->remove(*at[id]); });
        if (!ok || !res) die("remove-failed", s, "the item could not be removed"); ++removed;
        if (dtors - withdrawn != removed) die("destructor", s, "removal notified " + std::to_string(dtors - withdrawn) + " items instead of " + std::to_string(removed));
        if (at[id]->in_container()) die("list", s, "a removed item is still marked as part of the container");
        ref.erase(ref.begin() + i);
      } else if (n == "mv") {
        long i = pos(id); if (i < 0) continue; bool res = false; double x = s.num("x"), y = s.num("y");
        bool ok = run([&] { res = box->update(*at[id], Vec2d{x, y}); });
        if (ok && !res) die("move-failed", s, "the item could not be moved");
        if (ok) { ref[(size_t)i].x = x; ref[(size_t)i].y = y; }
      } else if (n == "outside") { // a candidate beyond the extent of the tree that is withdrawn again, as the mesh generation does
        double x = s.num("x"), y = s.num("y"); Item* it = nullptr; bool res = true; int d0 = dtors;
        try { run([&] { it = &box->push_back(x, y, -7, 0, &dtors); }); if (it) { InSut g; res = box->remove(*it); } } catch (ViolationEx&) { throw; } catch (...) {}
        withdrawn += dtors - d0; if (!res) die("remove-failed", s, "an item outside of the extent could not be removed");
      } else if (n == "waste") { run([&] { box->clear_waste(); }); }
      else if (n == "sort") { bool ok = run([&] { box->sort([](const std::unique_ptr<Item>& a, const std::unique_ptr<Item>& b) { return a->id % 5 < b->id % 5; }); }); if (ok) std::stable_sort(ref.begin(), ref.end(), [](const Ref& a, const Ref& b) { return a.id % 5 < b.id % 5; }); }
      else if (n == "rect") { std::vector<Item*> f; if (run([&] { f = box->get_items(Vec2d{s.num("x"), s.num("y")}, Vec2d{s.num("X"), s.num("Y")}); })) check_rect(s, s.num("x"), s.num("y"), s.num("X"), s.num("Y"), f); }
      else if (n == "circ") {
        std::vector<Item*> f; double x = s.num("x"), y = s.num("y"), r = s.num("r");
        if (run([&] { f = box->get_items(Vec2d{x, y}, r); })) {
          std::set<int> got; for (auto i : f) if (!got.insert(i->id).second) die("query-duplicate", s, "circle query returns item " + std::to_string(i->id) + " twice");
          for (auto& q : ref) { double d = (q.x - x) * (q.x - x) + (q.y - y) * (q.y - y); double tol = 1e-12 * (d + r * r); if (d < r * r - tol && !got.count(q.id)) die("circle-query", s, "circle query misses item " + std::to_string(q.id)); if (d > r * r + tol && got.count(q.id)) die("circle-query", s, "circle query returns item " + std::to_string(q.id) + " which is outside"); got.erase(q.id); }
          if (!got.empty()) die("circle-query", s, "circle query returns items that are not part of the container"); }
      } else if (n == "filter") {
        std::vector<Item*> f; Box::Vector v; size_t cnt = 0; bool circ = s.has("r"); Vec2d a{s.num("x"), s.num("y")}, b{s.num("X"), s.num("Y")}; double r = s.num("r");
        if (run([&] { const auto& t = box->quad_tree(); cnt = circ ? t.get_items(a, r, v, &odd_circ) : t.get_items(a, b, v, &odd_rect); })) {
          std::set<int> got; for (auto i : v) if (!got.insert(i->id).second) die("query-duplicate", s, "filtered query returns item " + std::to_string(i->id) + " twice");
          if (cnt != v.size()) die("filter-query", s, "filtered query reports " + std::to_string(cnt) + " items but returns " + std::to_string(v.size()));
          for (auto& q : ref) { double d = (q.x - a.x) * (q.x - a.x) + (q.y - a.y) * (q.y - a.y), tol = 1e-12 * (d + r * r); bool in = circ ? d < r * r - tol : q.x >= a.x && q.x <= b.x && q.y >= a.y && q.y <= b.y, out = circ ? d > r * r + tol : !in;
            if (q.id % 2 && in && !got.count(q.id)) die("filter-query", s, "filtered query misses item " + std::to_string(q.id)); if ((q.id % 2 == 0 || out) && got.count(q.id)) die("filter-query", s, "filtered query returns item " + std::to_string(q.id) + " which does not meet the criterion"); got.erase(q.id); }
          if (!got.empty()) die("filter-query", s, "filtered query returns items that are not part of the container"); }
      } else if (n == "near") {
        Item* it = nullptr; double x = s.num("x"), y = s.num("y");
        if (run([&] { it = box->get_nearest(Vec2d{x, y}); })) {
          if (!it != ref.empty()) die("nearest-query", s, ref.empty() ? "nearest query on an empty container returns an item" : "nearest query finds nothing although the container is not empty");
          if (it) { double best = 1e300, mine = -1; for (auto& q : ref) { double d = std::hypot(q.x - x, q.y - y); best = std::min(best, d); if (at[q.id] == it) mine = d; }
            if (mine < 0) die("nearest-query", s, "nearest query returns an item that is not part of the container");
            if (mine > best * (1 + 1e-9) + 1e-300) die("nearest-query", s, "nearest query returns an item at distance " + fmt(mine) + " although another one is at " + fmt(best)); } }
      } else continue;
      LOGR.count("op_" + n); order(s);
      // everything can be found, wherever it was moved to
      std::vector<Item*> all; { InSut g; all = box->get_items(Vec2d{-scale, -scale}, Vec2d{scale, scale}); } check_rect(s, -scale, -scale, scale, scale, all);
      if (id >= 0 && pos(id) >= 0) { auto q = ref[(size_t)pos(id)]; std::vector<Item*> f; { InSut g; f = box->get_items(Vec2d{q.x, q.y}, Vec2d{q.x, q.y}); } check_rect(s, q.x, q.y, q.x, q.y, f); }
      int nl; { InSut g; nl = box->quad_tree().n_leafs(); } uint64_t st = fnv(FNV0, &nl, 4); size_t sz = ref.size(); st = fnv(st, &sz, sizeof sz); LOGR.state(fnv_str(st, n));
      LOGR.ev(n + " " + std::to_string(id) + " size " + std::to_string(sz) + " leafs " + std::to_string(nl));
    }
    alloc_disarm(); InSut g; box.reset();
  }
  if (!alloc_is_asan() && alloc_sut_live() != live0) violate("leak", std::to_string(alloc_sut_live() - live0) + " memory blocks of the container were never released");
}
}
