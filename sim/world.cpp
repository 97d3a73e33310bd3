#include "world.h"
#include <array>
#include <sys/stat.h>

namespace sim {
using namespace TQMesh;
using CppUtils::Vec2d;

SizeSpec SizeSpec::parse(const std::string& s) {
  SizeSpec z; std::istringstream is(s); std::string t; int i = 0;
  while (std::getline(is, t, ',')) {
    if (i == 0) z.kind = t;
    else { double v = strtod(t.c_str(), nullptr); (i == 1 ? z.a : i == 2 ? z.b : i == 3 ? z.c : i == 4 ? z.d : z.e) = v; }
    ++i;
  }
  return z;
}

static double loop_area(const Loop& l) {
  double a = 0; size_t n = l.v.size();
  for (size_t i = 0; i < n; ++i) { auto& p = l.v[i].p; auto& q = l.v[(i + 1) % n].p; a += p.x * q.y - q.x * p.y; }
  return 0.5 * a;
}
double DomSpec::area() const { double a = 0; for (auto& l : loops) a += loop_area(l); return a; }
double DomSpec::perimeter() const {
  double s = 0; for (auto& l : loops) for (size_t i = 0; i < l.v.size(); ++i) { auto& p = l.v[i].p; auto& q = l.v[(i + 1) % l.v.size()].p; s += std::hypot(p.x - q.x, p.y - q.y); }
  return s;
}
double DomSpec::diam() const {
  double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
  for (auto& l : loops) for (auto& b : l.v) { x0 = std::min(x0, b.p.x); x1 = std::max(x1, b.p.x); y0 = std::min(y0, b.p.y); y1 = std::max(y1, b.p.y); }
  return std::hypot(x1 - x0, y1 - y0);
}

static std::string bvs(const std::vector<BV>& v) {
  std::string s; for (auto& b : v) { if (!s.empty()) s += ";"; s += fmt(b.p.x) + "," + fmt(b.p.y) + "," + std::to_string(b.color) + "," + fmt(b.ms) + "," + fmt(b.mr); }
  return s;
}
static std::vector<BV> parse_bvs(const std::string& s) {
  std::vector<BV> r; std::istringstream is(s); std::string t;
  while (std::getline(is, t, ';')) { BV b; double c = 0; sscanf(t.c_str(), "%lf,%lf,%lf,%lf,%lf", &b.p.x, &b.p.y, &c, &b.ms, &b.mr); b.color = (int)c; r.push_back(b); }
  return r;
}
void dom_to_plan(Plan& p, int id, const DomSpec& d) {
  p.add("dom").set("id", id).set("size", d.size.text()).set("qscale", d.scale).set("qitems", (int)d.items).set("qdepth", (int)d.depth).set("api", d.api);
  for (auto& l : d.loops) p.add("loop").set("id", id).set("ext", l.ext ? 1 : 0).set("v", bvs(l.v));
  for (auto& f : d.fixed) p.add("fixv").set("id", id).set("v", bvs({f}));
  for (auto& e : d.fixed_edges) p.add("fixe").set("id", id).set("a", e.first).set("b", e.second);
}
bool dom_in_plan(const Plan& p, int id) { for (auto& s : p.steps) if (s.name == "dom" && s.integer("id") == id) return true; return false; }
DomSpec dom_from_plan(const Plan& p, int id) {
  DomSpec d;
  for (auto& s : p.steps) {
    if (s.integer("id", -1) != id) continue;
    if (s.name == "dom") { d.size = SizeSpec::parse(s.str("size")); d.scale = s.num("qscale", 10000); d.items = s.integer("qitems", 100); d.depth = s.integer("qdepth", 25); d.api = (int)s.integer("api"); }
    else if (s.name == "loop") { Loop l; l.ext = s.integer("ext") != 0; l.v = parse_bvs(s.str("v")); d.loops.push_back(l); }
    else if (s.name == "fixv") { auto v = parse_bvs(s.str("v")); if (!v.empty()) d.fixed.push_back(v[0]); }
    else if (s.name == "fixe") d.fixed_edges.push_back({(int)s.integer("a"), (int)s.integer("b")});
  }
  return d;
}

// ------------------------------------------------------------------ generation
static bool pt_in_loop(const Loop& l, P2 q) {
  bool in = false; size_t n = l.v.size();
  for (size_t i = 0, j = n - 1; i < n; j = i++) { auto& a = l.v[i].p; auto& b = l.v[j].p;
    if ((a.y > q.y) != (b.y > q.y) && q.x < (b.x - a.x) * (q.y - a.y) / (b.y - a.y) + a.x) in = !in; }
  return in;
}
static double seg_dist(P2 p, P2 a, P2 b) {
  double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy, t = l2 > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l2 : 0;
  t = std::min(1.0, std::max(0.0, t)); return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy);
}
static double loop_dist(const Loop& l, P2 p) {
  double m = 1e300; size_t n = l.v.size(); for (size_t i = 0; i < n; ++i) m = std::min(m, seg_dist(p, l.v[i].p, l.v[(i + 1) % n].p)); return m;
}
static void orient(Loop& l) {
  double a = loop_area(l);
  if ((l.ext && a < 0) || (!l.ext && a > 0)) std::reverse(l.v.begin(), l.v.end());
}
static Loop circle(P2 c, double r, int n, double ph, bool ext, double ry = -1) {
  Loop l; l.ext = ext; if (ry < 0) ry = r;
  for (int i = 0; i < n; ++i) { double t = ph + 2 * M_PI * i / n; BV b; b.p = {c.x + r * cos(t), c.y + ry * sin(t)}; l.v.push_back(b); }
  return l;
}

ShapeSpec shape_of(const Loop& l) {
  ShapeSpec z; size_t n = l.v.size(); if (n < 3) return z;
  for (auto& b : l.v) if (b.color != l.v[0].color || b.ms != l.v[0].ms || b.mr != l.v[0].mr) return z;
  double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; P2 c; for (auto& b : l.v) { x0 = std::min(x0, b.p.x); x1 = std::max(x1, b.p.x); y0 = std::min(y0, b.p.y); y1 = std::max(y1, b.p.y); c.x += b.p.x / n; c.y += b.p.y / n; }
  auto same = [&](const Loop& m) { double eps = 1e-11 * (1 + std::max(x1 - x0, y1 - y0)); if (m.v.size() != n) return false; for (size_t k = 0; k < n; ++k) { bool ok = true; for (size_t i = 0; i < n && ok; ++i) { auto &p = m.v[i].p, &q = l.v[(i + k) % n].p; ok = std::hypot(p.x - q.x, p.y - q.y) < eps; } if (ok) return true; } return false; };
  z.color = l.v[0].color; z.ms = l.v[0].ms; z.mr = l.v[0].mr;
  if (n == 4) { Loop q; q.ext = l.ext; for (P2 p : {P2{x0, y0}, P2{x1, y0}, P2{x1, y1}, P2{x0, y1}}) { BV b; b.p = p; q.v.push_back(b); } orient(q); if (same(q)) { z.c = {0.5 * (x0 + x1), 0.5 * (y0 + y1)}; z.a = x1 - x0; z.b = y1 - y0; z.kind = std::fabs(z.a - z.b) < 1e-11 ? "square" : "rect"; return z; } }
  double R = std::hypot(l.v[0].p.x - c.x, l.v[0].p.y - c.y); Loop q = circle(c, R, (int)n, 0, l.ext); orient(q);
  if (same(q)) { z.c = c; z.a = n == 3 ? R * std::sqrt(3.0) : R; z.n = (int)n; z.kind = n == 3 ? "triangle" : "circ"; }
  return z;
}
void translate(DomSpec& d, double dx, double dy) {
  for (auto& l : d.loops) for (auto& b : l.v) { b.p.x += dx; b.p.y += dy; }
  for (auto& b : d.fixed) { b.p.x += dx; b.p.y += dy; }
  auto& z = d.size;
  if (z.kind == "lin") z.a -= z.b * dx + z.c * dy;
  else if (z.kind == "radial") { z.b += dx; z.c += dy; }
  else if (z.kind == "step") z.d += z.b * dx + z.c * dy;
}
DomSpec gen_domain(Rng& r, const GenOpt& o) {
  DomSpec d; Loop e; e.ext = true;
  int shape = o.shape >= 0 ? o.shape : r.range(0, 4);
  double W = 1, H = 1; bool named = r.chance(0.25);
  if (shape == 0) {
    W = r.uni(0.8, 3); H = r.uni(0.8, 2); if (named && r.chance(0.4)) H = W;
    std::vector<P2> c{{0, 0}, {W, 0}, {W, H}, {0, H}};
    for (int i = 0; i < 4; ++i) { BV b; b.p = c[i]; e.v.push_back(b);
      if (!named && r.chance(0.3)) { double t = r.uni(0.3, 0.7); BV m; m.p = {c[i].x + t * (c[(i + 1) % 4].x - c[i].x), c[i].y + t * (c[(i + 1) % 4].y - c[i].y)}; e.v.push_back(m); } }
  } else if (shape == 1) {
    int n = r.range(3, 8); double rx = r.uni(0.7, 1.6), ry = r.uni(0.7, 1.2), ph = r.uni(0, 6.28);
    for (int i = 0; i < n; ++i) { double t = ph + 2 * M_PI * (i + r.uni(-0.2, 0.2)) / n; BV b; b.p = {rx * cos(t), ry * sin(t)}; e.v.push_back(b); }
  } else if (shape == 2) {
    double a = r.uni(0.35, 0.65), b = r.uni(0.35, 0.65); W = r.uni(1.2, 2.5); H = r.uni(1.2, 2.0);
    std::vector<P2> c;
    int k = r.range(0, 2);
    if (k == 0) c = {{0, 0}, {W, 0}, {W, b * H}, {a * W, b * H}, {a * W, H}, {0, H}};                                            // L
    else if (k == 1) c = {{0, 0}, {W, 0}, {W, H}, {0.7 * W, H}, {0.7 * W, b * H}, {0.3 * W, b * H}, {0.3 * W, H}, {0, H}};          // U
    else c = {{0.3 * W, 0}, {0.7 * W, 0}, {0.7 * W, b * H}, {W, b * H}, {W, H}, {0, H}, {0, b * H}, {0.3 * W, b * H}};              // T
    for (auto& p : c) { BV v; v.p = p; e.v.push_back(v); }
  } else if (shape == 3) {
    int n = r.range(5, 10); double ph = r.uni(0, 6.28);
    for (int i = 0; i < n; ++i) { double t = ph + 2 * M_PI * i / n, R = r.uni(0.65, 1.1); BV b; b.p = {R * cos(t), R * sin(t)}; e.v.push_back(b); }
  } else if (named) { int n = r.chance(0.25) ? 3 : r.range(4, 24); e = circle({0, 0}, n < 6 ? r.uni(0.9, 1.4) : r.uni(0.7, 1.3), n, 0, true); }
  else e = circle({0, 0}, r.uni(0.7, 1.3), r.range(8, 24), r.uni(0, 6), true, r.uni(0.7, 1.3));
  orient(e);
  int ncol = named ? 1 : r.range(1, 4);
  for (auto& b : e.v) b.color = r.range(1, ncol);
  d.loops.push_back(e);
  double A0 = loop_area(e);
  // holes
  int holes = o.max_holes > 0 && r.chance(0.5) ? r.range(1, o.max_holes) : 0;
  double ext = std::sqrt(A0);
  for (int k = 0; k < holes; ++k) {
    for (int tries = 0; tries < 60; ++tries) {
      P2 c{r.uni(-1.6, 3), r.uni(-1.6, 3)}; double rad = r.uni(0.08, 0.22) * ext;
      if (!pt_in_loop(e, c)) continue;
      bool ok = loop_dist(e, c) > rad + 0.12 * ext;
      for (size_t j = 1; ok && j < d.loops.size(); ++j) ok = !pt_in_loop(d.loops[j], c) && loop_dist(d.loops[j], c) > rad + 0.12 * ext;
      if (!ok) continue;
      int n = r.pick(std::vector<int>{3, 4, 4, 6, 8, 12});
      double ph = r.uni(0, 6.28); Loop h = circle(c, rad, n, named ? 0 : ph, false);
      if (named && n == 4 && r.chance(0.7)) { double w = rad * r.uni(0.6, 0.8), q = r.chance(0.5) ? w : rad * r.uni(0.4, 0.6); P2 k[4] = {{c.x - w, c.y - q}, {c.x + w, c.y - q}, {c.x + w, c.y + q}, {c.x - w, c.y + q}}; for (int i = 0; i < 4; ++i) h.v[i].p = k[i]; }
      orient(h); int col = r.range(5, 8); for (auto& b : h.v) b.color = named || r.chance(0.8) ? col : col + 1;
      d.loops.push_back(h); break;
    }
  }
  double A = d.area();
  double target = o.target * r.uni(0.3, 1.5);
  double h = std::sqrt(A * 2.31 / target);
  // size function
  d.size.kind = "const"; d.size.a = h;
  if (o.varsize && r.chance(0.5)) {
    int k = r.range(0, 2);
    if (k == 0) { d.size.kind = "lin"; d.size.a = h; d.size.b = r.uni(-0.2, 0.2) * h / ext; d.size.c = r.uni(-0.2, 0.2) * h / ext; d.size.e = 0.4 * h; }
    else if (k == 1) { d.size.kind = "radial"; d.size.a = h * r.uni(0.5, 0.8); d.size.b = r.uni(-0.5, 1); d.size.c = r.uni(-0.5, 1); d.size.d = ext * r.uni(0.3, 0.8); d.size.e = h * r.uni(0.3, 0.8); }
    else { d.size.kind = "step"; d.size.a = h; d.size.e = h * r.uni(0.6, 0.9); d.size.b = r.uni(-1, 1); d.size.c = r.uni(-1, 1); d.size.d = r.uni(-0.3, 0.6); }
  }
  if (o.local && r.chance(0.4)) {
    auto& l = d.loops[r.below(d.loops.size())];
    auto& b = l.v[r.below(l.v.size())]; b.ms = h * r.uni(0.3, 0.8); b.mr = h * r.uni(0.5, 2); if (named) { BV c = b; for (auto& x : l.v) { x.ms = c.ms; x.mr = c.mr; } }
  }
  if (o.fixed && r.chance(0.4)) {
    int n = r.range(1, 3);
    for (int k = 0; k < n; ++k) for (int tries = 0; tries < 40; ++tries) {
      P2 c{r.uni(-1.6, 3), r.uni(-1.6, 3)};
      if (!pt_in_loop(d.loops[0], c)) continue;
      bool ok = loop_dist(d.loops[0], c) > 1.2 * h;
      for (size_t j = 1; ok && j < d.loops.size(); ++j) ok = !pt_in_loop(d.loops[j], c) && loop_dist(d.loops[j], c) > 1.2 * h;
      for (auto& f : d.fixed) if (std::hypot(f.p.x - c.x, f.p.y - c.y) < 1.5 * h) ok = false;
      if (!ok) continue;
      BV b; b.p = c; b.color = 0; if (r.chance(0.5)) { b.ms = h * r.uni(0.4, 0.9); b.mr = h * r.uni(0.5, 2); }
      d.fixed.push_back(b); break;
    }
    if (o.fixed_edges && d.fixed.size() >= 2) { // a fixed edge stays inside the domain, away from holes and other fixed vertices
      P2 a = d.fixed[0].p, b = d.fixed[1].p; bool ok = true;
      for (int k = 0; k <= 64 && ok; ++k) { double u = k / 64.0; P2 c{a.x + (b.x - a.x) * u, a.y + (b.y - a.y) * u};
        for (size_t j = 0; j < d.loops.size() && ok; ++j) ok = (pt_in_loop(d.loops[j], c) == (j == 0)) && loop_dist(d.loops[j], c) > 0.8 * h; }
      for (size_t j = 2; j < d.fixed.size() && ok; ++j) ok = seg_dist(d.fixed[j].p, a, b) > 1.2 * h;
      if (ok) d.fixed_edges.push_back({0, 1});
    }
  }
  // placement and scale
  double sc = r.pick(std::vector<double>{1, 1, 1, 10, 0.6, 3.7});
  P2 sh{0, 0}; if (r.chance(0.5)) sh = {r.uni(-8, 8) * sc, r.uni(-8, 8) * sc};
  auto tr = [&](P2& p) { p.x = p.x * sc + sh.x; p.y = p.y * sc + sh.y; };
  for (auto& l : d.loops) for (auto& b : l.v) { tr(b.p); b.ms *= sc; b.mr *= sc; }
  for (auto& b : d.fixed) { tr(b.p); b.ms *= sc; b.mr *= sc; }
  auto& z = d.size;
  if (z.kind == "const") z.a *= sc;
  else if (z.kind == "lin") { z.a = z.a * sc - z.b * sh.x - z.c * sh.y; z.e *= sc; }
  else if (z.kind == "radial") { z.a *= sc; z.e *= sc; z.d *= sc; P2 c{z.b, z.c}; tr(c); z.b = c.x; z.c = c.y; }
  else if (z.kind == "step") { z.a *= sc; z.e *= sc; z.d = z.d * sc + z.b * sh.x + z.c * sh.y; }
  d.api = named ? 2 : (int)r.below(2);
  if (r.chance(0.5)) {
    double m = 0; for (auto& b : d.loops[0].v) m = std::max({m, std::fabs(b.p.x), std::fabs(b.p.y)});
    d.scale = r.chance(0.5) ? 2.02 * m : 2.5 * m + 0.3 * d.diam(); d.items = r.pick(std::vector<int>{4, 10, 30, 100}); d.depth = r.pick(std::vector<int>{6, 12, 25});
  }
  return d;
}

std::vector<DomSpec> gen_adjacent(Rng& r, const GenOpt& o, int n, int kind) {
  std::vector<DomSpec> out;
  if (kind < 0) { int k = r.range(0, 9); kind = k < 4 ? 0 : k < 7 ? 1 : k < 9 ? 2 : 3; }
  double target = o.target * r.uni(0.4, 1.2);
  if (kind == 0) { // chain of rectangles sharing vertical interfaces; interface vertices coincide
    double H = r.uni(0.8, 1.6), x = r.uni(-2, 2), y = r.uni(-2, 2);
    int mids = r.range(0, 1); double tm = r.uni(0.35, 0.65);
    for (int k = 0; k < n; ++k) {
      double W = r.uni(0.6, 1.4); DomSpec d; Loop l; l.ext = true;
      auto push = [&](double px, double py, int c) { BV b; b.p = {px, py}; b.color = c; l.v.push_back(b); };
      push(x, y, 1 + k); push(x + W, y, 20 + k); if (mids) push(x + W, y + tm * H, 20 + k);
      push(x + W, y + H, 10 + k); push(x, y + H, 20 + k - 1 + (k == 0 ? 30 : 0)); if (mids) push(x, y + tm * H, 20 + k - 1 + (k == 0 ? 30 : 0));
      d.loops.push_back(l);
      double h = std::sqrt(W * H * 2.31 / target); d.size.kind = "const"; d.size.a = h * r.uni(0.8, 1.2);
      d.api = (int)r.below(2);
      out.push_back(d); x += W;
    }
  } else if (kind == 2) { // cells of a 2x2 grid: up to four meshes meet in one point
    double X[3], Y[3]; X[0] = r.uni(-2, 2); Y[0] = r.uni(-2, 2); for (int i = 1; i < 3; ++i) { X[i] = X[i - 1] + r.uni(0.6, 1.3); Y[i] = Y[i - 1] + r.uni(0.6, 1.3); }
    int api = (int)r.below(2);
    for (int k = 0; k < std::min(n, 4); ++k) {
      static const int ci[4] = {0, 1, 0, 1}, cj[4] = {0, 0, 1, 1}; int i = ci[k], j = cj[k]; DomSpec d; Loop l; l.ext = true;
      auto push = [&](double px, double py, int c) { BV b; b.p = {px, py}; b.color = c; l.v.push_back(b); };
      push(X[i], Y[j], j == 0 ? 1 + i : 23 + i); push(X[i + 1], Y[j], i == 0 ? 21 + j : 3 + j); push(X[i + 1], Y[j + 1], j == 0 ? 23 + i : 5 + i); push(X[i], Y[j + 1], i == 0 ? 7 + j : 21 + j);
      d.loops.push_back(l); d.size.kind = "const"; d.size.a = std::sqrt((X[i + 1] - X[i]) * (Y[j + 1] - Y[j]) * 2.31 / target) * r.uni(0.8, 1.2); d.api = api; out.push_back(d);
    }
  } else if (kind == 3) { // small meshes side by side on top of a wide one, which must be created last
    double H = r.uni(0.7, 1.3), x = r.uni(-2, 2), y = r.uni(-2, 2), xa = x; int api = (int)r.below(2); std::vector<double> xs{x};
    auto mk = [&](double x0, double x1, double y0, double y1, int cb, int cr, int ct, int cl) { DomSpec d; Loop l; l.ext = true; auto push = [&](double px, double py, int c) { BV b; b.p = {px, py}; b.color = c; l.v.push_back(b); }; push(x0, y0, cb); push(x1, y0, cr); push(x1, y1, ct); push(x0, y1, cl); d.loops.push_back(l); d.size.kind = "const"; d.size.a = std::sqrt((x1 - x0) * (y1 - y0) * 2.31 / target) * r.uni(0.8, 1.2); d.api = api; out.push_back(d); };
    int m = std::max(1, n - 1); for (int k = 0; k < m; ++k) { double W = r.uni(0.6, 1.2); mk(x, x + W, y, y + H, 21, 30 + k + 1, 1 + k, 30 + k); x += W; }
    mk(xa, x, y - r.uni(0.6, 1.2), y, 11, 12, 21, 13);
  } else { // rings: outer rectangle with hole(s), inner domains filling them
    double W = r.uni(1.5, 2.5), H = r.uni(1.5, 2.5), x = r.uni(-2, 2), y = r.uni(-2, 2);
    DomSpec d; Loop l; l.ext = true;
    std::vector<P2> c{{x, y}, {x + W, y}, {x + W, y + H}, {x, y + H}};
    for (auto& p : c) { BV b; b.p = p; b.color = 1; l.v.push_back(b); }
    d.loops.push_back(l);
    Loop hole = circle({x + 0.5 * W, y + 0.5 * H}, r.uni(0.2, 0.32) * std::min(W, H), r.range(4, 10), r.uni(0, 6), false);
    orient(hole); for (auto& b : hole.v) b.color = 7;
    d.loops.push_back(hole);
    d.size.a = std::sqrt(d.area() * 2.31 / target); out.push_back(d);
    DomSpec in; Loop il = hole; il.ext = true; std::reverse(il.v.begin(), il.v.end()); for (auto& b : il.v) b.color = 7;
    in.loops.push_back(il); in.size.a = d.size.a * r.uni(0.6, 1.1); in.api = d.api = (int)r.below(2);
    out[0].api = d.api;
    if (n > 2) { // three nested: put a hole in the inner one, filled by a core
      Loop h2 = circle({x + 0.5 * W, y + 0.5 * H}, 0.1 * std::min(W, H), r.range(4, 6), r.uni(0, 6), false); orient(h2); for (auto& b : h2.v) b.color = 8;
      in.loops.push_back(h2); out.push_back(in);
      DomSpec core; Loop cl = h2; cl.ext = true; std::reverse(cl.v.begin(), cl.v.end()); core.loops.push_back(cl); core.size.a = in.size.a * 0.8; core.api = in.api; out.push_back(core);
    } else out.push_back(in);
  }
  return out;
}

// ------------------------------------------------------------------ live domains
double Callback::operator()(const Vec2d& p) {
  OutSut o;
  Sched::yield(3);
  budget_step();
  uint64_t i = calls++; if (i == 0) first = {p.x, p.y};
  double v = spec.eval(p.x, p.y);
  if (at >= 0 && (int64_t)i >= at && (int64_t)i < at + span) {
    ++fired; LOGR.count("callback_" + what); LOGR.ev("fault callback " + what + " call=" + std::to_string(i));
    if (what == "throw") throw UserError();
    if (what == "badalloc") throw std::bad_alloc();
    if (what == "value") return value;
    if (what == "nan") return std::nan("");
    if (what == "inf") return INFINITY;
    if (what == "scale") return v * value;
    if (what == "jitter") { Rng j(i * 77 + 5); return v * (1 + value * (2 * j.uni() - 1)); }   // not a function: varies from call to call
  }
  return v;
}
std::unique_ptr<LiveDom> build_domain(const DomSpec& s) {
  auto ld = std::make_unique<LiveDom>();
  ld->spec = s; ld->cb = std::make_shared<Callback>(); ld->cb->spec = s.size;
  std::shared_ptr<Callback> cb = ld->cb;
  InSut g;
  ld->dom = std::make_unique<Domain>([cb](const Vec2d& p) { return (*cb)(p); }, s.scale, s.items, s.depth);
  Domain& d = *ld->dom;
  for (auto& l : s.loops) {
    Boundary& b = l.ext ? d.add_exterior_boundary() : d.add_interior_boundary();
    ShapeSpec z; if (s.api == 2) { OutSut o; z = shape_of(l); }
    if (!z.kind.empty()) {
      Vec2d c{z.c.x, z.c.y}; { OutSut o; LOGR.count("shape_" + z.kind); }
      if (z.kind == "rect") b.set_shape_rectangle(z.color, c, z.a, z.b, z.ms, z.mr); else if (z.kind == "square") b.set_shape_square(z.color, c, z.a, z.ms, z.mr);
      else if (z.kind == "circ") b.set_shape_circle(z.color, c, z.a, (size_t)z.n, z.ms, z.mr); else b.set_shape_triangle(z.color, c, z.a, z.ms, z.mr);
    } else if (s.api == 0) {
      std::vector<Vertex*> vs;
      for (auto& v : l.v) vs.push_back(&d.add_vertex(v.p.x, v.p.y, v.ms, v.mr));
      for (size_t i = 0; i < vs.size(); ++i) b.add_edge(*vs[i], *vs[(i + 1) % vs.size()], l.v[i].color);
    } else {
      std::vector<Vec2d> c, pr; std::vector<int> col;
      for (auto& v : l.v) { c.push_back({v.p.x, v.p.y}); pr.push_back({v.ms, v.mr}); col.push_back(v.color); }
      b.set_shape_from_coordinates(c, col, pr);
    }
  }
  std::vector<Vertex*> fv;
  for (auto& f : s.fixed) fv.push_back(&d.add_fixed_vertex(f.p.x, f.p.y, f.ms, f.mr));
  for (auto& e : s.fixed_edges) if (e.first < (int)fv.size() && e.second < (int)fv.size()) d.add_fixed_edge(*fv[e.first], *fv[e.second]);
  return ld;
}

// ------------------------------------------------------------------ snapshots
uint64_t Snap::hash() const {
  uint64_t h = FNV0;
  for (auto& a : v) { h = fnv(h, &a.x, 8); h = fnv(h, &a.y, 8); h = fnv(h, &a.props, 4); }
  h = fnv(h, &n_quads, 8);
  for (auto& a : f) { h = fnv(h, &a.n, 4); h = fnv(h, a.v, 4 * a.n); h = fnv(h, &a.color, 4); }
  for (auto& a : ie) { h = fnv(h, &a.a, 4); h = fnv(h, &a.b, 4); }
  for (auto& a : be) { h = fnv(h, &a.a, 4); h = fnv(h, &a.b, 4); h = fnv(h, &a.color, 4); }
  h = fnv(h, &id, 4); h = fnv(h, &color, 4);
  return h;
}
uint64_t Snap::topo_hash() const {
  uint64_t h = FNV0; size_t n = v.size(); h = fnv(h, &n, 8);
  for (auto& a : f) { h = fnv(h, &a.n, 4); h = fnv(h, a.v, 4 * a.n); }
  return h;
}
std::string Snap::brief() const {
  return "V=" + std::to_string(v.size()) + " Q=" + std::to_string(n_quads) + " T=" + std::to_string(n_tris) + " IE=" + std::to_string(ie.size()) + " BE=" + std::to_string(be.size());
}

Snap snapshot(Mesh& m) {
  Snap s; std::map<const Vertex*, int> idx;
  s.id = m.id(); s.color = m.element_color(); s.area = m.area();
  for (auto& v : m.vertices()) { int i = (int)idx.size(); idx[v.get()] = i; s.v.push_back({v->xy().x, v->xy().y, (v->on_front() ? 1 : 0) | (v->on_boundary() ? 2 : 0) | (v->is_fixed() ? 4 : 0) | (v->in_quad_layer() ? 8 : 0)}); }
  auto id = [&](const Vertex& v, const char* who) { auto it = idx.find(&v); if (it == idx.end()) violate("dangling-vertex", std::string(who) + " refers to a vertex that is not in the mesh"); return it->second; };
  for (auto& q : m.quads()) { Snap::F f; f.n = 4; f.v[0] = id(q->v1(), "quad"); f.v[1] = id(q->v2(), "quad"); f.v[2] = id(q->v3(), "quad"); f.v[3] = id(q->v4(), "quad"); f.color = q->color(); s.f.push_back(f); }
  s.n_quads = s.f.size();
  for (auto& t : m.triangles()) { Snap::F f; f.n = 3; f.v[0] = id(t->v1(), "triangle"); f.v[1] = id(t->v2(), "triangle"); f.v[2] = id(t->v3(), "triangle"); f.v[3] = -1; f.color = t->color(); s.f.push_back(f); }
  s.n_tris = s.f.size() - s.n_quads;
  for (auto& e : m.interior_edges()) s.ie.push_back({id(e->v1(), "interior edge"), id(e->v2(), "interior edge"), e->color(), false});
  for (auto& e : m.boundary_edges()) s.be.push_back({id(e->v1(), "boundary edge"), id(e->v2(), "boundary edge"), e->color(), e->twin_edge() != nullptr});
  return s;
}

// ------------------------------------------------------------------ oracle
static double tri2(const Snap& s, int a, int b, int c) {
  auto &p = s.v[a], &q = s.v[b], &r = s.v[c];
  return (q.x - p.x) * (r.y - p.y) - (r.x - p.x) * (q.y - p.y);
}
static std::string at(const Snap& s, int i) { char b[64]; snprintf(b, sizeof b, "#%d(%.5g,%.5g)", i, s.v[i].x, s.v[i].y); return b; }

void check_snap(const Snap& s, const std::vector<const DomSpec*>& doms, const CheckOpt& o, const std::string& where) {
  auto bad = [&](const std::string& c, const std::string& m) { violate(c, where + ": " + m + " [" + s.brief() + "]"); };
  double A = 0, D = 0; for (auto d : doms) { A += d->area(); D = std::max(D, d->diam()); }
  // 1 facets are simple and positively oriented
  double area = 0;
  auto slack = [&](const Snap::F& f) { if (o.coord_eps <= 0) return 0.0; double L = 0; for (int i = 0; i < f.n; ++i) { auto &a = s.v[f.v[i]], &b = s.v[f.v[(i + 1) % f.n]]; L = std::max(L, std::hypot(a.x - b.x, a.y - b.y)); } return 6 * o.coord_eps * L; };
  double ceps = o.coord_eps, atol = o.area_tol * D * D + 1e-9 * A;
  if (ceps > 0) for (auto d : doms) atol += 4 * ceps * d->perimeter();
  for (auto& f : s.f) {
    for (int i = 0; i < f.n; ++i) for (int j = i + 1; j < f.n; ++j) if (f.v[i] == f.v[j]) bad("degenerate-element", "element with a repeated vertex " + at(s, f.v[i]));
    double a2;
    if (f.n == 3) { a2 = tri2(s, f.v[0], f.v[1], f.v[2]); if (o.geom && !(a2 > -slack(f))) bad("inverted-element", "triangle " + at(s, f.v[0]) + at(s, f.v[1]) + at(s, f.v[2]) + " has non-positive area " + fmt(a2)); }
    else {
      double t1 = tri2(s, f.v[0], f.v[1], f.v[2]), t2 = tri2(s, f.v[0], f.v[2], f.v[3]), t3 = tri2(s, f.v[1], f.v[2], f.v[3]), t4 = tri2(s, f.v[1], f.v[3], f.v[0]);
      a2 = t1 + t2;
      if (o.geom && !(a2 > -slack(f))) bad("inverted-element", "quad " + at(s, f.v[0]) + at(s, f.v[1]) + at(s, f.v[2]) + at(s, f.v[3]) + " has non-positive area");
      double z = -slack(f); if (o.geom && !((t1 > z && t2 > z) || (t3 > z && t4 > z))) bad("twisted-quad", "quad " + at(s, f.v[0]) + at(s, f.v[1]) + at(s, f.v[2]) + at(s, f.v[3]) + " is self-intersecting");
    }
    area += 0.5 * a2;
  }
  // 2 half-edge structure
  if (o.topo) {
  std::map<std::pair<int,int>, int> half;
  for (size_t k = 0; k < s.f.size(); ++k) { auto& f = s.f[k]; for (int i = 0; i < f.n; ++i) { auto key = std::make_pair(f.v[i], f.v[(i + 1) % f.n]);
    if (!half.emplace(key, (int)k).second) bad("overlap", "two elements use the same side of edge " + at(s, key.first) + at(s, key.second)); } }
  std::set<std::pair<int,int>> inter, bound;
  for (auto& e : s.ie) { auto key = std::minmax(e.a, e.b); if (!inter.insert(key).second) bad("duplicate-edge", "interior edge listed twice " + at(s, e.a) + at(s, e.b)); }
  for (auto& e : s.be) { auto key = std::make_pair(e.a, e.b); if (!bound.insert(key).second) bad("duplicate-edge", "boundary edge listed twice " + at(s, e.a) + at(s, e.b));
    if (inter.count(std::minmax(e.a, e.b))) bad("duplicate-edge", "edge is both interior and boundary " + at(s, e.a) + at(s, e.b)); }
  size_t front = 0; double frontA2 = 0;
  auto cross = [&](int a, int b) { return s.v[a].x * s.v[b].y - s.v[b].x * s.v[a].y; };
  for (auto& h : half) {
    auto a = h.first.first, b = h.first.second;
    bool opp = half.count({b, a}) != 0;
    bool isb = bound.count({a, b}) != 0, isi = inter.count(std::minmax(a, b)) != 0;
    if (opp) { if (!isi) bad("missing-edge", "two elements share an edge that the mesh does not list as interior " + at(s, a) + at(s, b)); if (isb) bad("overlap", "boundary edge has elements on both sides " + at(s, a) + at(s, b)); }
    else if (!isb) {
      if (bound.count({b, a})) bad("outside", "element lies on the outer side of boundary edge " + at(s, a) + at(s, b));
      if (!isi) bad("missing-edge", "element edge is neither interior nor boundary " + at(s, a) + at(s, b));
      if (o.complete) bad("hole", "element edge without neighbour that is not a boundary edge " + at(s, a) + at(s, b));
      ++front; frontA2 += cross(b, a);
    }
  }
  for (auto& e : s.be) if (!half.count({e.a, e.b})) { if (o.complete) bad("hole", "boundary edge without element " + at(s, e.a) + at(s, e.b)); ++front; frontA2 += cross(e.a, e.b); }
  for (auto& e : s.ie) { bool l = half.count({e.a, e.b}), r = half.count({e.b, e.a}); if (!l && !r) bad("orphan-edge", "interior edge without any element " + at(s, e.a) + at(s, e.b)); }
  // 3 area conservation: elements plus the region enclosed by the front
  double tot = area + 0.5 * frontA2;
  if (!(std::fabs(tot - A) <= atol)) bad("area", "covered area " + fmt(area) + " + open area " + fmt(0.5 * frontA2) + " differs from domain area " + fmt(A));
  if (o.complete && !(std::fabs(area - A) <= atol)) bad("area", "mesh area " + fmt(area) + " differs from domain area " + fmt(A));
  }
  // 4 vertices: finite, used
  std::vector<char> used(s.v.size(), 0);
  for (auto& f : s.f) for (int i = 0; i < f.n; ++i) used[f.v[i]] = 1;
  for (size_t i = 0; i < s.v.size(); ++i) {
    if (!std::isfinite(s.v[i].x) || !std::isfinite(s.v[i].y)) bad("nan-vertex", "vertex with non-finite coordinates #" + std::to_string(i));
    if (o.complete && !used[i]) bad("unused-vertex", "vertex belongs to no element " + at(s, (int)i));
  }
  // 5 boundary reproduces the domain boundary: each domain edge is covered by collinear pieces of its colour
  if (o.boundary) {
    // interface edges between two covered domains cancel
    struct Seg { P2 a, b; int color; double cov = 0; size_t pieces = 0; };
    std::vector<Seg> segs;
    for (auto d : doms) for (auto& l : d->loops) { size_t n = l.v.size(); for (size_t i = 0; i < n; ++i) segs.push_back({l.v[i].p, l.v[(i + 1) % n].p, l.v[i].color}); }
    if (doms.size() > 1) {
      std::vector<Seg> keep; double eps = 1e-9 * D;
      // an edge may border on several shorter ones: cut it at their ends
      for (size_t i = 0; i < segs.size(); ++i) for (size_t j = 0; j < segs.size(); ++j) for (P2 q : {segs[j].a, segs[j].b}) {
        Seg g = segs[i]; if (seg_dist(q, g.a, g.b) > eps || std::hypot(q.x - g.a.x, q.y - g.a.y) < 1e-6 * D || std::hypot(q.x - g.b.x, q.y - g.b.y) < 1e-6 * D) continue;
        segs.push_back({q, g.b, g.color}); segs[i].b = q; }
      for (size_t i = 0; i < segs.size(); ++i) { bool twin = false;
        for (size_t j = 0; j < segs.size() && !twin; ++j) if (i != j && std::hypot(segs[i].a.x - segs[j].b.x, segs[i].a.y - segs[j].b.y) < eps && std::hypot(segs[i].b.x - segs[j].a.x, segs[i].b.y - segs[j].a.y) < eps) twin = true;
        if (!twin) keep.push_back(segs[i]); }
      segs.swap(keep);
    }
    double eps = 1e-8 * D + 2 * ceps;
    for (auto& e : s.be) {
      P2 a{s.v[e.a].x, s.v[e.a].y}, b{s.v[e.b].x, s.v[e.b].y}; double len = std::hypot(a.x - b.x, a.y - b.y);
      Seg* hit = nullptr;
      for (auto& g : segs) {
        if (seg_dist(a, g.a, g.b) > eps || seg_dist(b, g.a, g.b) > eps) continue;
        if ((b.x - a.x) * (g.b.x - g.a.x) + (b.y - a.y) * (g.b.y - g.a.y) <= 0) continue;
        hit = &g; break;
      }
      if (!hit) bad("boundary-shape", "boundary edge " + at(s, e.a) + at(s, e.b) + " does not lie on the domain boundary");
      if (hit->color != e.color) bad("boundary-marker", "boundary edge " + at(s, e.a) + at(s, e.b) + " has marker " + std::to_string(e.color) + " instead of " + std::to_string(hit->color));
      hit->cov += len; ++hit->pieces;
    }
    for (auto& g : segs) { double L = std::hypot(g.a.x - g.b.x, g.a.y - g.b.y); if (std::fabs(g.cov - L) > 1e-7 * D + 4 * ceps * (g.pieces + 1)) bad("boundary-shape", "domain boundary edge of length " + fmt(L) + " is covered by mesh boundary edges of total length " + fmt(g.cov)); }
  }
  if (o.fixed) for (auto d : doms) for (auto& f : d->fixed) {
    bool found = false; for (size_t i = 0; i < s.v.size() && !found; ++i) found = std::hypot(s.v[i].x - f.p.x, s.v[i].y - f.p.y) < 1e-9 * D + 2 * ceps && (!o.complete || used[i]);
    if (!found) bad("fixed-vertex", "fixed vertex (" + fmt(f.p.x) + "," + fmt(f.p.y) + ") is not a vertex of the mesh");
  }
}

template <class C> static size_t count_all(const C& items) { size_t n = 0; for (auto& x : items) { (void)x; ++n; } return n; }

void check_mesh(Mesh& m, const std::vector<const DomSpec*>& doms, const CheckOpt& o, const std::string& where) {
  Snap s = snapshot(m);
  check_snap(s, doms, o, where);
  // incidence lists of vertices agree with the elements and edges
  std::map<const Vertex*, std::multiset<const void*>> vf, ve;
  for (auto& q : m.quads()) { const Facet* f = q.get(); for (size_t i = 0; i < 4; ++i) vf[&f->vertex(i)].insert(f); }
  for (auto& t : m.triangles()) { const Facet* f = t.get(); for (size_t i = 0; i < 3; ++i) vf[&f->vertex(i)].insert(f); }
  for (auto& v : m.vertices()) {
    std::multiset<const void*> have; for (auto f : v->facets()) have.insert((const Facet*)f);
    if (have != vf[v.get()]) violate("incidence", where + ": element list of a vertex disagrees with the mesh elements");
  }
  if (o.queries) {
    if (m.n_vertices() != count_all(m.vertices()) || m.n_quads() != count_all(m.quads()) || m.n_triangles() != count_all(m.triangles()))
      violate("count", where + ": reported entity counts disagree with contents");
    // every entity can be found by the spatial lookup at its own location, and nothing else is returned
    double D = 0; for (auto d : doms) D = std::max(D, d->diam());
    auto chk = [&](const char* what, size_t n, auto&& get) {
      std::set<const void*> all = get();
      if (all.size() != n) violate("lookup", where + ": spatial lookup over the whole domain returns " + std::to_string(all.size()) + " " + what + " of " + std::to_string(n));
    };
    double cx = 0, cy = 0; for (auto& v : s.v) { cx += v.x; cy += v.y; } if (!s.v.empty()) { cx /= s.v.size(); cy /= s.v.size(); }
    double R = 0; for (auto& v : s.v) R = std::max(R, std::hypot(v.x - cx, v.y - cy)); R = R * 1.01 + 1e-6;
    Vec2d c{cx, cy};
    chk("vertices", m.n_vertices(), [&] { std::set<const void*> a; auto f = m.get_vertices(c, R); if (f.size() != m.n_vertices()) violate("lookup", where + ": vertex lookup returns " + std::to_string(f.size()) + " of " + std::to_string(m.n_vertices())); for (auto p : f) a.insert(p); for (auto& p : m.vertices()) if (!a.count(p.get())) violate("lookup", where + ": vertex lookup misses a vertex"); return a; });
    chk("triangles", m.n_triangles(), [&] { std::set<const void*> a; for (auto p : m.get_triangles(c, R)) a.insert(p); for (auto& p : m.triangles()) if (!a.count(p.get())) violate("lookup", where + ": triangle lookup misses a triangle"); return a; });
    chk("quads", m.n_quads(), [&] { std::set<const void*> a; for (auto p : m.get_quads(c, R)) a.insert(p); for (auto& p : m.quads()) if (!a.count(p.get())) violate("lookup", where + ": quad lookup misses a quad"); return a; });
    chk("interior edges", m.n_interior_edges(), [&] { std::set<const void*> a; for (auto p : m.get_intr_edges(c, R)) a.insert(p); for (auto& p : m.interior_edges()) if (!a.count(p.get())) violate("lookup", where + ": edge lookup misses an interior edge"); return a; });
    chk("boundary edges", m.n_boundary_edges(), [&] { std::set<const void*> a; for (auto p : m.get_bdry_edges(c, R)) a.insert(p); for (auto& p : m.boundary_edges()) if (!a.count(p.get())) violate("lookup", where + ": edge lookup misses a boundary edge"); return a; });
    // local lookup: a small circle around a few vertices returns exactly the vertices inside
    for (size_t k = 0; k < s.v.size(); k += 1 + s.v.size() / 7) {
      double r = D * 0.07; size_t want = 0; bool border = false;
      for (auto& v : s.v) { double d = std::hypot(v.x - s.v[k].x, v.y - s.v[k].y); if (d < r) ++want; if (std::fabs(d - r) < 1e-9 * D) border = true; }
      auto f = m.get_vertices(Vec2d{s.v[k].x, s.v[k].y}, r);
      if (!border && f.size() != want) violate("lookup", where + ": local vertex lookup returns " + std::to_string(f.size()) + " of " + std::to_string(want));
    }
  }
}

// ------------------------------------------------------------------ exported files
std::string read_file(const std::string& path, bool* ok) {
  OutSut g; IoBypass b0;
  std::string s; FILE* f = ::fopen(path.c_str(), "rb"); if (ok) *ok = f != nullptr; if (!f) return s;
  char b[65536]; size_t n; while ((n = ::fread(b, 1, sizeof b, f)) > 0) s.append(b, n); ::fclose(f); return s;
}
bool write_file(const std::string& path, const std::string& d) { OutSut g; IoBypass b0; FILE* f = ::fopen(path.c_str(), "wb"); if (!f) return false; size_t n = ::fwrite(d.data(), 1, d.size(), f); ::fclose(f); return n == d.size(); }
bool file_exists(const std::string& p) { struct stat st; return ::stat(p.c_str(), &st) == 0; }

namespace { struct Lines { const std::string& t; size_t pos = 0; bool next(std::string& l) { if (pos >= t.size()) return false; size_t e = t.find('\n', pos); if (e == std::string::npos) return false; l = t.substr(pos, e - pos); pos = e + 1; return true; } }; }
template <size_t N> static bool row(const std::string& l, std::array<int, N>& r) {
  const char* p = l.c_str(); for (size_t i = 0; i < N; ++i) { char* e; long v = strtol(p, &e, 10); if (e == p) return false; r[i] = (int)v; p = e; while (*p == ' ') ++p; if (i + 1 < N) { if (*p != ',') return false; ++p; } } while (*p == ' ') ++p; return *p == 0;
}
bool parse_txt(const std::string& text, TxtMesh& o, std::string& err) {
  Lines L{text}; std::string l;
  auto head = [&](const char* name, long& n) { if (!L.next(l)) { err = std::string("file ends before section ") + name; return false; } size_t k = strlen(name); if (l.compare(0, k, name) != 0 || l[k] != ' ') { err = std::string("expected section ") + name + ", found \"" + l + "\""; return false; } n = strtol(l.c_str() + k, nullptr, 10); if (n < 0) { err = "negative count"; return false; } return true; };
  long n;
  if (!head("MESH", n)) return false; o.id = (int)n;
  if (!head("VERTICES", n)) return false;
  for (long i = 0; i < n; ++i) { P2 p; char c; if (!L.next(l) || sscanf(l.c_str(), "%lf%c%lf", &p.x, &c, &p.y) != 3 || c != ',') { err = "bad vertex line"; return false; } o.v.push_back(p); }
  auto sec = [&](const char* name, auto& vec) { long k; if (!head(name, k)) return false; for (long i = 0; i < k; ++i) { typename std::decay<decltype(vec)>::type::value_type r; if (!L.next(l) || !row(l, r)) { err = std::string("bad line in section ") + name; return false; } vec.push_back(r); } return true; };
  if (!sec("INTERIOREDGES", o.ie) || !sec("BOUNDARYEDGES", o.be) || !sec("INTERFACEEDGES", o.itf) || !sec("FRONT", o.front) || !sec("QUADS", o.q) || !sec("TRIANGLES", o.t) || !sec("QUADNEIGHBORS", o.qn) || !sec("TRIANGLENEIGHBORS", o.tn)) return false;
  if (!head("SIZEFUNCTION", n)) return false;
  for (long i = 0; i < n; ++i) { double d; if (!L.next(l) || sscanf(l.c_str(), "%lf", &d) != 1) { err = "bad size line"; return false; } o.size.push_back(d); }
  if (L.pos != text.size()) { err = "trailing data after the last section"; return false; }
  return true;
}

std::string compare_txt(const TxtMesh& t, const Snap& s, const std::vector<double>& size) {
  auto num = [](long v) { return std::to_string(v); };
  if (t.id != s.id) return "mesh id " + num(t.id) + " != " + num(s.id);
  if (t.v.size() != s.v.size()) return "vertex count " + num(t.v.size()) + " != " + num(s.v.size());
  for (size_t i = 0; i < s.v.size(); ++i) if (std::fabs(t.v[i].x - s.v[i].x) > 0.51e-5 || std::fabs(t.v[i].y - s.v[i].y) > 0.51e-5) return "vertex " + num(i) + " written as (" + fmt(t.v[i].x) + "," + fmt(t.v[i].y) + ") but is (" + fmt(s.v[i].x) + "," + fmt(s.v[i].y) + ")";
  if (t.q.size() != s.n_quads || t.t.size() != s.n_tris) return "element counts differ";
  std::map<std::pair<int,int>, int> half; bool amb = false;   // overlapping elements of a failed generation: adjacency is ambiguous
  for (size_t k = 0; k < s.f.size(); ++k) { auto& f = s.f[k];
    for (int i = 0; i < f.n; ++i) { amb |= half.count({f.v[i], f.v[(i + 1) % f.n]}) != 0; int w = f.n == 4 ? t.q[k][i] : t.t[k - s.n_quads][i]; if (w != f.v[i]) return "element " + num(k) + " vertex list differs"; half[{f.v[i], f.v[(i + 1) % f.n]}] = (int)k; }
    int c = f.n == 4 ? t.q[k][4] : t.t[k - s.n_quads][3]; if (c != f.color) return "element " + num(k) + " colour " + num(c) + " != " + num(f.color); }
  auto side = [&](int a, int b) { auto it = half.find({a, b}); return it == half.end() ? -1 : it->second; };
  if (amb) return "";
  // edges: exactly those with complete adjacency, the rest is the front
  std::map<std::pair<int,int>, std::pair<int,int>> wi; std::multiset<std::pair<int,int>> wf;
  for (auto& e : s.ie) { int l = side(e.a, e.b), r = side(e.b, e.a); if (l >= 0 && r >= 0) wi[{e.a, e.b}] = {l, r}; else wf.insert({e.a, e.b}); }
  if (wi.size() != t.ie.size()) return "interior edge count " + num(t.ie.size()) + " != " + num(wi.size());
  for (auto& e : t.ie) { auto it = wi.find({e[0], e[1]}); if (it == wi.end()) return "unknown interior edge " + num(e[0]) + "," + num(e[1]); if (it->second.first != e[2] || it->second.second != e[3]) return "interior edge " + num(e[0]) + "," + num(e[1]) + " lists wrong adjacent elements " + num(e[2]) + "," + num(e[3]) + " instead of " + num(it->second.first) + "," + num(it->second.second); }
  std::map<std::pair<int,int>, std::pair<int,int>> wb; size_t twins = 0; std::set<std::pair<int,int>> tw;
  for (auto& e : s.be) { int l = side(e.a, e.b); if (l >= 0) wb[{e.a, e.b}] = {l, e.color}; else wf.insert({e.a, e.b}); if (e.twin) { ++twins; tw.insert({e.a, e.b}); } }
  if (wb.size() != t.be.size()) return "boundary edge count " + num(t.be.size()) + " != " + num(wb.size());
  for (auto& e : t.be) { auto it = wb.find({e[0], e[1]}); if (it == wb.end()) return "unknown boundary edge"; if (it->second.first != e[2]) return "boundary edge lists wrong element"; if (it->second.second != e[3]) return "boundary edge " + num(e[0]) + "," + num(e[1]) + " marker " + num(e[3]) + " != " + num(it->second.second); }
  if (t.itf.size() != twins) return "interface edge count " + num(t.itf.size()) + " != " + num(twins);
  for (auto& e : t.itf) if (!tw.count({e[0], e[1]})) return "unknown interface edge"; else if (e[2] != side(e[0], e[1])) return "interface edge lists wrong element";
  if (t.front.size() != wf.size()) return "front edge count " + num(t.front.size()) + " != " + num(wf.size());
  for (auto& e : t.front) if (!wf.count({e[0], e[1]})) return "unknown front edge";
  // neighbour lists: entry i is the element across the edge from vertex i+1 to vertex i+2; -1 = boundary
  if (t.qn.size() != s.n_quads || t.tn.size() != s.n_tris) return "neighbour list counts differ";
  for (size_t k = 0; k < s.f.size(); ++k) { auto& f = s.f[k]; std::vector<int> w, h;
    for (int i = 0; i < f.n; ++i) { w.push_back(side(f.v[(i + 2) % f.n], f.v[(i + 1) % f.n])); h.push_back(f.n == 4 ? t.qn[k][i] : t.tn[k - s.n_quads][i]); }
    if (w != h) { std::string m; for (int x : h) m += num(x) + " "; m += "instead of "; for (int x : w) m += num(x) + " "; return "neighbour list of element " + num(k) + " is " + m; } }
  if (t.size.size() != s.v.size()) return "size function count differs";
  if (!size.empty()) for (size_t i = 0; i < size.size(); ++i) if (std::fabs(t.size[i] - size[i]) > 0.51e-5) return "size function value of vertex " + num(i) + " written as " + fmt(t.size[i]) + " but is " + fmt(size[i]);
  return "";
}

// minimal strict XML reader for the VTU files
bool parse_vtu(const std::string& x, VtuMesh& o, std::string& err) {
  std::vector<std::string> stack; size_t pos = 0; long np = -1, nc = -1; std::string section; bool closed = false;
  std::vector<double> conn, off, typ, pts;
  while (true) {
    size_t lt = x.find('<', pos);
    if (lt == std::string::npos) { for (size_t i = pos; i < x.size(); ++i) if (!isspace((unsigned char)x[i])) { err = "text after last tag"; return false; } break; }
    size_t gt = x.find('>', lt); if (gt == std::string::npos) { err = "unterminated tag"; return false; }
    std::string tag = x.substr(lt + 1, gt - lt - 1); pos = gt + 1;
    if (closed) { err = "tag after document end"; return false; }
    if (tag[0] == '/') { if (stack.empty() || stack.back() != tag.substr(1)) { err = "mismatched closing tag " + tag; return false; } stack.pop_back(); if (stack.empty()) closed = true; continue; }
    std::string name = tag.substr(0, tag.find(' '));
    auto attr = [&](const std::string& a) { size_t p = tag.find(a + "=\""); if (p == std::string::npos) return std::string(); p += a.size() + 2; size_t e = tag.find('"', p); return tag.substr(p, e - p); };
    stack.push_back(name);
    if (name == "Piece") { np = atol(attr("NumberOfPoints").c_str()); nc = atol(attr("NumberOfCells").c_str()); }
    if (name == "DataArray") {
      size_t e = x.find('<', pos); if (e == std::string::npos) { err = "unterminated DataArray"; return false; }
      std::vector<double> v; const char* p = x.c_str() + pos; const char* end = x.c_str() + e;
      while (true) { while (p < end && isspace((unsigned char)*p)) ++p; if (p >= end) break; char* q; double d = strtod(p, &q); if (q == p || q > end || (q < end && !isspace((unsigned char)*q))) { err = "bad number in DataArray " + attr("Name"); return false; } v.push_back(d); p = q; }
      std::string parent = stack.size() >= 2 ? stack[stack.size() - 2] : "";
      if (parent == "Points") pts = v; else if (parent == "PointData") o.pdata[attr("Name")] = v; else if (parent == "CellData") o.cdata[attr("Name")] = v;
      else if (parent == "Cells") { auto n = attr("Name"); if (n == "connectivity") conn = v; else if (n == "offsets") off = v; else if (n == "types") typ = v; }
      pos = e;
    }
  }
  if (!closed) { err = "document is truncated (root element not closed)"; return false; }
  if ((long)pts.size() != 3 * np) { err = "Points has " + std::to_string(pts.size()) + " values for " + std::to_string(np) + " points"; return false; }
  if ((long)off.size() != nc || (long)typ.size() != nc) { err = "offsets/types count differs from NumberOfCells"; return false; }
  for (auto& d : o.pdata) if ((long)d.second.size() != np) { err = "point data " + d.first + " has wrong length"; return false; }
  for (auto& d : o.cdata) if ((long)d.second.size() != nc) { err = "cell data " + d.first + " has wrong length"; return false; }
  for (long i = 0; i < np; ++i) o.v.push_back({pts[3 * i], pts[3 * i + 1]});
  size_t b = 0; for (long i = 0; i < nc; ++i) { size_t e = (size_t)off[i]; if (e < b || e > conn.size()) { err = "bad offset"; return false; } std::vector<int> c; for (size_t k = b; k < e; ++k) { int w = (int)conn[k]; if (w < 0 || w >= np) { err = "cell refers to point out of range"; return false; } c.push_back(w); } o.cells.push_back(c); o.types.push_back((int)typ[i]); b = e; }
  if (b != conn.size()) { err = "connectivity has trailing entries"; return false; }
  return true;
}
std::string compare_vtu(const VtuMesh& t, const Snap& s, const std::vector<double>& size) {
  auto num = [](long v) { return std::to_string(v); };
  if (t.v.size() != s.v.size()) return "point count differs";
  for (size_t i = 0; i < s.v.size(); ++i) if (std::fabs(t.v[i].x - s.v[i].x) > 0.51e-5 || std::fabs(t.v[i].y - s.v[i].y) > 0.51e-5) return "point " + num(i) + " differs";
  if (t.cells.size() != s.f.size()) return "cell count differs";
  // same multiset of cells (order is not part of the format's meaning)
  std::multiset<std::vector<int>> a, b;
  auto canon = [](std::vector<int> v, int type, int color) { auto m = std::min_element(v.begin(), v.end()); std::rotate(v.begin(), m, v.end()); v.push_back(type); v.push_back(color); return v; };
  auto itc = t.cdata.find("element_color");
  if (itc == t.cdata.end()) return "no element_color cell data";
  for (size_t k = 0; k < s.f.size(); ++k) { auto& f = s.f[k]; a.insert(canon(std::vector<int>(f.v, f.v + f.n), f.n == 4 ? 9 : 5, f.color)); b.insert(canon(t.cells[k], t.types[k], (int)itc->second[k])); }
  if (a != b) return "cells (connectivity, type or colour) differ";
  auto its = t.pdata.find("size_function");
  if (its == t.pdata.end()) return "no size_function point data";
  if (!size.empty()) for (size_t i = 0; i < size.size(); ++i) if (std::fabs(its->second[i] - size[i]) > 1e-5 * std::max(1.0, std::fabs(size[i]))) return "size function of point " + num(i) + " differs";
  auto itf = t.pdata.find("fixed_vertices");
  if (itf != t.pdata.end()) for (size_t i = 0; i < s.v.size(); ++i) if ((itf->second[i] != 0) != ((s.v[i].props & 4) != 0)) return "fixed flag of point " + num(i) + " differs";
  auto itq = t.pdata.find("in_quad_layer");
  if (itq != t.pdata.end()) for (size_t i = 0; i < s.v.size(); ++i) if ((itq->second[i] != 0) != ((s.v[i].props & 8) != 0)) return "quad layer flag of point " + num(i) + " differs";
  auto ite = t.cdata.find("edge_length"), ita = t.cdata.find("max_angle");
  if (itf == t.pdata.end() || itq == t.pdata.end() || ite == t.cdata.end() || ita == t.cdata.end() || !t.cdata.count("cell_quality")) return "a point or cell data array is missing";
  for (size_t k = 0; k < t.cells.size(); ++k) {
    auto& c = t.cells[k]; int n = (int)c.size(); double len = 0, ang = 0; bool convex = true;
    for (int i = 0; i < n; ++i) { auto &p = s.v[c[(i + n - 1) % n]], &q = s.v[c[i]], &r = s.v[c[(i + 1) % n]];
      double ax = p.x - q.x, ay = p.y - q.y, bx = r.x - q.x, by = r.y - q.y; len = std::max(len, std::hypot(bx, by)); double cr = bx * ay - by * ax; if (cr <= 0) convex = false; ang = std::max(ang, std::atan2(cr, ax * bx + ay * by)); }
    if (ite != t.cdata.end() && std::fabs(ite->second[k] - len) > 2e-5 * len + 1e-9) return "edge length of cell " + num(k) + " differs: " + fmt(ite->second[k]) + " instead of " + fmt(len);
    if (ita != t.cdata.end() && convex && std::fabs(ita->second[k] - ang * 180 / M_PI) > 0.02) return "maximum angle of cell " + num(k) + " differs: " + fmt(ita->second[k]) + " instead of " + fmt(ang * 180 / M_PI);
  }
  return "";
}

} // namespace sim
