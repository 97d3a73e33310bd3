// Properties of the command line application: parameter files in, mesh files out.
// The application's real main() runs inside an isolated child process.
#include "props.h"
#include <dirent.h>
#include <iostream>
#include <sys/stat.h>
#include <unistd.h>

int tqmesh_app_main(int argc, char* argv[]);

// The bundled third-party expression parser is not safe against failing allocations; while it
// compiles a size function no allocation fails (linked with --wrap, without effect if the symbol is gone).
#define TQ_INIT_SYM "_Z18init_size_functionRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
TQMesh::UserSizeFunction real_init_size_function(const std::string&) __asm__("__real_" TQ_INIT_SYM) __attribute__((weak));
TQMesh::UserSizeFunction wrap_init_size_function(const std::string&) __asm__("__wrap_" TQ_INIT_SYM);
TQMesh::UserSizeFunction wrap_init_size_function(const std::string& e) { sim::OutSut o; return real_init_size_function(e); }

namespace sim {
using namespace TQMesh;

// ------------------------------------------------------------------ the world of one application run
// plan: dom/loop/fix steps 0..n-1 and one "amesh" step per mesh, in file order
struct AMesh { int k; DomSpec d; Step s; std::vector<Step> ql; };
static std::vector<AMesh> app_meshes(const Plan& p) {
  std::vector<AMesh> v; for (auto& s : p.steps) if (s.name == "amesh" && dom_in_plan(p, (int)s.integer("m"))) { AMesh a; a.k = (int)s.integer("m"); a.d = dom_from_plan(p, a.k); a.s = s; for (auto& q : p.steps) if (q.name == "ql" && q.integer("m") == a.k && q.integer("loop") < (long)a.d.loops.size() && std::max(q.integer("a"), q.integer("b")) < (long)a.d.loops[q.integer("loop")].v.size()) a.ql.push_back(q); v.push_back(a); }
  return v;
}
static std::string size_expr(const SizeSpec& z) {
  auto n = [](double d) { return d < 0 ? "(" + fmt(d) + ")" : fmt(d); };
  if (z.kind == "lin") return "max(" + n(z.e) + "," + n(z.a) + "+" + n(z.b) + "*x+" + n(z.c) + "*y)";
  if (z.kind == "radial") return n(z.a) + "+" + n(z.e) + "*(1-exp(-((x-" + n(z.b) + ")^2+(y-" + n(z.c) + ")^2)/(" + n(z.d * z.d) + ")))";
  if (z.kind == "step") return "if(x*" + n(z.b) + "+y*" + n(z.c) + ">" + n(z.d) + "," + n(z.a) + "," + n(z.e) + ")";
  return fmt(z.a);
}
// the parameter file of the meshes; style decides blanks, comments, blank lines and the order of entries only
static std::string para_text(const std::vector<AMesh>& ms, const std::string& dir, uint64_t style, std::map<std::string, std::string>& files) {
  Rng r(style * 7919 + 13); bool plain = style == 0; std::string out; auto crlf = !plain && r.chance(0.15); std::string nl = crlf ? "\r\n" : "\n";
  bool wide = !plain && r.chance(0.4), tabs = !plain && r.chance(0.3);   // very long lines, tabulators
  auto run = [&](size_t n) { if (wide && r.chance(0.05)) n += (size_t)r.range(60, 3000); return std::string(n, tabs && r.chance(0.4) ? '\t' : ' '); };
  auto ind = [&] { return plain ? std::string("  ") : run(r.below(6)); };
  auto remark = [&] { static const char* say[] = {"Element size: 7", "End mesh", "Define mesh:", "Element color: 77", "End exterior boundary", "Meshing algorithm: Tri-to-Quad", "Number of smoothing iterations: 0", "Define fixed vertices:", "a # b"}; std::string s = "# comment: " + std::to_string(r.below(100)) + ", 1, 2"; if (r.chance(0.3)) s += std::string(" ") + say[r.below(9)]; if (wide && r.chance(0.2)) s += std::string((size_t)r.range(60, 9000), 'x'); return s; };
  auto noise = [&](bool inside) { if (plain) return std::string(); std::string s; while (r.chance(0.25)) s += r.chance(inside ? 0.2 : 0.5) ? (r.chance(0.5) ? ind() : "") + nl : ind() + remark() + nl; return s; };
  auto eol = [&] { return (!plain && r.chance(0.1) ? run(r.below(3)) + remark() : std::string()) + nl; };
  auto num = [&](double d) { return (plain ? std::string(" ") : run(r.below(3))) + fmt(d); };
  out += noise(false);
  for (auto& a : ms) {
    out += ind() + "Define mesh:" + eol(); std::vector<std::string> e; bool inter_edges = false;
    auto scal = [&](const std::string& k, const std::string& v) { e.push_back(ind() + k + " " + v + (!plain && r.chance(0.2) ? run(2) + remark() : "") + nl); };
    auto loose = [&](const std::string& x) { if (plain) return x; std::string t; for (char c : x) { t += c; if ((c == ',' || c == '(' || c == ')' || c == '*') && r.chance(0.2)) t += std::string(1 + r.below(3), ' '); } return t; };
    scal("Element size:", loose(size_expr(a.d.size))); scal("Output file format:", a.s.str("fmt", "TXT")); scal("Output file prefix:", dir + a.s.str("prefix", "out"));
    if (a.s.has("color")) scal("Element color:", a.s.str("color")); if (a.s.has("algo")) scal("Meshing algorithm:", a.s.str("algo"));
    if (a.s.has("refine")) scal("Number of quad refinements:", a.s.str("refine")); if (a.s.has("smooth")) scal("Number of smoothing iterations:", a.s.str("smooth")); if (a.s.has("sql")) scal("Smooth quad layers:", a.s.str("sql"));
    std::string q; for (auto& l : a.ql) { auto& lp = a.d.loops[l.integer("loop")].v; P2 p1 = lp[l.integer("a")].p, p2 = lp[l.integer("b")].p; q += ind() + "Add quad layers:" + num(p1.x) + "," + num(p1.y) + "," + num(p2.x) + "," + num(p2.y) + "," + num((double)l.integer("n")) + "," + num(l.num("h")) + "," + num(l.num("g")) + eol(); }
    if (!q.empty()) e.push_back(q);
    auto props = [&](const BV& b) { return b.ms > 0 || (!plain && r.chance(0.1)) ? "," + num(b.ms) + "," + num(b.mr) : std::string(); };
    auto how = [&](size_t L) { std::string h = a.s.str(L ? "hint" : "hext", "coords"); return h; };
    // boundary vertices for loops given by edges; fixed vertices follow them in the numbering
    std::string vb; int nv = 0; std::string inter; 
    for (size_t L = 0; L < a.d.loops.size(); ++L) {
      auto& lp = a.d.loops[L].v; std::string io = L ? "interior" : "exterior"; std::string h = how(L); std::string t;
      ShapeSpec z; if (h == "shape") z = shape_of(a.d.loops[L]);
      if (!z.kind.empty()) {
        std::string w = z.kind == "rect" ? "rectangular" : z.kind == "square" ? "squared" : z.kind == "circ" ? "circular" : "triangular"; LOGR.count("shape_" + z.kind);
        t = ind() + "Define " + io + " " + w + " boundary:" + num(z.color) + "," + num(z.c.x) + "," + num(z.c.y) + "," + num(z.a) + (z.kind == "rect" ? "," + num(z.b) : z.kind == "circ" ? "," + num(z.n) : "") + "," + num(z.ms) + "," + num(z.mr) + eol();
      } else if (h == "edges") {
        int v0 = nv; for (auto& b : lp) { vb += ind() + num(b.p.x) + "," + num(b.p.y) + props(b) + eol() + noise(true); ++nv; }
        t = ind() + "Define " + io + " boundary edges:" + eol(); int n = (int)lp.size(); for (int i = 0; i < n; ++i) t += ind() + std::to_string(v0 + i) + ", " + std::to_string(v0 + (i + 1) % n) + ", " + std::to_string(lp[i].color) + eol() + noise(true);
        t += ind() + "End " + io + " boundary edges" + nl;
      } else if (h == "csv") {
        std::string f = dir + "m" + std::to_string(a.k) + "_" + std::to_string(L) + ".csv", c; size_t i = 0; auto gap = [&] { return plain || !r.chance(0.2) ? std::string() : run(1 + r.below(3)); }; for (auto& b : lp) { c += gap() + fmt(b.p.x) + gap() + "," + gap() + fmt(b.p.y) + "," + gap() + std::to_string(b.color) + gap(); if (b.ms > 0) c += "," + fmt(b.ms) + "," + fmt(b.mr); if (++i < lp.size() || !a.s.integer("noeol")) c += nl; }
        files[f] = c; t = ind() + "Define " + io + " boundary from CSV file: " + f + eol();
      } else {
        t = ind() + "Define " + io + " boundary:" + eol(); for (auto& b : lp) t += ind() + num(b.p.x) + "," + num(b.p.y) + ", " + std::to_string(b.color) + props(b) + eol() + noise(true);
        t += ind() + "End " + io + " boundary" + nl;
      }
      if (L == 0) e.push_back(t); else inter += t + noise(false);
    }
    (void)inter_edges; if (!inter.empty()) e.push_back(inter); if (!vb.empty()) e.push_back(ind() + "Define boundary vertices:" + nl + vb + ind() + "End boundary vertices" + nl);
    if (!a.d.fixed.empty()) { std::string t = ind() + "Define fixed vertices:" + nl; for (auto& b : a.d.fixed) t += ind() + num(b.p.x) + "," + num(b.p.y) + props(b) + eol() + noise(true); e.push_back(t + ind() + "End fixed vertices" + eol()); }
    else if (!plain && r.chance(0.1)) e.push_back(ind() + "Define fixed vertices:" + eol() + noise(true) + ind() + "End fixed vertices" + eol());
    if (!a.d.fixed_edges.empty()) { std::string t = ind() + "Define fixed edges:" + nl; for (auto& x : a.d.fixed_edges) t += ind() + std::to_string(nv + x.first) + ", " + std::to_string(nv + x.second) + eol() + noise(true); e.push_back(t + ind() + "End fixed edges" + eol()); }
    if (!plain) for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[r.below(i)]);
    for (auto& x : e) out += x + noise(false);
    out += ind() + "End mesh" + eol() + noise(false);
  }
  if (!plain && r.chance(0.3) && out.size() > nl.size()) out.resize(out.size() - nl.size());   // no line end at the end of the file
  return out;
}

struct AppRun { int rc = -1; std::string out; std::map<std::string, std::string> files; uint64_t hard = 0, soft = 0, alloc = 0, reads = 0; bool killed = false; };
static std::map<std::string, std::string> dir_files(const std::string& d) {
  std::map<std::string, std::string> m; OutSut o; DIR* D = opendir(d.c_str()); if (!D) return m; while (dirent* e = readdir(D)) { std::string n = e->d_name; if (n != "." && n != "..") m[n] = read_file(d + n); } closedir(D); return m;
}
struct AppSink : std::streambuf {
  std::string got; int64_t cap; bool failed = false; explicit AppSink(int64_t c) : cap(c) {}
  int overflow(int c) override { OutSut o; if (c == EOF) return 0; if (cap >= 0 && (int64_t)got.size() >= cap) { failed = true; return EOF; } got += (char)c; return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { OutSut o; std::streamsize k = n; if (cap >= 0) k = std::max<int64_t>(0, std::min<int64_t>(n, cap - (int64_t)got.size())); got.append(s, (size_t)k); if (k < n) failed = true; return k; }
};
static std::string pack(const std::string& s) { return std::to_string(s.size()) + ":" + s; }
static std::string unpack(const std::string& s, size_t& p) { size_t c = s.find(':', p); size_t n = strtoul(s.c_str() + p, nullptr, 10); std::string r = s.substr(c + 1, n); p = c + 1 + n; return r; }
// one process of the application in directory d
static AppRun app_run(const std::string& d, const std::string& input, const Plan* faults, const AllocCfg& ac, const std::string& what, bool kill_ok = false) {
  Iso i = isolate([&]() -> std::string {
    io_set_dir(d); io_clear(); alloc_disarm(); int64_t cap = -1;
    if (faults) for (auto& s : faults->steps) {
      if (s.name == "io") { IoFault f; f.op = s.str("op"); f.match = s.str("match"); f.nth = (uint64_t)s.integer("nth"); f.kind = s.str("kind"); f.arg = (uint64_t)s.integer("arg"); f.repeat = (uint64_t)s.integer("repeat", 1); io_arm(f); }
      else if (s.name == "diskfull") io_disk_full(s.integer("bytes")); else if (s.name == "chunk") { io_chunk((uint64_t)s.integer("n")); if (s.integer("seed")) io_chunk_seed((uint64_t)s.integer("seed")); }
      else if (s.name == "allocfail") alloc_arm_failure((uint64_t)s.integer("nth"), (uint64_t)s.integer("burst", 1)); else if (s.name == "stdout") cap = s.integer("cap");
    }
    AppSink sb(cap); std::streambuf *o1 = std::cout.rdbuf(&sb), *o2 = std::cerr.rdbuf(&sb), *o3 = std::clog.rdbuf(&sb); int rc; std::string a0 = "TQMesh", a1 = input; char* av[3] = {&a0[0], &a1[0], nullptr}; uint64_t f0 = alloc_failures_fired();
    { InSut g; rc = tqmesh_app_main(2, av); }
    alloc_disarm(); std::cout.rdbuf(o1); std::cerr.rdbuf(o2); std::clog.rdbuf(o3); std::cout.clear(); std::cerr.clear(); std::clog.clear(); if (sb.failed) LOGR.count("fault_stdout_full");
    uint64_t fr = alloc_failures_fired() - f0; std::string p = pack(std::to_string(rc)) + pack(std::to_string(io_fired())) + pack(std::to_string(io_fired_soft())) + pack(std::to_string(fr)) + pack(std::to_string(io_calls("read"))) + pack(sb.got); if (fr) LOGR.count("alloc_failure", fr);
    return p; }, ac, 25, 40000000ull);
  AppRun R;
  if (i.terminated) { R.rc = i.term_code; LOGR.count("probe_app_exit_called"); }
  else if (i.died_by_kill_fault) { if (!kill_ok) violate("sim-error", "unexpected kill"); R.killed = true; }
  else { if (!i.cls.empty()) violate(i.cls, what + ": " + i.msg); size_t p = 0; R.rc = atoi(unpack(i.payload, p).c_str()); R.hard = strtoul(unpack(i.payload, p).c_str(), nullptr, 10); R.soft = strtoul(unpack(i.payload, p).c_str(), nullptr, 10); R.alloc = strtoul(unpack(i.payload, p).c_str(), nullptr, 10); R.reads = strtoul(unpack(i.payload, p).c_str(), nullptr, 10); R.out = unpack(i.payload, p); }
  R.files = dir_files(d); LOGR.ev("app rc " + std::to_string(R.rc) + " files " + std::to_string(R.files.size()));
  return R;
}
// mesh descriptions printed to standard output between log lines
static std::vector<std::string> cout_meshes(const std::string& t) {
  std::vector<std::string> v; size_t p = 0;
  while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); 
    if (t.compare(p, 5, "MESH ") == 0) { size_t z = t.find("SIZEFUNCTION ", p); if (z == std::string::npos) { v.push_back(t.substr(p)); break; } long n = strtol(t.c_str() + z + 13, nullptr, 10); size_t q = t.find('\n', z); for (long i = 0; i < n && q != std::string::npos; ++i) q = t.find('\n', q + 1); if (q == std::string::npos) { v.push_back(t.substr(p)); break; } v.push_back(t.substr(p, q + 1 - p)); p = q + 1; continue; }
    p = e + 1; }
  return v;
}
static std::string out_name(const AMesh& a) { std::string f = a.s.str("fmt", "TXT"); return f == "VTU" || f == "vtu" ? a.s.str("prefix", "out") + ".vtu" : f == "TXT" || f == "txt" ? a.s.str("prefix", "out") + ".txt" : ""; }
static void setup(const std::string& d, const std::string& para, const std::map<std::string, std::string>& files) { for (auto& f : files) write_file(f.first, f.second); write_file(d + "in.para", para); }
static std::string mkd(const std::string& dir, const std::string& n) { OutSut o; std::string d = dir + n + "/"; ::mkdir(d.c_str(), 0755); return d; }
// which domains does the mesh exported at index i cover: it has been merged with what the generator still holds
static std::vector<const DomSpec*> cover(const std::vector<AMesh>& ms, size_t i, bool adjacent) { std::vector<const DomSpec*> v; if (adjacent) for (size_t k = 0; k <= i; ++k) v.push_back(&ms[k].d); else v.push_back(&ms[i].d); return v; }

static Snap snap_of(const TxtMesh& t) {
  Snap s; s.id = t.id; for (auto& p : t.v) s.v.push_back({p.x, p.y, 0}); for (auto& q : t.q) { Snap::F f; f.n = 4; for (int i = 0; i < 4; ++i) f.v[i] = q[i]; f.color = q[4]; s.f.push_back(f); ++s.n_quads; }
  for (auto& q : t.t) { Snap::F f; f.n = 3; for (int i = 0; i < 3; ++i) f.v[i] = q[i]; f.v[3] = 0; f.color = q[3]; s.f.push_back(f); ++s.n_tris; }
  for (auto& e : t.ie) s.ie.push_back({e[0], e[1], 0, false}); for (auto& e : t.be) s.be.push_back({e[0], e[1], e[3], false}); return s;
}
static void range_check(const TxtMesh& t, const std::string& w) { int n = (int)t.v.size(); auto in = [&](int i) { if (i < 0 || i >= n) violate("app-output", w + ": vertex index out of range in the exported file"); }; for (auto& q : t.q) for (int i = 0; i < 4; ++i) in(q[i]); for (auto& q : t.t) for (int i = 0; i < 3; ++i) in(q[i]); for (auto& e : t.ie) { in(e[0]); in(e[1]); } for (auto& e : t.be) { in(e[0]); in(e[1]); } }
// an exit status of success promises that the file holds the requested mesh
static void check_output(const std::vector<AMesh>& ms, size_t i, bool adjacent, const std::string& text, const std::string& w) {
  auto& a = ms[i]; auto doms = cover(ms, i, adjacent); std::string err; std::vector<std::pair<std::vector<P2>, int>> els; TxtMesh t;
  std::string f = a.s.str("fmt", "TXT"); std::set<int> colours; size_t quads = 0, tris = 0; double area = 0; std::map<int, double> by;   // area per colour
  if (f == "VTU" || f == "vtu") {
    VtuMesh v; if (!parse_vtu(text, v, err)) violate("app-output", w + ": the VTU file is incomplete: " + err); for (auto& c : v.cells) { double s = 0; for (size_t k = 0; k < c.size(); ++k) { if (c[k] < 0 || c[k] >= (int)v.v.size()) violate("app-output", w + ": vertex index out of range in the VTU file"); P2 p = v.v[c[k]], q = v.v[c[(k + 1) % c.size()]]; s += p.x * q.y - q.x * p.y; } area += 0.5 * s; (c.size() == 4 ? quads : tris)++; }
    double A = 0, D = 0, P = 0; for (auto d : doms) { A += d->area(); D = std::max(D, d->diam()); P += d->perimeter(); } if (std::fabs(area - A) > 1e-9 * D * D + 4e-5 * P) violate("app-output", w + ": exit status 0 but the elements of the VTU file cover " + fmt(area) + " of the domain area " + fmt(A));
    for (auto& c : v.cdata) if (c.first == "element_color" || c.first == "color") { for (double x : c.second) colours.insert((int)x); if (c.second.size() == v.cells.size()) for (size_t n = 0; n < v.cells.size(); ++n) { auto& e = v.cells[n]; double s2 = 0; for (size_t k = 0; k < e.size(); ++k) { P2 p = v.v[e[k]], q = v.v[e[(k + 1) % e.size()]]; s2 += p.x * q.y - q.x * p.y; } by[(int)c.second[n]] += 0.5 * s2; } }
  } else {
    if (!parse_txt(text, t, err)) violate("app-output", w + ": the mesh description is incomplete: " + err); range_check(t, w); Snap s = snap_of(t); CheckOpt o; o.coord_eps = 0.6e-5; if (!t.front.empty()) violate("app-output", w + ": exit status 0 but the mesh has open edges");
    check_snap(s, doms, o, w); for (auto& x : s.f) { double s2 = 0; for (int k = 0; k < x.n; ++k) { auto &p = s.v[x.v[k]], &q = s.v[x.v[(k + 1) % x.n]]; s2 += p.x * q.y - q.x * p.y; } by[x.color] += 0.5 * s2; } quads = s.n_quads; tris = s.n_tris; for (auto& x : s.f) colours.insert(x.color);
  }
  std::set<int> want; if (adjacent) for (size_t k = 0; k <= i; ++k) want.insert((int)ms[k].s.integer("color", 0)); else want.insert((int)a.s.integer("color", 0));
  if (!colours.empty() && colours != want) violate("app-output", w + ": element colours differ from the requested ones");
  std::map<int, double> wa; double P = 0, D = 0; for (size_t k = adjacent ? 0 : i; k <= i; ++k) { wa[(int)ms[k].s.integer("color", 0)] += ms[k].d.area(); P += ms[k].d.perimeter(); D = std::max(D, ms[k].d.diam()); }
  if (!by.empty()) for (auto& c : wa) if (std::fabs(by[c.first] - c.second) > 1e-9 * D * D + 8e-5 * P) violate("app-output", w + ": elements of colour " + std::to_string(c.first) + " cover " + fmt(by[c.first]) + " instead of " + fmt(c.second));
  if (a.s.integer("refine") > 0 && tris) violate("app-output", w + ": quad refinement was requested but triangles remain");
  if (a.s.str("algo", "Triangulation") == "Triangulation" && !a.s.integer("refine") && a.ql.empty() && !adjacent && quads) violate("app-output", w + ": a triangulation was requested but quads were written");
  if (a.s.str("algo") == "Tri-to-Quad" && !quads && tris > 12) violate("app-output", w + ": quads were requested but only triangles were written");
}

static void gen_app(Rng& r, Plan& p, double target, bool csv, bool apart = false) {
  target *= big(r, 0.02);
  add_env(r, p); int n = apart ? r.range(2, 3) : r.chance(0.65) ? 1 : 2; std::vector<DomSpec> ds; bool adj = !apart && n > 1 && r.chance(0.7);
  if (adj) { GenOpt g; g.target = target * 0.6; ds = gen_adjacent(r, g, r.range(2, 3)); n = (int)ds.size(); }
  else for (int i = 0; i < n; ++i) { GenOpt g; g.target = target; g.fixed_edges = r.chance(0.15); DomSpec d = gen_domain(r, g); if (i) { double x1 = -1e300, x0 = 1e300; for (auto& e : ds) for (auto& q : e.loops[0].v) x1 = std::max(x1, q.p.x); for (auto& q : d.loops[0].v) x0 = std::min(x0, q.p.x); translate(d, x1 - x0 + (d.diam() + ds[0].diam()), 0); } ds.push_back(d); }
  p.add("set").set("adj", adj ? 1 : 0);
  static const std::vector<std::string> hw{"coords", "coords", "edges", "csv"}, fm{"TXT", "TXT", "txt", "VTU", "vtu", "COUT"};
  for (int i = 0; i < n; ++i) {
    dom_to_plan(p, i, ds[i]); HistOpt o; std::set<int> u; Plan q; if (!adj && r.chance(0.35)) { HistOpt h; h.interrupts = false; gen_ops_for_mesh(r, q, h, i, ds[i], false); for (auto& s : q.steps) if (s.name == "ql") p.steps.push_back(s); }
    auto& s = p.add("amesh").set("m", i).set("hext", csv && r.chance(0.6) ? "csv" : ds[i].api == 2 && r.chance(0.8) ? "shape" : r.pick(hw)).set("hint", ds[i].api == 2 && r.chance(0.8) ? "shape" : r.pick(hw)).set("fmt", r.pick(fm)).set("prefix", "out" + std::to_string(adj && r.chance(0.5) ? 0 : i));
    if (r.chance(0.8)) s.set("color", r.range(0, 5)); if (r.chance(0.8)) s.set("algo", r.chance(0.5) ? "Tri-to-Quad" : "Triangulation"); if (r.chance(0.5)) s.set("smooth", r.range(0, 4)); if (r.chance(0.3)) s.set("sql", (int)r.below(2)); if (r.chance(0.2)) s.set("noeol", 1);
    if ((i == n - 1 || !adj) && r.chance(0.3)) s.set("refine", r.range(0, 1));
  }
}

static bool same_outputs(const AppRun& a, const AppRun& b, const std::vector<AMesh>& ms, std::string& why) {
  for (auto& m : ms) { std::string f = out_name(m); if (f.empty()) continue; bool ha = a.files.count(f), hb = b.files.count(f); if (ha != hb) { why = "file " + f + (ha ? " exists only with faults" : " is missing"); return false; } if (ha && a.files.at(f) != b.files.at(f)) { why = "file " + f + " differs (" + std::to_string(a.files.at(f).size()) + " instead of " + std::to_string(b.files.at(f).size()) + " bytes)"; return false; } }
  if (cout_meshes(a.out) != cout_meshes(b.out)) { why = "the mesh printed to standard output differs"; return false; }
  return true;
}
static void only_own_files(const AppRun& a, const std::map<std::string, std::string>& before, const std::vector<AMesh>& ms, const std::string& w) {
  std::set<std::string> own; for (auto& m : ms) own.insert(out_name(m));
  for (auto& f : a.files) if (!own.count(f.first)) { auto it = before.find(f.first); if (it == before.end()) violate("other-file", w + ": unexpected file " + f.first); if (it->second != f.second) violate("other-file", w + ": the application changed " + f.first); }
  for (auto& f : before) if (!own.count(f.first) && !a.files.count(f.first)) violate("other-file", w + ": the application removed " + f.first);
}

// ================================================================ C04 the exit status tells the truth
// a definition that can not be meshed: the damage done to definition i; empty if it does not apply
static double orient(P2 a, P2 b, P2 c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static bool clear_cross(P2 a, P2 b, P2 c, P2 d, double eps) { double o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b); return std::min(std::min(std::fabs(o1), std::fabs(o2)), std::min(std::fabs(o3), std::fabs(o4))) > eps && (o1 > 0) != (o2 > 0) && (o3 > 0) != (o4 > 0); }
static bool loops_cross(const Loop& a, const Loop& b, double eps) { size_t n = a.v.size(), m = b.v.size(); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) if (clear_cross(a.v[i].p, a.v[(i + 1) % n].p, b.v[j].p, b.v[(j + 1) % m].p, eps)) return true; return false; }
static std::string impossible(std::vector<AMesh>& ms, size_t i, const std::string& kind, uint64_t sel, std::string& para, const std::string& dir, std::map<std::string, std::string>& files) {
  AMesh& a = ms[i]; Rng r(sel * 31 + 7); double eps = 1e-4 * a.d.diam() * a.d.diam();
  auto drop_line = [&](const std::string& key, bool block) { // removes the entry with that key from definition i
    size_t p = 0; for (size_t k = 0; k <= i; ++k) p = para.find("Define mesh:", p + (k ? 1 : 0)); size_t q = para.find(key, p), e = para.find("End mesh", p); if (q == std::string::npos || q > e) return false; size_t l0 = para.rfind('\n', q) + 1; size_t l1 = para.find('\n', q) + 1; if (block) { l1 = para.find("End " + key.substr(7, key.size() - 8), q); if (l1 == std::string::npos) return false; l1 = para.find('\n', l1) + 1; } para.erase(l0, l1 - l0); return true; };
  if (kind == "missing") { static const char* k[] = {"Output file prefix:", "Output file format:", "Element size:"}; const char* w = k[r.below(3)]; para = para_text(ms, dir, 0, files); return drop_line(w, false) ? std::string("without '") + w + "'" : ""; }
  if (kind == "noext") { std::string h = a.s.str("hext", "coords"); para = para_text(ms, dir, 0, files); if (h == "shape" && !shape_of(a.d.loops[0]).kind.empty()) return drop_line("Define exterior", false) ? "without exterior boundary" : ""; return drop_line(h == "csv" ? "Define exterior boundary from CSV file:" : h == "edges" ? "Define exterior boundary edges:" : "Define exterior boundary:", h != "csv") ? "without exterior boundary" : ""; }
  if (kind == "selfcross") { auto& v = a.d.loops[0].v; if (v.size() < 4) return ""; a.s.set("hext", r.chance(0.5) ? "coords" : "edges"); size_t x = r.below(v.size()), y = (x + 1 + r.below(v.size() - 1)) % v.size(); std::swap(v[x].p, v[y].p); if (!loops_cross(a.d.loops[0], a.d.loops[0], eps)) return ""; a.ql.clear(); para = para_text(ms, dir, 0, files); return "whose exterior boundary crosses itself"; }
  if (kind == "holecross") { if (a.d.loops.size() < 2) return ""; auto& h = a.d.loops[1]; a.s.set("hint", "coords"); P2 t = r.pick(a.d.loops[0].v).p, c{0, 0}; for (auto& q : h.v) { c.x += q.p.x / h.v.size(); c.y += q.p.y / h.v.size(); } for (auto& q : h.v) { q.p.x += t.x - c.x; q.p.y += t.y - c.y; } if (!loops_cross(a.d.loops[0], h, eps * 1e-2)) return ""; a.ql.clear(); para = para_text(ms, dir, 0, files); return "whose boundaries cross each other"; }
  if (kind == "reverse") { size_t L = r.below(a.d.loops.size()); a.s.set(L ? "hint" : "hext", "edges"); auto& v = a.d.loops[L].v; std::reverse(v.begin(), v.end()); a.ql.clear(); para = para_text(ms, dir, 0, files); return L ? "with a hole that is oriented like an exterior boundary" : "whose exterior boundary is oriented like a hole"; }
  if (kind == "holeout") { if (a.d.loops.size() < 2) return ""; a.s.set("hint", "coords"); for (auto& q : a.d.loops[1].v) q.p.x += 3 * a.d.diam(); a.ql.clear(); para = para_text(ms, dir, 0, files); return "with a hole outside of the exterior boundary"; }
  if (kind == "badindex" || kind == "openedges" || kind == "negmarker") {
    a.s.set("hext", kind == "negmarker" ? "coords" : "edges"); if (kind == "negmarker") { r.pick(a.d.loops[0].v); a.d.loops[0].v[r.below(a.d.loops[0].v.size())].color = -1 - (int)r.below(5); para = para_text(ms, dir, 0, files); return "with a negative boundary marker"; }
    para = para_text(ms, dir, 0, files); size_t p = 0; for (size_t k = 0; k <= i; ++k) p = para.find("Define mesh:", p + (k ? 1 : 0)); p = para.find("Define exterior boundary edges:", p); if (p == std::string::npos) return ""; p = para.find('\n', p) + 1; for (size_t k = r.below(a.d.loops[0].v.size()); k > 0; --k) p = para.find('\n', p) + 1; size_t e = para.find('\n', p);
    if (kind == "openedges") { para.erase(p, e + 1 - p); return "whose exterior boundary is not closed"; }
    para.replace(p, para.find(',', p) - p, "  " + std::to_string(1000 + r.below(100000))); return "with an edge to a vertex that does not exist"; }
  if (kind == "badsize") { static const char* k[] = {"0.5 + * x", "foo(x)", "1.0 +", "if(x>", "abc", "(0.3", "0.3)"}; para = para_text(ms, dir, 0, files); size_t p = 0; for (size_t q = 0; q <= i; ++q) p = para.find("Define mesh:", p + (q ? 1 : 0)); p = para.find("Element size:", p) + 13; const char* w = k[r.below(7)]; para.replace(p, para.find('\n', p) - p, std::string(" ") + w); return std::string("with element size '") + w + "'"; }
  if (kind == "badcsv") { a.s.set("hext", "csv"); para = para_text(ms, dir, 0, files); std::string f = dir + "m" + std::to_string(a.k) + "_0.csv"; if (!files.count(f)) return ""; std::string& c = files[f]; std::vector<size_t> st{0}; for (size_t q = 0; q + 1 < c.size(); ++q) if (c[q] == '\n') st.push_back(q + 1); size_t l = st[r.below(st.size())], e = c.find('\n', l); if (e == std::string::npos) e = c.size(); static const char* w[] = {"abc,def,1", "1.0", "0.5,,2", "1e999,0,1", "0,0,99999999999999999999", "0.1,0.2,-4"}; c.replace(l, e - l, w[r.below(6)]); return "with a damaged line in its CSV file"; }
  return "";
}
void gen_C04(Rng& r, Plan& p) {
  gen_app(r, p, r.chance(0.2) ? 120 : 40, false); int k = r.range(0, 9); auto& md = p.add("mode");
  static const std::vector<std::string> oe{"EACCES", "EMFILE", "ENOSPC", "EROFS"}, we{"EIO", "ENOSPC", "EDQUOT"};
  if (k <= 1) md.set("k", "plain");
  else if (k <= 4) { md.set("k", "fault"); int f = r.range(0, 7);
    if (f == 0) p.add("io").set("op", "open").set("match", "out").set("kind", r.pick(oe)).set("nth", r.range(0, 1)); else if (f == 1) p.add("io").set("op", "write").set("kind", r.pick(we)).set("nth", r.range(0, 4)).set("repeat", r.chance(0.5) ? 1 : 100000);
    else if (f == 2) p.add("io").set("op", "write").set("kind", "torn").set("nth", r.range(0, 4)).set("arg", r.range(1, 9000)); else if (f == 3) p.add("io").set("op", "close").set("match", "out").set("kind", r.pick(we)).set("arg", r.range(0, 99)).set("nth", r.range(0, 1));
    else if (f == 4) p.add("diskfull").set("bytes", r.range(0, 20000)); else if (f == 5) p.add("io").set("op", "write").set("kind", "short").set("nth", r.range(0, 3)).set("arg", r.range(1, 9000)).set("repeat", r.range(1, 6)); else if (f == 6) p.add("io").set("op", "write").set("kind", "EINTR").set("nth", r.range(0, 3)).set("repeat", r.range(1, 4)); else p.add("stdout").set("cap", r.range(0, 30000)); }
  else if (k <= 6) { md.set("k", "fault"); p.add("allocfail").set("nth", (int)std::exp(r.uni(0, std::log(r.chance(0.3) ? 2000.0 : 60000.0))) - 1).set("burst", r.chance(0.6) ? 1 : r.range(2, 60)); }
  else if (k == 7) { md.set("k", "trunc").set("permille", r.range(0, 1000)); }
  else if (k == 8) { static const std::vector<std::string> bk{"missing", "noext", "selfcross", "holecross", "badindex", "openedges", "negmarker", "badsize", "badcsv", "reverse", "holeout"}; md.set("k", "bad").set("kind", r.pick(bk)).set("m", (int)r.below(3)).set("sel", (int)r.below(100000)); }
  else { md.set("k", "kill"); p.add("io").set("op", r.pick(std::vector<std::string>{"write", "write", "open", "close"})).set("match", "out").set("kind", "kill").set("nth", r.range(0, 3)).set("arg", r.range(0, 9000)); }
}
void exec_C04(const Plan& p, const std::string& dir) {
  auto ms = app_meshes(p); if (ms.empty()) return; AllocCfg ac = alloc_from_step(p.find("env")); const Step* st = p.find("set"); bool adj = st && st->integer("adj"); const Step* md = p.find("mode"); std::string mode = md ? md->str("k", "plain") : "plain";
  std::string d = mkd(dir, "a"); std::map<std::string, std::string> files; std::string para = para_text(ms, d, 0, files); setup(d, para, files); write_file(d + "out0.txt.bak", "keep"); write_file(d + "keep.vtu", "keep"); auto before = dir_files(d);
  AppRun ref = app_run(d, d + "in.para", nullptr, ac, "run without faults"); LOGR.count(ref.rc == 0 ? "probe_exit_success" : "probe_exit_failure"); only_own_files(ref, before, ms, "run without faults"); LOGR.state(fnv_str(FNV0, ref.out));
  auto final_of = [&](size_t i) { for (size_t k = i + 1; k < ms.size(); ++k) if (!out_name(ms[k]).empty() && out_name(ms[k]) == out_name(ms[i])) return false; return true; };
  if (ref.rc == 0) { auto cm = cout_meshes(ref.out); size_t ci = 0;
    for (size_t i = 0; i < ms.size(); ++i) { std::string f = out_name(ms[i]); if (f.empty()) { if (ci >= cm.size()) violate("app-output", "exit status 0 but mesh " + std::to_string(i) + " was not printed"); check_output(ms, i, adj, cm[ci++], "mesh " + std::to_string(i) + " on standard output"); continue; }
      if (!final_of(i)) continue; if (!ref.files.count(f)) violate("app-output", "exit status 0 but " + f + " was not written"); check_output(ms, i, adj, ref.files[f], f); LOGR.count("probe_output_verified"); } }
  else { bool simple = !adj && ms.size() == 1 && ms[0].d.loops.size() == 1 && ms[0].ql.empty() && ms[0].d.fixed.empty() && ms[0].d.size.kind == "const"; if (simple) { bool loc = false; for (auto& b : ms[0].d.loops[0].v) loc |= b.ms > 0; if (!loc) violate("app-refused", "a single domain without holes and layers was not meshed: exit status " + std::to_string(ref.rc) + ": " + ref.out.substr(ref.out.size() > 300 ? ref.out.size() - 300 : 0)); } }
  if (mode == "plain") return;
  std::string e = mkd(dir, "b"); std::map<std::string, std::string> f2; 
  if (mode == "bad") {
    auto mb = ms; size_t i = (size_t)md->integer("m") % ms.size(); std::string t, what = impossible(mb, i, md->str("kind"), (uint64_t)md->integer("sel"), t, e, f2); if (what.empty()) return;
    setup(e, t, f2); auto b2 = dir_files(e); AppRun x = app_run(e, e + "in.para", nullptr, ac, "run with a definition " + what); LOGR.count("fault_bad_" + md->str("kind")); only_own_files(x, b2, ms, "run with a definition " + what);
    if (x.rc == 0) violate("bad-input-accepted", "exit status 0 for a parameter file with a definition " + what); return;
  }
  std::string para2 = para_text(ms, e, 0, f2); std::string why;
  if (mode == "trunc") {
    size_t cut = para2.size() * (size_t)md->integer("permille") / 1000; size_t full = 0, pos = 0; std::string t = para2.substr(0, cut); while ((pos = t.find("End mesh", pos)) != std::string::npos) { ++full; pos += 8; }
    setup(e, t, f2); auto b2 = dir_files(e); AppRun x = app_run(e, e + "in.para", nullptr, ac, "run with the parameter file cut after " + std::to_string(cut) + " bytes"); LOGR.count("fault_truncated_input"); only_own_files(x, b2, ms, "run with a truncated parameter file");
    bool open_block = t.find("Define mesh:", t.rfind("End mesh") == std::string::npos ? 0 : t.rfind("End mesh")) != std::string::npos;
    if (x.rc == 0 && open_block) violate("truncated-accepted", "the parameter file ends inside a mesh definition (cut after " + std::to_string(cut) + " of " + std::to_string(para2.size()) + " bytes) but the exit status is 0");
    if (x.rc == 0) for (size_t i = 0; i < full; ++i) { std::string f = out_name(ms[i]); bool last = true; for (size_t k = i + 1; k < full; ++k) last &= out_name(ms[k]) != f; if (f.empty() || !last) continue; if (!x.files.count(f)) violate("app-output", "exit status 0 but " + f + " was not written"); check_output(ms, i, adj, x.files[f], f + " of a shortened parameter file"); }
    return;
  }
  setup(e, para2, f2); write_file(e + "out0.txt.bak", "keep"); write_file(e + "keep.vtu", "keep"); auto b2 = dir_files(e);
  if (mode == "kill") {
    AppRun k = app_run(e, e + "in.para", &p, ac, "run with kill", true); if (k.killed) { LOGR.count("kill_during_app"); only_own_files(k, b2, ms, "killed run"); }
    AppRun x = app_run(e, e + "in.para", nullptr, ac, "run after restart"); if (x.rc != ref.rc) violate("restart-differs", "after a kill and a restart the exit status is " + std::to_string(x.rc) + " instead of " + std::to_string(ref.rc)); if (!same_outputs(x, ref, ms, why)) violate("restart-differs", "after a kill and a restart " + why); return;
  }
  AppRun x = app_run(e, e + "in.para", &p, ac, "run with faults"); only_own_files(x, b2, ms, "run with faults"); LOGR.count(x.rc == 0 ? "probe_fault_exit_success" : "probe_fault_exit_failure");
  if (x.rc == 0 && ref.rc != 0) violate("false-success", "exit status 0 with faults although the same run without faults fails");
  bool log_only = p.find("stdout") != nullptr; bool any_cout = false; for (auto& m : ms) any_cout |= out_name(m).empty();
  if (x.rc == 0 && !(log_only && !any_cout) && !same_outputs(x, ref, ms, why)) violate("false-success", "exit status 0 although output failed (" + std::to_string(x.hard) + " I/O errors, " + std::to_string(x.alloc) + " failed allocations): " + why);
  if (x.rc == 0 && log_only && !any_cout) for (auto& m : ms) if (x.files[out_name(m)] != ref.files[out_name(m)]) violate("false-success", "a full standard output changed file " + out_name(m));
  if (x.rc != 0 && ref.rc == 0 && !x.hard && !x.alloc && !(log_only && any_cout)) violate("false-failure", "exit status " + std::to_string(x.rc) + " although all output was accepted" + (x.soft ? " (short or interrupted writes only)" : ""));
}

// ================================================================ C03 input is read completely or the run fails
void gen_C03(Rng& r, Plan& p) {
  bool apart = r.chance(0.3); gen_app(r, p, apart ? 18 : 30, true, apart); int k = apart ? 10 : r.range(0, 9); auto& md = p.add("mode"); static const std::vector<std::string> m{"in.para", "in.para", ".csv"};
  if (k <= 2) { md.set("k", "soft"); p.add("chunk").set("n", r.chance(0.3) ? 1 : r.range(1, 700)).set("seed", r.chance(0.5) ? (int)r.below(1000) + 1 : 0); if (r.chance(0.5)) p.add("io").set("op", "read").set("match", r.pick(m)).set("kind", "EINTR").set("nth", r.range(0, 20)).set("repeat", r.range(1, 5)); }
  else if (k == 3) { md.set("k", "soft"); p.add("io").set("op", "read").set("match", r.pick(m)).set("kind", r.chance(0.5) ? "short" : "EINTR").set("nth", r.range(0, 3)).set("arg", r.range(1, 3000)).set("repeat", r.range(1, 8)); }
  else if (k <= 7) { md.set("k", "hard"); if (r.chance(0.8)) p.add("chunk").set("n", r.range(1, 900)).set("seed", (int)r.below(1000)); p.add("io").set("op", r.chance(0.8) ? "read" : "open").set("match", r.pick(m)).set("kind", r.pick(std::vector<std::string>{"EIO", "EACCES", "ENOENT", "EMFILE"})).set("nth", r.chance(0.5) ? r.range(0, 2) : r.range(0, 25)).set("repeat", r.chance(0.5) ? 1 : 100000); }
  else if (k <= 9) md.set("k", "style").set("style", r.range(1, 1000000));
  else md.set("k", "alone");
}
void exec_C03(const Plan& p, const std::string& dir) {
  auto ms = app_meshes(p); if (ms.empty()) return; AllocCfg ac = alloc_from_step(p.find("env")); const Step* md = p.find("mode"); std::string mode = md ? md->str("k", "soft") : "soft"; std::string why;
  std::string d = mkd(dir, "a"); std::map<std::string, std::string> files; setup(d, para_text(ms, d, 0, files), files); AppRun ref = app_run(d, d + "in.para", nullptr, ac, "run without faults"); LOGR.count(ref.rc == 0 ? "probe_exit_success" : "probe_exit_failure"); LOGR.state(fnv_str(FNV0, ref.out));
  std::string e = mkd(dir, "b"); std::map<std::string, std::string> f2; std::string t2 = para_text(ms, e, mode == "style" ? (uint64_t)md->integer("style") : 0, f2); setup(e, t2, f2); auto b2 = dir_files(e);
  if (mode == "alone") {
    // each mesh of the file is what a file with that definition alone yields
    if (ms.size() < 2 || ref.rc != 0) return;
    auto body = [](const std::string& t) { size_t n = t.find('\n'); return t.compare(0, 5, "MESH ") == 0 && n != std::string::npos ? t.substr(n) : t; };   // the mesh number is the position in the file
    for (size_t i = ms.size(); i-- > 0;) {
      std::string a, b, f = out_name(ms[i]); bool last = true; for (size_t k = i + 1; k < ms.size(); ++k) last &= f.empty() || out_name(ms[k]) != f; if (!last) continue;
      std::vector<AMesh> one{ms[i]}; std::string g = mkd(dir, "c"); std::map<std::string, std::string> f3; setup(g, para_text(one, g, 0, f3), f3);
      AppRun y = app_run(g, g + "in.para", nullptr, ac, "run with one mesh definition"); LOGR.count("fault_definition_alone"); if (y.rc) violate("layout-of-input", "a mesh definition is accepted among others but refused alone: exit status " + std::to_string(y.rc));
      if (f.empty()) { size_t ci = 0; for (size_t k = 0; k < i; ++k) ci += out_name(ms[k]).empty(); auto ca = cout_meshes(ref.out), cb = cout_meshes(y.out); if (ci >= ca.size() || cb.size() != 1) violate("layout-of-input", "a mesh was not printed"); a = ca[ci]; b = cb[0]; } else { a = ref.files[f]; b = y.files[f]; }
      if (body(a) != body(b)) violate("layout-of-input", "definition " + std::to_string(i) + " gives another mesh in a file with other, unconnected meshes than in a file of its own");
      LOGR.count("probe_alone_equal"); }
    return;
  }
  AppRun x = app_run(e, e + "in.para", &p, ac, "run with '" + mode + "' input"); only_own_files(x, b2, ms, "run with '" + mode + "' input");
  if (mode == "style") { LOGR.count("fault_layout_of_input"); if (x.rc != ref.rc || !same_outputs(x, ref, ms, why)) violate("layout-of-input", "the same parameters written with other blanks, comments, line ends or order of entries give another result (exit status " + std::to_string(x.rc) + " and " + std::to_string(ref.rc) + "): " + why); return; }
  if (x.hard == 0) { if (x.rc != ref.rc || !same_outputs(x, ref, ms, why)) violate("soft-read-fault", "input delivered in pieces or with interruptions gives another result (exit status " + std::to_string(x.rc) + " and " + std::to_string(ref.rc) + "): " + why); LOGR.count("probe_soft_equal"); return; }
  LOGR.count(x.rc ? "probe_read_error_reported" : "probe_read_error_harmless");
  if (x.rc == 0 && (ref.rc != 0 || !same_outputs(x, ref, ms, why))) violate("read-error-ignored", "an input file could not be read (" + std::to_string(x.hard) + " errors) but the exit status is 0 and " + why);
}
}
