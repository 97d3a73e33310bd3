// Simulated user of TQMesh: domain models, workload generator, mesh snapshots
// and the independent mesh oracle.
#pragma once
#include "core.h"
#include "hooks.h"
#include <TQMeshConfig.h>
#include "TQMesh.h"

namespace sim {

struct P2 { double x = 0, y = 0; };

// -------------------------------------------------------------- size functions
struct SizeSpec {
  std::string kind = "const"; double a = 1, b = 0, c = 0, d = 0, e = 1;
  double eval(double x, double y) const {
    if (kind == "const") return a;
    if (kind == "lin") return std::max(e, a + b * x + c * y);
    if (kind == "radial") { double dx = x - b, dy = y - c; return a + (e) * (1.0 - std::exp(-(dx * dx + dy * dy) / (d * d))); }
    if (kind == "step") return (x * b + y * c > d) ? a : e;
    return a;
  }
  std::string text() const { return kind + "," + fmt(a) + "," + fmt(b) + "," + fmt(c) + "," + fmt(d) + "," + fmt(e); }
  static SizeSpec parse(const std::string& s);
};

// -------------------------------------------------------------- domain model
struct BV { P2 p; int color = 1; double ms = 0, mr = 0; };
struct Loop { bool ext = true; std::vector<BV> v; };      // given in library orientation
struct DomSpec {
  std::vector<Loop> loops;
  std::vector<BV> fixed;                                   // interior fixed vertices
  std::vector<std::pair<int,int>> fixed_edges;             // indices into fixed
  SizeSpec size;
  double scale = 10000.0;                                  // quad tree
  size_t items = 100, depth = 25;
  int api = 0;                                             // 0: explicit vertices, 1: set_shape_from_coordinates, 2: named shapes where a loop has one
  double area() const;
  double perimeter() const;
  double diam() const;
};
// a loop that is one of the library's named shapes (all edges and vertices with equal properties)
struct ShapeSpec { std::string kind; P2 c; double a = 0, b = 0; int n = 0, color = 0; double ms = 0, mr = 0; };
ShapeSpec shape_of(const Loop& l);
void dom_to_plan(Plan& p, int id, const DomSpec& d);
// collects "dom"/"loop"/"fix" steps belonging to domain id
DomSpec dom_from_plan(const Plan& p, int id);
bool dom_in_plan(const Plan& p, int id);

struct GenOpt { int max_holes = 2; bool fixed = true; bool local = true; bool varsize = true; double target = 120; bool fixed_edges = false; int shape = -1; };
DomSpec gen_domain(Rng& r, const GenOpt& o);
void translate(DomSpec& d, double dx, double dy);
// adjacent domains forming a chain/grid of rectangles or ring+core; shared loops coincide
std::vector<DomSpec> gen_adjacent(Rng& r, const GenOpt& o, int n, int kind = -1);

// A live domain: owns TQMesh::Domain plus the callback seam.
struct Callback {
  SizeSpec spec;
  uint64_t calls = 0; P2 first;      // where the size function was evaluated first
  // fault: at call index `at` do `what`
  int64_t at = -1; std::string what; double value = 0; int64_t span = 1;
  uint64_t fired = 0;
  double operator()(const CppUtils::Vec2d& p);
};
struct UserError : std::runtime_error { UserError() : std::runtime_error("simulated user callback failure") {} };

struct LiveDom {
  DomSpec spec;
  std::shared_ptr<Callback> cb;
  std::unique_ptr<TQMesh::Domain> dom;
};
std::unique_ptr<LiveDom> build_domain(const DomSpec& s);

// -------------------------------------------------------------- snapshots
struct Snap {
  struct V { double x, y; int props; };
  struct F { int n; int v[4]; int color; };
  struct E { int a, b; int color; bool twin; };
  std::vector<V> v; std::vector<F> f; std::vector<E> ie, be;   // facets: quads first, then triangles
  size_t n_quads = 0, n_tris = 0;
  int id = 0, color = 0; double area = 0;
  uint64_t hash() const;          // exact (bit-wise coordinates, order included)
  uint64_t topo_hash() const;     // connectivity only
  std::string brief() const;
};
// throws ViolationEx when the mesh structure is internally dangling
Snap snapshot(TQMesh::Mesh& m);

struct CheckOpt {
  bool geom = true;               // elements must be simple and positively oriented
  bool topo = true;               // elements form a conforming, non-overlapping cover
  bool complete = true;           // mesh must tile the domain completely
  bool boundary = true;           // boundary edges must reproduce the domain boundary
  bool fixed = true;
  bool queries = true;            // spatial lookup agrees with contents
  double area_tol = 1e-9;
  double coord_eps = 0;           // coordinates are only known to this precision (exported text)
};
// Independent oracle; doms: the domains the mesh covers (several after a merge).
void check_mesh(TQMesh::Mesh& m, const std::vector<const DomSpec*>& doms, const CheckOpt& o, const std::string& where);
void check_snap(const Snap& s, const std::vector<const DomSpec*>& doms, const CheckOpt& o, const std::string& where);

// -------------------------------------------------------------- exported files
struct TxtMesh {
  int id = 0; std::vector<P2> v; std::vector<std::array<int,4>> ie, be; std::vector<std::array<int,5>> itf; std::vector<std::array<int,3>> front;
  std::vector<std::array<int,5>> q; std::vector<std::array<int,4>> t; std::vector<std::array<int,4>> qn; std::vector<std::array<int,3>> tn; std::vector<double> size;
};
bool parse_txt(const std::string& text, TxtMesh& out, std::string& err);
struct VtuMesh { std::vector<P2> v; std::vector<std::vector<int>> cells; std::vector<int> types; std::map<std::string, std::vector<double>> pdata, cdata; };
bool parse_vtu(const std::string& text, VtuMesh& out, std::string& err);
// exported text must describe exactly the mesh in memory; empty string = ok
std::string compare_txt(const TxtMesh& t, const Snap& s, const std::vector<double>& size);
std::string compare_vtu(const VtuMesh& t, const Snap& s, const std::vector<double>& size);

std::string read_file(const std::string& path, bool* ok = nullptr);
bool write_file(const std::string& path, const std::string& data);
bool file_exists(const std::string& path);

} // namespace sim
