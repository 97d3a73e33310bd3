// A simulated user session: interprets plan steps as calls of the public mesh
// generation API over several domains and meshes, with faults armed per call,
// and keeps a reference model of what must be true after every call.
#pragma once
#include "world.h"

namespace sim {

struct OpResult {
  int rc = 1;              // 1 true / 0 false / -1 exception / -2 skipped (not applicable)
  std::string exc;         // exception kind
  std::string text() const { return rc == 1 ? "ok" : rc == 0 ? "false" : rc == -2 ? "skip" : "exc:" + exc; }
};

struct MeshState {
  TQMesh::Mesh* m = nullptr;
  int key = 0, dom = 0, id = 0, color = 0;
  std::vector<int> doms;             // domains covered (several after merges)
  std::map<int, double> colorArea;   // expected covered area per element colour
  bool complete = false;             // elements must tile the domain(s)
  bool geom = true;                  // element validity is required
  bool damaged = false;              // a fault interrupted an operation on it: only memory safety is required
  bool failed = false;               // a generation reported failure: the elements may overlap (recorded finding)
  bool alive = true;
  bool layered = false;              // a quad layer was generated: the front may end with collapsed edges
  bool limited = false;              // an element limit was set on this mesh's triangulation
  std::map<std::pair<int64_t,int64_t>, int> pinned;   // not used for lookup speed; fixed + boundary vertices (quantised)
};

struct SessionCfg {
  bool check = true;                 // run the mesh oracle after every operation
  bool verify_queries = true;
  std::string dir;                   // scratch directory for exported files
  bool skip_writes = false;          // ignore write steps (differential runs)
  bool one_shot = false;             // disarm callback and allocation faults after the operation they were armed for
  bool skip_damaged = false;         // no further operations on a mesh whose operation was cut short by a fault
};

class Session {
public:
  Session(const Plan& p, const SessionCfg& c);
  ~Session();
  OpResult step(const Step& s);                   // execute one user operation
  void run();                                     // all user operations of the plan
  void verify(int key, const std::string& where); // oracle on one mesh
  void verify_all(const std::string& where);
  uint64_t hash();                                // exact state of all live meshes
  uint64_t hash_mesh(int key);
  std::vector<double> sizes(int key);             // reference size function at the mesh vertices
  std::string dump_results() const;
  void destroy();                                 // tear everything down (generator first)
  Plan plan; SessionCfg cfg;
  std::map<int, std::unique_ptr<LiveDom>> doms;
  std::map<int, DomSpec> specs;
  std::unique_ptr<TQMesh::MeshGenerator> gen;
  std::map<int, MeshState> ms;
  std::vector<std::string> results;
  LiveDom* dom(int id);
  std::function<void(const Step&, OpResult&)> after;   // hook for property-specific checks
  uint64_t last_cb = 0, last_alloc = 0;                // faults fired during the last operation
private:
  OpResult exec(const Step& s);
  void arm(const Step& s);
  void post(const Step& s, const OpResult& r);
};

bool is_user_op(const Step& s);
std::vector<const DomSpec*> covered(Session& S, const MeshState& m);
// checks reciprocal interface links between live meshes
void check_interfaces(Session& S, const std::string& where);
// evaluate an exported file against the mesh; "" = faithful
std::string check_export(Session& S, int key, const std::string& path, const std::string& fmt);

uint64_t world_hash(Session& S);      // exact contents of all live meshes incl. interface flags and areas

// ---- workload generation
struct HistOpt {
  int max_ops = 8; bool quad_layers = true; bool interrupts = true; bool merges = true; bool writes = false; bool refine = true;
  bool t2q = true; bool smooth = true; double target = 90; double big = 0.03; int max_doms = 3; bool adjacent = true; bool exhaustive = false;
};
double big(Rng& r, double p);
void gen_history(Rng& r, Plan& p, const HistOpt& o);
void vary(Rng& r, Plan& p);
void gen_ops_for_mesh(Rng& r, Plan& p, const HistOpt& o, int key, const DomSpec& d, bool allow_refine);

} // namespace sim
