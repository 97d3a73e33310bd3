"""Single source of the property texts, search budgets and coverage rules.
gen_manifest.py writes properties.jsonl and MANIFEST.json from it."""

GEN = "Each run is one plan drawn from splitmix64(VERIF_SEED, property, run index): "
NT = " A run counts as distinct and non-trivial if its hash over all recorded events (operations with results, faults fired, exported files) was not seen before in the batch and it has at least 3 events."
MESHREAL = ["Domain, Boundary, Vertex, EdgeList, Container, QuadTree", "Mesh, Front, MeshBuilder, MeshGenerator and all meshing, modification, refinement and smoothing strategies", "MeshCleanup, MeshMerger, MeshChecker", "MeshWriter and VtkIO"]
HEAP = "global operator new/delete (seeded heap layout, fill patterns, guard words, failure injection)"
STATE_MESH = "hash of (last operation, element connectivity of the mesh it touched)"

P = {}

P["C01"] = dict(
  title="An export that reports success has written the whole mesh",
  statement="Whenever exporting a mesh reports success, the target (TXT file, VTU file or standard output) holds a complete, well-formed description of exactly that mesh, byte-identical to an export made without any fault, no matter which I/O errors, short writes, interruptions or full disks occur. If the data could not be written completely the export reports failure, and it never reports failure when the file system accepted every byte. A file whose export was acknowledged earlier keeps its contents.",
  quant=(["fault_sequences", "histories"], "for every history of mesh operations, every export in it, and every sequence of open, write, close and capacity faults on the output"),
  why="The tests write a handful of files to a healthy disk and never look at the return value together with the bytes; none injects an I/O error.",
  files=["src/algorithm/MeshGenerator.h", "src/algorithm/MeshWriter.h", "src/utils/VtkIO.h"],
  mech=[("write_mesh and its stream checks", "src/algorithm/MeshWriter.h"), ("XML file writer", "src/utils/VtkIO.h")],
  quick=dict(rel=3200, asan=300, cap=20), thorough=dict(rel=200000, asan=10000, cap=900), level="exploration",
  rule=GEN + "a history of mesh operations with TXT, VTU and standard-output exports; before most exports one fault is armed (failing open, failing, torn, short or interrupted write, failing close that loses the tail, disk that fills up after N bytes, failing stdout)." + NT,
  state="hash of (last operation, element connectivity of the mesh it touched)", real=MESHREAL, stub=["file system calls of the exported files: fopen/open/read/write/writev/close/fclose pass through a fault injector", "standard output: bounded in-memory sink", HEAP],
  note="Seeded search; assumes file I/O reaches the kernel through libc calls (fopen/open/read/write/writev/close/fclose).")

P["C02"] = dict(
  title="Exporting only observes, and a killed export damages nothing else",
  statement="Exporting a mesh, whether it succeeds, fails or is repeated, changes no mesh and no later result, and touches no file except the one it was asked to write. If the process is killed at any point of an export, every file whose export had been acknowledged before is intact. Running the same work again in the same directory after the kill leaves exactly the files that a run without the kill leaves.",
  quant=(["crash_points", "fault_sequences", "histories"], "for every history of operations and exports, every output fault, and every point at which the process is killed during an export"),
  why="The tests never compare a mesh before and after an export, never fail one, and never kill the process.",
  files=["src/algorithm/MeshWriter.h", "src/algorithm/MeshGenerator.h", "src/utils/VtkIO.h"],
  mech=[("write_mesh", "src/algorithm/MeshGenerator.h"), ("export file creation (truncate on open)", "src/algorithm/MeshWriter.h")],
  quick=dict(rel=2600, asan=240, cap=20), thorough=dict(rel=200000, asan=8000, cap=900), level="exploration",
  rule=GEN + "a history with exports; in 55% of runs exports meet output faults and the whole history is compared with one without exports, in 45% the process is killed at a chosen open, write byte or close of an export and then restarted in the same directory." + NT,
  state="hash of the exact contents of all meshes after an operation", real=MESHREAL, stub=["file system calls of the exported files pass through a fault injector", "process kill: immediate _exit of the simulated process, only files survive", HEAP],
  note="Seeded search over fault and kill points; only data handed to the kernel survives a kill, no power loss is simulated.")

APPREAL = MESHREAL + ["command line application: main, TQMeshApp, ParaReader, size expression parser (exprtk)", "CSV and parameter file readers"]
P["C03"] = dict(
  title="Input is read completely or the run fails",
  statement="The application's result depends only on the contents of the parameter file and the CSV files it names: not on how reads are split, interrupted or shortened, and not on blanks, comments, blank lines, line ends, the order of entries or unconnected mesh definitions in the same file. If an input file can not be opened or a read fails at any point, the application either ends with a non-zero exit status or still produces exactly the output of an undisturbed run. Input files are never modified.",
  quant=(["fault_sequences", "inputs"], "for every parameter file and CSV file, every way its bytes are delivered and every failing open or read"),
  why="The tests read a few well-formed files from a healthy disk; nothing makes a read fail, stop short or arrive in pieces.",
  files=["src/utils/ParaReader.h", "src/app/TQMeshApp.h", "src/app/main.cpp", "src/algorithm/Boundary.h", "src/utils/Helpers.h"],
  mech=[("parameter file reader", "src/utils/ParaReader.h"), ("CSV boundary reader", "src/algorithm/Boundary.h")],
  quick=dict(rel=5000, asan=250, cap=22), thorough=dict(rel=300000, asan=10000, cap=900), level="exploration",
  rule=GEN + "one to three mesh definitions with boundaries given by coordinates, edges or CSV files; the application's main function runs once undisturbed and once with reads split into seeded pieces, interrupted or failing, or with the same contents laid out differently, or each unconnected definition in a file of its own; exit status and all outputs are compared." + NT,
  state="hash of everything the application printed", real=APPREAL, stub=["file system calls of input and output files pass through a fault injector", "standard output: in-memory sink", HEAP],
  note="Seeded search over input layouts and read faults.")
P["C04"] = dict(
  title="The application's exit status tells the truth about its output",
  statement="If the application exits with status 0, every requested output exists and is a complete, valid mesh that tiles the defined domains with the requested colours and element types, whatever output faults, full disks, full standard output or failed allocations occurred; otherwise the status is non-zero. A parameter file that ends inside a mesh definition, lacks a mandatory entry or describes an impossible domain never leads to status 0. A healthy run on a simple domain is never refused, no file other than the requested outputs is touched, and after being killed at any point of its output a restarted run leaves exactly what an undisturbed run leaves.",
  quant=(["fault_sequences", "crash_points", "inputs"], "for every set of mesh definitions, every output fault and allocation failure, every truncation of the parameter file and every point at which the process is killed"),
  why="The tests run the application's classes on a few fixed inputs without any fault and do not look at exit status and files together.",
  files=["src/app/TQMeshApp.h", "src/app/main.cpp", "src/app/size_function.cpp", "src/utils/ParaReader.h", "src/algorithm/MeshWriter.h", "src/algorithm/MeshChecker.h"],
  mech=[("mesh construction, completeness check and export", "src/app/TQMeshApp.h"), ("exit status", "src/app/main.cpp")],
  quick=dict(rel=5000, asan=250, cap=24), thorough=dict(rel=300000, asan=10000, cap=900), level="exploration",
  rule=GEN + "one to three mesh definitions (independent or adjacent) with layers, algorithms, refinement, smoothing, colours and output formats; the application's main function runs undisturbed (outputs judged by the mesh oracle) and then with failing opens, writes, closes, full disk, full standard output, failing allocations, a truncated parameter file, a damaged definition (missing entries, crossing or open boundaries, holes outside, bad indices, sizes or CSV files) or a kill followed by a restart." + NT,
  state="hash of everything the application printed", real=APPREAL, stub=["file system calls of input and output files pass through a fault injector", "standard output: bounded in-memory sink", "process kill: immediate _exit of the simulated process", HEAP + "; allocations inside the third-party expression parser never fail"],
  note="Seeded search; coordinates in output files are compared with 5 printed digits in mind.")

P["C05"] = dict(
  title="Mesh generation can be interrupted and resumed anywhere",
  statement="Stopping mesh generation after any number of elements and resuming it any number of times, also while other meshes are worked on in between, keeps a valid partial mesh and adds as many elements per call as requested: never more, and fewer only if the mesh is complete or generation fails (clean-up may join elements). On a domain bounded by one closed loop with a uniform element size, resuming completes the mesh within a bounded number of calls. Resuming a complete mesh reports success and changes no element, and generation reports failure exactly when edges remain that could not be closed.",
  quant=(["schedules", "histories", "inputs"], "for every domain, every sequence of element limits and every interleaving of generation calls on several meshes"),
  why="The tests call generation with one or two fixed limits on a few domains.",
  files=["src/algorithm/Triangulation.h", "src/algorithm/MeshingStrategy.h", "src/algorithm/Front.h", "src/algorithm/FrontInitData.h", "src/algorithm/MeshBuilder.h"],
  mech=[("front re-initialisation from the partial mesh", "src/algorithm/FrontInitData.h"), ("element limit of the advancing front loop", "src/algorithm/Triangulation.h")],
  quick=dict(rel=5000, asan=350, cap=20), thorough=dict(rel=300000, asan=10000, cap=900), level="exploration",
  rule=GEN + "one or two domains, generation cut into 2-14 pieces of seeded size interleaved between meshes, with completeness checks and exports in between, then finished in one call or in bounded calls; every call is judged by an independent mesh oracle." + NT,
  state=STATE_MESH, real=MESHREAL, stub=[HEAP],
  note="Seeded search; completion is demanded only for domains with one boundary loop, a constant size function and no local sizes, fixed vertices or quad layers: with steep size changes the advancing front can run into dead ends, which it reports.")

P["C11"] = dict(
  title="Every history of operations leaves a valid mesh that tiles the domain",
  statement="After every operation that reports success (generation, quad layers, quad conversion, refinement, smoothing, merging), in any order and number, the mesh is a conforming, non-overlapping set of positively oriented elements inside the domain, and a complete mesh covers the domain exactly with the domain boundary as its only boundary. Neighbour relations, element lookup by position, element areas and counts agree with the elements. Refinement quadruples quads and splits triangles in three, smoothing keeps the connectivity, and merging keeps every element of both meshes.",
  quant=(["histories", "inputs", "configurations"], "for every domain and every sequence of mesh operations the documentation allows"),
  why="The tests run a few fixed operation sequences on a few fixed domains and mostly assert on counts.",
  files=["src/algorithm/MeshGenerator.h", "src/algorithm/Triangulation.h", "src/algorithm/QuadLayering.h", "src/algorithm/ModificationStrategy.h", "src/algorithm/RefinementStrategy.h", "src/algorithm/SmoothingStrategy.h", "src/algorithm/MeshMerger.h", "src/algorithm/MeshCleanup.h", "src/algorithm/EntityChecks.h"],
  mech=[("element validity checks", "src/algorithm/EntityChecks.h"), ("mesh cleanup after modifications", "src/algorithm/MeshCleanup.h"), ("merge", "src/algorithm/MeshMerger.h")],
  quick=dict(rel=4000, asan=300, cap=22), thorough=dict(rel=300000, asan=10000, cap=900), level="exploration",
  rule=GEN + "1-3 domains (independent or sharing boundaries) and a history of generation (with interruptions), quad layers, tri-to-quad, refinement, smoothing and merging; after every operation an independent oracle recomputes orientation, overlap, half-edge conformity, coverage, boundary, adjacency and lookups." + NT,
  state=STATE_MESH, real=MESHREAL, stub=[HEAP],
  note="Seeded search over histories; workloads avoid the recorded finding layer-thicker-than-clearance.",
  assumptions=["domains have feature sizes of the order of the element size and at most 2 holes", "quad layers are at most 0.35 of the free distance, stacked ones 0.12"])

P["C12"] = dict(
  title="Colours, markers, fixed vertices and mesh interfaces survive every history",
  statement="Through any sequence of operations every element keeps the colour of the mesh it was generated in, every boundary edge keeps the marker of the domain boundary it lies on, exactly the vertices on the boundary are marked as boundary vertices, and fixed vertices stay present and in place. Neighbouring meshes stay linked edge by edge along their common boundary: links are mutual, coincide geometrically and never refer to something that no longer exists. A merge that reports success transfers all elements of the donor and removes it; one that fails changes nothing.",
  quant=(["histories", "schedules", "configurations"], "for every set of neighbouring domains, creation order and interleaving of operations and merges"),
  why="The tests check one merge of two fixed squares and no colours after modifications.",
  files=["src/algorithm/MeshGenerator.h", "src/algorithm/MeshMerger.h", "src/algorithm/Mesh.h", "src/algorithm/MeshCleanup.h", "src/algorithm/ModificationStrategy.h", "src/algorithm/RefinementStrategy.h", "src/algorithm/Edge.h"],
  mech=[("twin edges", "src/algorithm/Edge.h"), ("merge", "src/algorithm/MeshMerger.h"), ("boundary initialisation from neighbours", "src/algorithm/MeshBuilder.h")],
  quick=dict(rel=4500, asan=300, cap=22), thorough=dict(rel=300000, asan=10000, cap=900), level="exploration",
  rule=GEN + "2-4 domains sharing boundaries (rows, grids, ring and core), meshes created in seeded order and coloured from a small palette, operations and successful and refused merges interleaved; after every operation colours, markers, fixed vertices and interface links of all meshes are compared with the reference model." + NT,
  state=STATE_MESH, real=MESHREAL, stub=[HEAP], note="Seeded search over histories and creation orders.")

P["C13"] = dict(
  title="Exported files describe exactly the mesh in memory, at any moment",
  statement="At any point of any history, also for partial, layered, refined, merged and interface-linked meshes, an exported TXT or VTU file parses completely and lists exactly the vertices, elements, colours, edges, markers, neighbours, interface partners and sizes of the mesh in memory. Counts in the file match the entries, and all indices are in range. Repeated exports of an unchanged mesh are equal.",
  quant=(["histories", "inputs"], "for every history of operations and every moment at which a mesh is exported"),
  why="The tests never read an exported file back.",
  files=["src/algorithm/MeshWriter.h", "src/utils/VtkIO.h", "src/algorithm/Mesh.h"],
  mech=[("index assignment before export", "src/algorithm/MeshWriter.h"), ("VTU serialisation", "src/utils/VtkIO.h")],
  quick=dict(rel=5000, asan=350, cap=20), thorough=dict(rel=300000, asan=10000, cap=900), level="exploration",
  rule=GEN + "a history of mesh operations with exports of random meshes in random formats after about half of the operations; each file is parsed independently and compared with the mesh in memory." + NT,
  state="hash of the exported file", real=MESHREAL, stub=[HEAP], note="Seeded search over histories; no I/O faults here (see C01).")

CB = "the size-function callback (seeded failures and bad values)"
P["C06"] = dict(
  title="A failing size function never corrupts anything",
  statement="If the user's size function throws at any call of any operation, exactly that exception reaches the caller, no half-created mesh remains in the generator, and every other mesh keeps all its contents and can be worked on, exported and destroyed as usual. Work done afterwards on the other meshes and on new meshes gives the same result as in a run in which the failing mesh was never touched.",
  quant=(["fault_sequences", "histories"], "for every history of operations on several meshes and every call of a size function at which it may throw"),
  why="No test has a throwing size function.",
  files=["src/algorithm/Domain.h", "src/algorithm/MeshGenerator.h", "src/algorithm/MeshBuilder.h", "src/algorithm/Front.h", "src/algorithm/Triangulation.h", "src/algorithm/SmoothingStrategy.h", "src/utils/Container.h", "src/utils/QuadTree.h"],
  mech=[("new_mesh withdraws a mesh that could not be prepared", "src/algorithm/MeshGenerator.h"), ("size function evaluation", "src/algorithm/Domain.h")],
  quick=dict(rel=4500, asan=250, cap=18), thorough=dict(rel=300000, asan=10000, cap=900), level="exploration",
  rule=GEN + "a history over several meshes in which the size function of one domain throws at a seeded call; the failed mesh is discarded and the remaining work is compared with a run that never touched it." + NT,
  state=STATE_MESH, real=MESHREAL, stub=[CB, HEAP], note="Seeded search over failing calls. The mesh whose generation was interrupted by an exception is only required to be safely destroyable, see DESIGN.md.")
P["C07"] = dict(
  title="Interleaved independent work gives the results of working alone",
  statement="Independent mesh generators (each with its own domains) that are worked on concurrently, with control changing hands at any allocation, callback or file operation, produce exactly the meshes and files that each of them produces when it runs alone. No hidden shared state connects them.",
  quant=(["schedules", "histories"], "for every set of independent histories and every interleaving of them at allocation, callback and I/O points"),
  why="All tests work with one generator at a time, from beginning to end.",
  files=["src/algorithm/MeshGenerator.h", "src/algorithm/Triangulation.h", "src/algorithm/QuadLayering.h", "src/algorithm/MeshWriter.h", "src/utils/VtkIO.h", "src/utils/Container.h", "src/utils/QuadTree.h", "src/utils/Log.h", "src/utils/Helpers.h"],
  mech=[("all state lives in the generator, domain and mesh objects", "src/algorithm/MeshGenerator.h")],
  quick=dict(rel=5000, asan=250, cap=22), thorough=dict(rel=300000, asan=10000, cap=900), level="exploration",
  rule=GEN + "two or three independent histories run as cooperative tasks, the scheduler decides after every allocation, size-function call and file operation which one continues; results are compared bit by bit with solo runs." + NT,
  state="hash of the schedule and the meshes reached", real=MESHREAL, stub=["thread scheduler (exactly one task runs at a time, seeded switches)", HEAP],
  note="Seeded search over interleavings at allocation, callback and I/O granularity; instruction-level data races are out of reach of this seam.")
P["C08"] = dict(
  title="Results are reproducible whatever the heap looks like",
  statement="The same history gives bit-identical meshes, files and return values in every run: results do not depend on addresses, on the contents of fresh memory, on whether freed memory is reused, or on work done before in the same process.",
  quant=(["schedules", "histories"], "for every history, every heap layout and address-reuse policy, every content of uninitialised memory and every prior work in the process"),
  why="The tests run once with one allocator and compare no meshes.",
  files=["src/algorithm/MeshGenerator.h", "src/algorithm/Triangulation.h", "src/algorithm/ModificationStrategy.h", "src/algorithm/MeshCleanup.h", "src/algorithm/MeshMerger.h", "src/algorithm/SmoothingStrategy.h", "src/algorithm/FrontInitData.h", "src/utils/Container.h", "src/utils/QuadTree.h"],
  mech=[("containers iterated in insertion order, not by address", "src/utils/Container.h")],
  quick=dict(rel=3000, asan=0, cap=24), thorough=dict(rel=150000, asan=0, cap=900), level="exploration",
  rule=GEN + "a history is executed under several simulated heaps (ascending, descending, LIFO, FIFO and shuffled reuse; zero, 0xFF, 0xA5 and random fill), with and without prior work in the process; all observations must be equal." + NT,
  state=STATE_MESH, real=MESHREAL, stub=[HEAP], note="Seeded search over heap policies. Only the simulated-heap build is used because the property is about the heap.")
P["C09"] = dict(
  title="Running out of memory is reported and harms nothing else",
  statement="If an allocation fails at any point of any operation, the operation either throws, reports failure or delivers a correct result. It never crashes, hangs or reports success for something incomplete, no half-created mesh remains, every other mesh stays intact and usable, and once memory is available again work on the other meshes and on new meshes gives the usual results.",
  quant=(["fault_sequences", "histories"], "for every history and every allocation made by the library, single or in a burst, that may fail"),
  why="No test makes an allocation fail.",
  files=["src/utils/Container.h", "src/utils/QuadTree.h", "src/algorithm/MeshGenerator.h", "src/algorithm/MeshBuilder.h", "src/algorithm/Mesh.h", "src/algorithm/MeshCleanup.h", "src/algorithm/MeshMerger.h", "src/algorithm/RefinementStrategy.h"],
  mech=[("insertion is withdrawn if the index can not take the item", "src/utils/Container.h"), ("quad tree split and merge", "src/utils/QuadTree.h")],
  quick=dict(rel=6000, asan=350, cap=20), thorough=dict(rel=400000, asan=10000, cap=900), level="exploration",
  rule=GEN + "a history in which the n-th allocation of one operation (and possibly the following ones) fails; afterwards the failed mesh is discarded and the remaining work is compared with a run without it." + NT,
  state=STATE_MESH, real=MESHREAL, stub=[HEAP], note="Seeded search over failing allocations. The mesh an operation failed on is only required to be safely destroyable.")
P["C10"] = dict(
  title="The spatial index always agrees with the items it stores",
  statement="After any sequence of insertions, removals, moves and clean-ups of a container, including ones in which memory runs out, box, circle and nearest-item queries, also with user-supplied criteria, return exactly the stored items that an exhaustive search returns. Item count, iteration order and membership agree with the history, and removed items are never returned.",
  quant=(["histories", "fault_sequences", "inputs"], "for every operation history, item distribution, tree parameter and allocation failure"),
  why="The tests query a few fixed point sets.",
  files=["src/utils/QuadTree.h", "src/utils/Container.h"],
  mech=[("split, merge and item moves of the tree", "src/utils/QuadTree.h"), ("container insertion, removal and clean-up", "src/utils/Container.h")],
  quick=dict(rel=9000, asan=800, cap=18), thorough=dict(rel=600000, asan=30000, cap=900), level="exploration",
  rule=GEN + "a history of up to some hundred container operations on random, clustered, collinear and coincident positions with seeded tree parameters and allocation failures; every query is compared with an exhaustive search over a reference list." + NT,
  state="hash of the (tree size, leaf structure, item count) reached", real=["Container", "QuadTree"], stub=[HEAP], note="Seeded search against an exhaustive reference model; items are kept inside the tree extent.")
P["C14"] = dict(
  title="Logging never influences the mesh",
  statement="Whatever log level, header, colour and output stream are configured, also a stream that fails or throws at some point or a full disk behind it, and however the configuration changes between operations, all operations give exactly the same meshes, files and return values as with logging switched off, and nothing is written outside the configured stream.",
  quant=(["configurations", "fault_sequences", "histories"], "for every logging configuration, every failure of the log stream and every history"),
  why="The tests log to the console with fixed settings and never compare results.",
  files=["src/utils/Log.h", "src/algorithm/MeshGenerator.h", "src/algorithm/Triangulation.h", "src/algorithm/QuadLayering.h", "src/algorithm/MeshChecker.h"],
  mech=[("log levels and streams", "src/utils/Log.h")],
  quick=dict(rel=3000, asan=200, cap=20), thorough=dict(rel=200000, asan=8000, cap=900), level="exploration",
  rule=GEN + "a history executed with logging off and with a seeded logging configuration whose sink fails after a seeded number of bytes; results are compared bit by bit." + NT,
  state=STATE_MESH, real=MESHREAL + ["Log"], stub=["log sinks (in-memory, full, failing)", HEAP], note="Seeded search over logging configurations and sink failures.")
P["C15"] = dict(
  title="All memory and files are released after every history",
  statement="After the meshes, generators and domains of any history are gone, also if operations failed, threw, ran out of memory or met I/O errors, all memory the library allocated and all files it opened have been released, exactly once each.",
  quant=(["histories", "fault_sequences"], "for every history with every kind of injected failure"),
  why="The tests do not look for leaks and never take failure paths.",
  files=["src/utils/Container.h", "src/utils/QuadTree.h", "src/utils/VtkIO.h", "src/algorithm/MeshGenerator.h", "src/algorithm/Mesh.h", "src/algorithm/MeshWriter.h", "src/algorithm/MeshMerger.h"],
  mech=[("ownership of items by containers", "src/utils/Container.h"), ("VTU writer", "src/utils/VtkIO.h")],
  quick=dict(rel=8000, asan=0, cap=20), thorough=dict(rel=400000, asan=0, cap=900), level="exploration",
  rule=GEN + "a history with exports in which allocations, the size function or output files fail at seeded points; at the end the simulated heap counts live library blocks and the file layer open descriptors." + NT,
  state=STATE_MESH, real=MESHREAL, stub=["file system calls of exported files", CB, HEAP], note="Seeded search; the simulated heap also detects double and foreign frees.")
P["C16"] = dict(
  title="A misbehaving size function is reported or yields a valid mesh",
  statement="Whatever values a size function returns (zero, negative, infinite, NaN, huge, tiny, or inconsistent between calls), every operation ends in a bounded number of steps with a thrown error, a reported failure or termination with a non-zero exit code, or with a valid mesh. It never crashes, hangs or reports success for an invalid mesh.",
  quant=(["fault_sequences", "inputs", "histories"], "for every history and every sequence of values returned by the size functions"),
  why="The tests use well-behaved constant or smooth size functions.",
  files=["src/algorithm/Domain.h", "src/algorithm/Front.h", "src/algorithm/Triangulation.h", "src/algorithm/MeshBuilder.h", "src/algorithm/SmoothingStrategy.h", "src/algorithm/EntityChecks.h"],
  mech=[("size function evaluation and its checks", "src/algorithm/Domain.h"), ("boundary refinement", "src/algorithm/Front.h")],
  quick=dict(rel=6000, asan=350, cap=20), thorough=dict(rel=400000, asan=10000, cap=900), level="exploration",
  rule=GEN + "a history in which the size function returns bad values in a seeded window of calls; each operation is bounded by a step budget and its outcome judged by the mesh oracle." + NT,
  state=STATE_MESH, real=MESHREAL, stub=[CB, HEAP], note="Seeded search over bad values and the calls at which they occur.")

NOT_APPLICABLE = {}
NOT_APPLICABLE["C17"] = dict(
  title="Geometric predicates are right for all coordinates",
  statement="Orientation, intersection, containment and distance predicates return the mathematically correct answer for every set of points, up to a stated tolerance.",
  quant=(["inputs"], "for all coordinates"), why="Tests sample a few points.",
  files=["src/utils/Geometry.h", "src/algorithm/FacetGeometry.h"], mech=[("predicates", "src/utils/Geometry.h")],
  reason="Pure functions of their arguments: no state, schedule, time, I/O or fault for a simulator to vary; a solver or proof over floating point would decide them. Their consequences for meshes are covered by C11.")
NOT_APPLICABLE["C18"] = dict(
  title="Element sizes follow the size function",
  statement="The edge lengths of a generated mesh follow the requested element size within a stated factor everywhere in the domain.",
  quant=(["inputs"], "for every domain and size function"), why="Tests check counts of a few meshes.",
  files=["src/algorithm/Domain.h", "src/algorithm/Front.h", "src/algorithm/Triangulation.h"], mech=[("size function", "src/algorithm/Domain.h")],
  reason="The repository promises no bound on the deviation, so there is no invariant to check; the result depends on the input alone, not on schedules or faults.")
NOT_APPLICABLE["C19"] = dict(
  title="Smoothing and quad conversion improve element quality",
  statement="Smoothing and conversion to quads never make the worst element of a mesh worse.",
  quant=(["inputs", "histories"], "for every mesh"), why="Tests look at a few meshes.",
  files=["src/algorithm/SmoothingStrategy.h", "src/algorithm/ModificationStrategy.h"], mech=[("smoothing", "src/algorithm/SmoothingStrategy.h")],
  reason="Not a guarantee of the code (Laplacian smoothing may worsen single elements) and independent of anything a simulator controls; validity after smoothing is part of C11.")
P["C21"] = dict(
  title="An edited domain is the domain its final definition describes",
  statement="After any sequence of adding, inserting, splitting and removing boundaries, vertices, fixed vertices and fixed edges, replacing the size function and meshing in between, also when memory runs out or the size function throws on the way, the domain's boundaries and markers, area, inside test, element sizes, edge lookup and exported size field are those of its current definition. They equal those of a domain built directly from that definition, and no vertex refers to anything that was removed. A mesh generated on the edited domain tiles exactly that domain.",
  quant=(["histories", "fault_sequences", "inputs"], "for every history of edits, meshing and queries of a domain and every allocation or size function failure in it"),
  why="The tests build each domain once and hardly ever change it afterwards.",
  files=["src/algorithm/Domain.h", "src/algorithm/Boundary.h", "src/algorithm/EdgeList.h", "src/algorithm/Edge.h", "src/algorithm/Vertex.h"],
  mech=[("boundaries, fixed vertices and size function of a domain", "src/algorithm/Domain.h"), ("boundary shapes", "src/algorithm/Boundary.h"), ("insertion, split and area of edge lists", "src/algorithm/EdgeList.h")],
  quick=dict(rel=2000, asan=250, cap=15), thorough=dict(rel=200000, asan=10000, cap=900), level="exploration",
  rule=GEN + "5-20 edits (boundaries by vertices, coordinates or named shapes, also at places of removed ones; splits; fixed vertices and edges; unused vertices; new size functions), exports of the size field and mesh generations, some with a failing allocation or a throwing size function; after every step the domain is compared with a reference model and with a domain built directly from the model, meshes with the mesh oracle." + NT,
  state="hash of (last operation, number of boundaries and edges of each)", real=["Domain, Boundary, EdgeList, Edge, Vertex, Container, QuadTree", "size function evaluation and export", "MeshGenerator with triangulation"], stub=[HEAP, "user size function: may throw at a chosen call"],
  note="Seeded search; vertices shared on purpose by two live boundaries are not exercised; after a failed split or removal the domain is only required to be destroyable.")
P["C20"] = dict(
  title="Converted meshes are equivalent to the exported ones",
  statement="Whenever the conversion script scripts/convert2foam.py ends with exit status 0, the OpenFOAM files describe exactly the first mesh of the text file, extruded by the given height: the same points, one closed, outward-oriented cell per element, internal faces between the same neighbours, and one patch per boundary marker (in ascending order, without gaps) followed by base and top. A complete mesh is never refused; input that is cut off or can not be read and output that can not be written completely lead to a non-zero exit status or to exactly the undisturbed result. After a kill at any point, or on top of an older conversion, a repeated run leaves what a fresh run leaves, and no other file is touched.",
  quant=(["inputs", "fault_sequences", "crash_points"], "for every exported complete mesh, every truncation of the file, every failing or shortened file operation and every point at which the process is killed"),
  why="No test runs the scripts.",
  files=["scripts/convert2foam.py"], mech=[("reading of the sections", "scripts/convert2foam.py"), ("ordering of edges, owners, neighbours and patches", "scripts/convert2foam.py"), ("export of the five files", "scripts/convert2foam.py")],
  quick=dict(rel=1500, cap=20, corpus=300), thorough=dict(rel=200000, cap=900, corpus=4000), level="exploration",
  rule=GEN + "a mesh exported by the simulated library after a seeded history (merged, refined, layered, interface-linked), optionally shifted far from the origin, with many markers, with comment lines, followed by a second mesh or converted over an older result; the script runs undisturbed and then with chunked, short, failing, torn or killing reads, writes, opens, closes and directory creations, a filling disk, or input cut at a random byte." + NT,
  state="hash of the undisturbed OpenFOAM files", real=["scripts/convert2foam.py, executed unchanged by the Python interpreter with numpy", "the text export of the library"], stub=["open, read, write, close and mkdir of the script's files pass through a fault injector (Python's open, io.open and os.mkdir)"],
  note="Seeded search; assumes the script does its file I/O through Python's open or os.mkdir. Allocation failures inside the interpreter are not simulated.", tech="seeded search over exported meshes, file faults, truncations and kill points against an independent reader of both formats")
CATALOG = P
