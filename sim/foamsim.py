#!/usr/bin/env python3
"""foamsim: deterministic simulation of the mesh conversion script (scripts/convert2foam.py).

  foamsim.py run PROP SEED FIRST COUNT TIME_CAP WORKERS OUTDIR   (corpus of text meshes: $TQ_CORPUS)
  foamsim.py replay FILE [-v]
  foamsim.py min FILE OUT CAP

The real script runs in a forked process whose file operations (open, read, write, close, mkdir) pass
through the seam below: one plan decides how every byte is delivered, which call fails and where the
process is killed.  Same protocol as tqsim."""
import sys, os, io, json, time, errno, random, hashlib, shutil, signal, runpy, builtins, tempfile, traceback

SCRIPT = os.path.join(os.environ.get("TQ_REPO", "/repo"), "scripts", "convert2foam.py")
FILES = ("points", "faces", "owner", "neighbour", "boundary")

class Violation(Exception):
    def __init__(self, cls, msg): super().__init__(msg); self.cls, self.msg = cls, msg

# ---------------------------------------------------------------- the seam
class Sim:
    def __init__(self, root, faults, disk, chunk, cseed):
        self.root = os.path.realpath(root); self.f = [dict(x) for x in faults]; self.left = disk; self.chunk = chunk
        self.rng = random.Random(cseed); self.ev = []; self.hard = 0; self.counts = {}
    def mine(self, p): return isinstance(p, (str, bytes, os.PathLike)) and os.path.realpath(os.fsdecode(os.fspath(p))).startswith(self.root + os.sep)
    def rel(self, p): return os.path.relpath(os.path.realpath(os.fsdecode(os.fspath(p))), self.root)
    def count(self, k): self.counts[k] = self.counts.get(k, 0) + 1
    def note(self, *a): self.ev.append(" ".join(str(x) for x in a))
    def hit(self, op, name):
        for f in self.f:
            if f["op"] != op or f.get("match", "") not in name: continue
            f["seen"] = f.get("seen", 0) + 1
            k = f["seen"] - 1 - f.get("nth", 0)
            if 0 <= k < f.get("repeat", 1): self.count("io_%s_%s" % (op, f["kind"])); self.note("fault", op, name, f["kind"]); return f
        return None
    def fail(self, kind):
        self.hard += 1; raise OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)))
    def die(self): report(self, None, True); os._exit(99)

REAL_OPEN = io.open; REAL_MKDIR = os.mkdir
class SimRaw(io.FileIO):
    sim = None
    def __init__(self, path, mode): super().__init__(path, mode); self._n = self.sim.rel(path); self._shut = False
    def readinto(self, b):
        s = self.sim; f = s.hit("read", self._n); n = len(b)
        if f:
            if f["kind"] == "short": n = max(1, min(n, f.get("arg", 1)))
            else: s.fail(f["kind"])
        if s.chunk: n = max(1, min(n, s.rng.randint(1, s.chunk))); s.count("io_read_chunked")
        with memoryview(b) as m: k = super().readinto(m[:n])
        s.note("read", self._n, k); return k
    def readall(self):
        out = b""; buf = bytearray(8192)
        while True:
            k = self.readinto(buf)
            if not k: return out
            out += bytes(buf[:k])
    def read(self, n=-1):
        if n is None or n < 0: return self.readall()
        buf = bytearray(n); k = self.readinto(buf); return bytes(buf[:k])
    def write(self, b):
        s = self.sim; d = bytes(b); f = s.hit("write", self._n)
        if f:
            if f["kind"] == "short": d = d[:max(1, f.get("arg", 1))]
            elif f["kind"] in ("torn", "kill"):
                self._put(d[:f.get("arg", 0) % (len(d) + 1)]); s.note("torn", self._n)
                if f["kind"] == "kill": s.die()
                s.fail("EIO")
            else: s.fail(f["kind"])
        if s.chunk: d = d[:s.rng.randint(1, s.chunk)]
        if s.left is not None:
            if s.left <= 0 and d: s.count("fault_disk_full"); s.note("disk full"); s.fail("ENOSPC")
            d = d[:max(1, s.left)]; s.left -= len(d)
        self._put(d); s.note("write", self._n, len(d)); return len(d)
    def _put(self, d):
        while d: d = d[super().write(d):]
    def close(self):
        if getattr(self, "_shut", True) or self.closed: return super().close()
        self._shut = True; s = self.sim; s.note("close", self._n); f = s.hit("close", self._n) if self.writable() else None
        super().close()
        if f:
            if f["kind"] == "kill": s.die()
            s.fail(f["kind"])

def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = SimRaw.sim
    if s is None or not s.mine(file): return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    name = s.rel(file); s.note("open", name, mode); f = s.hit("open", name)
    if f:
        if f["kind"] == "kill": s.die()
        s.fail(f["kind"])
    raw = SimRaw(file, "".join(c for c in mode if c in "rwax+"))
    size = 8192 if buffering in (-1, 1) else buffering
    if size == 0: return raw
    if "+" in mode: b = io.BufferedRandom(raw, size)
    elif "r" in mode: b = io.BufferedReader(raw, size)
    else: b = io.BufferedWriter(raw, size)
    return b if "b" in mode else io.TextIOWrapper(b, encoding, errors, newline, buffering == 1)
def sim_mkdir(path, *a, **k):
    s = SimRaw.sim
    if s is not None and s.mine(path):
        s.note("mkdir", s.rel(path)); f = s.hit("mkdir", s.rel(path))
        if f:
            if f["kind"] == "kill": s.die()
            s.fail(f["kind"])
    return REAL_MKDIR(path, *a, **k)

PIPE = None
def report(s, rc, killed):
    m = json.dumps({"rc": rc, "killed": killed, "ev": s.ev, "hard": s.hard, "counts": s.counts}).encode()
    while m: m = m[os.write(PIPE, m):]

class Run: pass
def convert(root, args, faults=(), disk=None, chunk=0, cseed=1):
    """one process of the script"""
    global PIPE
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r); PIPE = w; signal.alarm(25); dn = os.open(os.devnull, os.O_RDWR); err = os.open(root + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.dup2(dn, 0); os.dup2(dn, 1); os.dup2(err, 2); sys.stdout = os.fdopen(1, "w"); sys.stderr = os.fdopen(2, "w")
            s = Sim(root, faults, disk, chunk, cseed); os.chdir(root); sys.argv = ["convert2foam.py"] + args
            SimRaw.sim = s; builtins.open = io.open = sim_open; os.mkdir = sim_mkdir; rc = 0
            sys.unraisablehook = lambda u: None
            try: runpy.run_path(SCRIPT, run_name="__main__")
            except SystemExit as e: rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException as e: rc = 1; s.note("raised", type(e).__name__)
            import gc; gc.collect(); SimRaw.sim = None
            report(s, rc, False)
        finally: os._exit(0)
    os.close(w); d = b""
    while True:
        x = os.read(r, 65536)
        if not x: break
        d += x
    os.close(r); _, st = os.waitpid(pid, 0); R = Run()
    if not d: raise Violation("hang" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else "crash", "the script ended with wait status %d" % st)
    m = json.loads(d); R.rc, R.killed, R.ev, R.hard, R.counts = m["rc"], m["killed"], m["ev"], m["hard"], m["counts"]
    for k, v in R.counts.items(): LOG.counts[k] = LOG.counts.get(k, 0) + v
    for e in R.ev: LOG.event(e)
    LOG.event("exit %s%s" % (R.rc, " killed" if R.killed else "")); R.files = tree(root); return R

def tree(d):
    t = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            with REAL_OPEN(os.path.join(b, f), "rb") as h: t[os.path.relpath(os.path.join(b, f), d)] = h.read()
    return t

class Log:
    def __init__(self): self.h = hashlib.sha1(); self.n = 0; self.counts = {}; self.lines = []; self.states = set()
    def event(self, e): self.h.update(e.encode() + b"\n"); self.n += 1; self.lines.append(e)
    def count(self, k): self.counts[k] = self.counts.get(k, 0) + 1
LOG = Log()

# ---------------------------------------------------------------- reference: the text mesh and its extrusion
def parse_txt(text):
    L = [l for l in text.split("\n") if not l.replace(" ", "").startswith("#")]; M = {}; i = 0
    while not L[i].startswith("MESH "): i += 1
    i += 1
    def rows(key, conv):
        nonlocal i
        while not L[i].startswith(key + " "): i += 1
        n = int(L[i].split()[1]); out = [tuple(conv(x) for x in l.split(",")) for l in L[i + 1:i + 1 + n]]; i += 1 + n; return out
    M["v"] = rows("VERTICES", float); M["in"] = rows("INTERIOREDGES", int); M["bd"] = rows("BOUNDARYEDGES", int); M["if"] = rows("INTERFACEEDGES", int); M["fr"] = rows("FRONT", int)
    M["el"] = [x[:-1] for x in rows("QUADS", int)] + [x[:-1] for x in rows("TRIANGLES", int)]; return M

def canon(c):
    k = c.index(min(c)); return tuple(c[k:] + c[:k])
def foam_tokens(b, name):
    try: t = b.decode("ascii")
    except UnicodeDecodeError: raise Violation("foam-file", "%s is not a text file" % name)
    p = t.find("{"); q = t.find("}", p)
    if "FoamFile" not in t[:p] or q < 0: raise Violation("foam-file", "%s has no header" % name)
    head = dict(x.split(None, 1) for x in t[p + 1:q].split(";") if len(x.split(None, 1)) == 2)
    want = {"points": "vectorField", "faces": "faceList", "owner": "labelList", "neighbour": "labelList", "boundary": "polyBoundaryMesh"}[name]
    if head.get("class", "").strip() != want or head.get("object", "").strip() != name: raise Violation("foam-file", "%s has the header of another file: %s" % (name, head))
    return t[q + 1:].replace("(", " ( ").replace(")", " ) ").replace("{", " { ").replace("}", " } ").replace(";", " ; ").split()
def foam_list(tok, name, item):
    try:
        n = int(tok[0]); assert tok[1] == "("; i = 2; out = []
        while tok[i] != ")": x, i = item(tok, i); out.append(x)
        if i + 1 != len(tok): raise Violation("foam-file", "%s goes on after its end" % name)
        if n != len(out): raise Violation("foam-file", "%s announces %d entries but has %d" % (name, n, len(out)))
        return out
    except (IndexError, ValueError, AssertionError): raise Violation("foam-file", "%s is incomplete or malformed" % name)
def label(t, i): return int(t[i]), i + 1
def vector(t, i): assert t[i] == "(" and t[i + 4] == ")"; return tuple(float(x) for x in t[i + 1:i + 4]), i + 5
def face(t, i):
    n = int(t[i]); assert t[i + 1] == "(" and t[i + 2 + n] == ")"; return [int(x) for x in t[i + 2:i + 2 + n]], i + 3 + n
def patch(t, i):
    name = t[i]; assert t[i + 1] == "{"; i += 2; d = {}
    while t[i] != "}": d[t[i]] = t[i + 1]; assert t[i + 2] == ";"; i += 3
    return (name, int(d["startFace"]), int(d["nFaces"])), i + 1

def check_foam(M, files, base, ext):
    f = {}
    for k in FILES:
        p = base + "/constant/polyMesh/" + k
        if p not in files: raise Violation("foam-file", "exit status 0 but %s was not written" % k)
        f[k] = foam_list(foam_tokens(files[p], k), k, {"points": vector, "faces": face, "boundary": patch}.get(k, label))
    n = len(M["v"]); P = f["points"]
    if len(P) != 2 * n: raise Violation("foam-mesh", "%d points for %d vertices" % (len(P), n))
    for i, (x, y) in enumerate(M["v"]):
        for j, z in ((i, 0.0), (i + n, ext)):
            if any(abs(a - b) > 1e-9 * max(1.0, abs(b)) for a, b in zip(P[j], (x, y, z))): raise Violation("foam-mesh", "point %d is %s instead of %s" % (j, P[j], (x, y, z)))
    F, O, N = f["faces"], f["owner"], f["neighbour"]; E = M["el"]
    if len(O) != len(F): raise Violation("foam-mesh", "%d owners for %d faces" % (len(O), len(F)))
    if len(N) != len(M["in"]): raise Violation("foam-mesh", "%d internal faces for %d interior edges" % (len(N), len(M["in"])))
    cells = [[] for _ in E]
    for k, c in enumerate(F):
        for x in c:
            if not 0 <= x < 2 * n: raise Violation("foam-mesh", "face %d refers to point %d" % (k, x))
        for who, cc in ((O[k], c),) + (((N[k], c[::-1]),) if k < len(N) else ()):
            if not 0 <= who < len(E): raise Violation("foam-mesh", "face %d belongs to cell %d" % (k, who))
            cells[who].append(canon(list(cc)))
        if k < len(N) and not O[k] < N[k]: raise Violation("foam-mesh", "internal face %d: owner %d is not below neighbour %d" % (k, O[k], N[k]))
    for e, v in enumerate(E):
        v = list(v); want = [canon(v[::-1]), canon([x + n for x in v])] + [canon([a, b, b + n, a + n]) for a, b in zip(v, v[1:] + v[:1])]
        if sorted(want) != sorted(cells[e]): raise Violation("foam-mesh", "cell %d is not the extrusion of element %d: faces %s instead of %s" % (e, e, sorted(cells[e]), sorted(want)))
    adj = sorted(tuple(sorted(x[2:4])) for x in M["in"])
    if sorted(zip(O, N)) != adj: raise Violation("foam-mesh", "the internal faces connect other cells than the interior edges")
    # patches: in order, without gaps, each with exactly the faces of one marker
    B = f["boundary"]; at = len(N); seen = set(); kinds = []
    mark = {}
    for a, b, e, m in M["bd"]: mark[(min(a, b), max(a, b), e)] = (0, m)
    for name, s0, k in B:
        if name in seen: raise Violation("foam-mesh", "two patches are called %s" % name)
        seen.add(name)
        if s0 != at: raise Violation("foam-mesh", "patch %s starts at face %d instead of %d" % (name, s0, at))
        at += k; here = set()
        for i in range(s0, min(at, len(F))):
            lo = [x for x in F[i] if x < n]
            here.add((2, 0) if len(lo) == len(F[i]) else (3, 0) if not lo else mark.get((min(lo), max(lo), O[i]), (9, 9)))
        if (9, 9) in here: raise Violation("foam-mesh", "patch %s has a face that is no boundary edge" % name)
        if len(here) > 1: raise Violation("foam-mesh", "patch %s mixes boundaries: %s" % (name, sorted(here)))
        if here: kinds.append(min(here))
    if at != len(F): raise Violation("foam-mesh", "the patches end at face %d of %d" % (at, len(F)))
    marks = [x for x in kinds if x[0] == 0]
    if marks != sorted({x for x in mark.values() if x[0] == 0}): raise Violation("foam-mesh", "the patches %s do not follow the boundary markers %s" % (marks, sorted({x for x in mark.values() if x[0] == 0})))
    if sum(1 for x in kinds if x[0] > 1) != 2: raise Violation("foam-mesh", "base and top are not one patch each")
    LOG.count("probe_converted_mesh_verified")
    if M["if"]: LOG.count("probe_interface_mesh")

# ---------------------------------------------------------------- plans
def gen(rng, corpus):
    p = {"property": "C20", "mesh": rng.choice(corpus), "ext": rng.choice([1.0, 1.0, 0.25, 3.5, round(rng.uniform(0.001, 50), 6)]), "env": {}}
    if rng.random() < 0.25: p["after"] = rng.choice(corpus)              # a second mesh in the same file
    if rng.random() < 0.3: p["comments"] = rng.randrange(1, 10 ** 6)
    if rng.random() < 0.3: p["older"] = "same" if rng.random() < 0.5 else rng.choice(corpus)   # the directory holds an older conversion
    if rng.random() < 0.2: p["far"] = [rng.choice([-1, 1]) * 10 ** rng.randint(2, 6), rng.choice([-1, 1]) * 10 ** rng.randint(2, 6)]
    if rng.random() < 0.25: p["many"] = rng.randrange(1, 10 ** 6)         # many boundary markers
    name = rng.choice(FILES + ("tqmesh.foam", "in.txt", ""))
    k = rng.randrange(10); p["mode"] = ["plain", "plain", "soft", "soft", "fault", "fault", "fault", "trunc", "kill", "kill"][k]
    E = ["EIO", "ENOSPC", "EACCES", "EDQUOT"]; f = []
    if p["mode"] == "soft":
        p["chunk"] = 1 if rng.random() < 0.05 else rng.choice([rng.randint(8, 90), rng.randint(50, 3000)]); p["cseed"] = rng.randrange(10 ** 6)
        if rng.random() < 0.5: f.append({"op": rng.choice(["read", "write"]), "match": "", "kind": "short", "nth": rng.randint(0, 4), "arg": rng.randint(1, 3000), "repeat": rng.randint(1, 5)})
    elif p["mode"] == "fault":
        j = rng.randrange(6)
        if j == 0: f.append({"op": "open", "match": name, "kind": rng.choice(["EACCES", "EMFILE", "ENOSPC", "EIO"]), "nth": rng.choice([0, 0, 0, 1])})
        elif j == 1: f.append({"op": "read", "match": "in.txt", "kind": rng.choice(["EIO", "EACCES"]), "nth": rng.randint(0, 3)})
        elif j == 2: f.append({"op": "write", "match": name, "kind": rng.choice(E + ["torn"]), "nth": rng.choice([0, 0, 1, 2]), "arg": rng.randint(0, 9000)})
        elif j == 3: f.append({"op": "close", "match": name, "kind": rng.choice(E)})
        elif j == 4: f.append({"op": "mkdir", "match": "", "kind": rng.choice(E), "nth": rng.randint(0, 2)})
        else: p["disk"] = rng.randint(0, 30000)
        if rng.random() < 0.5: p["chunk"] = rng.randint(60, 4000); p["cseed"] = rng.randrange(10 ** 6)
    elif p["mode"] == "trunc": p["permille"] = rng.randrange(1000)
    elif p["mode"] == "kill":
        f.append({"op": rng.choice(["write", "write", "write", "open", "close", "mkdir"]), "match": rng.choice(FILES + ("",)), "kind": "kill", "nth": rng.choice([0, 0, 1, 3]), "arg": rng.randint(0, 9000)})
        if f[0]["op"] == "mkdir": f[0]["match"] = ""
    p["faults"] = f; return p

def restyle(text, p):
    """same mesh: comment lines; other valid meshes: shifted coordinates, more boundary markers"""
    L = text.split("\n")
    if "far" in p or "many" in p:
        r = random.Random(p.get("many", 0)); sec = ""; left = 0; out = []
        for l in L:
            if left and sec == "VERTICES" and "far" in p: x, y = l.split(","); l = "%.5f,%.5f" % (float(x) + p["far"][0], float(y) + p["far"][1])
            elif left and sec == "BOUNDARYEDGES" and "many" in p: a = l.split(","); a[3] = "%4d" % r.randrange(0, 30); l = ",".join(a)
            if left: left -= 1
            else:
                a = l.split(" ")
                if a[0] in ("VERTICES", "BOUNDARYEDGES"): sec, left = a[0], int(a[1])
            out.append(l)
        L = out
    if p.get("comments"):
        r = random.Random(p["comments"]); out = L[:1]
        for l in L[1:]:
            if r.random() < 0.02: out.append(" " * r.randrange(3) + "# " + r.choice(["comment", "TRIANGLES 3", "MESH 9", "1,2,3"]))
            out.append(l)
        L = out
    return "\n".join(L)

def twist(text):
    """another mesh of exactly the same size in bytes: last digits of coordinates, numbering of element corners, order of markers"""
    out = []; sec = ""; left = 0
    for l in text.split("\n"):
        if left:
            left -= 1
            if sec == "VERTICES": l = ",".join(x[:-1] + str(int(x[-1]) % 9 + 1) if x[-1:].isdigit() and x[-1] != "0" else x for x in l.split(","))
            elif sec in ("QUADS", "TRIANGLES"): a = l.split(","); l = ",".join(a[1:-1] + a[:1] + a[-1:])
        else:
            a = l.split(" ")
            if len(a) > 1 and a[0] in ("VERTICES", "QUADS", "TRIANGLES"): sec, left = a[0], int(a[1])
        out.append(l)
    return "\n".join(out)

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with REAL_OPEN(path, "w") as f: f.write(text)
def own(n, base): return n == base + "/tqmesh.foam" or n.startswith(base + "/constant/polyMesh/") and n.split("/")[-1] in FILES
def others(before, after, base, what):
    for n in set(before) | set(after):
        if not own(n, base) and before.get(n) != after.get(n): raise Violation("other-file", "%s: the script changed %s" % (what, n))
def outputs(t, base): return {n: b for n, b in t.items() if n.startswith(base + "/constant/polyMesh/")}

def execute(p, tmp):
    text = restyle(p["mesh"], p); M = parse_txt(text); full = text + (p["after"] if p.get("after") else ""); LOG.count("mode_" + p["mode"]); ext = p["ext"]; args = ["in.txt", "case"] + (["-e", repr(ext)] if ext != 1.0 else [])
    def setup(n, content):
        d = os.path.join(tmp, n); put(d + "/in.txt", content); put(d + "/keep.txt", "keep"); put(d + "/case.bak/points", "keep")
        if p.get("older"):
            t = full; put(d + "/in.txt", twist(text) if p["older"] == "same" else p["older"]); convert(d, ["in.txt", "case"] + (args[2:] if p["older"] == "same" else [])); put(d + "/in.txt", content); LOG.count("fault_older_conversion_present")
        return d
    d = setup("a", full); before = tree(d); ref = convert(d, args); others(before, ref.files, "case", "undisturbed run"); LOG.states.add(hashlib.sha1(repr(sorted(outputs(ref.files, "case").items())).encode()).hexdigest()[:16])
    if ref.rc != 0: raise Violation("refused", "a complete mesh was not converted: exit status %s; %s" % (ref.rc, [e for e in ref.ev if e.startswith("raised")]))
    check_foam(M, ref.files, "case", ext)
    if p["mode"] == "plain": return
    if p["mode"] == "trunc":
        cut = full[:len(full) * p["permille"] // 1000]; e = setup("b", cut); b2 = tree(e); x = convert(e, args); LOG.count("fault_truncated_input"); others(b2, x.files, "case", "run with a truncated mesh")
        if x.rc == 0:
            LOG.count("probe_truncation_harmless")
            if outputs(x.files, "case") != outputs(ref.files, "case"): raise Violation("truncated-accepted", "the text mesh was cut after %d of %d bytes, but the script ends with exit status 0 and another mesh" % (len(cut), len(full)))
        return
    e = setup("b", full); b2 = tree(e); x = convert(e, args, p["faults"], p.get("disk"), p.get("chunk", 0), p.get("cseed", 1)); others(b2, x.files, "case", "run with faults")
    if p["mode"] == "kill":
        if x.killed: LOG.count("kill_during_conversion")
        y = convert(e, args)
        if y.rc != ref.rc or outputs(y.files, "case") != outputs(ref.files, "case"): raise Violation("restart-differs", "after a kill and a repeated run the result differs (exit status %s)" % y.rc)
        return
    if x.rc == 0 and outputs(x.files, "case") != outputs(ref.files, "case"): raise Violation("false-success", "exit status 0 although %d calls failed and the result differs" % x.hard)
    if x.rc != 0 and x.hard == 0: raise Violation("false-failure", "exit status %s although every call succeeded (short reads and writes only)" % x.rc)
    LOG.count("probe_fault_reported" if x.rc else "probe_fault_free_or_harmless")

def run_plan(p):
    global LOG
    LOG = Log(); tmp = tempfile.mkdtemp(prefix="tqsim.foam.", dir="/tmp"); cls = msg = ""
    try: execute(p, tmp)
    except Violation as v: cls, msg = v.cls, v.msg
    finally: shutil.rmtree(tmp, ignore_errors=True)
    LOG.event("result " + (cls or "ok")); return cls, msg, LOG.h.hexdigest()[:16]

# ---------------------------------------------------------------- driver
def dump(p, head): return "".join("# " + h + "\n" for h in head) + "property C20\n" + json.dumps(p, indent=0) + "\n"
def load(f):
    t = REAL_OPEN(f).read(); return json.loads(t[t.index("{"):])
def corpus():
    d = os.environ["TQ_CORPUS"]; return [REAL_OPEN(os.path.join(d, f)).read() for f in sorted(os.listdir(d))]
def worker(seed, first, count, cap, w, W, out, C):
    t0 = time.time(); runs = nt = ev = 0; counts = {}; hashes = set(); states = set(); vio = []; sample = ""
    for i in range(first + w, first + count, W):
        if time.time() - t0 > cap or os.path.exists(out + "/stop"): break
        p = gen(random.Random("%d/C20/%d" % (seed, i)), C); cls, msg, h = run_plan(p); runs += 1; ev += LOG.n
        if h not in hashes and LOG.n >= 3: nt += 1
        hashes.add(h); states |= LOG.states
        for k, v in LOG.counts.items(): counts[k] = counts.get(k, 0) + v
        if not sample and not cls: q = dict(p, mesh=p["mesh"][:200] + "..."); q.pop("after", 0); q.pop("older", 0); sample = json.dumps(q) + "\n=> events %d hash %s\n" % (LOG.n, h)
        if cls:
            f = "%s/v%d.plan" % (out, i); put(f, dump(p, ["class " + cls, "seed %d run %d" % (seed, i), msg[:600]])); vio.append("%d\t%s\t%s\t%s" % (i, cls, f, msg[:600].replace("\n", " "))); put(out + "/stop", "1"); break
    put("%s/worker%d.json" % (out, w), json.dumps({"runs": runs, "nontrivial": nt, "events": ev, "wall": time.time() - t0, "counts": counts, "hashes": sorted(hashes), "states": sorted(states), "sample": sample, "violations": vio}))

def minimise(p, cls, cap):
    t0 = time.time(); same = lambda q: time.time() - t0 < cap and run_plan(q)[0] == cls
    for k in ("after", "older", "comments", "far", "many", "disk", "chunk"):
        if k in p:
            q = {a: b for a, b in p.items() if a != k}
            if same(q): p = q
    if p["faults"]:
        q = dict(p, faults=[])
        if same(q): p = q
    if p["mode"] != "plain":
        q = dict(p, mode="plain")
        if same(q): p = q
    if os.environ.get("TQ_CORPUS"):
        for m in sorted(corpus(), key=len):
            if len(m) >= len(p["mesh"]) or time.time() - t0 > cap: break
            q = dict(p, mesh=m)
            if same(q): p = q; break
    for f in p["faults"]:
        for k in ("nth", "arg", "repeat"):
            for v in (0, 1, f.get(k, 0) // 2):
                old = f.get(k)
                if old is None or v >= old: continue
                f[k] = v
                if same(p): break
                f[k] = old
    return p

def main(a):
    os.environ.setdefault("PYTHONHASHSEED", "0")
    if os.environ.get("TQ_FOAM_CHILD") != "1":      # one hash seed for all processes
        os.environ["PYTHONHASHSEED"] = "0"; os.environ["TQ_FOAM_CHILD"] = "1"; os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"; os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + a)
    try: import numpy                                   # loaded once, shared by all simulated processes
    except ImportError: pass
    import argparse
    if a[0] == "run":
        seed, first, count, cap, W, out = int(a[2]), int(a[3]), int(a[4]), float(a[5]), int(a[6]), a[7]; os.makedirs(out, exist_ok=True); C = corpus(); ps = []
        for w in range(W):
            pid = os.fork()
            if pid == 0:
                rc = 0
                try: worker(seed, first, count, cap, w, W, out, C)
                except BaseException: traceback.print_exc(); rc = 3
                sys.stderr.flush(); os._exit(rc)
            ps.append(pid)
        return max(os.waitstatus_to_exitcode(os.waitpid(x, 0)[1]) for x in ps)
    p = load(a[1]); cls, msg, h = run_plan(p); lines = LOG.lines; n = LOG.n; cl2, _, h2 = run_plan(p)
    if a[0] == "replay":
        if len(a) > 2: print("\n".join(lines))
        print("events %d hash %s %s" % (n, h, "deterministic" if (cls, h) == (cl2, h2) else "NOT-DETERMINISTIC")); print("result " + (cls or "ok"))
        if cls: print("message " + msg)
        return 4 if (cls, h) != (cl2, h2) else 1 if cls else 0
    if a[0] == "min":
        if not cls or (cls, h) != (cl2, h2): print("unstable"); return 4
        q = minimise(p, cls, float(a[3])); c, m, _ = run_plan(q); put(a[2], dump(q, ["class " + c, m[:900], "event log of the replay:"] + ["  " + x for x in LOG.lines[-120:]])); print("class " + c); return 0
    return 3
if __name__ == "__main__": sys.exit(main(sys.argv[1:]))
