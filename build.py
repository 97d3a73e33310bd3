"""Builds the simulator from /repo's current working tree into a scratch directory."""
import os, subprocess, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TQ_REPO", "/repo")
SRC = ["hooks", "world", "session", "main", "registry", "props_mesh", "props_io", "props_fault", "props_data"]
# the command line application is compiled only for the checks that drive it
APP_PROPS = ("C03", "C04")
APP_SRC = ["props_app"]
DOM_PROPS = ("C21",)
EXPRTK = ["-DTQMESH_USE_EXPRTK", "-Dexprtk_disable_string_capabilities", "-Dexprtk_disable_rtl_io", "-Dexprtk_disable_rtl_io_file", "-Dexprtk_disable_rtl_vecops", "-Dexprtk_disable_return_statement", "-Dexprtk_disable_enhanced_features"]

INIT_SYM = "_Z18init_size_functionRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
CONFIG_H = """#pragma once
#define TQMESH_VERSION_MAJOR 1
#define TQMESH_VERSION_MINOR 0
#define TQMESH_SOURCE_DIR "%s"
"""

_vt = "/opt/veriftools/pyvenv/bin/python3"
FOAMSIM = [_vt if os.path.exists(_vt) else "python3", os.path.join(VERIF, "sim", "foamsim.py")]   # the conversion script needs numpy

class BuildError(Exception):
    pass

def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])

def build(out, variants=("rel", "asan"), jobs=8, prop=""):
    """variants: rel (simulated heap), asan (AddressSanitizer on the real heap). Returns {variant: path}."""
    inc = os.path.join(out, "include")
    os.makedirs(inc, exist_ok=True)
    with open(os.path.join(inc, "TQMeshConfig.h"), "w") as f:
        f.write(CONFIG_H % REPO)
    app = prop in APP_PROPS
    incs = ["-I" + inc] + ["-I" + os.path.join(REPO, "src", d) for d in ("utils", "algorithm", "extern_libs", "app")] + ["-I" + os.path.join(VERIF, "sim")]
    flags = {
        "rel": ["-std=c++17", "-O2", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
        "asan": ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address", "-fno-omit-frame-pointer"],
    }
    sim = os.path.join(VERIF, "sim"); rapp = os.path.join(REPO, "src", "app")
    srcs = [s for s in SRC if os.path.exists(os.path.join(sim, s + ".cpp"))] + (APP_SRC if app else []) + (["props_domain"] if prop in DOM_PROPS else [])
    order = ["session", "props_app", "props_domain", "props_io", "props_fault", "world"]   # longest translation units first
    srcs.sort(key=lambda s: order.index(s) if s in order else 99)
    res = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = []; extra = []
        if app:
            o = os.path.join(out, "app_size.o"); extra.append(o)
            futs.append(ex.submit(_run, ["g++", "-std=c++17", "-O0", "-g0"] + EXPRTK + incs + ["-c", os.path.join(rapp, "size_function.cpp"), "-o", o]))
        objs = {}
        for v in variants:
            d = os.path.join(out, v); os.makedirs(d, exist_ok=True); objs[v] = []
            if app:
                o = os.path.join(d, "app_main.o"); objs[v].append(o)
                futs.append(ex.submit(_run, ["g++"] + flags[v] + EXPRTK + ["-Dmain=tqmesh_app_main"] + incs + ["-c", os.path.join(rapp, "main.cpp"), "-o", o]))
            for s in srcs:
                o = os.path.join(d, s + ".o"); objs[v].append(o)
                futs.append(ex.submit(_run, ["g++"] + flags[v] + (["-DTQ_APP"] if app else []) + (["-DTQ_DOM"] if prop in DOM_PROPS else []) + incs + ["-c", os.path.join(sim, s + ".cpp"), "-o", o]))
        for f in futs:
            f.result()
        for v in variants:
            exe = os.path.join(out, v, "tqsim")
            _run(["g++"] + (["-fsanitize=address"] if v == "asan" else []) + (["-Wl,--wrap=" + INIT_SYM] if app else []) + objs[v] + extra + ["-o", exe, "-ldl", "-lpthread"])
            res[v] = exe
    return res
