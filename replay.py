#!/usr/bin/env python3
"""replay.py FILE [rel|asan] : rebuild the simulator from /repo and re-execute a replay file.
exit 1 if the recorded violation is reproduced, 0 if the run is clean."""
import sys, tempfile, shutil, subprocess
import build as B
from check import ENV
f = sys.argv[1]; v = sys.argv[2] if len(sys.argv) > 2 else "rel"
prop = next((l.split()[1] for l in open(f) if l.startswith("property ")), "")
if prop == "C20":
    sys.exit(subprocess.run(B.FOAMSIM + ["replay", f, "-v"], env=dict(ENV, TQ_REPO=B.REPO)).returncode)
d = tempfile.mkdtemp(prefix="tqreplay.", dir="/tmp")
try:
    exe = B.build(d, (v,), prop=prop)[v]
    sys.exit(subprocess.run([exe, "replay", f, "-v"], env=ENV).returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
