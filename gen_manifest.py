#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json, os
from catalog import CATALOG, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for i, c in sorted(list(CATALOG.items()) + list(NOT_APPLICABLE.items())):
        assert len(c["title"]) <= 80, (i, len(c["title"]))
        f.write(json.dumps({"id": i, "title": c["title"], "statement": c["statement"], "quantifier": {"over": c["quant"][0], "text": c["quant"][1]}, "why_tests_cant": c["why"],
            "anchors": {"files": c["files"], "mechanism": [{"name": n, "where": w} for n, w in c["mech"]], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c 'import build' && g++ --version >/dev/null",
     "hooks": {"guard": "none (TQSIM is reserved; no hook was needed: the simulator interposes libc and allocator symbols and uses the size-function callback)", "enable": "no define is needed; checks compile /repo's headers and sources as they are", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "technique": "deterministic simulation with fault injection: " + c.get("tech", "seeded search over operation histories and fault schedules against a reference model"), "level": c["level"], "level_note": c["note"]} for i, c in sorted(CATALOG.items())],
     "not_applicable": [{"property": i, "reason": c["reason"]} for i, c in sorted(NOT_APPLICABLE.items())],
     "notes": "Known findings: known_findings.json. Replays: 'python3 replay.py FILE' rebuilds the simulator and re-executes a replay file."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
