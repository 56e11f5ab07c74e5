#!/usr/bin/env python3
"""Writes levels.json and MANIFEST.json from the table below."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
T = {}


def claim(pid, level, functions, explanation, assumptions=()):
    T[pid] = dict(level=level, functions=functions, explanation=explanation, assumptions=list(assumptions))


exec((V / "tools" / "claims.py").read_text())

ids = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
(V / "levels.json").write_text(json.dumps(T, indent=1) + "\n")
TECH = "contracts on the real functions discharged by Kani/CBMC (symbolic, function by function), counterexamples replayed natively"
m = dict(
    version=1,
    setup_cmd="bash tools/setup.sh",
    checks=[dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", technique=TECH, level=T[i]["level"], level_note=T[i]["explanation"]) for i in ids if i in T],
    not_applicable=[dict(property=i, reason="contracts for this property are not written yet") for i in ids if i not in T],
)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
