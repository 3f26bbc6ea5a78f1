#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
from config import CHECKS, NOTE
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
DEF = ("Every path of the real code (LLVM IR of /repo's current sources, compiled with the harness) through the listed entry points is executed "
       "symbolically and each assertion decided by z3 for all values within the bounds in tools/config.py; a counterexample is replayed natively before it is reported. "
       "Trusted: the executor, z3, rustc, the models of libc and of the terminal. Nothing is claimed outside the bounds; a run that hits its time limit says so in its evidence.")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "engine/: symbolic executor for LLVM IR. harness/: entry points, environment and terminal models. native/: replay of counterexamples. check.py: runner. No hooks in /repo are needed."}
for p in props:
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --thorough",
            "technique": "symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3), bounded", "level": "model_checking",
            "level_note": NOTE.get(p, "") + DEF})
    else:
        m["not_applicable"].append({"property": p, "reason": "not claimed yet: its check is being built"})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
