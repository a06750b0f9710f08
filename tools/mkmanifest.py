#!/usr/bin/env python3
"""Regenerate /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS, NOT_APPLICABLE, HOOKS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check compiles /repo/src with Kani on each run, decides its harnesses with CBMC and cadical within the bounds in the evidence file, and replays any counterexample natively before reporting it. Exit 2 means no verdict (bound exceeded, timeout, build failure, or a counterexample that does not reproduce). See DESIGN.md.",
}
if HOOKS:
    m["hooks"] = HOOKS
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": CHECKS[i].get("technique", "bounded symbolic execution of the real Rust code (Kani/CBMC) with a SAT solver; counterexamples replayed natively"),
            "level": "model_checking",
            "level_note": "Holds for every input within: " + "; ".join(sorted({h["bounds"] for h in CHECKS[i]["harnesses"] if not h.get("thorough")}))
                + ". Outside: " + CHECKS[i].get("outside", "anything larger") + ". Trusts Kani/CBMC/cadical and the container, hibitset and rayon models in models/.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
