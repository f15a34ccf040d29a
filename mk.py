"""writes properties.jsonl and MANIFEST.json from propdefs.py"""
import json, os
from propdefs import P

H = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification: contracts on the real functions, obligations generated from rustc MIR and discharged by SMT"
with open(H + "/properties.jsonl", "w") as f:
    for i, p in sorted(P.items()):
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]], "mechanism": [dict(name=a, where=b) for a, b in p["mech"]], "observe_at": [], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt setup.py", "hooks": {"guard": "none", "enable": "no hooks: the contracts reach private functions through the MIR of their public callers", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i, "evidence_file": "evidence/%s.json" % i,
                 "technique": TECH, "level": p["level"], "level_note": (p["note"] + " Assumes: reals for f64 (rounding only exercised by execution), the contracts of std and dependencies in engine/models*.py, and the rqv engine itself.").strip()}
                for i, p in sorted(P.items()) if not p["na"]],
     "not_applicable": [{"property": i, "reason": p["na"]} for i, p in sorted(P.items()) if p["na"]]}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
