"""Writes MANIFEST.json: the claimed checks and the rest."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "gen"))
import checks  # noqa: E402
from notes import NOTES  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 run.py setup",
       "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, n = NOTES[i]
        out["checks"].append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "env VERIF_TIER=thorough python3 run.py %s" % i,
                              "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        out["not_applicable"].append({"property": i, "reason": "check not built yet"})
out["notes"] = ("Specification in TLA+ (spec/), checked with TLC; the real code is bound to it by a generated Rust harness (harness/) whose recorded "
                "behaviours TLC checks, and by replay of behaviours TLC enumerates. No hooks in /repo are needed.")
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
