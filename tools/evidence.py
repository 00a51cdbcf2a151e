#!/usr/bin/env python3
"""evidence.py ID rule replay: the evidence of a run that ended before exploring (generated or derived code does not compile)."""
import json, os, sys
pid, rule, replay = sys.argv[1:4]
root = os.environ.get("VERIF_ROOT", os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
text = open(replay).read()
json.dump({
    "property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
    "level": "model_checking",
    "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "exhaustive": False, "rule": rule,
                 "samples": [text[-1500:]]},
    "assumptions": [], "wall_s": 0, "violations": 1,
}, open(os.path.join(root, "evidence", pid + ".json"), "w"), indent=1)
