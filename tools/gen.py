#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.json and checks/*.py."""
import glob, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.load(open(p)) for p in sorted(glob.glob(V + "/props/*.json"))]
checks, na = [], []
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        extra = p.pop("_check", {})
        f.write(json.dumps(p) + "\n")
        if os.path.exists("%s/checks/%s.py" % (V, p["id"].lower())):
            checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
                           "thorough_cmd": "python3 run.py %s --thorough" % p["id"],
                           "technique": extra.get("technique", "TLA+ specification model-checked with TLC; traces recorded from the real code validated against it by TLC"),
                           "level": "model_checking",
                           "level_note": extra.get("note", "Design model exhaustive within its bounds; conformance on generated behaviours replayed into the code built from /repo.")})
        else:
            na.append({"property": p["id"], "reason": extra.get("reason", "no check built")})
json.dump({"version": 1, "setup_cmd": "python3 -m vf.build", "hooks": {"guard": "VERIF_HOOKS", "enable": "not used: the checks need no hook in /repo", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
