#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py, properties.jsonl and the commits in /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import specs
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = getattr(specs, "NOT_APPLICABLE", {})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("verif hooks")]
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "hooks": {"guard": "IOX_VERIF_HOOKS",
               "enable": "tools/check.py configures /repo out of tree with -DIOX_VERIF_HOOKS and -I/verif/harness/hooks (the wrapper header); the normal build does not define it",
               "source_commits": hooks[::-1]},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in specs.SPECS:
        s = specs.SPECS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i,
                            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": s["technique"], "level": s["level"],
                            "level_note": s["note"] + (" Assumes: " + "; ".join(s["assumptions"]) if s["assumptions"] else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet: the machinery for this property is under construction, no claim is made")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not claimed")
