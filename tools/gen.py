#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py and lib/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import props, registry
out = []
checks = []
for p in props.PROPS:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    assert p["id"] in registry.CHECKS, p["id"]
    q = {k: v for k, v in p.items() if k not in ("technique", "level_note")}
    out.append(json.dumps(q))
    checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": registry.CHECKS[p["id"]]["level"], "level_note": p["level_note"]})
open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(out) + "\n")
man = {"version": 1, "setup_cmd": "true",
       "hooks": {"guard": "none", "enable": "No hooks were added to the repository: the harnesses substitute the random engine and the synchronisation primitives with forced includes when they compile /repo's unmodified sources.", "source_commits": []},
       "checks": checks, "not_applicable": props.NOT_APPLICABLE, "notes": props.NOTES}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
