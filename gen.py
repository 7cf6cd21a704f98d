#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta.py and rules.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import meta, rules
ids = sorted(meta.P)
with open(V + "/properties.jsonl", "w") as f:
    for i in ids: f.write(json.dumps(meta.P[i], ensure_ascii=False) + "\n")
assert set(rules.PROPS) | set(meta.NA) == set(ids), (set(rules.PROPS) | set(meta.NA)) ^ set(ids)
checks = []
for i in ids:
    if i in meta.NA: continue
    r = rules.PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, technique=r.get("technique", rules.AI), level=r["level"], level_note=r["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[dict(property=i, reason=meta.NA[i]) for i in sorted(meta.NA)])
with open(V + "/MANIFEST.json", "w") as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(ids), "properties,", len(checks), "claimed")
