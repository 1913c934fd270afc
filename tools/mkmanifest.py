#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks present and tools/notes.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(V + "/tools/notes.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    n = notes.get(i)
    if n and os.path.exists(V + "/checks/%s.py" % i):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                           technique=n["technique"], level="other", level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=(n or {}).get("na", "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/sanity.py", checks=checks, not_applicable=na,
               notes="All checks compile /repo's current headers to LLVM bitcode in a private temporary directory and analyse that; nothing of /repo is executed. See DESIGN.md."),
          open(V + "/MANIFEST.json", "w"), indent=1)
