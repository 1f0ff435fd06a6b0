#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from config import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=c.get("technique", "runtime monitor with reference oracle over generated histories, under ASan+UBSan+LSan"),
            level="exploration", level_note=c["rule"]))
    else:
        na.append(dict(property=i, reason="monitor not built yet"))
m = dict(version=1, setup_cmd="python3 -c 'import config' && g++ --version", checks=checks)
if na:
    m["not_applicable"] = na
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
