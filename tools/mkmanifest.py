#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the checks that exist."""
import importlib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        m = importlib.import_module(i.lower())
        checks.append(dict(property=i, quick_cmd="python3 bin/check %s --tier quick" % i, thorough_cmd="python3 bin/check %s --tier thorough" % i,
                           technique=getattr(m, "TECHNIQUE", "bounded exhaustive enumeration on the real code against a reference model"),
                           level=m.LEVEL, level_note=m.NOTE if hasattr(m, "NOTE") else m.RULE, evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
man = dict(version=1, setup_cmd="python3 bin/setup", hooks=dict(guard="(none)", enable="no hooks: the checks drive the unmodified sources", source_commits=[]), checks=checks, not_applicable=na)
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
