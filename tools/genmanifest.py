#!/usr/bin/env python3
"""Writes MANIFEST.json from mc/registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/mc")
import registry
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks = []; na = []
for p in props:
    i = p["id"]; c = registry.CHECKS.get(i)
    if not c: na.append(dict(property=i, reason="the check for this property is not finished")); continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"],
        level_note="Exhaustive within: " + c["bounds"] + ". Every execution runs the code built from /repo. Trusted: " + "; ".join(c["assumptions"])))
m = dict(version=1, setup_cmd="true", hooks=dict(guard="BIGFILE_VERIF_NONE", enable="no hooks: the checks use the public interface, the files and the libraries the code is linked with", source_commits=[]),
         checks=checks, not_applicable=na, notes="see DESIGN.md")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
