#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/plans.py and properties.jsonl (development helper)."""
import json, os, sys, subprocess
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H + "/lib")
import plans
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^verif:"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": plans.META[i][0], "level": "exploration", "level_note": plans.META[i][1]})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "--cfg dcp_verif (rustc cfg)",
     "enable": "RUSTFLAGS=\"--cfg dcp_verif\" cargo build in /verif/harness, which has a path dependency on /repo",
     "source_commits": hook}, "checks": checks, "not_applicable": na,
     "notes": "All checks are run by check.py; a violation's replay file is re-run with: python3 check.py <id> --replay <file>"}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
