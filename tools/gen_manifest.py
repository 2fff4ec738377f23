#!/usr/bin/env python3
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
import sys; sys.path.insert(0, V); sys.dont_write_bytecode = True
from tools.levels import LEVELS, NOT_APPLICABLE
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if hasattr(props, i) and i in LEVELS:
        tech, note = LEVELS[i]
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i,
                       "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in commits if "hook" in l.lower() and not l.split(" ", 1)[1].startswith("fix:")]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "--cfg baokeshed_verif", "enable": "RUSTFLAGS='--cfg baokeshed_verif' cargo build (the checks do this themselves)", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds what it needs from /repo's working tree into /verif/.build. Exit 2 means no verdict."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
