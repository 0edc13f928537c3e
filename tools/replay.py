#!/usr/bin/env python3
"""replay.py FILE: rebuilds the harness against /repo and runs exactly the case recorded in FILE."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

f = os.path.abspath(sys.argv[1])
r = json.load(open(f))
if r["check"] == "Y01":
    sys.exit(subprocess.call([sys.executable, os.path.join(check.ROOT, "tools", "check_py.py"), "replay", f]))
profile = r.get("profile", "release")
binaries = check.build(r["check"], [profile])
if binaries is None or profile not in binaries:
    sys.exit(2)
vh = binaries[profile]
sys.exit(subprocess.call([vh, "replay", f], env=check.cargo_env()))
