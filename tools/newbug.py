#!/usr/bin/env python3
"""newbug.py ID PROPERTY: takes the uncommitted change of the scratch worktree (default /tmp/wt) plus /tmp/demo.py, needs.txt/breaks.txt
given on stdin as two lines (needs / what it breaks), and writes /verif/seeded/ID.  Resets the worktree afterwards."""
import os, shutil, subprocess, sys, json
ID, PROP = sys.argv[1:3]
WT = os.environ.get("WT", "/tmp/wt")
needs, breaks = [l for l in sys.stdin.read().strip().split("\n")][:2]
d = subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE, check=True).stdout
assert d, "no change"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = V + "/seeded/" + ID
os.makedirs(o, exist_ok=True)
open(o + "/patch.diff", "wb").write(d)
shutil.copy("/tmp/demo.py", o + "/demo.py")
shutil.copy(V + "/tools/demo/mini.py", o + "/mini.py")
open(o + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n'); os.chmod(o + "/demo.sh", 0o755)
json.dump({"property": PROP, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
print("wrote", o)
