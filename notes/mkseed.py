#!/usr/bin/env python3
"""mkseed.py: reads a Python file defining ID, PROP, NEEDS, BREAKS, EDITS
[(file, old, new)], DEMO (text of demo.py) and writes /verif/seeded/<ID>"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
g = {}
exec(open(sys.argv[1]).read(), g)
D = os.path.join(os.path.dirname(H), "seeded", g["ID"])
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
for f in os.listdir(H + "/seedlib"):
    if f.endswith((".py", ".c")):
        shutil.copy(H + "/seedlib/" + f, D)
W = "/tmp/seedwt"
subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", W], stderr=subprocess.DEVNULL)
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W, "HEAD"])
for f, a, b in g["EDITS"]:
    s = open(W + "/" + f, encoding="latin-1").read()
    assert s.count(a) == 1, (f, s.count(a), a)
    open(W + "/" + f, "w", encoding="latin-1").write(s.replace(a, b))
p = subprocess.check_output(["git", "-C", W, "diff"])
open(D + "/patch.diff", "wb").write(p)
subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", W])
open(D + "/demo.py", "w").write(g["DEMO"])
open(D + "/demo.sh", "w").write('#!/bin/sh\nexec python3 "$(dirname "$0")/demo.py"\n')
os.chmod(D + "/demo.sh", 0o755)
json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(D + "/meta.json", "w"), indent=1)
