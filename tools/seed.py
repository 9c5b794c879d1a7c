#!/usr/bin/env python3
"""seed.py FILE.py: make planted changes under /verif/seeded from a list of definitions.
Each definition: seed(id, property, file, old, new, needs, breaks, check_py)."""
import json, os, shutil, subprocess, sys
R, S, D = "/repo", "/verif/seeded", os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo")
ONLY = sys.argv[2:]
def seed(id, prop, edits, needs, breaks, check, files=None, template=D, head="from vp import *\n"):
    if ONLY and id not in ONLY: return
    d = os.path.join(S, id)
    subprocess.check_call(["git", "-C", R, "diff", "--quiet"])
    for f, old, new in edits:
        p = os.path.join(R, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    patch = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(template, d)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "check.py"), "w").write(head + check)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for n, t in (files or {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True); open(os.path.join(d, n), "w").write(t)
    print("made", id)
def seed_py(*a, **k): seed(*a, template=D + "_py", head="", **k)
exec(open(sys.argv[1]).read())
