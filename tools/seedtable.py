#!/usr/bin/env python3
"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
s = s.split("\n## 5. ")[0].rstrip() + "\n"
s += """
## 5. Planted changes and what catches them

Each change in `seeded/` compiles, passes the stable tests and has a demonstration; each is caught by the quick check of the
property it breaks (`tools/seedtest.sh`), within the first case(s) of the default seed.

| change | caught by | what it breaks |
|---|---|---|
"""
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); s += f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} |\n"
open(p, "w").write(s)
