#!/usr/bin/env python3
"""Adds rows for planted bugs missing in DESIGN.md's table. usage: planted_table.py [ids missed at first ...]"""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + "/DESIGN.md"
s = open(p).read()
rows = ""
for i in sorted(os.listdir(root + "/seeded")):
    if f"| `{i}` |" in s: continue
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows += f"| `{i}` | {m['property']} | {m['needs']} | {'no' if i in sys.argv[1:] else 'yes'} |\n"
last = [m.end() for m in re.finditer(r"^\| `[^`]+` \| C\d\d \|.*\n", s, re.M)][-1]
open(p, "w").write(s[:last] + rows + s[last:])
