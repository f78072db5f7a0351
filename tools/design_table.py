#!/usr/bin/env python3
"""Replaces the properties section of DESIGN.md by what the harnesses say (their Bound calls)."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
how = json.load(open(root + "/tools/how.json"))
fn = {}
for f in sorted(glob.glob(root + "/harness/*/*.go")):
    src = open(f).read()
    for m in re.finditer(r"(?ms)^// (C\d+_\w+) (.*?)\n(?://.*\n)*func C\d+_\w+\(\) \{\n(.*?)^\}", src):
        b = re.findall(r'zz\.Bound\("([^"]*)", "((?:[^"\\]|\\.)*)"\)', m.group(3))
        fn.setdefault(m.group(1)[:3], []).append((m.group(1), m.group(2), b, os.path.relpath(f, root)))
out = ["## Properties", "", "Generated by `tools/design_table.py` from the harnesses.", ""]
for p in props:
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    if i in how: out += [how[i], ""]
    for n, d, b, f in fn.get(i, []):
        out.append(f"* `{n}` ({f}) {d}")
        for k, v in b:
            out.append(f"  Bound: {v}.")
    if i not in fn: out.append("* no check yet")
    out.append("")
s = open(root + "/DESIGN.md").read()
a = s.index("## Properties\n")
b = s.find("\n## ", a + 5)
rest = s[b + 1:] if b >= 0 else ""
open(root + "/DESIGN.md", "w").write(s[:a] + "\n".join(out) + "\n" + rest)
