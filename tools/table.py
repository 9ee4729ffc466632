#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
n = 0
for d in sorted(os.listdir(root + "/seeded")):
    p = json.load(open(f"{root}/seeded/{d}/meta.json"))["property"]
    by.setdefault(p, []).append(d)
    n += 1
p = root + "/DESIGN.md"
s = open(p).read()
a = s.index("| check | catches |")
b = s.index("\n\n", a)
s = s[:a] + "| check | catches |\n|---|---|\n" + "\n".join(f"| {k} | {', '.join(v)} |" for k, v in sorted(by.items())) + s[b:]
s = re.sub(r"\n\d+ bugs are kept", f"\n{n} bugs are kept", s)
open(p, "w").write(s)
