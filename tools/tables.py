#!/usr/bin/env python3
"""Author-side: fill the tables of DESIGN.md (defects repaired, planted bugs) from known_findings.txt and seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fx, by = [], {}
for l in open(V + "/known_findings.txt"):
    if l.startswith("fixed:"):
        _, pr, h, w = l.split(None, 3)
        fx.append((pr.split("=")[1], h, w.strip()))
for i in sorted(os.listdir(V + "/seeded")):
    by.setdefault(json.load(open(f"{V}/seeded/{i}/meta.json"))["property"], []).append(i)
t = {"fixes": f"{len(set(h for _, h, _ in fx))} `fix:` commits.\n\n| property | what was wrong |\n|---|---|\n" + "\n".join(f"| {a} | {w} ({h}) |" for a, h, w in sorted(fx)),
     "bugs": f"{sum(map(len, by.values()))} bugs.\n\n| check | planted bugs it catches |\n|---|---|\n" + "\n".join(f"| {a} | {', '.join(b)} |" for a, b in sorted(by.items()))}
s = open(V + "/DESIGN.md").read()
for k, v in t.items():
    s = re.sub(f"<!-- {k} -->.*?<!-- /{k} -->", lambda m: f"<!-- {k} -->\n{v}\n<!-- /{k} -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
