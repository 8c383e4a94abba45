#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(f"{V}/{p}").read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
orc = json.loads(rd("tools/oracles.json"))
res = json.loads(rd("tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
out = [rd("tools/design_head.md"), "## Properties\n"]
for p in props:
    i = p["id"]
    o, why = orc[i]
    out.append(f"### {i} {p['title']}\n\n{o}\n\n*Bounds.* {rd(f'harness/{i}/bounds.txt').strip()}\n")
    a = f"{V}/harness/{i}/assumptions.txt"
    if os.path.exists(a):
        out.append(f"*Assumes.* {open(a).read().strip()}\n")
    out.append(f"*Beyond tests.* {why}\n")
    fs = sorted({f for d, _, fl in os.walk(f"{V}/harness/{i}") for f in [os.path.relpath(os.path.join(d, x), V) for x in fl] if f.endswith(".go")})
    out.append("*Harnesses.* " + ", ".join(f"`{f}`" for f in fs) + "\n")
out.append(rd("tools/design_tail.md"))
out.append("## Planted bugs\n\nEach was written from the property's text and the code, confirmed (tests pass, demonstration fails) and then run against the quick check.\n\n| bug | what it breaks | quick check |\n|---|---|---|\n")
for s in sorted(os.listdir(V + "/seeded")):
    m = json.loads(rd(f"seeded/{s}/meta.json"))
    out[-1] += f"| {s} | {m['what_it_breaks']}; needs {m['needs']} | {res.get(s, 'not run')} |\n"
open(V + "/DESIGN.md", "w").write("\n".join(out))
