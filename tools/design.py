#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, the seeds and the known findings."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = ["| change | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    seeds.append(f"| {f.split('/')[-2]} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
fixed, known = [], []
for l in open(V + "/known_findings.txt"):
    if m := re.match(r"fixed: property=(\w+) (\w+) (.*)", l):
        fixed.append(f"* {m[1]} `{m[2]}` {m[3]}")
    if m := re.match(r"KNOWN property=(\w+) key=(\S+) (.*)", l):
        known.append(f"* {m[1]} *{m[2]}*: {m[3]}")
s = open(V + "/tools/DESIGN.in.md").read()
for k, v in (("SEEDS", seeds), ("FIXED", sorted(fixed)), ("KNOWN", known)):
    s = s.replace(f"@{k}@", "\n".join(v))
s = s.replace("32 were repaired", f"{len(fixed)} were repaired")
open(V + "/DESIGN.md", "w").write(s)
