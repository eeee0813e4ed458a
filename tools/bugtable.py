"""Rewrites the table of planted bugs in DESIGN.md from a log of trybugs.sh."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
row = {}
for name in sys.argv[1:]:
  for l in open(name):
    m = re.match(r"(CAUGHT|MISSED) (\S+) by (C\d+)", l)
    if not m:
      continue
    cls = re.search(r"violation class: (\S+)", l)
    run = re.search(r"run (\d+) of seed", l)
    row[m[2]] = (f"| {m[2]} | {m[3]} | {cls[1]} | {run[1]} |" if cls and run else
                 f"| {m[2]} | {m[3]} | missed | |")
have = sorted(os.listdir(os.path.join(V, "seeded")))
out = ["| planted bug | check | reported as | run |", "|---|---|---|---|"]
for b in have:
  p = json.load(open(os.path.join(V, "seeded", b, "meta.json")))["property"]
  out.append(row.get(b) or f"| {b} | {p} | not run since it was filed | |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i = s.index("1 that finds it in the quick tier:\n") + len(
    "1 that finds it in the quick tier:\n")
open(p, "w").write(s[:i] + "\n" + "\n".join(out) + "\n")
print(len(have), "bugs", sum(b not in row for b in have), "not run")
