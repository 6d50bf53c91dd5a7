#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md: seedtable.py RESULTS, the output of seed.py -c."""
import json, glob, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    cur = None
    for l in open(f):
        m = re.match(r"(\S+) -> ", l)
        if m: cur = m.group(1)
        m = re.match(r"\s+(\w\d\d): (CAUGHT|missed)(.*)", l)
        if m and cur:
            ph = sorted(set(re.findall(r"\.(plain|pert|race)\.", m.group(3))))
            res.setdefault(cur, {})[m.group(1)] = (m.group(2) == "CAUGHT", ph)
rows = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    c = [f"{p} ({'/'.join(ph)})" for p, (ok, ph) in res.get(i, {}).items() if ok]
    rows.append(f"| {i} | {m['needs']} | {m['what_it_breaks']} | {', '.join(c) or ('**missed**' if i in res else '?')} |")
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
