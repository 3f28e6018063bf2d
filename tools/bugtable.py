#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json; `missed` names those no check reports."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(sys.argv[1:])
rows = {}
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.setdefault(m["property"], []).append(i + (" (missed)" if i in missed else ""))
t = "<!-- bugs -->\n| Check | Planted changes |\n| --- | --- |\n" + "".join(f"| {p} | {', '.join(rows[p])} |\n" for p in sorted(rows)) + "<!-- /bugs -->"
f = V + "/DESIGN.md"
d = open(f).read()
d = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: t, d, flags=re.S)
open(f, "w").write(d)
