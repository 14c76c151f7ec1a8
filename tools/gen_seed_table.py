#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
t = "| property | change | what it breaks | needs |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows))
p = V + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda k: k.group(1) + t + k.group(2), s, flags=re.S)
open(p, "w").write(s); print(len(rows), "planted changes")
