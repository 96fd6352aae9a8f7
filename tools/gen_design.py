#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(m)); rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
rows.sort()
t = "\n".join("- %s `%s`: %s (needs: %s)" % r for r in rows)
f = H + "/DESIGN.md"; s = open(f).read()
s = re.sub(r"(<!-- seeded -->\n).*?(\n<!-- end -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(f, "w").write(s); print(len(rows), "planted bugs")
