#!/usr/bin/env python3
"""Refresh the planted-bug table in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
rows = ["| planted change | property = catching check | needs |", "|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d)); rows.append(f"| {os.path.basename(os.path.dirname(d))}: {m['what_it_breaks']} | {m['property']} (quick) | {m['needs']} |")
s = open("/verif/DESIGN.md").read()
t = "<!--seeds-->\n" + "\n".join(rows) + "\n<!--/seeds-->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!--seeds-->.*?<!--/seeds-->", lambda _: t, s, flags=re.S)
open("/verif/DESIGN.md", "w").write(s)
