#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{n}/meta.json"))
    f = sorted(set(re.findall(r"^\+\+\+ b/include/boost/lockfree/(\S+)", open(f"{V}/seeded/{n}/patch.diff").read(), re.M)))
    rows.append((m["property"], n, ", ".join(f), m["what_it_breaks"], m["needs"]))
t = "| caught by | bug | file | breaks | needs |\n|---|---|---|---|---|\n" + "".join("| " + " | ".join(r) + " |\n" for r in sorted(rows))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
print(len(rows))
