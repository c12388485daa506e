#!/usr/bin/env python3
"""Refreshes the seed table of DESIGN.md (section 6)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | caught by |", "|----|----|----|----|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d))); rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
s = open(V + "/DESIGN.md").read(); s = re.sub(r"(## 6\. Which check catches which planted bug\n).*?(\n## 7\.)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s, flags=re.S); open(V + "/DESIGN.md", "w").write(s)
