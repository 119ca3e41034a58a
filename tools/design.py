"""Fill the table of planted bugs in DESIGN.md from seeded/."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["needs"], m["what_it_breaks"]))
table = "| property | change | needs | breaks |\n|---|---|---|---|\n" + "\n".join("| %s | %s | %s | %s |" % r for r in sorted(rows))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
if "@TABLE@" in s:
    s = s.replace("@TABLE@", "<!-- table -->\n" + table + "\n<!-- end -->")
s = re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: "<!-- table -->\n" + table + "\n<!-- end -->", s, flags=re.S)
s = re.sub(r"`seeded/` holds \S+ changes", "`seeded/` holds %d changes" % len(rows), s)
open(p, "w").write(s)
