"""Prints the table of planted bugs for DESIGN.md."""
import json, os, re
d = os.path.join(os.path.dirname(__file__), "..", "seeded")
rows = ["| bug | property | needs |", "|---|---|---|"]
for n in sorted(os.listdir(d)):
    j = json.load(open(os.path.join(d, n, "meta.json")))
    rows.append("| %s | %s | %s |" % (n, j["property"], j["needs"]))
p = os.path.join(d, "..", "DESIGN.md")
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("@SEEDS@", t) if "@SEEDS@" in s else re.sub(r"(?s)<!-- seeds -->.*<!-- end -->", lambda m: t, s)
open(p, "w").write(s)
