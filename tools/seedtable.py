"""DESIGN.md: rewrites the table of planted bugs from seeded/*/meta.json (run by hand).  tools/caught.json: other checks known to catch a bug."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
cp = os.path.join(R, "tools", "caught.json")
caught = json.load(open(cp)) if os.path.exists(cp) else {}
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), caught.get(d, m["property"])))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
