# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, n)))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], m["property"]))
p = H + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
