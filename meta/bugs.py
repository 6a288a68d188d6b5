"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, os, re
rows = ["| planted bug | check that catches it | what it breaks |", "|---|---|---|"]
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d.get("caught_by", d["property"]), d["what_it_breaks"].replace("|", "/").replace("\n", " ")))
s = open("DESIGN.md").read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda m: "<!-- bugs -->\n%s\n<!-- /bugs -->" % "\n".join(rows), s, flags=re.S)
open("DESIGN.md", "w").write(s)
