"""Writes the table of planted bugs into DESIGN.md."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s quick |" % (f.split("/")[1], m["needs"], m["what_it_breaks"], m["property"]))
s = open("DESIGN.md").read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
