"""Rewrites the table of seeded changes at the end of DESIGN.md."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
f = os.path.join(root, "DESIGN.md")
s = open(f).read()
mark = "| change | caught by | what it breaks |\n|---|---|---|\n"
s = s[:s.index(mark)] + mark
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    s += "| %s | %s | %s |\n" % (d, m.get("caught_by", m["property"]), m["what_it_breaks"].replace("|", "\\|").replace("\n", " "))
open(f, "w").write(s)
