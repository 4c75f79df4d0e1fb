"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, re
V = __file__.rsplit("/", 2)[0]
rows = []
for d in ("seeded", "seeded_lisp"):
    for f in sorted(glob.glob("%s/%s/*/meta.json" % (V, d))):
        m = json.load(open(f))
        rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"], m.get("caught_by", m["property"])))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- planted -->.*<!-- end planted -->", lambda _: "<!-- planted -->\n| bug | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- end planted -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
print(len(rows))
