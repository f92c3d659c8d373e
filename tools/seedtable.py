"""Rewrites the table of planted bugs in DESIGN.md from seeded/ and seeded_more/."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs |", "|---|---|---|"]
for p in sorted(glob.glob(H + "/seeded*/*/meta.json"), key=lambda p: p.split("/")[-2]):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"] + m.get("note", ""), m["needs"]))
d = open(H + "/DESIGN.md").read()
d = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", d, flags=re.S)
open(H + "/DESIGN.md", "w").write(d)
