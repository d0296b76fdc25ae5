"""DESIGN.md from its parts (tools/design/*.md) and the planted bugs' results (tools/design/caught.json)"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "tools", "design")
txt = "".join(open(os.path.join(D, f)).read() for f in ("head.md", "props.md", "tail.md"))
caught = json.load(open(os.path.join(D, "caught.json")))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, "not yet run")))
open(os.path.join(V, "DESIGN.md"), "w").write(txt + "\n".join(rows) + "\n")
