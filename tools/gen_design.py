"""DESIGN.md from design_head.md, known_findings.json, seeded/*/meta.json, tools/caught.json and design_tail.md."""
import glob
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(R + "/known_findings.json"))
o = [open(R + "/tools/design_head.md").read().rstrip(), "", "## Genuine defects found", "", "Recorded as known findings (the check prints KNOWN-FINDING and passes; any other violation of the property is still reported):", ""]
for f in k["known"]:
    o.append("* %s `%s`: %s" % (f["property"], f["key"], f["text"]))
o += ["", "Repaired by `fix:` commits in /repo (%d; the check reports each again if it returns):" % len(k["fixed"]), ""]
for f in k["fixed"]:
    p, h, t = f.split("property=")[1].split(" ", 2)
    o.append("* %s `%s` %s" % (p, h, t))
o += ["", "## Planted bugs (`seeded/`)", "", "| id | property | needs | caught by |", "|---|---|---|---|"]
c = json.load(open(R + "/tools/caught.json"))
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m))
    b = os.path.basename(os.path.dirname(m))
    o.append("| %s | %s | %s | %s |" % (b, d["property"], d["needs"].replace("|", "\\|").replace("\n", " "), c["seeded"].get(b, "?")))
o += ["", "## Mutation campaign", "", "Changes planted in scratch copies to find gaps, written from the property texts and the code. "
      "`caught` names the check; `missed → ...` says what was added.", "", "| change | result |", "|---|---|"]
o += ["| %s | %s |" % tuple(x) for x in c["mutants"]]
o.append(open(R + "/tools/design_tail.md").read().rstrip())
open(R + "/DESIGN.md", "w").write("\n".join(o) + "\n")
