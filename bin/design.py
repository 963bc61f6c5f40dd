"""Writes DESIGN.md from the records, known findings and seeded metadata (developer tool)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from records import RECORDS
from props import PROPS
intro = open(os.path.join(V, "bin", "design_intro.md")).read()
out = [intro, "## Properties and how each is decided\n"]
for r in RECORDS:
    out.append(f"### {r['id']} {r['title']}\n")
    out.append(r["statement"] + "\n")
    if r.get("na"):
        out.append("Not applicable: " + r["na"] + "\n")
        continue
    h = sorted({x for u in PROPS[r["id"]]["units"] for x in u["harness"]})
    out.append(f"- Harness: {', '.join('harness/' + x for x in h)}")
    out.append("- How decided: " + r["how"])
    out.append("- Oracle: " + r["oracle"])
    out.append("- Bounds: " + r["bounds"])
    out.append("- Out of reach of the tests: " + r["why"] + "\n")
out.append("## Findings on the original tree\n")
for k in json.load(open(os.path.join(V, "known-findings.json"))):
    out.append("- " + (k["entry"] if k["status"] == "fixed" else f"open: property={k['property']} case {k['case']}: {k['what']}"))
out.append("\n## Planted changes and the checks that catch them\n")
out.append("| id | property | needs | caught by |\n|---|---|---|---|")
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    out.append(f"| {os.path.basename(os.path.dirname(m))} | {j['property']} | {j['needs']} | {j.get('caught', 'check of ' + j['property'])} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
