"""Fills the generated tables of DESIGN.md from DESIGN.in (run by hand)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {}
exec(open(os.path.join(root, "mc", "design_rows.py")).read())
cost = {}
for f in glob.glob(os.path.join(root, "evidence", "*.json")):
    e = json.load(open(f))
    if e["tier"] == "quick":
        cost[e["property"]] = (e["wall_s"], e["coverage"]["states"])
rows = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    en, orc, bd = ROWS[i]
    rows.append(f"| {i} {p['title']} | {en} | {orc} | {bd} | {cost.get(i, ('?',))[0]:.0f} |" if i in cost else f"| {i} {p['title']} | {en} | {orc} | {bd} | |")
seeds = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    seeds.append(f"| {n} | {m['property']} | {m['needs']} | {', '.join(CAUGHT.get(n, ['(see below)']))} |")
s = open(os.path.join(root, "mc", "DESIGN.in")).read()
open(os.path.join(root, "DESIGN.md"), "w").write(s.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds)))
