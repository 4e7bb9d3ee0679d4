"""Regenerates DESIGN.md from design_head.md, the property modules and design_notes.json, and the seeded bugs' results."""
import importlib, json, os, sys, warnings
warnings.filterwarnings("ignore")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ["/repo/src", ROOT]
T = os.path.join(ROOT, "tools")
out = open(os.path.join(T, "design_head.md")).read()
notes = json.load(open(os.path.join(T, "design_notes.json")))
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    P = importlib.import_module(f"vf.props.{p['id']}").P
    out += f"### {p['id']} — {p['title']}\n\n"
    n = notes.get(p["id"], {})
    out += f"* Monitor and oracle: {P.technique[len('runtime monitoring: '):]}. {n.get('oracle', '')}\n"
    out += f"* A case: {P.rule}.\n"
    out += f"* Accuracy: {P.note}." + (f" Assumes: {'; '.join(P.assumptions)}.\n" if P.assumptions else "\n")
    out += "* Groups (quick / thorough cases): " + ", ".join(f"{g.name} {g.quick}/{g.thorough}" for g in P.groups.values()) + ".\n"
    out += f"* Why tests cannot settle it: {p['why_tests_cant']}\n\n"
tail = os.path.join(T, "design_tail.md")
if os.path.exists(tail):
    out += open(tail).read()
sd = os.path.join(ROOT, "seeded")
res = {}
rf = os.path.join(T, "seeded_results.json")
if os.path.exists(rf):
    res = json.load(open(rf))
rows = []
if os.path.isdir(sd):
    for i in sorted(os.listdir(sd)):
        f = os.path.join(sd, i, "meta.json")
        if os.path.exists(f):
            m = json.load(open(f))
            r = res.get(i, {})
            rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {r.get('caught', '')} | {r.get('others', '')} |")
if rows:
    out += "\n## Planted bugs and what catches them\n\nOwn check: run with seed 1, quick tier. Others: further checks that report it.\n\n| id | property | breaks | needs | own check | others |\n|---|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(os.path.join(ROOT, "DESIGN.md"), "w").write(out)
print(len(out), "bytes,", len(rows), "planted bugs")
