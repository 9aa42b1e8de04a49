#!/usr/bin/env python3
"""DESIGN.md from the head and tail texts, properties.jsonl and the rules in the specifications"""
import ast, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import mkmanifest as MM
notes = {}
cur = None
for line in open(os.path.join(here, "design_notes.md")):
    m = re.match(r"## (C\d+)\s*$", line)
    if m:
        cur = m.group(1)
        notes[cur] = ""
    elif cur:
        notes[cur] += line
out = open(os.path.join(here, "design_head.md")).read()
out += "\n## 4. The properties and how each is decided\n\n"
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    f = os.path.join(root, "ana", "spec", p["id"].lower() + ".py")
    if not os.path.exists(f):
        continue
    doc = ast.get_docstring(ast.parse(open(f).read()))
    rule = doc.split("Rule:", 1)[1].strip().replace("\n", " ")
    out += f"### {p['id']} {p['title']}\n\n*Claim.* {p['statement']}\n\n*Decided by* {MM.TECH.get(p['id'], '')}. {rule[0].upper() + rule[1:]}\n\n"
    if p["id"] in notes:
        out += notes[p["id"]].strip() + "\n\n"
out += "## 5. Properties this family does not decide\n\n"
for k, v in MM.NA.items():
    out += f"- **{k}**: {v}\n"
out += "\n" + open(os.path.join(here, "design_tail.md")).read()
open(os.path.join(root, "DESIGN.md"), "w").write(out)
