"""Writes DESIGN.md. Run from /verif: python3 tools/mkdesign.py"""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
notes = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
man = {c["property"]: c for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]}
out = [open(os.path.join(ROOT, "tools", "design.txt")).read().rstrip(), "", "## Properties and how they are decided", ""]


def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
            return ast.literal_eval(n.value)


for p in props:
    pid = p["id"]
    tree = ast.parse(open(os.path.join(ROOT, "checks", pid.lower() + ".py")).read())
    b = const(tree, "BOUNDS")
    n = notes.get(pid, {})
    out += [f"### {pid}: {p['title']}", "", p["statement"], "",
            f"- Method: {man[pid]['technique']}.",
            f"- Explored and compared: {const(tree, 'RULE')}",
            f"- Quick bounds: {b['quick']}.", f"- Thorough bounds: {b['thorough']}."]
    if "cost" in n:
        out += [f"- Cost: {n['cost']}."]
    out += [f"- Why beyond the tests: {p['why_tests_cant']}"]
    if "note" in n:
        out += [f"- Limits: {n['note']}"]
    out += [""]

res = os.path.join(ROOT, "seeded", "results.json")
out += ["## Planted changes", "",
        "Every change in `seeded/` builds, passes the 69 stable tests, and has a demonstration that fails with it. "
        "\"Caught\" are the checks that report it (quick tier); the first is that of its property.", ""]
if os.path.exists(res):
    r = json.load(open(res))
    out += ["| change | property | what breaks | needs | caught by |", "|---|---|---|---|---|"]
    for k in sorted(r):
        m = json.load(open(os.path.join(ROOT, "seeded", k, "meta.json")))
        c = lambda s: s.replace("|", "/").replace("\n", " ")
        out += [f"| {k} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {', '.join(r[k]) or '**none**'} |"]
hist = os.path.join(ROOT, "tools", "history.txt")
if os.path.exists(hist):
    out += ["", open(hist).read().rstrip()]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
