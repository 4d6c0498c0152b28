"""writes /verif/DESIGN.md: hand-written parts below, bounds / stubs / limits from the harness modules,
planted changes from seeded/*/meta.json and tools/seed_results.txt"""
import ast
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(f"{V}/properties.jsonl")]
man = json.load(open(f"{V}/MANIFEST.json"))
NA = {x["property"]: x["reason"] for x in man["not_applicable"]}


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple):
            for t, v in zip(n.targets[0].elts, n.value.elts):
                try:
                    out[t.id] = ast.literal_eval(v)
                except ValueError:
                    pass
    return out


HOW = {}
exec(open(f"{V}/tools/design_parts.py").read())

o = [HEAD]
o.append("\n## 5. Per property\n")
for p in props:
    i = p["id"]
    o.append(f"### {i} - {p['title']}\n")
    f = f"{V}/props/{i.lower()}.py"
    if i in NA or not os.path.exists(f):
        o.append(f"Not applicable: {NA.get(i)}\n")
        continue
    c = consts(f)
    o.append(f"* Decided by: {HOW[i]}")
    o.append(f"* Bounds: {c.get('BOUNDS')}")
    o.append(f"* Outside: {c.get('OUTSIDE')}")
    if c.get("STUBS"):
        o.append(f"* Stand-ins: {'; '.join(c['STUBS'])}")
    o.append("")
o.append(TAIL)
o.append("\n## 9. Planted changes and what catches them\n")
o.append("Every one keeps the stable tests passing; `tools/seedtest.sh ID` repeats the trial in a scratch copy.\n")
o.append("| planted change | property | needs | caught by |\n|---|---|---|---|")
res = {}
rp = f"{V}/tools/seed_results.txt"
if os.path.exists(rp):
    for line in open(rp):
        m = re.match(r"(\S+) \[(\w+)\] .*check=(\d+)", line)
        if m:
            v = re.search(r"violated: (.*?)(  inputs| got|$)", line)
            res[m[1]] = (f"{m[2]}: {v[1].strip()}" if m[3] == "1" and v else ("missed" if m[3] != "1" else m[2]))
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    o.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, '?').replace('|', '/')} |")
open(f"{V}/DESIGN.md", "w").write("\n".join(o) + "\n")
