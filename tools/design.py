#!/usr/bin/env python3
"""rewrite the generated part of DESIGN.md (between the markers) from the META of props/*.py, properties.jsonl and the last evidence"""
import ast, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
na = {d["property"]: d["reason"] for d in json.load(open(V + "/MANIFEST.json"))["not_applicable"]}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    f = f"{V}/props/{i.lower()}.py"
    out.append(f"### {i} {p['title']}\n")
    if not os.path.exists(f):
        out.append(f"Not applicable: {na[i]}\n")
        continue
    m = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "META":
            m = {k.arg: ast.literal_eval(k.value) for k in n.value.keywords}
    out.append(f"- Decided by: {m['how']}")
    out.append(f"- Bounds: {m['bounds']}")
    a = [x for x in m["assumptions"] if not x.startswith("real arithmetic")]
    if a:
        out.append(f"- Assumptions beyond real arithmetic: {'; '.join(a)}")
    e = f"{V}/evidence/{i}.json"
    if os.path.exists(e):
        d = json.load(open(e))
        c = d["coverage"]
        if d["tier"] == "quick" and c.get("status") == "held":
            out.append(f"- Cost (quick, 8 cores): {c['configurations']} configurations, {c['obligations']} obligations, {d['wall_s']:.0f} s wall")
    out.append("")
t = open(V + "/DESIGN.md").read()
b, e = "<!-- generated by tools/design.py -->", "<!-- end of generated part -->"
open(V + "/DESIGN.md", "w").write(t[: t.index(b) + len(b)] + "\n\n" + "\n".join(out) + "\n" + t[t.index(e):])
