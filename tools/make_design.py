"""Assemble DESIGN.md."""
import ast
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)["id"]: json.loads(l) for l in open(f"{V}/properties.jsonl")}
man = json.load(open(f"{V}/MANIFEST.json"))
claimed = {c.get("property_id", c.get("property", c.get("id"))) for c in man["checks"]}


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


notes = {}
cur = None
for line in open(f"{V}/tools/design.props.md"):
    if line.startswith("## "):
        cur = line[3:].strip()
        notes[cur] = ""
    elif cur:
        notes[cur] += line
body = ""
for pid in sorted(notes):
    if pid not in claimed:
        continue
    c = consts(f"{V}/sim/props/{pid.lower()}.py")
    body += f"### {pid}: {props[pid]['title']}\n\n{notes[pid].strip()}\n\n"
    body += f"* *Case*: {c['RULE']}.\n"
    body += f"* *Real*: {', '.join(c['COMPONENTS']['real'])}. *Stub*: {', '.join(c['COMPONENTS']['stub'])}.\n"
    body += f"* *Assumed*: {'; '.join(c['ASSUMPTIONS'])}.\n"
    body += (f"* *Bounds*: quick up to {c['QUICK']['runs']} cases or {c['QUICK']['wall']} s, thorough up to "
             f"{c['THOROUGH']['runs']} cases or {c['THOROUGH']['wall']} s.\n\n")
fixed = json.load(open(f"{V}/known_findings.json"))["fixed"]
fx = "".join(f"* {f[len('fixed: property='):]}\n" for f in fixed)
seeds = "| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob(f"{V}/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    seeds += f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught', m['property'])} |\n"
s = open(f"{V}/tools/design.in.md").read()
na = "" if "C20" in claimed else next(
    (f"\nC20: {x['reason']}\n" for x in man["not_applicable"] if x.get("property_id", x.get("property", x.get("id"))) == "C20"), "")
for k, v in (("@PROPS@", body), ("@FIXED@", fx), ("@SEEDS@", seeds), ("@C20@", na)):
    s = s.replace(k, v.rstrip("\n"))
open(f"{V}/DESIGN.md", "w").write(s)
