"""Writes /verif/DESIGN.md."""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
na = {x.get("property_id") or x.get("property") or x.get("id") for x in man["not_applicable"]}
known = [l.strip() for l in open(V + "/KNOWN_FINDINGS.txt") if l.strip() and not l.startswith("#")]
res = {}
p = V + "/tools/seeded_results.txt"
if os.path.exists(p):
    for l in open(p):
        if l.strip():
            k, _, v = l.strip().partition(" ")
            res[k] = v
out = []
for q in props:
    if q["id"] in na:
        continue
    m = importlib.import_module("pcs." + q["id"].lower())
    out.append(f"### {q['id']} - {q['title']}\n*Decides*: for {q['quantifier']['text']}.\n\n*How*: {m.EXPLAIN}\n\n*Rules*:\n" +
               "\n".join("* " + r for r in m.RULES) + "\n\n*Assumes*: " + "; ".join(m.ASSUME) + ".\n")
    cost = getattr(m, "COST", None)
    if cost:
        out.append(f"*Bounds, cost*: {cost}\n")
sd = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    sd.append(f"| {i}: {d['what_it_breaks']} | {d['property']} | {d['needs']} | {res.get(i, '?')} |")
fixed = ["Repaired in /repo (one `fix:` commit each; every check is quiet on the repaired tree and reports the defect when the commit is reverted):", ""]
for l in known:
    g = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if g:
        fixed.append(f"* {g[1]} `{g[2]}`: {g[3]}")
left = [l for l in known if l.startswith("finding:")]
fixed += ["", "Recorded, not repaired: " + ("none." if not left else "")] + ["* " + l[9:] for l in left]
s = open(V + "/tools/design.tmpl.md").read()
s = s.replace("@@PROPERTIES@@", "\n".join(out).strip()).replace("@@DEFECTS@@", "\n".join(fixed)).replace("@@SEEDED@@", "\n".join(sd))
open(V + "/DESIGN.md", "w").write(s)
