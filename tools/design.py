#!/usr/bin/env python3
"""Writes DESIGN.md: the texts below plus tables taken from the checks, known_findings.json and seeded/."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(V + "/tools/design_head.md").read()
TAIL = open(V + "/tools/design_tail.md").read()
D = {}
exec(open(V + "/tools/design_props.py").read())
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
fx = json.load(open(V + "/known_findings.json"))
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
out = [HEAD]
out.append("## 3. Properties\n")
for p in props:
    i = p["id"]; t = ast.parse(open(V + "/checks/%s.py" % i).read()); g = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("SCENARIOS", "RULE", "ASSUMPTIONS"):
            g[n.targets[0].id] = n.value
    sc = "; ".join("%s %s/%s" % (ast.literal_eval(e.elts[0]), ast.unparse(e.elts[2]).replace(" ", ""), ast.unparse(e.elts[3]).replace(" ", "")) for e in g["SCENARIOS"].elts) if "SCENARIOS" in g else ""
    out.append("### %s %s\n" % (i, p["title"]))
    for k, v in D[i].items():
        out.append("- **%s.** %s" % (k, v))
    out.append("- **Generated.** %s" % ast.literal_eval(g["RULE"]))
    if "ASSUMPTIONS" in g: out.append("- **Assumed.** %s." % "; ".join(ast.literal_eval(g["ASSUMPTIONS"])))
    out.append("- **Scenarios** (cases quick/thorough): %s." % sc)
    f = [x.split(" ", 3)[2:] for x in fx["fixed"] if ("property=%s " % i) in x]
    if f: out.append("- **Defects found and repaired** (%d): %s." % (len(f), "; ".join("%s (%s)" % (b, a) for a, b in f)))
    s = sorted(os.path.basename(os.path.dirname(m)) for m in glob.glob(V + "/seeded/*/meta.json") if json.load(open(m))["property"] == i)
    if s: out.append("- **Planted changes.** %s." % ", ".join(s))
    out.append("")
out.append("## 4. Planted changes and what catches them\n")
out.append("Each was confirmed in a scratch copy: builds, all 2832 stable tests pass, its demonstration passes without and fails with the change. 'First' is the outcome with the checks as they were when the change was written.\n")
out.append("| change | property | breaks | needs | first | now |\n|---|---|---|---|---|---|")
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(m)); d = json.load(open(m)); c = caught.get(b, ["?", "?"])
    out.append("| %s | %s | %s | %s | %s | %s |" % (b, d["property"], d["what_it_breaks"], d["needs"], c[0], c[1]))
out.append("")
out.append(TAIL)
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len("\n".join(out)), "characters")
