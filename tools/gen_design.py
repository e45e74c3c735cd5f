"""DESIGN.md = tools/design_head.md + per-property table (properties.jsonl, sets, rules) + tools/design_tail.md"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import framework, sets
man = {c["property"]: c for c in json.load(open(H + "/MANIFEST.json"))["checks"]}
na = {c["property"]: c["reason"] for c in json.load(open(H + "/MANIFEST.json"))["not_applicable"]}
how = json.load(open(H + "/tools/design_how.json"))
rules = {}
for m in framework.rule_modules():
    for p, fs in getattr(m, "RULES", {}).items():
        rules.setdefault(p, []).extend(f.__name__ for f in fs)
out = [open(H + "/tools/design_head.md").read()]
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s  %s\n" % (i, p["title"]))
    if i in na:
        out.append("Not applicable: %s.\n" % na[i])
        continue
    r = rules.get(i, [])
    out.append("%s\n\n*Rules:* %s. *Functions compared:* %s.\n" % (how[i], ", ".join("`%s`" % x for x in r) if r else "semantic equality only",
               ", ".join("`%s`" % x.replace("tbplas.", "") for x in dict.fromkeys(sets.SETS.get(i, []))) or "none (rule only)"))
seeded = []
for d in sorted(os.listdir(H + "/seeded")) if os.path.isdir(H + "/seeded") else []:
    m = json.load(open(H + "/seeded/%s/meta.json" % d))
    seeded.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], how["caught"].get(d, "yes")))
out.append(open(H + "/tools/design_tail.md").read().replace("@SEEDED@", "\n".join(seeded)))
open(H + "/DESIGN.md", "w").write("\n".join(out))
