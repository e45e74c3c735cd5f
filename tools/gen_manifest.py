import json, sys
sys.path.insert(0, "/verif")
TECH = {
 "default": "static analysis: gated value numbering of the source (Python/Cython/Fortran front ends) to canonical symbolic summaries, compared channel by channel with a specification; plus property-specific dataflow/structural rules",
}
CLAIMED = json.load(open("/verif/tools/claimed.json"))
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMED["na"]:
        na.append({"property": i, "reason": CLAIMED["na"][i]})
        continue
    c = CLAIMED["checks"][i]
    checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python /verif/run.py %s --tier quick" % i,
                   "thorough_cmd": "/opt/venv/bin/python /verif/run.py %s --tier thorough" % i,
                   "technique": c["technique"], "level": "other", "level_note": c["note"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
