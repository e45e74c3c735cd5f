"""Static-analysis driver: run.py <property> [--tier quick|thorough] [--repo DIR] [--out DIR]
Reads the sources of /repo/tbplas (never imports or executes them), decides the property's obligations,
writes evidence/<property>.json; exit 0 held, 1 violation, 2 analysis broken (an anchor vanished)."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def known(pid):
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                key, _, what = l[len("finding: property=%s " % pid):].partition(" | ")
                out[key.strip()] = what.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    ap.add_argument("--out", default=os.path.join(HERE, "evidence"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(a.out, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from sa.ir import AnalysisError
    from checks import framework
    try:
        res = framework.decide(a.pid, a.repo, a.tier, seed, HERE)
    except AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (a.pid, e))
        return 2
    kn = known(a.pid)
    viol, shown = [], []
    for v in res["violations"]:
        if v["key"] in kn:
            print("KNOWN-FINDING: property=%s %s" % (a.pid, kn[v["key"]]))
            shown.append(v["key"])
        else:
            viol.append(v)
    ev = {"property": a.pid, "tier": a.tier, "seed": seed, "level": "other", "coverage": res["coverage"],
          "wall_s": round(time.time() - t0, 2), "assumptions": res["assumptions"],
          "violations": [{"key": v["key"], "where": v["where"], "rule": v["rule"], "detail": v["detail"][:1500]} for v in viol]}
    json.dump(ev, open(os.path.join(a.out, a.pid + ".json"), "w"), indent=1)
    if a.v:
        for u in res["coverage"].get("undecided", []):
            print("undecided:", u)
    if res.get("broken"):
        for b in res["broken"]:
            print("ANALYSIS-BROKEN property=%s %s" % (a.pid, b))
    if viol:
        rp = os.path.join(a.out, a.pid + ".violations.json")
        json.dump(viol, open(rp, "w"), indent=1)
        for v in viol:
            print("VIOLATION property=%s replay=%s" % (a.pid, rp))
            print("  rule: %s\n  where: %s\n  %s" % (v["rule"], v["where"], v["detail"][:900].replace("\n", "\n  ")))
        return 1
    if res.get("broken"):
        return 2
    print("OK property=%s obligations=%d decided=%d undecided=%d wall=%.1fs" % (
        a.pid, res["coverage"]["obligations"], res["coverage"]["decided"], len(res["coverage"].get("undecided", [])), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
