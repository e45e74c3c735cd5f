"""Obligations of a property = instances of its rules + semantic comparison of its functions with the specification."""
import importlib
import os
import pkgutil
from sa.project import Project
from sa import refcmp
from . import sets


class Ob:
    """one obligation: rule instance at a construct"""
    __slots__ = ("rule", "where", "ok", "detail", "key")

    def __init__(self, rule, where, ok, detail="", key=None):
        self.rule, self.where, self.ok, self.detail = rule, where, ok, detail
        self.key = key or ("%s@%s" % (rule, where))


class Ctx:
    def __init__(self, repo, tier, seed, here):
        self.cur = Project(repo)
        self.ref = Project(os.path.join(here, "spec", "ref"))
        self.tier, self.seed, self.here = tier, seed, here
        self.repo = repo


def rule_modules():
    import checks
    return [importlib.import_module("checks." + m.name) for m in pkgutil.iter_modules(checks.__path__) if m.name.startswith("rules_")]


def decide(pid, repo, tier, seed, here):
    ctx = Ctx(repo, tier, seed, here)
    obs, broken = [], []
    rules = {}
    for m in rule_modules():
        for fn in getattr(m, "RULES", {}).get(pid, ()):
            got = list(fn(ctx))
            rules[fn.__name__] = {"instances": len(got), "held": sum(1 for o in got if o.ok is True),
                                  "rule": (fn.__doc__ or "").strip().replace("\n", " ")}
            obs += got
    fn_records = []
    sem = {"functions": 0, "proved": 0, "agree": 0, "undecided": 0, "differ": 0, "channels": 0}
    names = {}
    if pid in sets.SETS:
        cmpo = refcmp.Cmp(ctx.ref, ctx.cur, 25 if tier == "quick" else 60, seed)
        for k in cmpo.rf:
            names.setdefault(refcmp.kname(k), []).append(k)
        keys = set()
        for n in sets.select(pid, names):
            keys |= set(names[n])
        keys = {k for k in refcmp.close_private(cmpo.rf, keys) if refcmp.kname(k) in sets_out_filter(names)}
        res = refcmp.run_all(cmpo, sorted(keys, key=str))
        for k, r in sorted(res.items(), key=lambda x: str(x[0])):
            f = os.path.relpath(r["file"], ctx.ref.repo)
            v = r["verdict"]
            sem["functions"] += 1
            sem["channels"] += r.get("channels", 0)
            sem[v if v in sem else "undecided"] = sem.get(v if v in sem else "undecided", 0) + 1
            where = "%s:%s" % (f, r["fn"].split(":")[1])
            if v == "differ":
                obs.append(Ob("semantic-equality", where, False,
                              "channel %s of %s denotes a different value%s\n  specified: %s\n  code:      %s" % (
                                  "/".join(r.get("all_channels", [r.get("channel", "?")])), where, (" (through %s)" % r["via"]) if r.get("via") else "",
                                  r.get("spec", ""), r.get("code", "")),
                              key="semantic-equality@%s#%s" % (r["fn"], r.get("channel"))))
            elif v in ("proved", "agree", "compensated", "inlined"):
                obs.append(Ob("semantic-equality", where, True))
            elif v == "missing":
                if refcmp.is_private(k, cmpo.rf[k]):
                    obs.append(Ob("semantic-equality", where, None, "private helper no longer present; judged through its callers"))
                else:
                    broken.append("public function %s not found in the current tree" % r["fn"])
            else:
                obs.append(Ob("semantic-equality", where, None, r.get("why") or ""))
            fn_records.append({"function": where, "verdict": v, "channels": r.get("channels", 0)})
    viol = [{"rule": o.rule, "where": o.where, "detail": o.detail, "key": o.key} for o in obs if o.ok is False]
    und = ["%s %s: %s" % (o.rule, o.where, o.detail) for o in obs if o.ok is None]
    cov = {"explanation": "Static analysis of the sources under %s/tbplas, nothing executed. %d obligations: instances of the listed rules "
                          "plus one semantic-equality obligation per function (every observable channel - return value, written fields, "
                          "written array arguments, raised exceptions, effects - must denote the same canonical term as the specification)." % (repo, len(obs)),
           "obligations": len(obs), "decided": sum(1 for o in obs if o.ok is not None), "held": sum(1 for o in obs if o.ok is True),
           "violations": len(viol), "undecided": und, "rules": rules, "semantic": sem, "functions": fn_records}
    return {"violations": viol, "coverage": cov, "broken": broken,
            "assumptions": ["Python/NumPy/SciPy/BLAS and compiler behave as documented", "floating-point values are treated as exact reals",
                            "objects passed under different parameter names do not alias unless the function body shows it"]}


def sets_out_filter(names):
    import fnmatch
    return {n for n in names if not any(fnmatch.fnmatchcase(n, o) for o in sets.OUT)}
