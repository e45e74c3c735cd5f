"""Work arrays kept between calls are re-allocated whenever they do not exist or do not fit."""
import ast
import os
from .framework import Ob

ALLOC = ("zeros", "empty", "ones", "full")


def _atoms(test, attr, out):
    """-> function of {missing, unfit} or None"""
    if isinstance(test, ast.BoolOp):
        fs = [_atoms(v, attr, out) for v in test.values]
        if None in fs:
            return None
        return (lambda e: any(f(e) for f in fs)) if isinstance(test.op, ast.Or) else (lambda e: all(f(e) for f in fs))
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        f = _atoms(test.operand, attr, out)
        return None if f is None else (lambda e: not f(e))
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        l, r, op = test.left, test.comparators[0], test.ops[0]
        if isinstance(l, ast.Constant) and l.value is None:
            l, r = r, l
        me = "self." + attr
        if ast.unparse(l) == me and isinstance(r, ast.Constant) and r.value is None:
            if isinstance(op, (ast.Is, ast.Eq)):
                return lambda e: e["missing"]
            if isinstance(op, (ast.IsNot, ast.NotEq)):
                return lambda e: not e["missing"]
        if any(ast.unparse(x) in (me + ".shape", "len(%s)" % me, me + ".shape[0]", me + ".size") for x in (l, r)):
            if isinstance(op, ast.NotEq):
                return lambda e: e["unfit"]
            if isinstance(op, ast.Eq):
                return lambda e: not e["unfit"]
    return None


def work_arrays(ctx):
    """`if T: self.A = np.zeros(S)` with T on self.A: T is true whenever self.A is missing or has another shape (truth table), if S is not constant."""
    out, sites = [], {}
    for mn, m in sorted(ctx.cur.modules.items()):
        if mn.startswith(("tbplas.visual", "tbplas.builder.visual")):
            continue
        for c in m.classes.values():
            for f in c.methods.values():
                for s in f.body:
                    for n in ast.walk(s):
                        if not isinstance(n, (ast.If, ast.IfExp)):
                            continue
                        for then, body in ((True, n.body), (False, n.orelse)):
                            for a in body if isinstance(body, list) else []:
                                if not (isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Attribute) and
                                        isinstance(a.targets[0].value, ast.Name) and a.targets[0].value.id == "self" and
                                        isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Attribute) and a.value.func.attr in ALLOC):
                                    continue
                                attr = a.targets[0].attr
                                if "self." + attr not in ast.unparse(n.test):
                                    continue
                                shape = a.value.args[0] if a.value.args else next((k.value for k in a.value.keywords if k.arg == "shape"), None)
                                if shape is None or all(not isinstance(x, (ast.Name, ast.Attribute)) for x in ast.walk(shape)):
                                    continue
                                where = "%s:%s.%s self.%s" % (os.path.relpath(f.file, ctx.cur.repo), c.name, f.name, attr)
                                sites.setdefault(where, []).append((_atoms(n.test, attr, None), then, ast.unparse(n.test), attr))
    for where, ss in sorted(sites.items()):
        if any(t is None for t, _, _, _ in ss):
            out.append(Ob("work-arrays", where, None, "condition not understood: " + ss[0][2]))
            continue
        bad = [e for e in ({"missing": True, "unfit": False}, {"missing": False, "unfit": True})
               if not any(bool(t(e)) == then for t, then, _, _ in ss)]
        out.append(Ob("work-arrays", where, not bad, "" if not bad else
                      "self.%s is kept although it %s (condition: %s)" % (ss[0][3], "does not exist" if bad[0]["missing"] else "has another shape", ss[0][2])))
    return out


RULES = {"C03": [work_arrays], "C27": [work_arrays]}
