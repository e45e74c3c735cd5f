"""Computed values must not be stored into an array whose element type is that of a caller's array."""
import ast
import os
from .framework import Ob

MODULES = ("tbplas.base.", "tbplas.builder.", "tbplas.diagonal.", "tbplas.tbpm.", "tbplas.adapter.")
SKIP = ("tbplas.builder.visual",)


def _inherits(call, raw):
    """name of the parameter whose element type the allocation takes over, or None"""
    if not isinstance(call, ast.Call):
        return None
    fn = call.func
    kw = {k.arg: k.value for k in call.keywords}
    if isinstance(fn, ast.Attribute):
        if fn.attr in ("zeros", "empty", "ones", "full", "array", "asarray"):
            d = kw.get("dtype")
            if isinstance(d, ast.Attribute) and d.attr == "dtype" and isinstance(d.value, ast.Name) and d.value.id in raw:
                return d.value.id
        if fn.attr in ("zeros_like", "empty_like", "ones_like", "full_like") and "dtype" not in kw and call.args:
            a = call.args[0]
            if isinstance(a, ast.Name) and a.id in raw:
                return a.id
    return None


def inherited_dtype(ctx):
    """No array allocated with the element type of an argument (dtype=arg.dtype, zeros_like(arg)) receives computed elements: integer input would truncate them."""
    out = []
    for mn, m in sorted(ctx.cur.modules.items()):
        if not mn.startswith(MODULES) or mn.startswith(SKIP):
            continue
        fs = list(m.funcs.values()) + [f for c in m.classes.values() for f in c.methods.values()]
        for f in fs:
            params = {p.name for p in f.params} - {"self"}
            body = ast.Module(body=list(f.body), type_ignores=[])
            bound = set()
            keep = set()
            for n in ast.walk(body):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) \
                        and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("array", "asarray", "atleast_2d") \
                        and not n.value.keywords and len(n.value.args) == 1 and ast.unparse(n.value.args[0]) == n.targets[0].id:
                    keep.add(id(n.targets[0]))      # x = np.array(x): still the caller's element type
            for n in ast.walk(body):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in keep:
                    bound.add(n.id)
            raw = params - bound
            alloc = {}
            for n in ast.walk(body):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    p = _inherits(n.value, raw)
                    t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                    if p and isinstance(t, ast.Name):
                        alloc[t.id] = (p, ast.unparse(n.value))
            name = (f.cls + "." if getattr(f, "cls", None) and isinstance(f.cls, str) else "") + f.name
            where = "%s:%s" % (os.path.relpath(f.file, ctx.cur.repo), name)
            hit = None
            for n in ast.walk(body):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
                for t in tg:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in alloc:
                        v = n.value
                        calc = isinstance(n, ast.AugAssign) or any(isinstance(x, (ast.BinOp, ast.Call)) for x in ast.walk(v))
                        if calc:
                            hit = "%s = %s takes the element type of argument '%s' and is filled with %s" % (
                                t.value.id, alloc[t.value.id][1], alloc[t.value.id][0], ast.unparse(v)[:80])
            if alloc or name.startswith(("rotate", "cart2frac", "frac2cart", "reshape")):
                out.append(Ob("inherited-dtype", where, hit is None, hit or ""))
    return out


RULES = {"C25": [inherited_dtype], "C26": [inherited_dtype]}
