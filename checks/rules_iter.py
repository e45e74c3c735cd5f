"""Containers are not changed in size while they are iterated over."""
import ast
import os
from .framework import Ob

SHRINK = ("pop", "popitem", "remove", "clear", "discard")


def _live(it):
    """expression iterated over without a copy"""
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("keys", "values", "items") and not it.args:
        return ast.unparse(it.func.value)
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args:
        return _live(it.args[0])
    if isinstance(it, (ast.Name, ast.Attribute)):
        return ast.unparse(it)
    return None


def _shrinks(body, x):
    """statement that removes from x and after which the loop goes on"""
    for i, s in enumerate(body):
        ends = any(isinstance(t, (ast.Break, ast.Return, ast.Raise)) for t in body[i + 1:])
        subs = [b for b in (getattr(s, "body", None), getattr(s, "orelse", None), getattr(s, "finalbody", None)) if isinstance(b, list)]
        if subs:
            for b in subs:
                r = _shrinks(b, x)
                if r is not None and not ends:
                    return r
            continue
        if ends:
            continue
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and ast.unparse(t.value) == x:
                    return s
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SHRINK and ast.unparse(n.func.value) == x:
                return s
    return None


def live_iteration(ctx):
    """No loop over a container (or a live view of it) removes elements from the same container and continues."""
    out = []
    for mn, m in sorted(ctx.cur.modules.items()):
        if not mn.startswith(("tbplas.builder.", "tbplas.base.", "tbplas.diagonal.", "tbplas.adapter.", "tbplas.tbpm.")):
            continue
        for cn, f in [(None, f) for f in m.funcs.values()] + [(c.name, f) for c in m.classes.values() for f in c.methods.values()]:
            n_, bad = 0, None
            for s in f.body:
                for n in ast.walk(s):
                    if isinstance(n, ast.For):
                        x = _live(n.iter)
                        if x is None:
                            continue
                        n_ += 1
                        r = _shrinks(n.body, x)
                        if r is not None:
                            bad = "loop over %s executes %s" % (ast.unparse(n.iter), ast.unparse(r))
            if n_:
                where = "%s:%s" % (os.path.relpath(f.file, ctx.cur.repo), "%s.%s" % (cn, f.name) if cn else f.name)
                out.append(Ob("live-iteration", where, bad is None, bad or ""))
    return out


RULES = {"C04": [live_iteration], "C06": [live_iteration], "C26": [live_iteration]}
