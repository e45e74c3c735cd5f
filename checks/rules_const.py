"""Module-level data: physical constants and tabulated material parameters."""
import os
from sa import consteval
from .framework import Ob


def _globals(ctx, prefix, rule):
    out = []
    for mn, m in sorted(ctx.ref.modules.items()):
        if not mn.startswith(prefix):
            continue
        cm = ctx.cur.modules.get(mn)
        for n, e in sorted(m.globs.items()):
            if n.startswith("__"):
                continue
            try:
                want = consteval.value(ctx.ref, mn, e)
            except consteval.NotConst:
                continue
            where = "%s:%s" % (os.path.relpath(m.file, ctx.ref.repo), n)
            got = cm.globs.get(n) if cm is not None else None
            if got is None:
                out.append(Ob(rule, where, None, "not defined at module level any more"))
                continue
            try:
                v = consteval.value(ctx.cur, mn, got)
            except consteval.NotConst:
                out.append(Ob(rule, where, None, "not a constant expression"))
                continue
            ok = consteval.same(want, v)
            out.append(Ob(rule, where, ok, "" if ok else "%s is %r, specified %r" % (n, v if not isinstance(v, dict) else {k: v[k] for k in v if k not in want or not consteval.same(v[k], want[k])},
                                                                                want if not isinstance(want, dict) else {k: want[k] for k in want if k not in v or not consteval.same(v[k], want[k])})))
    return out


def physical_constants(ctx):
    """Every constant of tbplas.base.constants folds to the specified value (relative tolerance 1e-12)."""
    return _globals(ctx, "tbplas.base.constants", "physical-constants")


def material_tables(ctx):
    """Every tabulated material parameter at module level folds to the specified value."""
    return _globals(ctx, "tbplas.materials", "material-tables")


RULES = {"C25": [physical_constants], "C32": [material_tables]}
