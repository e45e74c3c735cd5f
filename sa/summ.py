"""Function summaries: observable outcomes of one function as canonical terms."""
from .engine import *
from .term import _akey, Budget
from . import term as T


class Summary:
    def __init__(self, fn):
        self.fn = fn
        self.out = {}         # channel -> Poly
        self.visited = set()
        self.calls = 0
        self.opaque_used = set()
        self.honest = {}      # exception -> condition under which it is raised and no earlier one is


def self_obj(g, st, cls, ident="self"):
    return g.alloc(st, ObjCell(cls, {}, P(sym(ident))))


def ann_class(proj, fn, ann):
    """class named by a parameter annotation"""
    import ast
    if ann is None:
        return None
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return None
    if isinstance(ann, ast.Name):
        try:
            r = proj.resolve(fn.module, ann.id)
        except Exception:
            return None
        if r is not None and r[0] == "class":
            return r[1]
    return None


def is_ndarray(ann):
    import ast
    return isinstance(ann, ast.Attribute) and ann.attr == "ndarray" or isinstance(ann, ast.Name) and ann.id == "ndarray"


def widest(types, ann):
    """Union of fixed-length tuples -> the longest"""
    import ast
    a = ann
    for _ in range(4):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return ann
        if isinstance(a, ast.Name) and a.id in types.alias:
            a = types.alias[a.id]
    if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id == "Union" and isinstance(a.slice, ast.Tuple):
        best = None
        for x in a.slice.elts:
            ar = types.args(x) if types.kind(x) == "tuple" else []
            if not ar or any(isinstance(q, ast.Constant) and q.value is Ellipsis for q in ar):
                return ann
            if best is None or len(ar) > best[0]:
                best = (len(ar), x)
        return best[1] if best else ann
    return ann


def length_tested(fn, nm):
    """the parameter's length is examined (directly or by a check_* helper), or the parameter is passed on to one"""
    import ast
    for b in fn.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Call):
                f = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ""
                if f in ("len", "tuple", "list") or "check" in f and f != "check_conj":
                    if any(isinstance(y, ast.Name) and y.id == nm for a in x.args for y in ast.walk(a) if not isinstance(a, ast.GeneratorExp)):
                        return True
    return False


def summarize(proj, fn, cls=None, opaque=(), timeout=60, depth=6, argnames=None, inline_native=False, effects=None, spec_params=None):
    g = GVN(proj, opaque=opaque, timeout=timeout, max_depth=depth)
    g.inline_native = inline_native
    g.effects = effects
    st = State()
    if cls is not None:
        g.ptypes["$selfcls"] = [c.name for c in proj.mro(cls)]
    args = {}
    selfv = None
    for k, prm in enumerate(fn.params):
        nm = argnames[k] if argnames and k < len(argnames) else prm.name
        if k == 0 and cls is not None and fn.lang == "py" and "staticmethod" not in fn.decorators:
            if "classmethod" in fn.decorators:
                args[prm.name] = ClsV(cls)
            else:
                selfv = self_obj(g, st, cls)
                args[prm.name] = selfv
            continue
        if fn.lang == "py" and spec_params is not None and prm.name not in spec_params and prm.default is not None:
            # an optional parameter the specification does not have: callers leave it at its default
            args[prm.name] = g.eval_in_module(prm.default, fn.module, st)
            continue
        if fn.lang == "py":
            if prm.intent is not None and not isinstance(prm.intent, str):
                g.ptypes[nm] = widest(g.types, prm.intent) if not length_tested(fn, prm.name) else prm.intent
            if prm.kind == "var":
                g.ptypes[nm] = ast.parse("Tuple[X, ...]", mode="eval").body
                if isinstance(prm.intent, ast.AST):
                    g.ptypes[nm].slice.elts[0] = prm.intent
            c = ann_class(proj, fn, prm.intent)
            if c is not None and prm.kind == "pos" and prm.default is None:
                args[prm.name] = g.alloc(st, ObjCell(c, {}, P(sym(nm))))
            elif prm.default is None and prm.kind == "pos" and is_ndarray(prm.intent):
                args[prm.name] = g.alloc(st, ArrCell(P(sym(nm)), (), None, "any", None, "arr"))
            else:
                args[prm.name] = P(sym(nm))
        else:
            args[prm.name] = g.sym_arg(prm, nm, st, fn)
    ret = g.call_bound(fn, args, st)
    s = Summary(fn)
    s.visited = set(g.visited)
    s.calls = g.calls
    s.opaque_used = g.opaque_used
    if ret is not None:
        s.out["return"] = g.deep(ret, st)
    for k, prm in enumerate(fn.params):
        nm = argnames[k] if argnames and k < len(argnames) else prm.name
        v = args.get(prm.name)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ArrCell):
                t = g.deref(c.term(), st)
                if t.key != asym(nm, c.kind).key and t.key != P(sym(nm)).key:
                    s.out["arg:" + nm] = t
            else:
                for f in sorted(c.fields):
                    t = g.deep(c.fields[f], st)
                    if t.key != g._field_sym(c, f).key:
                        s.out["%s.%s" % ("self" if v is selfv else "arg:" + nm, f)] = t
    # globals / other cells reachable only through idents
    ev = {}
    nr = ONE
    for kind, guard, name, a, line, stack in st.events:
        if not guard.m:
            continue
        if kind == "raise" and s.honest is not None:
            try:
                h = guard * nr
                if len(h.m) > 60:
                    raise Budget()
                s.honest[name] = s.honest.get(name, ZERO) + h
                nr = nr * (ONE - guard)
                if len(nr.m) > 60:
                    nr = T.mk_boolatom(nr)
            except Budget:
                s.honest = None
        def dr(x):
            return g.deref(x, st) if isinstance(x, Poly) else tuple(dr(y) for y in x) if isinstance(x, tuple) else x
        aa = dr(tuple(a))
        key = "%s:%s" % (kind, name)
        if kind == "raise":
            key = "raise:%s" % name
            t = P(mk("ev", (guard,)))
        else:
            t = P(mk("ev", (guard, aa)))
        ev.setdefault(key, []).append(t)
    for k, ts in ev.items():
        if k.startswith("raise:"):
            # total condition under which this exception is raised
            tot = ZERO
            for t in ts:
                gg = next(iter(t.m))[0][0].args[0]
                tot = tot + gg - tot * gg if len(ts) > 1 else gg
            s.out[k] = tot
        else:
            by = {}
            for t in ts:
                gg, aa = next(iter(t.m))[0][0].args
                o = by.get(_akey(aa))
                by[_akey(aa)] = (gg if o is None else o[0] + gg - o[0] * gg, aa)
            ts = [P(mk("ev", x)) for x in by.values()]
            uniq = sorted({t.key: t for t in ts}.items())
            s.out[k] = P(mk("evs", (tuple(t for _, t in uniq),)))
    return s
