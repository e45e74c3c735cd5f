"""Development aid (not a check): behaviour-preserving rewrites ("ref") and behaviour-changing edits ("mut") applied to the
parsed program, to measure false alarms and misses of the comparison engine.
usage: irtest.py ref|mut [name filter] [transform filter]"""
import ast
import collections
import copy
import random
import sys
import time
sys.path.insert(0, "/verif")
from sa.refcmp import *
from sa.ir import Func, Param

SIMPLE = (ast.Name, ast.Constant, ast.Attribute)


def names(x, ctx=None):
    return {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def bodies(fbody):
    """all statement lists"""
    out = [fbody]
    for s in fbody:
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if b:
                out += bodies(b)
        for h in getattr(s, "handlers", []) or []:
            out += bodies(h.body)
    return out


def omp(s):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id.startswith("__omp") for x in ast.walk(s))


def fix(b):
    for s in b:
        ast.fix_missing_locations(s)
    return b


# ---------------------------------------------------------------- preserving rewrites: f(func) -> bool changed
def r_temp(f):
    ch = False
    k = 0
    for b in bodies(f.body):
        i = 0
        while i < len(b):
            s = b[i]
            i += 1
            if isinstance(s, ast.Assign) and not getattr(s, "pointer", False) and isinstance(s.value, ast.BinOp) and \
                    not isinstance(s.value.left, SIMPLE) and isinstance(s.value.left, (ast.BinOp, ast.Call)):
                nm = "tmpv%d" % k
                k += 1
                b.insert(i - 1, ast.copy_location(ast.Assign([ast.Name(nm, ast.Store())], s.value.left), s))
                s.value.left = ast.Name(nm, ast.Load())
                i += 1
                ch = True
    return ch and f.lang == "py"


def r_tempcond(f):
    ch = False
    k = 0
    for b in bodies(f.body):
        i = 0
        while i < len(b):
            s = b[i]
            i += 1
            if isinstance(s, ast.If):
                nm = "cnd%d" % k
                k += 1
                b.insert(i - 1, ast.copy_location(ast.Assign([ast.Name(nm, ast.Store())], s.test), s))
                s.test = ast.Name(nm, ast.Load())
                i += 1
                ch = True
    return ch and f.lang == "py"


def r_invif(f):
    ch = False
    for s in walk_stmts(f.body):
        if isinstance(s, ast.If):
            s.test = ast.UnaryOp(ast.Not(), s.test)
            s.body, s.orelse = (s.orelse or [ast.Pass()]), s.body
            ch = True
    return ch


def r_aug(f):
    ch = False
    for b in bodies(f.body):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and (isinstance(s.target, ast.Subscript) and f.lang != "f90" or f.lang == "cy"):
                v = copy.deepcopy(s.target)
                for x in ast.walk(v):
                    if hasattr(x, "ctx"):
                        x.ctx = ast.Load()
                b[i] = ast.copy_location(ast.Assign([s.target], ast.BinOp(v, s.op, s.value)), s)
                ch = True
    return ch


def has(s, kinds):
    return any(isinstance(x, kinds) for x in ast.walk(s))


def r_while(f):
    ch = False
    for b in bodies(f.body):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and \
                    len(s.iter.args) <= 2 and isinstance(s.target, ast.Name) and not has(s, (ast.Continue,)) and not s.orelse and not omp(s) and not getattr(s, "omp", None):
                lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
                hi = s.iter.args[-1]
                t = s.target.id
                used = sum(1 for x in ast.walk(ast.Module(f.body, [])) if isinstance(x, ast.Name) and x.id == t)
                inside = sum(1 for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == t)
                if f.lang == "py" and used != inside:
                    i += 1
                    continue
                w = ast.While(ast.Compare(ast.Name(t, ast.Load()), [ast.Lt()], [hi]),
                              s.body + [ast.AugAssign(ast.Name(t, ast.Store()), ast.Add(), ast.Constant(1))], [])
                b[i:i + 1] = [ast.copy_location(ast.Assign([ast.Name(t, ast.Store())], lo), s), ast.copy_location(w, s)]
                ch = True
            i += 1
    return ch and f.lang != "f90"


def r_listcomp(f):
    ch = False
    k = 0
    for b in bodies(f.body):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp):
                nm = "lst%d" % k
                k += 1
                c = s.value
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [c.elt], []))]
                for g in reversed(c.generators):
                    for q in reversed(g.ifs):
                        body = [ast.If(q, body, [])]
                    body = [ast.For(g.target, g.iter, body, [])]
                b[i:i] = [ast.copy_location(ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())), s)] + [ast.copy_location(x, s) for x in body]
                s.value = ast.Name(nm, ast.Load())
                i += 2
                ch = True
            i += 1
    return ch and f.lang == "py"


def r_ifexp(f):
    ch = False
    for b in bodies(f.body):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                v = s.value
                s1, s2 = copy.deepcopy(s), copy.deepcopy(s)
                s1.value, s2.value = v.body, v.orelse
                b[i] = ast.copy_location(ast.If(v.test, [s1], [s2]), s)
                ch = True
            elif isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and \
                    ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], ast.Name) and f.lang == "py":
                b[i] = ast.copy_location(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)), s)
                ch = True
    return ch


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise))


def r_elseret(f):
    ch = False
    for b in bodies(f.body)[:1]:
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                ch = True
                break
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                b[i + 1:i + 1] = s.orelse
                s.orelse = []
                ch = True
                break
    return ch


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def r_cmp(f):
    ch = False
    for s in f.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in FLIP:
                x.left, x.comparators = x.comparators[0], [x.left]
                x.ops = [FLIP[type(x.ops[0])]()]
                ch = True
    return ch


def r_swap(f):
    """exchange adjacent independent assignments"""
    ch = False
    for b in bodies(f.body):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and all(isinstance(t, ast.Name) for t in x.targets + y.targets) and \
                    not has(x, (ast.Call,)) and not has(y, (ast.Call,)) and not getattr(x, "pointer", 0) and not getattr(y, "pointer", 0):
                wx, wy = {t.id for t in x.targets}, {t.id for t in y.targets}
                if not (wx & names(y) or wy & names(x)):
                    b[i], b[i + 1] = y, x
                    ch = True
    return ch


def r_comm(f):
    ch = False
    for s in f.body:
        for x in ast.walk(s):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) and (f.lang == "cy" or not has(x, (ast.List, ast.Tuple, ast.Constant))) and f.lang != "f90":
                x.left, x.right = x.right, x.left
                ch = True
    return ch


def r_enum(f):
    ch = False
    k = 0
    for s in walk_stmts(f.body):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and \
                isinstance(s.target, ast.Tuple) and isinstance(s.iter.args[0], (ast.Name, ast.Attribute)) and len(s.iter.args) == 1:
            it = s.iter.args[0]
            i, v = s.target.elts
            s.body.insert(0, ast.Assign([v], ast.Subscript(it, ast.Name(i.id, ast.Load()), ast.Load())))
            s.target = i
            s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [it], [])], [])
            ch = True
    return ch and f.lang == "py"


def r_range2enum(f):
    """for x in range(len(L)): ... L[x] -> enumerate"""
    ch = False
    for s in walk_stmts(f.body):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and \
                isinstance(s.iter.args[0], ast.Call) and isinstance(s.iter.args[0].func, ast.Name) and s.iter.args[0].func.id == "len" and isinstance(s.target, ast.Name):
            it = s.iter.args[0].args[0]
            s.target = ast.Tuple([s.target, ast.Name("unusedv", ast.Store())], ast.Store())
            s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [it], [])
            ch = True
    return ch and f.lang == "py"


def r_rename(f):
    ps = {p.name for p in f.params}
    loc = set()
    for s in f.body:
        if has(s, (ast.Lambda, ast.FunctionDef, ast.Global, ast.Nonlocal)):
            return False
        loc |= names(s, ast.Store)
    loc -= ps
    if f.lang != "py":
        return False
    for s in f.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = "zz_" + x.id
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = "zz_" + x.name
    return bool(loc)


def r_nop(f):
    b = f.body[0] if f.body else None
    f.body.insert(0, ast.Assign([ast.Name("unused_marker", ast.Store())], ast.Constant(0)))
    if b is not None:
        ast.copy_location(f.body[0], b)
    return f.lang == "py"


def r_retvar(f):
    ch = False
    for b in bodies(f.body):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                b[i:i + 1] = [ast.copy_location(ast.Assign([ast.Name("resultv", ast.Store())], s.value), s),
                              ast.copy_location(ast.Return(ast.Name("resultv", ast.Load())), s)]
                ch = True
                break
    return ch and f.lang == "py"


def r_nestif(f):
    """if a and b -> if a: if b"""
    ch = False
    for s in walk_stmts(f.body):
        if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
            vals = s.test.values
            s.test = vals[0]
            rest = vals[1] if len(vals) == 2 else ast.BoolOp(ast.And(), vals[1:])
            s.body = [ast.If(rest, s.body, [])]
            ch = True
    return ch


def r_extract(f, proj=None, which=0):
    """extract statements into a private helper (python functions)"""
    if f.lang != "py" or len(f.body) < 3:
        return False
    n = len(f.body)
    lo, hi = (0, n // 2) if which == 0 else ((n // 2, n) if which == 1 else (n // 3, 2 * n // 3 + 1))
    seg = f.body[lo:hi]
    if not seg or any(has(s, (ast.Return, ast.Yield, ast.Lambda, ast.FunctionDef, ast.Nonlocal, ast.Global)) for s in seg):
        return False
    if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for s in seg for x in ast.walk(s)):
        return False
    mod = ast.Module(seg, [])
    rd, wr = names(mod), names(mod, ast.Store)
    comp = set()
    before = set(p.name for p in f.params)
    for s in f.body[:lo]:
        before |= names(s, ast.Store)
    after = set()
    for s in f.body[hi:]:
        after |= names(s, ast.Load)
    ins = sorted(rd & before)
    outs = sorted(wr & after)
    # partially assigned
    cls = f.cls
    selfn = f.params[0].name if cls and f.params and "staticmethod" not in f.decorators and "classmethod" not in f.decorators else None
    if cls and selfn is None:
        return False
    if any(x in wr and x not in before for x in outs) and any(not isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) for s in seg):
        # conditional definitions: keep it simple
        simple = set()
        for s in seg:
            if isinstance(s, ast.Assign):
                simple |= names(s, ast.Store)
        if not set(o for o in outs if o not in before) <= simple:
            return False
    hn = "_zz_helper_%s" % f.name.strip("_")
    ins2 = [x for x in ins if x != selfn]
    body = copy.deepcopy(seg)
    body.append(ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) != 1 else ast.Name(outs[0], ast.Load())) if outs else ast.Pass())
    ps = [Param(x) for x in (([selfn] if selfn else []) + ins2)]
    for p in ps:
        for q in f.params:
            if q.name == p.name:
                p.intent = q.intent
    h = Func(hn, f.module, f.file, "py", ps, {}, fix(body), f.lineno, [], cls)
    callee = ast.Attribute(ast.Name(selfn, ast.Load()), hn, ast.Load()) if selfn else ast.Name(hn, ast.Load())
    call = ast.Call(callee, [ast.Name(x, ast.Load()) for x in ins2], [])
    if not outs:
        st = ast.Expr(call)
    elif len(outs) == 1:
        st = ast.Assign([ast.Name(outs[0], ast.Store())], call)
    else:
        st = ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())], call)
    ast.copy_location(st, seg[0])
    f.body[lo:hi] = [st]
    m = proj.modules[f.module]
    if cls:
        m.classes[cls].methods[hn] = h
    else:
        m.funcs[hn] = h
    f._helper = (m, cls, hn)
    return True


REFS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("r_") and k != "r_extract"}
for w in (0, 1, 2):
    REFS["extract%d" % w] = (lambda w: lambda f, proj: r_extract(f, proj, w))(w)


# ---------------------------------------------------------------- mutations
def mutants(f, rng, limit):
    """yield (description, body)"""
    sites = []
    for bi, s in enumerate(walk_stmts(f.body)):
        pass
    base = f.body

    def nodes(body):
        return [x for s in body for x in ast.walk(s)]
    ns = nodes(base)
    cand = []
    for i, x in enumerate(ns):
        if isinstance(x, ast.BinOp):
            cand.append((i, "binop"))
        elif isinstance(x, ast.Compare) and len(x.ops) == 1:
            cand.append((i, "cmp"))
        elif isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
            cand.append((i, "const"))
        elif isinstance(x, ast.BoolOp):
            cand.append((i, "bool"))
        elif isinstance(x, ast.UnaryOp):
            cand.append((i, "unary"))
        elif isinstance(x, ast.Call) and len(x.args) >= 2:
            cand.append((i, "swapargs"))
        elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Tuple) and len(x.slice.elts) >= 2:
            cand.append((i, "swapidx"))
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("conj", "conjugate", "copy", "real", "imag"):
            cand.append((i, "dropmeth"))
        elif isinstance(x, ast.If):
            cand.append((i, "iftrue"))
        elif isinstance(x, (ast.Expr, ast.AugAssign)) or isinstance(x, ast.Assign):
            cand.append((i, "drop"))
        elif isinstance(x, ast.Constant) and isinstance(x.value, bool):
            cand.append((i, "flip"))
    rng.shuffle(cand)
    for i, kind in cand[:limit]:
        b = copy.deepcopy(base)
        x = nodes(b)[i]
        d = None
        if kind == "binop":
            m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}
            if type(x.op) not in m:
                continue
            d = ast.unparse(x)
            x.op = m[type(x.op)]()
        elif kind == "cmp":
            m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            d = ast.unparse(x)
            x.ops = [m[type(x.ops[0])]()]
        elif kind == "const":
            d = ast.unparse(x)
            x.value = x.value + 1
        elif kind == "bool":
            d = ast.unparse(x)
            x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
        elif kind == "flip":
            d = "bool"
            x.value = not x.value
        elif kind == "unary":
            d = ast.unparse(x)
            x.op = ast.UAdd() if isinstance(x.op, ast.USub) else ast.USub()
            if d.startswith("not"):
                x.op = ast.Not()
                x.operand = ast.UnaryOp(ast.Not(), x.operand)
        elif kind == "swapargs":
            d = ast.unparse(x)
            x.args[0], x.args[1] = x.args[1], x.args[0]
        elif kind == "swapidx":
            d = ast.unparse(x)
            x.slice.elts[0], x.slice.elts[1] = x.slice.elts[1], x.slice.elts[0]
        elif kind == "dropmeth":
            d = ast.unparse(x)
            x.func = x.func.value if False else x.func
            x.func.attr = "copy" if x.func.attr != "copy" else "conj"
        elif kind == "iftrue":
            d = "if " + ast.unparse(x.test)
            x.test = ast.Constant(True)
        elif kind == "drop":
            d = ast.unparse(x)[:80]
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            for bb in bodies(b):
                for q, s in enumerate(bb):
                    if s is x:
                        bb[q] = ast.copy_location(ast.Pass(), s)
        yield kind, d, getattr(x, "lineno", 0), fix(b)


def main():
    mode = sys.argv[1]
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    tf = sys.argv[3] if len(sys.argv) > 3 else ""
    ref, cur = Project("/verif/spec/ref"), Project("/verif/spec/ref")
    c = Cmp(ref, cur, 20)
    keys = [k for k in c.rf if flt in kname(k) and (flt or (not kname(k).startswith(("tbplas.visual", "tbplas.base.lin"))))]
    import multiprocessing as mp
    jobs = []
    for k in keys:
        if mode == "ref":
            for t in REFS:
                if tf in t:
                    jobs.append((k, t))
        else:
            jobs.append((k, int(tf or 6)))

    def one(j):
        k, t = j
        f = c.cf[k]
        old = f.body
        out = []
        if mode == "ref":
            f.body = copy.deepcopy(old)
            f._helper = None
            try:
                ok = REFS[t](f, cur) if t.startswith("extract") else REFS[t](f)
                if ok:
                    fix(f.body)
                    t0 = time.time(); r = c.compare(k, (), 3, 15); print("SLOW", kname(k), t, time.time() - t0, flush=True) if time.time() - t0 > 30 else None
                    out.append((kname(k), t, "", 0, r["verdict"], r.get("why", ""), r.get("all_channels"), r.get("spec", "")[:300], r.get("code", "")[:300]))
            finally:
                f.body = old
                if getattr(f, "_helper", None):
                    m, cls, hn = f._helper
                    (m.classes[cls].methods if cls else m.funcs).pop(hn, None)
        else:
            import zlib
            rng = random.Random(zlib.crc32(kname(k).encode()))
            for kind, d, ln, b in mutants(f, rng, t):
                f.body = b
                try:
                    r = c.compare(k, (), 1, 15)
                    out.append((kname(k), kind, d, ln, r["verdict"], r.get("why", ""), r.get("all_channels"), "", ""))
                except Exception as e:
                    out.append((kname(k), kind, d, ln, "EXC", repr(e), None, "", ""))
                finally:
                    f.body = old
        return out
    global ONE_
    ONE_ = one
    cnt = collections.Counter()
    with mp.get_context("fork").Pool(8, _limit_) as pool:
        for out in pool.imap_unordered(_run, jobs, chunksize=4):
            for o in out:
                cnt[(o[1], o[4])] += 1
                bad = o[4] in ("differ", "undecided") if mode == "ref" else o[4] in ("proved", "agree", "undecided", "EXC")
                if bad:
                    print(*o, sep=" | ", flush=True)
    tot = collections.Counter()
    for (t, v), n in sorted(cnt.items()):
        print("#", t, v, n)
        tot[v] += n
    print("##", dict(tot))


def _limit_():
    import sa.refcmp
    sa.refcmp._limit()


def _run(j):
    return ONE_(j)


if __name__ == "__main__":
    main()
