"""Array values: a base term plus an ordered list of element effects; canonical reads."""
from .term import *
from .term import _akey
from . import term as T

ARRHEADS = ("asym", "arr", "lam", "mustate_a", "aapp")


def asym(name, kind="any"):
    return P(mk("asym", (name,), kind))


# ---------------------------------------------------------------- range simplification
def simp_range(p, var, n):
    """simplify le0 brackets of p under 0 <= var < n  (n may depend on outer variables)"""
    vk = var.key
    if vk not in p.syms:
        return p
    for mono in p.m:
        for a, _ in mono:
            if a.head == "sum" and vk in a.args[1].syms:
                n2 = simp_range(a.args[1], var, n)
                if n2.key != a.args[1].key:
                    w = fresh()
                    body = subst(a.args[2], {sym(a.args[0], "int").key: P(w)})
                    p = replace_atom(p, a, mk_sum(w, ZERO, n2, body))
                    return simp_range(p, var, n)
    ivs = [a for a in iv_deep(p) if a.head in ("le0", "eq0") and vk in a.args[0].syms]
    for a in ivs:
        q = a.args[0]
        hi = bound_max(q, var, n)
        lo = bound_min(q, var, n)
        if a.head == "le0":
            if hi is not None and const_val(hi) is not None and const_val(hi) <= 0:
                p = assume_deep(p, a, True)
            elif lo is not None and const_val(lo) is not None and const_val(lo) > 0:
                p = assume_deep(p, a, False)
        else:
            if (hi is not None and const_val(hi) is not None and const_val(hi) < 0) or \
                    (lo is not None and const_val(lo) is not None and const_val(lo) > 0):
                p = assume_deep(p, a, False)
    return p


def replace_atom(p, atom, val):
    out = ZERO
    for mono, c in p.m.items():
        t = P(c)
        for a, e in mono:
            x = val if a is atom else P(a)
            t = t * (powi(x, e) if isinstance(e, int) else P(mk("pow", (x, P(e)))))
        out = out + t
    return out


def iv_deep(p):
    out = {}
    for mono in p.m:
        for a, _ in mono:
            if a.head in IVERSON:
                out[a.key] = a
    return list(out.values())


def assume_deep(p, atom, val):
    return assume(p, atom, val)


def bound_max(q, var, n):
    return _bound(q, var, n, True)


def bound_min(q, var, n):
    return _bound(q, var, n, False)


def _bound(q, var, n, mx):
    """max/min of q over var in [0,n-1] when q is linear in var with constant coefficient"""
    c = 0
    for mono, cf in q.m.items():
        if any(var.key in a.syms for a, _ in mono):
            if len(mono) == 1 and mono[0][0] is var and mono[0][1] == 1:
                c += cf
            else:
                return None
    if c == 0:
        return q
    return subst(q, {var.key: (n - ONE) if (c > 0) == mx else ZERO})


# hook range simplification into sums
_orig_sum_from = T._sum_from


def _sum_from_rs(var, n, body):
    return _orig_sum_from(var, n, simp_range(body, var, n))


T._sum_from = _sum_from_rs
_orig_mk_all = T.mk_all


def mk_all_rs(var, lo, hi, body):
    if lo.m:
        body = subst(body, {var.key: P(var) + lo})
        hi, lo = hi - lo, ZERO
    return _orig_mk_all(var, lo, hi, simp_range(body, var, hi))


T.mk_all = mk_all_rs
mk_all = mk_all_rs


# ---------------------------------------------------------------- effects
def mk_eff(kind, binders, idx, val, guard):
    """binders: [(var Atom, n Poly)] outer->inner, each var in [0,n)"""
    if not guard.m:
        return None
    if kind == "add" and not val.m:
        return None
    binders = list(binders)
    if kind == "set" and binders:
        # every iteration writes the same elements: the last one stays
        for q in range(len(binders) - 1, -1, -1):
            var, n = binders[q]
            if var.key in guard.syms or any(isinstance(x, (Poly, Atom)) and var.key in x.syms for x in idx) or \
                    any(var.key in n2.syms for _, n2 in binders):
                continue
            if var.key in val.syms:
                val = subst(val, {var.key: n - ONE})
            guard = guard * (ONE - T.le0(n))
            del binders[q]
        if not guard.m:
            return None
    for var, n in reversed(binders):
        guard = simp_range(guard, var, n)
        val = simp_range(val, var, n)
        idx = tuple(simp_range(x, var, n) if isinstance(x, Poly) else x for x in idx)
    if not guard.m:
        return None
    # constant binders of length 1 vanish
    bs = []
    for k, (var, n) in enumerate(binders):
        c = const_val(n)
        if c is not None and c <= 0:
            return None
        bs.append((var, n))
    best = None
    for order in _orders(bs):
        e = _mk_eff1(kind, order, idx, val, guard)
        if best is None or e.key < best.key:
            best = e
    return best


def _orders(bs):
    if len(bs) < 2 or len(bs) > 4:
        return [bs]
    dep = any(v.key in n.syms for v, _ in bs for _, n in bs)
    if dep:
        return [bs]
    # canonical by trip count; only equal trip counts are permuted
    groups = {}
    for b in bs:
        groups.setdefault(b[1].key, []).append(b)
    ks = sorted(groups)
    out = [[]]
    for k in ks:
        g = groups[k]
        out = [o + list(x) for o in out for x in itertools.permutations(g)]
    return out


def _mk_eff1(kind, binders, idx, val, guard):
    h = max([val.height, guard.height] + [x.height for x in idx if isinstance(x, (Poly, Atom))] +
            [n.height for _, n in binders] + [0])
    k = len(binders)
    mp, names = {}, []
    for j, (var, n) in enumerate(binders):
        nm = bname(h + k - j)
        names.append(nm)
        mp[var.key] = P(sym(nm, "int"))
    if mp:
        idx = tuple(subst(x, mp) if isinstance(x, Poly) else _sub_atom(x, mp) for x in idx)
        val, guard = subst(val, mp), subst(guard, mp)
    bl = tuple((nm, subst(n, mp)) for nm, (_, n) in zip(names, binders))
    return mk("eff", (kind, bl, idx, val, guard), "any", bind_height=h + k,
              bound=tuple(sym(nm, "int").key for nm in names))


def _sub_atom(x, mp):
    if isinstance(x, Atom):
        return subst_any(x, mp, frozenset(mp), {})
    return x


def open_eff(e):
    """-> kind, [(fresh var, n)], idx, val, guard"""
    kind, bl, idx, val, guard = e.args
    mp, bs = {}, []
    for nm, n in bl:
        f = fresh()
        mp2 = dict(mp)
        bs.append((f, subst(n, mp2) if mp2 else n))
        mp[sym(nm, "int").key] = P(f)
    if mp:
        idx = tuple(subst(x, mp) if isinstance(x, Poly) else _sub_atom(x, mp) for x in idx)
        val, guard = subst(val, mp), subst(guard, mp)
    return kind, bs, idx, val, guard


def _rb_eff(args, dtype, a):
    # args already substituted below binders: rebuild with fresh binders is done in subst hook
    return P(mk("eff", args, dtype))


def bind_eff(e, var, n):
    kind, bs, idx, val, guard = open_eff(e)
    return mk_eff(kind, [(var, n)] + bs, idx, val, guard)


def gate_eff(e, g):
    kind, bs, idx, val, guard = open_eff(e)
    return mk_eff(kind, bs, idx, val, guard * g)


def subst_eff(e, mp):
    if not (e.syms & frozenset(mp)):
        return e
    kind, bs, idx, val, guard = open_eff(e)
    bs = [(v, subst(n, mp)) for v, n in bs]
    idx = tuple(subst(x, mp) if isinstance(x, Poly) else _sub_atom(x, mp) for x in idx)
    return mk_eff(kind, bs, idx, subst(val, mp), subst(guard, mp))


# ---------------------------------------------------------------- arrays as atoms
def freeze(base, effs, kind="any"):
    effs = tuple(e for e in effs if e is not None)
    if not effs:
        return base
    if len(base.m) == 1:
        (mono, c), = base.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].head == "arr":
            base, e0 = mono[0][0].args
            effs = tuple(e0) + effs
    effs = sort_effs(absorb_edges(prune_dead(effs)))
    return P(mk("arr", (base, effs), kind))


def prune_dead(effs):
    """an element overwritten unconditionally later on: earlier effects on it are dead"""
    if len(effs) < 2:
        return effs
    over = set()
    out = []
    for e in reversed(effs):
        kind, bl, idx, val, guard = e.args
        ik = tuple(x.key if isinstance(x, (Poly, Atom)) else repr(x) for x in idx)
        if ik in over and not any(nm_in(x, bl) for x in idx):
            continue
        if kind == "set" and not bl and const_val(guard) == 1:
            over.add(ik)
        out.append(e)
    return tuple(reversed(out)) if len(out) < len(effs) else effs


def absorb_edges(effs):
    """a[c-1] = f(-1) beside a[c+i] = f(i), 0 <= i < n: one family (also at the upper end)"""
    if not 2 <= len(effs) <= 6:
        return effs
    effs = list(effs)
    changed = True
    while changed:
        changed = False
        for x in range(len(effs)):
            kind, bl, idx, val, guard = effs[x].args
            if kind != "set" or len(bl) != 1 or len(idx) != 1 or const_val(guard) != 1 or not isinstance(idx[0], Poly):
                continue
            _, bs, ix, v, _ = open_eff(effs[x])
            (f, n), = bs
            c = ix[0] - P(f)
            if f.key in c.syms:
                continue
            for y in range(len(effs)):
                k2, bl2, i2, v2, g2 = effs[y].args
                if y == x or k2 != "set" or bl2 or len(i2) != 1 or const_val(g2) != 1 or not isinstance(i2[0], Poly):
                    continue
                lo, hi = i2[0].key == (c - ONE).key, i2[0].key == (c + n).key
                if not (lo or hi) or any(not commute(effs[y], effs[z]) for z in range(min(x, y), max(x, y) + 1) if z != y):
                    continue
                if v2.key != subst(v, {f.key: -ONE if lo else n}).key:
                    continue
                new = mk_eff("set", [(f, n + ONE)], (P(f) + c - ONE if lo else ix[0],),
                             subst(v, {f.key: P(f) - ONE}) if lo else v, ONE)
                if new is None:
                    continue
                effs[x] = new
                del effs[y]
                changed = True
                break
            if changed:
                break
    return tuple(effs)


def nm_in(x, bl):
    if not bl or not isinstance(x, (Poly, Atom)):
        return False
    ks = {sym(nm, "int").key for nm, _ in bl}
    return bool(x.syms & ks)


def sort_effs(effs):
    effs = list(effs)
    if len(effs) > 40:
        return tuple(effs)
    n = len(effs)
    for i in range(n):
        sw = False
        for j in range(n - 1 - i):
            a, b = effs[j], effs[j + 1]
            if b.key < a.key and commute(a, b):
                effs[j], effs[j + 1] = b, a
                sw = True
        if not sw:
            break
    return tuple(effs)


_comm = {}


def commute(a, b):
    k = (a.key, b.key)
    r = _comm.get(k)
    if r is None:
        r = _commute(a, b)
        _comm[k] = r
    return r


def _commute(a, b):
    if a.args[0] == "add" and b.args[0] == "add":
        return True
    _, bs1, i1, _, g1 = open_eff(a)
    _, bs2, i2, _, g2 = open_eff(b)
    return disjoint(i1, i2, g1, g2, bs1 + bs2)


def _linear_in(d, v):
    """coefficient of v when d is linear in v with a constant coefficient, else None"""
    co = 0
    for mono, cf in d.m.items():
        if any(v.key in a.syms or a.key == v.key for a, _ in mono):
            if len(mono) == 1 and mono[0][0].key == v.key and mono[0][1] == 1:
                co = cf
            else:
                return None
    return co


def ranged_nonzero(d, rng):
    """d != 0 whenever 0 <= v < n for every (v, n) in rng"""
    if provably_nonzero(d):
        return True
    if not rng:
        return False
    for sgn in (1, -1):
        q = d if sgn == 1 else -d
        ok = True
        for _ in range(len(rng) + 1):
            hit = False
            for v, n in reversed(rng):
                if v.key not in q.syms:
                    continue
                hit = True
                c = _linear_in(q, v)
                if c is None or not isinstance(c, (int, Fraction)):
                    ok = False
                    break
                q = subst(q, {v.key: ZERO if c > 0 else n - ONE})
            if not hit or not ok:
                break
        if not ok or any(v.key in q.syms for v, _ in rng):
            continue
        c0 = q.m.get((), 0)
        if isinstance(c0, (int, Fraction)) and c0 >= 1 and all(
                mono == () or isinstance(cf, (int, Fraction)) and cf > 0 and all(T.nonneg_atom(a) for a, _ in mono)
                for mono, cf in q.m.items()):
            return True
    return False


def disjoint(i1, i2, g1, g2, rng=()):
    if len(i1) != len(i2):
        return False
    for x, y in zip(i1, i2):
        if isinstance(x, Poly) and isinstance(y, Poly) and ranged_nonzero(x - y, rng):
            return True
    try:
        if not mul(g1, g2).m:
            return True
    except Budget:
        pass
    return False


def same_iter_only(e1, v1, e2, v2, n=None):
    """effects of iteration v1 / v2 touch the same element only if v1 == v2"""
    _, bs1, i1, _, g1 = open_eff(e1)
    _, bs2, i2, _, g2 = open_eff(e2)
    if len(i1) != len(i2):
        return False
    for x, y in zip(i1, i2):
        if not (isinstance(x, Poly) and isinstance(y, Poly)):
            continue
        d = x - y
        if ranged_nonzero(d, ([(v1, n), (v2, n)] if n is not None else []) + bs1 + bs2):
            return True
        s = solve_linear(d, v1)
        if s is not None and s.key == P(v2).key:
            return True
        # x = c*v1 + rest(outer), y = c*v2 + rest(outer)
        if d.m and set(d.m) == {((v1, 1),), ((v2, 1),)} and sum(d.m.values()) == 0:
            return True
    return False


def idx_term(arr, idx, kind):
    """opaque element read"""
    return P(mk("idx", (arr, tuple(idx)), kind))


def read_term(arr, idx, kind="any"):
    """element read of an array-valued Poly"""
    if not arr.m:
        return ZERO
    c = const_val(arr)
    if c is not None:
        return arr
    ivs = iv_atoms(arr)
    if ivs and len(ivs) <= 4:
        return lift(arr, lambda q: read_term(q, idx, kind))
    if len(idx) == 1 and isinstance(idx[0], Poly) and len(idx[0].m) > 1:
        q = idx[0]
        ks = [a for mono in q.m for a, _ in mono if a.head in ("tup", "lit")]
        if ks and 0 < len(iv_atoms(q)) <= 4:
            return lift(q, lambda z: read_term(arr, tup_index(z), kind))
    if len(arr.m) == 1:
        (mono, cf), = arr.m.items()
        if cf == 1 and len(mono) == 1 and mono[0][1] == 1:
            return read_atom(mono[0][0], idx, kind)
    # elementwise algebra over array atoms
    if all(a.head in ARRHEADS or a.head in ("I",) or a.head in SCALARHEADS for mono in arr.m for a, e in mono):
        out = ZERO
        for mono, cf in arr.m.items():
            t = P(cf)
            for a, e in mono:
                x = read_atom(a, idx, kind) if a.head in ARRHEADS else P(a)
                t = t * (powi(x, e) if isinstance(e, int) else P(mk("pow", (x, P(e)))))
            out = out + t
        return out
    if len(arr.m) == 1:
        (mono, cf), = arr.m.items()
        vec = [(a, e) for a, e in mono if not scalar_atom(a)]
        if len(vec) == 1 and vec[0][1] == 1 and (cf != 1 or len(mono) > 1) and vec[0][0].head not in ("seq", "seqcat", "list", "fstr"):
            out = P(cf) * read_atom(vec[0][0], idx, kind)
            for a, e in mono:
                if a is not vec[0][0]:
                    out = out * (powi(P(a), e) if isinstance(e, int) else P(mk("pow", (P(a), P(e)))))
            return out
    return idx_term(arr, idx, kind)


def tup_index(z):
    a = T.single_atom(z)
    return tuple(a.args[0]) if a is not None and a.head == "tup" else (z,)


def scalar_atom(a):
    """certainly a number: a factor of an array expression that indexing leaves alone"""
    if a.head in ("I", "len", "dim", "sum", "prod", "floordiv") or a.head in IVERSON:
        return True
    if a.head in ("ext:norm", "ext:det"):
        return len(a.args) == 1
    return a.head == "attr" and T.nonneg_atom(a)


SCALARHEADS = ("sym", "idx", "dim", "sqrt", "exp", "abs", "inv", "floordiv", "sum", "prod", "mustate", "lit") + IVERSON


def read_atom(a, idx, kind="any"):
    if a.head == "arr":
        base, effs = a.args
        return aread(base, effs, idx, a.dtype if a.dtype != "any" else kind)
    if a.head == "lam":
        names, body = a.args
        if len(names) == len(idx) and all(isinstance(x, Poly) for x in idx):
            return subst(body, {sym(nm, "int").key: x for nm, x in zip(names, idx)})
        return idx_term(P(a), idx, kind)
    if a.head in SCALARHEADS and a.head not in ("sym", "idx", "mustate"):
        return P(a)
    if a.head == "tup" and len(idx) == 1 and isinstance(idx[0], Poly):
        c = const_val(idx[0])
        if c is not None and isinstance(c, int) and -len(a.args[0]) <= c < len(a.args[0]):
            return a.args[0][c]
    if a.head == "iter" and len(idx) == 1 and isinstance(idx[0], Poly) and not (const_val(idx[0]) is not None and const_val(idx[0]) < 0):
        return read_term(a.args[1] if isinstance(a.args[1], Poly) else P(a.args[1]), idx, kind)
    if a.head == "idx" and idx and all(isinstance(x, Poly) and not (const_val(x) is not None and const_val(x) < 0) for x in idx):
        r = through_slices(a, idx)
        if r is not None:
            return read_term(a.args[0], r, kind)
    if a.head == "shapeof" and len(idx) == 1 and isinstance(idx[0], Poly) and const_val(idx[0]) == 0:
        return lift(a.args[0], T.mk_len)
    return idx_term(P(a), idx, a.dtype if a.dtype != "any" else kind)


def is_slice(x):
    return isinstance(x, Atom) and x.head == "slice"


def through_slices(a, idx):
    """X[lo:hi, c][i] -> index of X (slices with a non-negative constant start and step 1)"""
    out, k = [], 0
    for x in a.args[1]:
        if is_slice(x) and k < len(idx):
            lo, hi, step = x.args
            if isinstance(step, Poly) and const_val(step) not in (1,) and T_none(step) is False:
                return None
            if lo is None or T_none(lo):
                out.append(idx[k])
            elif isinstance(lo, Poly) and const_val(lo) is not None and const_val(lo) >= 0:
                out.append(lo + idx[k])
            else:
                return None
            k += 1
        elif isinstance(x, Poly) or is_slice(x):
            out.append(x)
        else:
            return None
    if k == 0:
        return None
    return tuple(out) + tuple(idx[k:])


def T_none(p):
    return isinstance(p, Poly) and repr(p) == "'None'"


def mk_lam(nvars, body):
    """nvars: list of Atom vars"""
    h = body.height
    names = tuple(bname(h + len(nvars) - j) for j in range(len(nvars)))
    mp = {v.key: P(sym(nm, "int")) for v, nm in zip(nvars, names)}
    b = subst(body, mp)
    # eta: lam i. X[i] -> X
    if len(b.m) == 1:
        (mono, c), = b.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            a = mono[0][0]
            if a.head == "idx" and len(a.args[1]) == len(names) and \
                    all(isinstance(x, Poly) and x.key == P(sym(nm, "int")).key for x, nm in zip(a.args[1], names)) and \
                    not any(sym(nm, "int").key in a.args[0].syms for nm in names):
                return a.args[0]
    if not any(sym(nm, "int").key in b.syms for nm in names):
        return b            # constant array
    return P(mk("lam", (names, b), dtype_of(b), bind_height=h + len(nvars),
                bound=tuple(sym(nm, "int").key for nm in names)))


def aread(base, effs, idx, kind="any"):
    idx = tuple(idx)
    k = len(effs)
    if k == 0:
        return read_term(base, idx, kind)
    e = effs[-1]
    ek, bs, eidx, val, guard = open_eff(e)
    if len(eidx) != len(idx):
        if len(idx) == 1 and len(effs) <= 16 and isinstance(idx[0], Poly) and const_val(idx[0]) is not None and const_val(base) is not None:
            # a row of a small matrix written element by element
            rows = []
            for z in effs:
                zk, bl, zi, zv, zg = z.args
                if zk != "set" or bl or len(zi) != 2 or const_val(zg) != 1 or not all(isinstance(q, Poly) and const_val(q) is not None for q in zi):
                    break
                if zi[0].key == idx[0].key:
                    rows.append(mk_eff("set", [], (zi[1],), zv, ONE))
            else:
                return freeze(base, tuple(r for r in rows if r is not None), kind)
        return idx_term(freeze(base, effs, kind), idx, kind)
    eqs = []
    for x, y in zip(eidx, idx):
        if isinstance(x, Poly) and isinstance(y, Poly):
            d = x - y
            if provably_nonzero(d):
                return aread(base, effs[:-1], idx, kind)
            eqs.append(d)
        else:
            if _akey(x) == _akey(y):
                continue
            return idx_term(freeze(base, effs, kind), idx, kind)
    m = guard
    unsolved = []
    pend = list(bs)
    # solve binders one after another
    progress = True
    while pend and progress:
        progress = False
        for b in list(pend):
            var, n = b
            for q in list(eqs):
                s = solve_linear(q, var)
                if s is not None:
                    eqs.remove(q)
                    mp = {var.key: s}
                    eqs = [subst(z, mp) for z in eqs]
                    m = subst(m, mp) * le0(-s) * le0(s - subst(n, mp) + ONE)
                    val = subst(val, mp)
                    pend = [(v, subst(nn, mp)) for v, nn in pend if v is not var]
                    progress = True
                    break
            if progress:
                break
    unsolved = pend
    for q in eqs:
        m = m * eq0(q)
    if not m.m:
        return aread(base, effs[:-1], idx, kind)
    if not unsolved:
        if ek == "set":
            if const_val(m) == 1:
                return val
            return m * val + (ONE - m) * aread(base, effs[:-1], idx, kind)
        return aread(base, effs[:-1], idx, kind) + m * val
    if ek == "add":
        t = m * val
        for var, n in reversed(unsolved):
            t = T._sum_from(var, n, t)
        return aread(base, effs[:-1], idx, kind) + t
    return idx_term(freeze(base, effs, kind), idx, kind)


T.REBUILD["idx"] = lambda args, dt: read_term(args[0], args[1], dt)


def _rb_arr(args, dt):
    base, effs = args
    return freeze(base, effs, dt)


T.REBUILD["arr"] = _rb_arr

_orig_subst_atom = T._subst_atom


def _subst_atom2(a, mp, ks, memo):
    if a.head == "eff":
        if not (a.syms & ks):
            return P(a)
        raise AssertionError("eff substituted outside arr")
    if a.head == "arr":
        if not (a.syms & ks):
            return P(a)
        r = memo.get(a)
        if r is None:
            base, effs = a.args
            nb = T._subst_poly(base, mp, ks, memo)
            ne = tuple(subst_eff(e, mp) for e in effs)
            ne = tuple(e for e in ne if e is not None)
            r = freeze(nb, ne, a.dtype)
            memo[a] = r
        return r
    if a.head == "lam":
        if not (a.syms & ks):
            return P(a)
        names, body = a.args
        fs = [fresh() for _ in names]
        b = subst(body, {sym(nm, "int").key: P(f) for nm, f in zip(names, fs)})
        return mk_lam(fs, subst(b, mp))
    if a.head in ("mu",):
        if not (a.syms & ks):
            return P(a)
        return P(subst_mu(a, mp)[0])
    if a.head in ("mustate", "mustate_a"):
        if not (a.syms & ks):
            return P(a)
        mu = a.args[0]
        mu2, perm = subst_mu(mu, mp)
        it = subst_any(a.args[2], mp, ks, memo)
        return P(mk(a.head, (mu2, perm[a.args[1]], it), a.dtype))
    return _orig_subst_atom(a, mp, ks, memo)


T._subst_atom = _subst_atom2


# ---------------------------------------------------------------- recurrences
def mk_mu(ivar, n, comps, cond=None):
    """comps: list of (phi Atom, init Poly, step Poly, is_array).  Steps may use ivar and the phis.
    cond: continuation condition (while loops) or None.
    Returns (mu atom, permutation: original position -> component number)."""
    order = list(range(len(comps)))
    phis = [c[0] for c in comps]
    # canonical component order by refinement
    keys = [c[1].key + ("A" if c[3] else "S") for c in comps]
    for _ in range(2):
        classes = {k: j for j, k in enumerate(sorted(set(keys)))}
        mp = {}
        for c, k in zip(comps, keys):
            nm = "@c%d" % classes[k]
            mp[c[0].key] = asym(nm) if c[3] else P(sym(nm, c[0].dtype))
        mp[ivar.key] = P(sym("@i", "int"))
        keys = [k + "|" + subst(c[2], mp).key for c, k in zip(comps, keys)]
        # use in other components
        keys = [k[:400] + T.hashlib.sha1(k.encode()).hexdigest() for k in keys]
    order.sort(key=lambda j: keys[j])
    h = max([c[2].height for c in comps] + [cond.height if cond is not None else 0])
    names = []
    mp = {}
    for pos, j in enumerate(order):
        nm = bname(h + 1) + "c%d" % pos
        names.append(nm)
        c = comps[j]
        mp[c[0].key] = asym(nm, c[0].dtype) if c[3] else P(sym(nm, c[0].dtype))
    inm = bname(h + 1)
    mp[ivar.key] = P(sym(inm, "int"))
    steps = tuple(subst(comps[j][2], mp) for j in order)
    cd = subst(cond, mp) if cond is not None else None
    inits = tuple(comps[j][1] for j in order)
    bound = [sym(inm, "int").key] + [(mk("asym", (nm,), comps[j][0].dtype) if comps[j][3] else sym(nm, comps[j][0].dtype)).key
                                     for nm, j in zip(names, order)]
    isarr = tuple(bool(comps[j][3]) for j in order)
    dts = tuple(comps[j][0].dtype for j in order)
    a = _mk_bound("mu", (n, inits, steps, cd, tuple(names), inm, isarr, dts), h + 1, bound, inits, n)
    perm = {j: pos for pos, j in enumerate(order)}
    return a, perm


def _mk_bound(head, args, h, bound, inits, n):
    a = mk(head, args, "any", bind_height=max([h, n.height] + [i.height for i in inits]), bound=tuple(bound))
    s = frozenset()
    for st in args[2]:
        s |= st.syms
    if args[3] is not None:
        s |= args[3].syms
    s -= frozenset(bound)
    for i in inits:
        s |= i.syms
    s |= n.syms
    a.syms = s
    return a


def open_mu(a):
    n, inits, steps, cd, names, inm, isarr, dts = a.args
    iv = fresh()
    mp = {sym(inm, "int").key: P(iv)}
    phis = []
    for nm, ia, dt in zip(names, isarr, dts):
        if ia:
            f = mk("asym", ("$phi%d" % next(T._fresh),), dt)
            mp[mk("asym", (nm,), dt).key] = P(f)
        else:
            f = fresh("$phi", dt)
            mp[sym(nm, dt).key] = P(f)
        phis.append(f)
    steps = [subst(s, mp) for s in steps]
    cd = subst(cd, mp) if cd is not None else None
    return iv, n, [(p, i, s, ia) for p, i, s, ia in zip(phis, inits, steps, isarr)], cd


def subst_mu(a, mp):
    if not (a.syms & frozenset(mp)):
        return a, {j: j for j in range(len(a.args[1]))}
    iv, n, comps, cd = open_mu(a)
    comps = [(p, subst(i, mp), subst(s, mp), ia) for p, i, s, ia in comps]
    return mk_mu(iv, subst(n, mp), comps, subst(cd, mp) if cd is not None else None)


def _asym_meta():
    pass


# asym atoms are substitutable symbols too
_orig_mk = T.mk
T._orig_raw_mk = T.mk


def mk2(head, args=(), dtype="any", bind_height=None, bound=()):
    a = _orig_mk(head, args, dtype, bind_height, bound)
    if head == "asym" and not a.syms:
        a.syms = frozenset([a.key])
    return a


T.mk = mk2
mk = mk2
_orig_subst_atom_3 = T._subst_atom


def _subst_atom3(a, mp, ks, memo):
    if a.head == "asym":
        return mp.get(a.key, P(a))
    return _orig_subst_atom_3(a, mp, ks, memo)


T._subst_atom = _subst_atom3
