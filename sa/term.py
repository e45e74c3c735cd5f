"""Algebraic terms for global value numbering.

A value is a Poly: a sum of monomials with rational coefficients over hash-consed Atoms.
Canonical by construction (commutative ring + a few theories): the imaginary unit squares to -1,
exponentials combine, Iverson brackets are idempotent, sums are linear, bound variables are named
by height, so that alpha-equivalent terms are identical objects with identical keys.
"""
from fractions import Fraction
import re
import hashlib
import itertools
import time


class Budget(Exception):
    """Term became too large: the obligation is undecided."""


MAXMONO = 4000
_atoms = {}
_fresh = itertools.count()


class Atom:
    __slots__ = ("head", "args", "key", "dtype", "height", "syms", "_size")

    def __repr__(self):
        return show_atom(self)


def _akey(a):
    if isinstance(a, Poly):
        return a.key
    if isinstance(a, Atom):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_akey(x) for x in a) + ")"
    if a is None:
        return "~"
    return repr(a)


def _walk_meta(a):
    """(height, syms, size) of an argument"""
    if isinstance(a, Poly):
        return a.height, a.syms, a.size
    if isinstance(a, Atom):
        return a.height, a.syms, a._size
    if isinstance(a, tuple):
        h, s, z = 0, frozenset(), 1
        for x in a:
            hh, ss, zz = _walk_meta(x)
            h = max(h, hh)
            if ss:
                s = s | ss
            z += zz
        return h, s, z
    return 0, frozenset(), 1


MAXSIZE = 10 ** 12


COUNTS = ("num_", "nr_")     # attributes holding counts


def mk(head, args=(), dtype="any", bind_height=None, bound=()):
    if head == "attr" and dtype == "any" and isinstance(args[1], str) and args[1].startswith(COUNTS):
        dtype = "int"
    k = head + "(" + ",".join(_akey(a) for a in args) + ")"
    if len(k) > 160:
        k = head + "#" + hashlib.sha1(k.encode()).hexdigest()[:24]
    a = _atoms.get((k, dtype))
    if a is not None:
        return a
    a = Atom()
    a.head, a.args, a.dtype = head, tuple(args), dtype
    a.key = k if dtype in ("any",) else k + ":" + dtype[0]
    h, s, z = _walk_meta(a.args)
    a._size = z
    if z > MAXSIZE:
        raise Budget("term size")
    if head == "sym":
        s = frozenset([a.key])
    if bound:
        s = s - frozenset(bound)
    a.height = h if bind_height is None else bind_height
    a.syms = s
    _atoms[(k, dtype)] = a
    return a


class Poly:
    __slots__ = ("m", "_key", "_height", "_syms", "_size", "_bool")

    def __init__(self, m):
        self.m = m
        self._key = self._height = self._syms = self._size = self._bool = None

    @property
    def key(self):
        if self._key is None:
            parts = []
            for mono in sorted(self.m, key=_mkey):
                c = self.m[mono]
                parts.append(str(c) + "*" + _mkey(mono))
            k = "+".join(parts) or "0"
            if len(k) > 200:
                k = "P#" + hashlib.sha1(k.encode()).hexdigest()[:24]
            self._key = k
        return self._key

    def _meta(self):
        h, s, z = 0, frozenset(), 1
        for mono in self.m:
            for a, e in mono:
                h = max(h, a.height)
                if a.syms:
                    s = s | a.syms
                z += a._size
        self._height, self._syms, self._size = h, s, z

    @property
    def height(self):
        if self._height is None:
            self._meta()
        return self._height

    @property
    def syms(self):
        if self._syms is None:
            self._meta()
        return self._syms

    @property
    def size(self):
        if self._size is None:
            self._meta()
        return self._size

    def __eq__(self, o):
        if not isinstance(o, Poly):
            return NotImplemented
        return self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __add__(self, o):
        return add(self, P(o))

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return add(self, -P(o))

    def __rsub__(self, o):
        return add(P(o), -self)

    def __mul__(self, o):
        return mul(self, P(o))

    __rmul__ = __mul__

    def __repr__(self):
        return show(self)


def _mkey(mono):
    return ".".join(a.key if e == 1 else "%s^%s" % (a.key, e) for a, e in mono)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): 1})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, Fraction):
        if x == 0:
            return ZERO
        if x.denominator == 1:
            return Poly({(): x.numerator})
        return Poly({(): x})
    if isinstance(x, float):
        return P(Fraction(repr(x)) if x == x and abs(x) != float("inf") else sym(repr(x)))
    if isinstance(x, complex):
        return P(x.real) + P(x.imag) * I
    raise TypeError("not a term: %r" % (x,))


def sym(name, dtype="any"):
    return mk("sym", (name,), dtype)


def fresh(prefix="$", dtype="int"):
    return sym("%s%d" % (prefix, next(_fresh)), dtype)


ZERO = Poly({})
ONE = Poly({(): 1})
I_ATOM = mk("I", (), "complex")
I = Poly({((I_ATOM, 1),): 1})


def is_const(p):
    return not p.m or (len(p.m) == 1 and () in p.m)


def const_val(p):
    if not p.m:
        return 0
    if len(p.m) == 1 and () in p.m:
        return p.m[()]
    return None


def add(a, b):
    if not a.m:
        return b
    if not b.m:
        return a
    if len(a.m) < len(b.m):
        a, b = b, a
    m = dict(a.m)
    for k, v in b.m.items():
        c = m.get(k, 0) + v
        if c == 0:
            m.pop(k, None)
        else:
            m[k] = c
    if len(m) > MAXMONO:
        raise Budget("monomials")
    return Poly(m)


IVERSON = ("le0", "lt0", "eq0", "all", "truth", "isnone", "in", "exc", "bool", "isinst")


def is_iverson(a):
    return a.head in IVERSON


def mono_mul(m1, m2):
    """product of two monomials -> Poly"""
    if not m1:
        return Poly({m2: 1})
    if not m2:
        return Poly({m1: 1})
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    coef = 1
    extra = None
    expsum = None
    out = {}
    nexp = 0
    ivs = []
    for a, e in d.items():
        if e == 0:
            continue
        h = a.head
        if h == "I":
            e %= 4
            if e == 0:
                continue
            if e == 2:
                coef = -coef
                continue
            if e == 3:
                coef = -coef
            out[a] = 1
            continue
        if h in IVERSON:
            out[a] = 1
            ivs.append(a)
            continue
        if h == "exp":
            nexp += 1
            q = a.args[0] if e == 1 else a.args[0] * P(e)
            expsum = q if expsum is None else expsum + q
            continue
        if h == "sqrt" and abs(e) >= 2:
            k = int(e / 2)
            r = e - 2 * k
            q = powi(a.args[0], k)
            extra = q if extra is None else mul(extra, q)
            if r:
                out[a] = r
            continue
        if h == "abs" and e >= 2 and e % 1 == 0:
            k = int(e // 2)
            z = a.args[0]
            q = powi(mul(z, conj(z)), k)
            extra = q if extra is None else mul(extra, q)
            if e - 2 * k:
                out[a] = e - 2 * k
            continue
        out[a] = e
    if expsum is not None:
        if nexp == 1:
            pass
        e = exp_(expsum)
        if len(e.m) == 1:
            (mm, c), = e.m.items()
            for a, ee in mm:
                if a.head == "exp":
                    out[a] = 1
                else:
                    out[a] = out.get(a, 0) + ee
            coef = coef * c
            if I_ATOM in out and out[I_ATOM] > 1:
                ee = out.pop(I_ATOM)
                ee %= 4
                if ee in (2, 3):
                    coef = -coef
                if ee in (1, 3):
                    out[I_ATOM] = 1
        else:
            extra = e if extra is None else mul(extra, e)
    if len(ivs) > 1:
        r = _iv_simplify(ivs)
        if r is False:
            return ZERO
        if r is not None:
            for a in ivs:
                out.pop(a, None)
            for a in r:
                out[a] = 1
    res = Poly({tuple(sorted(out.items(), key=_atkey)): coef})
    if extra is not None:
        res = mul(res, extra)
    return res


def _atkey(x):
    return x[0].key


EXCL = {"builtins.tuple", "builtins.list", "builtins.dict", "builtins.set", "builtins.str", "numpy.ndarray"}


def _iv_simplify(ivs):
    """products of brackets: contradictions -> False, implied ones dropped -> new list, None: unchanged"""
    eqs = [a for a in ivs if a.head == "eq0"]
    les = [a for a in ivs if a.head == "le0"]
    lts = [a for a in ivs if a.head == "lt0"]
    ins = [a for a in ivs if a.head == "isinst"]
    for x, y in itertools.combinations(ins, 2):
        if x.args[0].key == y.args[0].key:
            p, q = single_atom(x.args[1]), single_atom(y.args[1])
            if p is not None and q is not None and p.head == q.head == "ext" and p.args[0] != q.args[0] and p.args[0] in EXCL and q.args[0] in EXCL:
                return False
    drop = set()
    newl = []
    for x, y in itertools.combinations(lts, 2):
        s = const_val(x.args[0] + y.args[0])
        if s is not None and not isinstance(s, complex) and s >= 0:
            return False
        d = const_val(x.args[0] - y.args[0])
        if d is not None and not isinstance(d, complex):
            drop.add(y if d >= 0 else x)
    for e in eqs:
        for l in lts:
            for sg in (1, -1):
                d = const_val(l.args[0] - e.args[0] * sg)
                if d is not None and not isinstance(d, complex):
                    if d < 0:
                        drop.add(l)
                    else:
                        return False
    for x, y in itertools.combinations(eqs, 2):
        if provably_nonzero(x.args[0] - y.args[0]) or provably_nonzero(x.args[0] + y.args[0]):
            # p=0 and q=0 with p-q a nonzero constant
            return False
    for x, y in itertools.combinations(les, 2):
        d = const_val(x.args[0] - y.args[0])
        if d is not None:      # p<=0 and p-d<=0 : keep stronger (larger)
            if d >= 0:
                drop.add(y)
            else:
                drop.add(x)
            continue
        s = const_val(x.args[0] + y.args[0])
        if s is not None:
            if s > 0:
                return False
            if s == 0:
                drop.add(x)
                drop.add(y)
                newl.append(x.args[0])
    for e in eqs:
        for l in les:
            for sg in (1, -1):
                d = const_val(l.args[0] - e.args[0] * sg)
                if d is not None:
                    if d <= 0:
                        drop.add(l)
                    else:
                        return False
    if not drop and not newl:
        return None
    r = [a for a in ivs if a not in drop]
    for p in newl:
        q = eq0(p)
        c = const_val(q)
        if c is not None:
            if c == 0:
                return False
            continue
        (mm, _), = q.m.items()
        a = mm[0][0]
        if a not in r:
            r.append(a)
    return r


def provably_nonzero(p):
    c = const_val(p)
    if c is not None:
        return c != 0
    # difference of two distinct literal constants (strings, None, types)
    if len(p.m) == 2:
        ks = list(p.m)
        if all(len(k) == 1 and k[0][1] == 1 and k[0][0].head == "lit" for k in ks) and \
                sorted(p.m.values()) == [-1, 1]:
            return True
    if len(p.m) == 1:
        (k, v), = p.m.items()
        if len(k) == 1 and k[0][0].head == "lit":
            return True
    if p.m and all((k == () or (len(k) == 1 and k[0][0].head == "lit")) for k in p.m):
        return True
    return False


DEADLINE = [None]
_tick = itertools.count()


def mul(a, b):
    if DEADLINE[0] is not None and next(_tick) % 256 == 0 and time.process_time() > DEADLINE[0]:
        raise Budget("time")
    if not a.m or not b.m:
        return ZERO
    if len(a.m) == 1 and () in a.m:
        c = a.m[()]
        return b if c == 1 else Poly({k: _nc(v * c) for k, v in b.m.items()})
    if len(b.m) == 1 and () in b.m:
        c = b.m[()]
        return a if c == 1 else Poly({k: _nc(v * c) for k, v in a.m.items()})
    if len(a.m) * len(b.m) > MAXMONO * 4:
        raise Budget("product")
    acc = {}
    for m1, c1 in a.m.items():
        for m2, c2 in b.m.items():
            p = mono_mul(m1, m2)
            c = c1 * c2
            for k, v in p.m.items():
                n = acc.get(k, 0) + v * c
                if n == 0:
                    acc.pop(k, None)
                else:
                    acc[k] = _nc(n)
    if len(acc) > MAXMONO:
        raise Budget("monomials")
    return Poly(acc)


def _nc(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return v.numerator
    return v


def powi(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(p, -n))
    r = p
    for _ in range(n - 1):
        r = mul(r, p)
    return r


def inv(p):
    c = const_val(p)
    if c is not None:
        if c == 0:
            return P(mk("inv", (ZERO,)))
        return P(Fraction(1) / Fraction(c))
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        r = P(Fraction(1) / Fraction(c))
        for a, e in mono:
            if a.head == "I":
                r = r * (-I if e % 4 == 1 else I)
            elif a.head == "exp":
                r = r * exp_(-a.args[0] * P(e))
            elif a.head == "inv":
                r = r * powi(a.args[0], e) if e > 0 else r * Poly({((a, -e),): 1})
            elif a.head in IVERSON:
                r = r * Poly({((mk("inv", (P(a),)), e),): 1})
            else:
                r = r * Poly({((a, -e),): 1})
        return r
    if 0 < len(iv_atoms(p)) <= 3:
        return lift(p, inv, 3)
    # common monomial factor and leading coefficient out
    lead = min(p.m, key=_mkey)
    c = p.m[lead]
    q = Poly({k: _nc(Fraction(v) / c) for k, v in p.m.items()})
    g = None
    for k in q.m:
        s = dict(k)
        if g is None:
            g = s
        else:
            g = {a: min(e, s[a]) for a, e in g.items() if a in s and min(e, s[a]) > 0}
        if not g:
            break
    res = P(Fraction(1) / Fraction(c))
    if g:
        g = {a: e for a, e in g.items() if e > 0 and a.head not in IVERSON and a.head not in ("I", "exp", "sqrt", "abs")}
    if g:
        gm = Poly({tuple(sorted(((a, -e) for a, e in g.items()), key=_atkey)): 1})
        q = mul(q, gm)
        res = mul(res, gm)
        if len(q.m) == 1:
            return mul(res, inv(q))
    dt = dtype_of(q)
    return mul(res, P(mk("inv", (q,), dt if dt in ("real", "complex") else ("real" if dt == "int" else "any"))))


def div(a, b):
    return mul(a, inv(b))


def dtype_of(p):
    """int | real | complex | any"""
    r = "int"
    order = {"int": 0, "real": 1, "complex": 2, "any": 3}
    for mono, c in p.m.items():
        d = "int" if not isinstance(c, Fraction) else "real"
        for a, e in mono:
            ad = a.dtype if a.head not in IVERSON else "int"
            if e < 0 and ad == "int":
                ad = "real"
            if order[ad] > order[d]:
                d = ad
        if order[d] > order[r]:
            r = d
    return r


# ------------------------------------------------------------------ elementary functions
def _split_I(p):
    """p = re + I*im when all atoms are known real; None if some atom may be complex"""
    re, im = {}, {}
    for mono, c in p.m.items():
        mm = []
        isim = False
        for a, e in mono:
            if a.head == "I":
                isim = True
                continue
            if a.dtype in ("complex",):
                return None
            if a.dtype == "any" and a.head not in IVERSON:
                return None
            mm.append((a, e))
        (im if isim else re)[tuple(mm)] = c
    return Poly(re), Poly(im)


PI = sym("pi", "real")


def exp_(p):
    if not p.m:
        return ONE
    # exp(i*pi*rational)
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if dict(mono) == {I_ATOM: 1, PI: 1}:
            f = Fraction(c) % 2
            if f == 0:
                return ONE
            if f == 1:
                return P(-1)
            if f == Fraction(1, 2):
                return I
            if f == Fraction(3, 2):
                return -I
    # split off multiples of 2*pi*i is not done (needs integrality) except literal part
    key = mono_IPI
    if key in p.m:
        c = p.m[key]
        f = Fraction(c) % 2
        if f != Fraction(c):
            q = dict(p.m)
            if f == 0:
                q.pop(key)
            else:
                q[key] = _nc(f)
            return exp_(Poly(q))
    # brackets: exp(sum) stays; split guards so that exp([g]x) = 1 + [g](exp(x)-1)
    for mono in p.m:
        if any(a.head in IVERSON for a, _ in mono):
            return _lift(p, exp_)
    return P(mk("exp", (p,), "real" if dtype_of(p) in ("int", "real") else ("complex")))


def _lift(p, f):
    """f(p) for p containing brackets: case split on one bracket atom"""
    for mono in p.m:
        for a, _ in mono:
            if a.head in IVERSON:
                g = P(a)
                p1 = assume(p, a, True)
                p0 = assume(p, a, False)
                return g * f(p1) + (ONE - g) * f(p0)
    return f(p)


def iv_atoms(p):
    s = {}
    for mono in p.m:
        for a, _ in mono:
            if a.head in IVERSON:
                s[a.key] = a
    return s


def lift(p, f, limit=4):
    """apply f under a case split over the bracket atoms of p (bounded), else directly"""
    ivs = iv_atoms(p)
    if not ivs or len(ivs) > limit:
        return f(p)
    k = sorted(ivs)[0]
    a = ivs[k]
    g = P(a)
    p1, p0 = assume(p, a, True), assume(p, a, False)
    return g * lift(p1, f, limit) + (ONE - g) * lift(p0, f, limit)


def assume(p, atom, val):
    out = ZERO
    for mono, c in p.m.items():
        if any(a is atom for a, _ in mono):
            if not val:
                continue
            mm = tuple((a, e) for a, e in mono if a is not atom)
            out = add(out, Poly({mm: c}))
        else:
            out = add(out, Poly({mono: c}))
    return out


mono_IPI = tuple(sorted(((I_ATOM, 1), (PI, 1)), key=_atkey))


def cos_(p):
    return (exp_(I * p) + exp_(-I * p)) * P(Fraction(1, 2))


def sin_(p):
    return (exp_(I * p) - exp_(-I * p)) * (-I) * P(Fraction(1, 2))


def conj(p):
    out = ZERO
    for mono, c in p.m.items():
        t = P(c) if not isinstance(c, int) else P(c)
        for a, e in mono:
            t = mul(t, _conj_pow(a, e))
        out = add(out, t)
    return out


def _conj_pow(a, e):
    if a.head == "I":
        return -I if e % 2 else ONE
    if a.head in IVERSON or a.dtype in ("int", "real"):
        return Poly({((a, e),): 1})
    if a.head == "exp":
        return exp_(conj(a.args[0]) * P(e))
    if a.head == "conj":
        return Poly({((a.args[0], e),): 1})
    if a.head == "inv":
        return powi(inv(conj(a.args[0])), e) if e > 0 else powi(conj(a.args[0]), -e)
    if a.head == "sum":
        v, n, body = a.args
        r = mk_sum(sym(v, "int"), ZERO, n, conj(body)) if False else sum_raw(a, conj(a.args[2]))
        return powi(r, e) if e >= 0 else inv(powi(r, -e))
    if a.head == "abs":
        return Poly({((a, e),): 1})
    if a.head == "sqrt":
        pass
    return Poly({((mk("conj", (a,), a.dtype), e),): 1})


def re_(p):
    return (p + conj(p)) * P(Fraction(1, 2))


def im_(p):
    return (p - conj(p)) * P(Fraction(-1, 2)) * I


def sqrt_(p):
    c = const_val(p)
    if c is not None and c >= 0:
        f = Fraction(c)
        n, d = _isqrt(f.numerator), _isqrt(f.denominator)
        if n is not None and d is not None:
            return P(Fraction(n, d))
    return P(mk("sqrt", (p,), "real" if dtype_of(p) in ("int", "real") else "any"))


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def abs_(p):
    c = const_val(p)
    if c is not None:
        return P(abs(c))
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if c != 1 and c != 0:
            return P(abs(c)) * abs_(Poly({mono: 1}))
    if not isinstance(p, Poly):
        raise TypeError
    lead = min(p.m, key=_mkey)
    if p.m[lead] < 0:
        p = -p
    return lift(p, lambda q: _abs1(q))


def _abs1(q):
    c = const_val(q)
    if c is not None:
        return P(abs(c))
    lead = min(q.m, key=_mkey)
    if q.m[lead] < 0:
        q = -q
    return P(mk("abs", (q,), "int" if dtype_of(q) == "int" else "real"))


def floordiv(a, b):
    ca, cb = const_val(a), const_val(b)
    if ca is not None and cb not in (None, 0):
        import math
        return P(math.floor(Fraction(ca) / Fraction(cb)))
    if cb == 1 and dtype_of(a) == "int":
        return a
    # pull out integer multiples of b
    return P(mk("floordiv", (a, b), "int" if dtype_of(a) == "int" and dtype_of(b) == "int" else "real"))


def mod_(a, b):
    """a - b*floor(a/b)"""
    return a - b * floordiv(a, b)


# ------------------------------------------------------------------ comparisons (Iverson brackets)
def _norm_scale(p, sign_free):
    """divide by positive content; if sign_free make the leading coefficient positive"""
    from math import gcd
    nums, dens = 0, 1
    for c in p.m.values():
        f = Fraction(c)
        nums = gcd(nums, f.numerator)
        dens = dens * f.denominator // gcd(dens, f.denominator)
    g = Fraction(nums, dens) if nums else Fraction(1)
    lead = min(p.m, key=_mkey)
    neg = p.m[lead] < 0
    q = Poly({k: _nc(Fraction(v) / g) for k, v in p.m.items()})
    if sign_free and neg:
        q = -q
    return q, neg


RANGES = {}      # loop variable key -> (variable, trip count): values of a variable that is being iterated


def _extreme(p, rng, hi):
    """constant bound (upper when hi, else lower) of p over the ranges; None when there is none in reach"""
    for _ in range(4):
        live = [rng[k] for k in p.syms if k in rng]
        if not live:
            break
        v, n = max(live, key=lambda x: x[0].key)
        c = 0
        for mono, cf in p.m.items():
            if any(v.key in a.syms for a, _ in mono):
                if len(mono) == 1 and mono[0][0] is v and mono[0][1] == 1:
                    c += cf
                else:
                    return None
        if isinstance(c, complex) or c == 0:
            return None
        p = subst(p, {v.key: (n - ONE) if (c > 0) == hi else ZERO})
    else:
        return None
    c0 = 0
    for mono, cf in p.m.items():
        if isinstance(cf, complex):
            return None
        if mono == ():
            c0 = cf
        elif (cf > 0) == hi or not all(nonneg_atom(a) for a, _ in mono):
            return None
    return c0


def le0(p):
    """[p <= 0], any type"""
    c = const_val(p)
    if c is not None:
        return ONE if c <= 0 else ZERO
    return lift(p, _le0)


def _le0(p):
    c = const_val(p)
    if c is not None:
        return ONE if c <= 0 else ZERO
    if RANGES and not RANGES.keys().isdisjoint(p.syms):
        x = _extreme(p, RANGES, True)
        if x is not None and x <= 0:
            return ONE
        x = _extreme(p, RANGES, False)
        if x is not None and x > 0:
            return ZERO
    if dtype_of(p) == "int":
        # content: tighten constant
        from math import gcd
        g = 0
        for k, v in p.m.items():
            if k != ():
                g = gcd(g, int(v))
        k0 = int(p.m.get((), 0))
        m = {k: int(v) // g for k, v in p.m.items() if k != ()}
        # sum + k0 <= 0 -> g*s <= -k0 -> s <= floor(-k0/g)
        b = (-k0) // g
        if b:
            m[()] = -b
        q = Poly(m)
        lead = min((k for k in q.m if k != ()), key=_mkey)
        if q.m[lead] < 0:
            return ONE - _le0i(ONE - q)
        return _le0i(q)
    return ONE - lt0(-p)


def nonneg_atom(a):
    return a.head in ("len", "dim") or a.head == "attr" and isinstance(a.args[1], str) and a.args[1].startswith(COUNTS)


_IV = re.compile(r"\$[iv]?\d+$|%\d+$")


def nonneg(p):
    """known to be non-negative: counts, loop indices and sums of them"""
    return all(c > 0 and all(nonneg_atom(a) or (a.head == "sym" and _IV.match(str(a.args[0]))) for a, _ in m)
               for m, c in p.m.items() if not isinstance(c, complex))


def _le0i(q):
    if len(q.m) <= 2:
        mo = [k for k in q.m if k != ()]
        if len(mo) == 1 and len(mo[0]) == 1 and mo[0][0][1] == 1 and q.m[mo[0]] == 1 and nonneg_atom(mo[0][0][0]):
            c = q.m.get((), 0)
            if c > 0:
                return ZERO
            if c == 0:
                return _eq0(q)
    return P(mk("le0", (q,), "int"))


def lt0(p):
    c = const_val(p)
    if c is not None:
        return ONE if c < 0 else ZERO
    return lift(p, _lt0)


def _lt0(p):
    c = const_val(p)
    if c is not None:
        return ONE if c < 0 else ZERO
    if dtype_of(p) == "int":
        return _le0(p + ONE)
    q, _ = _norm_scale(p, False)
    return P(mk("lt0", (q,), "int"))


def eq0(p):
    c = const_val(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    if provably_nonzero(p):
        return ZERO
    return lift(p, _eq0)


def _eq0(p):
    c = const_val(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    if provably_nonzero(p):
        return ZERO
    if RANGES and not RANGES.keys().isdisjoint(p.syms):
        x = _extreme(p, RANGES, True)
        if x is not None and x < 0:
            return ZERO
        x = _extreme(p, RANGES, False)
        if x is not None and x > 0:
            return ZERO
    if dtype_of(p) == "int":
        from math import gcd
        g = 0
        for k, v in p.m.items():
            if k != ():
                g = gcd(g, int(v))
        if g > 1 and int(p.m.get((), 0)) % g:
            return ZERO
    q, _ = _norm_scale(p, True)
    return P(mk("eq0", (q,), "int"))


def is_bool(p):
    if p._bool is None:
        ok = True
        for mono in p.m:
            for a, e in mono:
                if a.head not in IVERSON:
                    ok = False
                    break
            if not ok:
                break
        if ok and len(p.m) <= 64:
            ok = mul(p, p).key == p.key
        elif len(p.m) > 64:
            ok = False
        p._bool = ok
    return p._bool


def truth(p):
    c = const_val(p)
    if c is not None:
        return ONE if c != 0 else ZERO
    if is_bool(p):
        return p
    return lift(p, lambda q: (ONE if const_val(q) else ZERO) if const_val(q) is not None else _truth1(q))


def _truth1(q):
    if is_bool(q):
        return q
    if dtype_of(q) in ("int", "real", "complex"):
        return ONE - eq0(q)
    if len(q.m) == 1:
        (mono, c), = q.m.items()
        if len(mono) == 1 and mono[0][0].head == "lit":
            v = mono[0][0].args[0]
            return ONE if v not in ("", "None") else ZERO
    return P(mk("truth", (q,), "int"))


def lit(v):
    """a literal that is not a number (string, None)"""
    return P(mk("lit", (v,), "any"))


# ------------------------------------------------------------------ sums
def bname(h):
    return "%%%d" % h


def sum_raw(a, body):
    v, n, _ = a.args
    return _sum_from(sym(v, "int"), n, body)


def mk_sum(var, lo, hi, body):
    """Sum_{var=lo}^{hi-1} body"""
    n = hi - lo
    if lo.m:
        body = subst(body, {var.key: P(var) + lo})
    return _sum_from(var, n, body)


def _sum_from(var, n, body):
    c = const_val(n)
    if c is not None and c <= 0:
        return ZERO
    if c is not None and c <= 3 and c == int(c):
        r = ZERO
        for k in range(int(c)):
            r = r + subst(body, {var.key: P(k)})
        return r
    out = ZERO
    vk = var.key
    rest = {}
    for mono, cf in body.m.items():
        free, dep = [], []
        for a, e in mono:
            (dep if vk in a.syms else free).append((a, e))
        dep = tuple(dep)
        rest.setdefault(dep, ZERO)
        rest[dep] = add(rest[dep], Poly({tuple(free): cf}))
    for dep, coef in rest.items():
        out = add(out, mul(coef, _sum_mono(var, n, dep)))
    return out


def _sum_mono(var, n, dep):
    vk = var.key
    if not dep:
        return n
    if len(dep) == 1 and dep[0][0] is var:
        e = dep[0][1]
        if e == 1:
            return mul(mul(n, n - ONE), P(Fraction(1, 2)))
        if e == 2:
            return mul(mul(mul(n, n - ONE), n * 2 - ONE), P(Fraction(1, 6)))
    # delta elimination
    for i, (a, e) in enumerate(dep):
        if a.head == "eq0":
            sol = solve_linear(a.args[0], var)
            if sol is not None:
                rest = Poly({tuple(x for j, x in enumerate(dep) if j != i): 1})
                inr = mul(le0(-sol), le0(sol - n + ONE))
                return mul(inr, subst(rest, {vk: sol}))
    body = Poly({dep: 1})
    h = max(body.height, n.height) + 1
    nm = bname(h)
    v = sym(nm, "int")
    b2 = subst(body, {vk: P(v)})
    # nested sums: sort binder order canonically when independent bounds
    a = mk("sum", (nm, n, b2), dtype_of(b2) if dtype_of(b2) != "int" else "int", bind_height=h, bound=(v.key,))
    a = _sort_nest(a)
    return P(a)


def _sort_nest(a):
    """canonical order of a perfectly nested Sum with independent ranges"""
    v, n, body = a.args
    if len(body.m) != 1:
        return a
    (mono, c), = body.m.items()
    if c != 1 or len(mono) != 1:
        # product of inner sum with factors depending on v: cannot be perfectly nested; leave
        return a
    (x, e), = mono
    if x.head != "sum" or e != 1:
        return a
    v2, n2, b2 = x.args
    vs = sym(v, "int")
    if vs.key in n2.syms:
        return a
    # swap: Sum_v2 Sum_v b2
    f1, f2 = fresh(), fresh()
    raw = subst(b2, {vs.key: P(f1), sym(v2, "int").key: P(f2)})
    inner = _plain_sum(f1, n, raw)
    outer = _plain_sum(f2, n2, P(inner))
    return a if a.key <= outer.key else outer


def _plain_sum(var, n, body):
    h = max(body.height, n.height) + 1
    nm = bname(h)
    v = sym(nm, "int")
    b2 = subst(body, {var.key: P(v)})
    return mk("sum", (nm, n, b2), dtype_of(b2), bind_height=h, bound=(v.key,))


def mk_all(var, lo, hi, body):
    """[for all var in [lo,hi): body]"""
    c = const_val(body)
    if c == 1:
        return ONE
    n = hi - lo
    cn = const_val(n)
    if cn is not None and cn <= 0:
        return ONE
    if lo.m:
        body = subst(body, {var.key: P(var) + lo})
    if cn is not None and cn <= 4:
        r = ONE
        for k in range(int(cn)):
            r = r * subst(body, {var.key: P(k)})
        return r
    if var.key not in body.syms:
        # n>0 -> body
        return ONE - (ONE - le0(n)) * (ONE - body)
    h = max(body.height, n.height) + 1
    nm = bname(h)
    v = sym(nm, "int")
    b2 = subst(body, {var.key: P(v)})
    return P(mk("all", (nm, n, b2), "int", bind_height=h, bound=(v.key,)))


def mk_prod(var, lo, hi, body):
    n = hi - lo
    if lo.m:
        body = subst(body, {var.key: P(var) + lo})
    cn = const_val(n)
    if cn is not None and cn <= 6:
        r = ONE
        for k in range(max(0, int(cn))):
            r = r * subst(body, {var.key: P(k)})
        return r
    h = max(body.height, n.height) + 1
    nm = bname(h)
    v = sym(nm, "int")
    b2 = subst(body, {var.key: P(v)})
    return P(mk("prod", (nm, n, b2), dtype_of(b2), bind_height=h, bound=(v.key,)))


def solve_linear(p, var):
    """p == 0 solved for var when var occurs linearly with coefficient +-1"""
    c = None
    rest = {}
    for mono, cf in p.m.items():
        if any(var.key in a.syms for a, _ in mono):
            if len(mono) == 1 and mono[0][0] is var and mono[0][1] == 1 and cf in (1, -1) and c is None:
                c = cf
            else:
                return None
        else:
            rest[mono] = cf
    if c is None:
        return None
    r = Poly(rest)
    return -r if c == 1 else r


# ------------------------------------------------------------------ substitution
REBUILD = {}


def subst(p, mp):
    """replace symbols (by key) in a Poly"""
    ks = frozenset(mp)
    if not (p.syms & ks):
        return p
    memo = {}
    return _subst_poly(p, mp, ks, memo)


def _subst_poly(p, mp, ks, memo):
    if not (p.syms & ks):
        return p
    out = {}
    rest = None
    for mono, c in p.m.items():
        t = None
        keep = []
        for a, e in mono:
            if a.syms & ks:
                s = _subst_atom(a, mp, ks, memo)
                q = s if e == 1 else (powi(s, e) if isinstance(e, int) else P(mk("pow", (s, P(e)))))
                t = q if t is None else mul(t, q)
            else:
                keep.append((a, e))
        if t is None:
            n = out.get(mono, 0) + c
            if n == 0:
                out.pop(mono, None)
            else:
                out[mono] = n
        else:
            q = mul(Poly({tuple(keep): c}), t)
            rest = q if rest is None else add(rest, q)
    r = Poly(out)
    return r if rest is None else add(r, rest)


def subst_any(x, mp, ks, memo):
    if isinstance(x, Poly):
        return _subst_poly(x, mp, ks, memo)
    if isinstance(x, Atom):
        if not (x.syms & ks):
            return x
        r = _subst_atom(x, mp, ks, memo)
        if len(r.m) == 1:
            (mono, c), = r.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                return mono[0][0]
        return mk("val", (r,))
    if isinstance(x, tuple):
        return tuple(subst_any(y, mp, ks, memo) for y in x)
    return x


def _subst_atom(a, mp, ks, memo):
    if not (a.syms & ks):
        return P(a)
    r = memo.get(a)
    if r is not None:
        return r
    if a.head == "sym":
        r = mp.get(a.key)
        r = P(a) if r is None else r
    elif a.head in ("sum", "all", "prod"):
        v, n, body = a.args
        f = fresh()
        n2 = _subst_poly(n, mp, ks, memo)
        vs = sym(v, "int")
        if vs.key in mp:
            mp2 = {k: x for k, x in mp.items() if k != vs.key}
            b2 = subst(subst(body, {vs.key: P(f)}), mp2)
        else:
            b2 = subst(body, {vs.key: P(f)})
            b2 = _subst_poly(b2, mp, ks, {})
        r = {"sum": _sum_from, "prod": lambda f, n, b: mk_prod(f, ZERO, n, b),
             "all": lambda f, n, b: mk_all(f, ZERO, n, b)}[a.head](f, n2, b2)
    else:
        args = tuple(subst_any(x, mp, ks, memo) for x in a.args)
        r = rebuild(a.head, args, a.dtype, a)
    memo[a] = r
    return r


def rebuild(head, args, dtype, a=None):
    f = REBUILD.get(head)
    if f is not None:
        return f(args, dtype)
    if a is not None and a.head == head and a.height and head in BINDING:
        return BINDING[head](args, dtype, a)
    return P(mk(head, args, dtype))


BINDING = {}


def _rb_conj(args, dtype):
    x = args[0]
    if isinstance(x, Atom):
        if x.head == "val":
            return conj(x.args[0])
        return conj(P(x))
    return conj(x)


def single_atom(p):
    if isinstance(p, Atom):
        return p
    if isinstance(p, Poly) and len(p.m) == 1:
        (mono, c), = p.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            return mono[0][0]
    return None


ATTR_SHAPE = {}


# public array attributes with one row per orbital / per hopping term
SAME_LEN = {"orb_pos": "num_orb", "orb_eng": "num_orb", "orb_pos_nm": "num_orb", "orbitals": "num_orb", "hop_ind": "num_hop", "hop_eng": "num_hop"}


# conversions that keep the number of rows
ROWWISE = {"cart2frac": "cartesian_coordinates", "frac2cart": "fractional_coordinates"}


def mk_len(t):
    """length of an opaque container"""
    a = single_atom(t)
    if a is not None:
        d, b = 0, a
        while b is not None and b.head == "idx" and all(isinstance(x, Poly) for x in b.args[1]):
            d += len(b.args[1])
            b = single_atom(b.args[0])
        if b is not None and b.head == "attr" and b.args[1] in ATTR_SHAPE:
            sh = ATTR_SHAPE[b.args[1]]
            if d < len(sh) and sh[d] is not None:
                return P(sh[d])
        if a.head == "attr" and a.args[1] in SAME_LEN:
            return P(mk("attr", (a.args[0], SAME_LEN[a.args[1]])))
        if a.head == "app" and a.args[0] in ROWWISE:
            r = [v for n, v in a.args[1] if n == ROWWISE[a.args[0]]]
            if len(r) == 1 and isinstance(r[0], Poly):
                return mk_len(r[0])
        if a.head == "keys":
            return mk_len(a.args[0])
        if a.head == "iter":
            return a.args[0]
        if a.head == "tup":
            return P(len(a.args[0]))
        if a.head == "idx" and len(a.args[1]) == 1 and isinstance(a.args[1][0], Atom) and a.args[1][0].head == "slice":
            lo, hi, step = a.args[1][0].args
            nn = lambda q: q is None or repr(q) == "'None'"
            if nn(step):
                n = mk_len(a.args[0])
                if nn(lo) and nn(hi):
                    return n
                if nn(lo) and isinstance(hi, Poly) and (const_val(hi) is None or const_val(hi) >= 0) and nonneg(hi):
                    g = le0(hi - n)
                    return g * hi + (ONE - g) * n
                if nn(hi) and isinstance(lo, Poly) and (const_val(lo) is None or const_val(lo) >= 0) and nonneg(lo):
                    g = le0(lo - n)
                    return g * (n - lo)
    return P(mk("len", (t,), "int"))


def mk_in(x, t):
    a = single_atom(t)
    if a is not None and a.head == "keys":
        return mk_in(x, a.args[0])
    if a is not None and a.head == "iter" and single_atom(a.args[1]) is not None and single_atom(a.args[1]).head == "keys":
        return mk_in(x, single_atom(a.args[1]).args[0])
    if a is not None and a.head == "lit" and a.args[0] == "None":
        return ZERO
    if a is None and isinstance(t, Poly) and iv_atoms(t) and len(iv_atoms(t)) <= 4:
        return lift(t, lambda q: mk_in1(x, q))
    return mk_in1(x, t)


def mk_in1(x, t):
    a = single_atom(t)
    if a is not None and a.head == "lit" and a.args[0] == "None":
        return ZERO
    return P(mk("in", (x, t), "int"))


REBUILD.update({
    "len": lambda args, dt: mk_len(args[0]),
    "in": lambda args, dt: mk_in(args[0], args[1]),
    "exp": lambda args, dt: exp_(args[0]),
    "inv": lambda args, dt: inv(args[0]),
    "conj": _rb_conj,
    "sqrt": lambda args, dt: sqrt_(args[0]),
    "abs": lambda args, dt: abs_(args[0]),
    "le0": lambda args, dt: le0(args[0]),
    "lt0": lambda args, dt: lt0(args[0]),
    "eq0": lambda args, dt: eq0(args[0]),
    "truth": lambda args, dt: truth(args[0]),
    "floordiv": lambda args, dt: floordiv(args[0], args[1]),
    "val": lambda args, dt: args[0],
})


def mk_let(p):
    """abbreviation of a large scalar term (keyed by content)"""
    return P(mk("let", (p,), dtype_of(p)))


def abbr(p, limit):
    if len(p.m) <= limit:
        return p
    if is_bool(p):
        return mk_boolatom(p)
    return mk_let(p)


def mk_boolatom(p):
    if len(p.m) <= 1:
        return p
    q = ONE - p
    if q.key < p.key:
        return ONE - P(mk("bool", (q,), "int"))
    return P(mk("bool", (p,), "int"))


REBUILD["let"] = lambda args, dt: abbr(args[0], 3)
REBUILD["bool"] = lambda args, dt: abbr(truth(args[0]), 3)


# ------------------------------------------------------------------ display / traversal
def show_atom(a):
    h = a.head
    if h == "sym":
        return str(a.args[0])
    if h == "lit":
        return repr(a.args[0])
    if h == "I":
        return "1j"
    if h == "le0":
        return "[%s<=0]" % show(a.args[0])
    if h == "lt0":
        return "[%s<0]" % show(a.args[0])
    if h == "eq0":
        return "[%s==0]" % show(a.args[0])
    if h == "sum":
        return "Sum{%s<%s: %s}" % (a.args[0], show(a.args[1]), show(a.args[2]))
    if h == "all":
        return "All{%s<%s: %s}" % (a.args[0], show(a.args[1]), show(a.args[2]))
    if h == "idx":
        return "%s[%s]" % (show_any(a.args[0]), ",".join(show_any(x) for x in a.args[1]))
    return "%s(%s)" % (h, ", ".join(show_any(x) for x in a.args))


def show_any(x):
    if isinstance(x, Poly):
        return show(x)
    if isinstance(x, Atom):
        return show_atom(x)
    if isinstance(x, tuple):
        return "(" + ", ".join(show_any(y) for y in x) + ")"
    return str(x)


def show(p, limit=None):
    if not p.m:
        return "0"
    parts = []
    for mono in sorted(p.m, key=_mkey):
        c = p.m[mono]
        ms = "*".join(show_atom(a) if e == 1 else "%s^%s" % (show_atom(a), e) for a, e in mono)
        if not ms:
            parts.append(str(c))
        elif c == 1:
            parts.append(ms)
        elif c == -1:
            parts.append("-" + ms)
        else:
            parts.append("%s*%s" % (c, ms))
    s = " + ".join(parts)
    if limit and len(s) > limit:
        s = s[:limit] + "..."
    return s


def atoms_of(x, acc=None):
    """all atoms (deep) in a term or nested tuple"""
    if acc is None:
        acc = {}
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, Poly):
            for mono in y.m:
                for a, _ in mono:
                    stack.append(a)
        elif isinstance(y, Atom):
            if y.key in acc:
                continue
            acc[y.key] = y
            stack.extend(y.args)
        elif isinstance(y, tuple):
            stack.extend(y)
    return acc
