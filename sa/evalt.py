"""Random interpretation of terms (Gulwani & Necula): two *terms* that the normal form could not identify are
compared under random valuations of their free symbols.  Nothing of the analysed program is executed; the
result is only used to withhold an alarm when the terms agree (incomplete normal form)."""
import cmath
import hashlib
import math
import random
import re as _re
from fractions import Fraction
from .term import *
from .term import _akey
from . import term as T


class Skip(Exception):
    pass


class Steps(Exception):
    pass


def _h(*xs):
    return int.from_bytes(hashlib.sha1(repr(xs).encode()).digest()[:8], "big")


def rnum(x):
    if isinstance(x, complex):
        if abs(x.imag) < 1e-9 * (1 + abs(x.real)):
            return rnum(x.real)
        return (rnum(x.real), rnum(x.imag))
    if isinstance(x, float):
        if x != x or abs(x) == float("inf"):
            raise Skip()
        if abs(x - round(x)) < 1e-9 * (1 + abs(x)):
            return int(round(x))
        return float("%.7g" % x)
    if isinstance(x, Fraction):
        return rnum(float(x))
    return x


class Arr:
    def __init__(self, read, key=None, rank=None):
        self.read, self.key, self.rank = read, key, rank


class Str:
    """non-numeric value"""

    def __init__(self, s):
        self.s = s


BOUND = _re.compile(r"\b(num_|n_|dim|_dim|ndim|size|nk|nr_)")
IVALS = (0, 1, 2, 3, 1, 2, 4, 5, -1)


class Eval:
    def __init__(self, seed, pool, defs=None, maxsteps=400000, intpool=(), mode=0):
        self.mode = mode
        self.seed, self.pool, self.defs = seed, pool, defs or {}
        self.steps = 0
        self.maxsteps = maxsteps
        self.cache = {}
        self.intpool = tuple(intpool)
        self.forced = {}
        self.real = ()
        self.labels = {}
        self.drawn = set()
        self.keep = None        # valuation of these keys is taken from a previous witness
        self.seed2 = self.mode2 = None

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Steps()

    # ---------------------------------------------------------- random values
    def rnd(self, key, dtype, hint=None):
        if self.keep is None:
            self.drawn.add(key)
        elif key not in self.keep:
            s, m, k = self.seed, self.mode, self.keep
            self.seed, self.mode, self.keep = self.seed2, self.mode2, None
            try:
                return self.rnd(key, dtype, hint)
            finally:
                self.seed, self.mode, self.keep = s, m, k
        r = random.Random(_h(self.seed, key))
        if hint is not None and hint in self.labels and r.random() < 0.7:
            return r.choice(self.labels[hint])
        if self.mode == 1 and dtype in ("int", "any"):
            return r.choice((0, 0, 1))
        if self.mode == 2 and dtype in ("int", "any"):
            if dtype == "any" and self.pool and r.random() < 0.2:
                return r.choice(self.pool)
            return r.choice((-2, -1, 0, 0, 1, 2, 3))
        if self.mode == 5 and dtype == "any" and not BOUND.search(hint or repr(key)):
            return complex(r.uniform(-2, 2), r.uniform(-2, 2))
        if self.mode == 3 and dtype == "any":
            return r.uniform(-2, 2)
        if self.mode == 4 and dtype in ("int", "any"):
            # counts and bounds mostly above indices
            return r.choice((2, 3, 3, 4)) if BOUND.search(hint or repr(key)) else r.choice((0, 0, 1, 1, 2))
        if dtype == "int":
            if self.intpool and r.random() < 0.35:
                return r.choice(self.intpool)
            return r.choice(IVALS)
        if self.mode == 6:
            # coinciding and vanishing quantities, loops that are entered
            if dtype == "int":
                return r.choice((1, 1, 2, 2, 3, 0) + self.intpool[:4])
            if r.random() < (0.85 if self.seed[1] & 8 else 0.4):
                return 0
            if dtype == "any":
                return r.choice((1, 1, 2, -1))
        if dtype == "real":
            return r.choice((-1, 1)) * (r.random() * 1.5 + 0.2)
        if dtype == "complex":
            return complex(r.uniform(-1, 1), r.uniform(-1, 1))
        if self.pool and r.random() < 0.5:
            return r.choice(self.pool)
        if r.random() < 0.5:
            return r.choice((0, 1, 2, 3))
        return r.random() * 2 + 0.1

    def size(self, key):
        seed = self.seed
        if self.keep is None:
            self.drawn.add(("size", key))
        elif ("size", key) not in self.keep:
            seed = self.seed2
        r = random.Random(_h(seed, "size", key))
        if self.mode in (1, 2) and r.random() < 0.35:
            return r.choice((0, 0) + tuple(x for x in self.intpool if 0 <= x <= 6))
        return r.choice((1, 2, 2, 3, 3))

    # ---------------------------------------------------------- polynomials
    def poly(self, p, env):
        self.tick()
        if not (p.syms & env.keys()):
            r = self.cache.get(p.key)
            if r is not None:
                return r
            r = self._poly(p, env)
            self.cache[p.key] = r
            return r
        free = p.syms & env.keys()
        if len(free) <= 4 and len(p.m) > 1:
            ck = [p.key]
            for k in sorted(free) if len(free) > 1 else free:
                v = env[k]
                if type(v) is not int:
                    break
                ck.append((k, v))
            else:
                ck = tuple(ck)
                r = self.cache.get(ck)
                if r is None:
                    r = self.cache[ck] = self._poly(p, env)
                return r
        return self._poly(p, env)

    def _poly(self, p, env):
        tot = 0
        if len(p.m) > 1:
            # guards first: the terms that remain are added up before their values are used
            rest = {}
            for mono, c in p.m.items():
                for a, e in mono:
                    if a.head in IVERSON and num(self.atom(a, env)) == 0:
                        break
                else:
                    m2 = tuple((a, e) for a, e in mono if a.head not in IVERSON)
                    k = tuple((a.key, e) for a, e in m2)
                    if k in rest:
                        rest[k] = (m2, rest[k][1] + c)
                    else:
                        rest[k] = (m2, c)
            terms = [(m, c) for m, c in rest.values() if c != 0]
        else:
            terms = p.m.items()
        for mono, c in terms:
            v = 1 if c == 1 else c
            # guards first: a zero guard hides undefined factors
            zero = False
            for a, e in mono:
                if a.head in IVERSON:
                    x = self.atom(a, env)
                    if num(x) == 0:
                        zero = True
                        break
            if zero:
                continue
            for a, e in mono:
                if a.head in IVERSON:
                    continue
                x = self.atom(a, env)
                x = self.power(x, e)
                v = self.mul(v, x)
            tot = self.add(tot, v)
        return tot

    def power(self, x, e):
        if e == 1:
            return x
        if isinstance(x, Arr):
            return Arr(lambda i: self.power(x.read(i), e), None, x.rank)
        x = num(x)
        try:
            if isinstance(e, int) or (isinstance(e, Fraction) and e.denominator == 1):
                e = int(e)
                if abs(e) > 64 or isinstance(x, (int, Fraction)) and abs(x) > 1e30:
                    raise Skip()
                if e < 0:
                    if x == 0:
                        raise Skip()
                    return 1 / (complex(x) ** -e) if isinstance(x, complex) else 1.0 / (float(x) ** -e) if not isinstance(x, (int, Fraction)) else Fraction(1) / Fraction(x) ** -e
                return x ** e
            return complex(x) ** float(e)
        except (OverflowError, ZeroDivisionError):
            raise Skip()

    def mul(self, a, b):
        if isinstance(b, (FamV, Tupv)) and isinstance(a, int) and a == 1:
            return b
        if isinstance(a, Tupv) and isinstance(b, int) and b == 1:
            return a
        if isinstance(a, Tupv) and isinstance(b, int) and b == 0 or isinstance(b, Tupv) and isinstance(a, int) and a == 0:
            return 0
        if isinstance(a, FamV) or isinstance(b, FamV):
            raise Skip()
        if isinstance(a, Arr) or isinstance(b, Arr):
            if not isinstance(a, Arr):
                a, b = b, a
            if isinstance(a, Opq) and (isinstance(b, Opq) or not isinstance(b, Arr)) or isinstance(b, Opq) and not isinstance(a, Arr):
                return self.oarith("mul", a, b, lambda x, y: self.mul(x, y))
            if isinstance(b, Arr):
                return Arr(lambda i: self.mul(a.read(i), b.read(i)), None, a.rank or b.rank)
            if num(b) == 1:
                return a
            return Arr(lambda i: self.mul(a.read(i), b), None, a.rank)
        try:
            return num(a) * num(b)
        except OverflowError:
            raise Skip()

    def oarith(self, nm, a, b, f):
        """numbers of unknown rank: scalar view and element view are kept side by side"""
        e = 1 if nm == "mul" else 0
        for x, y in ((a, b), (b, a)):
            if not isinstance(y, Arr) and num(y) == e:
                return x
        rd = lambda x, i: x.read(i) if isinstance(x, Arr) else x
        try:
            v = f(num(a), num(b))
        except TypeError:
            raise Skip()
        r = Opq(v, None, self, "any")
        # sums and products are identified by their values (commutative, associative)
        r.key = ("n", rnum(v), rnum(f(num(rd(a, (0,))), num(rd(b, (0,))))))
        r.read = lambda i: f(rd(a, i), rd(b, i))
        return r

    def add(self, a, b):
        if isinstance(b, (FamV, Tupv)) and isinstance(a, int) and a == 0:
            return b
        if isinstance(a, Tupv) and isinstance(b, int) and b == 0:
            return a
        if isinstance(a, FamV) or isinstance(b, FamV):
            raise Skip()
        if isinstance(a, Arr) or isinstance(b, Arr):
            if not isinstance(a, Arr):
                a, b = b, a
            if isinstance(a, Opq) and (isinstance(b, Opq) or not isinstance(b, Arr)) or isinstance(b, Opq) and not isinstance(a, Arr):
                return self.oarith("add", a, b, lambda x, y: self.add(x, y))
            if isinstance(b, Arr):
                return Arr(lambda i: self.add(a.read(i), b.read(i)), None, a.rank or b.rank)
            if num(b) == 0:
                return a
            return Arr(lambda i: self.add(a.read(i), b), None, a.rank)
        return num(a) + num(b)

    # ---------------------------------------------------------- atoms
    def atom(self, a, env):
        if a.head == "sym" and a.key in env:
            return env[a.key]
        if a.head == "asym" and a.key in env:
            return env[a.key]
        free = a.syms & env.keys()
        if not free:
            r = self.cache.get(a.key)
            if r is not None:
                return r
        self.tick()
        m = getattr(self, "a_" + a.head.replace(":", "_"), None)
        r = m(a, env) if m is not None else self.opaque(a, env)
        if a.key in self.forced and not free:
            r = self.force(r, self.forced[a.key])
        elif self.mode == 5 and a.key in self.real and not free:
            r = self.force(r, None)
        if not free:
            self.cache[a.key] = r
        return r

    @staticmethod
    def force(r, v):
        """v (or the real part of r) in place of the value of an atom"""
        if isinstance(r, Opq):
            o = Opq.__new__(Opq)
            o.__dict__.update(r.__dict__)
            o.v = v if v is not None else re(r.v)
            o.key = ("o", _h(r.key, rnum(o.v)))
            return o
        if isinstance(r, (Arr, Tupv)):
            return r
        return v if v is not None else re(r)

    def a_sym(self, a, env):
        if a.args[0] == "pi":
            return math.pi
        return self.rnd(a.args[0], a.dtype)

    def a_lit(self, a, env):
        return litval(a.args[0])

    def a_I(self, a, env):
        return 1j

    def a_dim(self, a, env):
        return self.size(_akey(a))

    def a_len(self, a, env):
        return self.length(self.any(a.args[0], env))

    def length(self, x):
        if isinstance(x, Tupv):
            return len(x.items)
        if getattr(x, "ln", None) is not None:
            return x.ln
        k = repr(fp(self, x))
        if getattr(x, "long", False) and _h(self.seed, "long", k) % 3:
            return 5 + _h(self.seed, "longsize", k) % 3
        return self.size(k)

    def a_slice_of(self, b, idx, env):
        """b[lo:hi, c, ...] for a value that can be read element by element; None when not modelled"""
        sl = []
        for k, x in enumerate(idx):
            if isinstance(x, Atom) and x.head == "slice":
                v = []
                for q in x.args:
                    if q is None:
                        v.append(None)
                        continue
                    y = self.any(q, env)
                    y = num(y) if not isinstance(y, (Arr, Tupv, FamV)) else None
                    if y is None:
                        return None
                    if y == litval("None"):
                        v.append(None)
                    elif isinstance(y, (int, Fraction)) and y == int(y):
                        v.append(int(y))
                    else:
                        return None
                sl.append(tuple(v))
            else:
                sl.append(self.ix(x, env))
        if isinstance(b, Tupv):
            return Tupv(b.items[slice(*sl[0])]) if len(sl) == 1 and isinstance(sl[0], tuple) else None
        if not isinstance(b, Arr) or (sl and isinstance(sl[0], tuple) and sl[0][2] not in (None, 1)):
            return None
        if any(isinstance(x, tuple) and (x[2] not in (None, 1) or (k and ((x[0] or 0) < 0))) for k, x in enumerate(sl)):
            return None
        ln, lo0 = None, 0
        if isinstance(sl[0], tuple):
            n = self.length(b)
            lo0, hi, _ = slice(sl[0][0], sl[0][1], None).indices(n)
            ln = max(0, hi - lo0)
            if len(sl) == 1 and lo0 == 0 and ln == n:
                return b

        def read(i):
            out, k = [], 0
            for q, x in enumerate(sl):
                if isinstance(x, tuple):
                    if k >= len(i):
                        return self.rnd(("part", fp(self, r), i), "any")
                    out.append(i[k] + (lo0 if q == 0 else (x[0] or 0)))
                    k += 1
                else:
                    out.append(x)
            return b.read(tuple(out) + tuple(i[k:]))
        r = Arr(read, None, sum(1 for x in sl if isinstance(x, tuple)))
        if ln is not None:
            r.ln = ln
        return r

    def a_let(self, a, env):
        return self.poly(a.args[0], env)

    def a_bool(self, a, env):
        return 1 if num(self.poly(a.args[0], env)) != 0 else 0

    def a_truth(self, a, env):
        x = self.poly(a.args[0], env)
        if isinstance(x, Arr):
            return _h(self.seed, "truth", fp(self, x)) & 1
        x = num(x)
        return 0 if x == 0 or x == litval("None") else 1

    def a_le0(self, a, env):
        return 1 if cmpz(num(self.poly(a.args[0], env))) <= 0 else 0

    def a_lt0(self, a, env):
        return 1 if cmpz(num(self.poly(a.args[0], env))) < 0 else 0

    def a_eq0(self, a, env):
        v = self.poly(a.args[0], env)
        if isinstance(v, Arr):
            return _h(self.seed, "eq0", fp(self, v)) & 1
        return 1 if abs(num(v)) < 1e-9 else 0

    def a_all(self, a, env):
        v, n, body = a.args
        k = sym(v, "int").key
        cnt = self.cnt(n, env)
        e = dict(env)
        for i in range(cnt):
            e[k] = i
            if num(self.poly(body, e)) == 0:
                return 0
        return 1

    def a_sum(self, a, env):
        v, n, body = a.args
        k = sym(v, "int").key
        cnt = self.cnt(n, env)
        e = dict(env)
        t = 0
        for i in range(cnt):
            e[k] = i
            t = self.add(t, self.poly(body, e))
        return t

    def a_prod(self, a, env):
        v, n, body = a.args
        k = sym(v, "int").key
        cnt = self.cnt(n, env)
        e = dict(env)
        t = 1
        for i in range(cnt):
            e[k] = i
            t = self.mul(t, self.poly(body, e))
        return t

    def cnt(self, n, env):
        c = num(self.poly(n, env))
        if isinstance(c, complex):
            c = c.real
        c = int(math.floor(c + 1e-9))
        if c > 12:
            c = 12 if c < 40 else 3
        return max(0, c)

    def fun(self, f, a, env):
        x = self.poly(a.args[0], env)
        return self.mapv(f, x, a.head)

    def mapv(self, f, x, name):
        if isinstance(x, Opq):
            try:
                v = f(num(x))
            except (OverflowError, ValueError, ZeroDivisionError):
                raise Skip()
            r = Opq(v, None, self, "any")
            r.key = (name, fp(self, x))
            r.read = lambda i: self.mapv(f, x.read(i), name)
            return r
        if isinstance(x, Arr):
            return Arr(lambda i: self.mapv(f, x.read(i), name), (name, fp(self, x)), x.rank)
        try:
            return f(num(x))
        except (OverflowError, ValueError, ZeroDivisionError):
            raise Skip()

    def a_exp(self, a, env):
        return self.fun(lambda x: cmath.exp(x), a, env)

    def a_sqrt(self, a, env):
        return self.fun(lambda x: cmath.sqrt(x), a, env)

    def a_log(self, a, env):
        return self.fun(lambda x: cmath.log(x), a, env)

    def a_abs(self, a, env):
        return self.fun(abs, a, env)

    def a_inv(self, a, env):
        return self.fun(lambda x: 1 / complex(x), a, env)

    def a_conj(self, a, env):
        x = self.any(a.args[0], env)
        return self.mapv(lambda z: complex(z).conjugate(), x, "conj")

    def a_floor(self, a, env):
        return self.fun(lambda x: math.floor(re(x)), a, env)

    def a_nint(self, a, env):
        return self.fun(lambda x: math.floor(re(x) + 0.5), a, env)

    def a_trunc(self, a, env):
        return self.fun(lambda x: int(re(x)), a, env)

    def a_floordiv(self, a, env):
        x, y = re(num(self.poly(a.args[0], env))), re(num(self.poly(a.args[1], env)))
        if y == 0:
            raise Skip()
        return math.floor(x / y + 1e-12) if isinstance(x, float) or isinstance(y, float) else x // y

    def a_fmod(self, a, env):
        x, y = re(num(self.poly(a.args[0], env))), re(num(self.poly(a.args[1], env)))
        if y == 0:
            raise Skip()
        return x - y * math.floor(x / y)

    def a_pow(self, a, env):
        x, y = num(self.poly(a.args[0], env)), num(self.poly(a.args[1], env))
        try:
            return complex(x) ** complex(y)
        except (OverflowError, ZeroDivisionError):
            raise Skip()

    # arrays
    def a_asym(self, a, env):
        return self.harr(("asym", a.args[0]), a.dtype)

    def harr(self, key, dtype):
        seed = self

        def read(idx):
            return seed.rnd((key, idx), dtype)
        return Arr(read, ("h", key))

    def a_aapp(self, a, env):
        return self.opaque_arr(a, env)

    def opaque_arr(self, a, env):
        key = (a.head, tuple(self.fpany(x, env) for x in a.args))
        return self.harr(_h(key), a.dtype)

    def a_lam(self, a, env):
        names, body = a.args
        ks = [sym(n, "int").key for n in names]
        base = dict(env)

        def read(idx):
            e = dict(base)
            for k, i in zip(ks, idx):
                e[k] = i
            return self.poly(body, e)
        return Arr(read, None, len(names))

    def a_arr(self, a, env):
        base, effs = a.args
        over = {}
        b = self.any(base, env)
        rank = None

        def rd(idx):
            if idx in over:
                return over[idx]
            return self.read(b, idx, a.dtype)

        for e in effs:
            kind, bl, idx, val, guard = e.args
            rank = len(idx)

            def rec(k, en):
                self.tick()
                if k == len(bl):
                    if num(self.poly(guard, en)) == 0:
                        return
                    ix = tuple(self.ix(x, en) for x in idx)
                    v = self.poly(val, en)
                    over[ix] = v if kind == "set" else self.add(rd(ix), v)
                    return
                nm, n = bl[k]
                key = sym(nm, "int").key
                for i in range(self.cnt(n, en)):
                    e2 = dict(en)
                    e2[key] = i
                    rec(k + 1, e2)
            rec(0, dict(env))
        bk = fp(self, b) if not isinstance(b, (int, float, complex, Fraction)) else rnum(b)
        r = Arr(rd, None, rank)
        r.over = over
        r.base = b
        return r

    def ix(self, x, env):
        if isinstance(x, Poly):
            v = self.poly(x, env)
        elif isinstance(x, Atom):
            v = self.atom(x, env)
        else:
            return x
        if isinstance(v, Arr):
            return fp(self, v)
        return rnum(num(v))

    def read(self, b, idx, dtype):
        if isinstance(b, Arr):
            return b.read(idx)
        if isinstance(b, (int, float, complex, Fraction)) and not isinstance(b, bool):
            if isinstance(b, complex) and b in LITS.values():
                return self.rnd(("idx", rnum(b), idx), dtype, "[%s]" % idx if len(idx) == 1 else None)
            return b if b == 0 else b
        return self.rnd(("idx", fp(self, b), idx), dtype)

    def a_idx(self, a, env):
        arr, idx = a.args
        b = self.any(arr, env)
        if any(isinstance(x, Atom) and x.head == "slice" for x in idx):
            r = self.a_slice_of(b, idx, env)
            if r is not None:
                return r
        ix = tuple(self.ix(x, env) for x in idx)
        if isinstance(b, Tupv):
            if len(ix) == 1 and isinstance(ix[0], int) and -len(b.items) <= ix[0] < len(b.items):
                return b.items[ix[0]]
            return self.rnd(("tupidx", fp(self, b), ix), a.dtype)
        if isinstance(b, Arr):
            return b.read(ix)
        return self.rnd(("idx", fp(self, b), ix), a.dtype, "[%s]" % ix if len(ix) == 1 else None)

    def seq(self, n, read):
        n = num(n)
        if isinstance(n, (int, Fraction)) and 0 <= n <= 12 and n == int(n):
            return Tupv([read((k,)) for k in range(int(n))])
        return None

    def a_cell(self, a, env):
        kind, x, n = a.args
        if kind == "list":
            v = self.any(x, env)
            if isinstance(v, Arr) or isinstance(v, (int, Fraction)) and v == 0:
                r = self.seq(self.any(n, env), lambda i: self.read(v, i, "any"))
                if r is not None:
                    return r
        return self.opaque(a, env)

    def a_iter(self, a, env):
        n, x = a.args
        v = self.any(x, env)
        if isinstance(v, Arr):
            r = self.seq(self.any(n, env), lambda i: v.read(i))
            if r is not None:
                return r
        return self.opaque(a, env)

    def a_tup(self, a, env):
        return Tupv([self.any(x, env) for x in a.args[0]])

    def a_mustate(self, a, env):
        mu, comp, it = a.args
        n, inits, steps, cd, names, inm, isarr, dts = mu.args
        ik = sym(inm, "int").key
        keys = [(T.mk("asym", (nm,), dt) if ia else sym(nm, dt)).key for nm, ia, dt in zip(names, isarr, dts)]
        vals = [self.any(i, env) for i in inits]
        if cd is None:
            cnt = self.cnt(it, env)
        else:
            cnt = 60
        for i in range(cnt + 1):
            if i == cnt:
                if cd is not None:
                    raise Skip()        # the loop did not end: no verdict from this valuation
                break
            e = dict(env)
            e[ik] = i
            for k, v in zip(keys, vals):
                e[k] = v
            if cd is not None and num(self.poly(cd, e)) == 0:
                break
            vals = [self.poly(s, e) for s in steps]
            vals = [self.solid(v) for v in vals]
        return vals[comp]

    a_mustate_a = a_mustate

    def solid(self, v):
        """memoise reads of an array value (its environment is captured)"""
        if isinstance(v, Arr):
            memo = {}
            old = v.read

            def read(idx):
                if idx not in memo:
                    memo[idx] = old(idx)
                return memo[idx]
            r = Arr(read, v.key, v.rank)
            if hasattr(v, "over"):
                r.over, r.base = v.over, v.base
            return r
        return v

    # events
    def a_fam(self, a, env):
        n, lam = a.args
        return FamV(_akey(n), n, self.any(lam, env), dict(env), False)

    def a_famg(self, a, env):
        n, lam = a.args
        return FamV(_akey(n), n, self.any(lam, env), dict(env), True)

    def a_evs(self, a, env):
        out = set()
        for e in a.args[0]:
            ea = T.single_atom(e)
            if ea is None or ea.head != "ev":
                raise Skip()
            if num(self.poly(ea.args[0], env)) == 0:
                continue
            args = [self.evarg(x, env) for x in ea.args[1]] if len(ea.args) > 1 else []
            self.expand(args, out)
        return litval(("evs",) + tuple(sorted(out)))

    def evarg(self, x, env):
        if isinstance(x, tuple):
            return [self.evarg(y, env) for y in x]
        return self.any(x, env) if isinstance(x, (Poly, Atom)) else Str(repr(x))

    def expand(self, args, out, depth=0):
        self.tick()
        f = self.first_fam(args)
        if f is None:
            out.add(repr(self.fptree(args)))
            return
        cnt = self.cnt(f.n, f.env)
        for i in range(cnt):
            dead = [False]

            def rd(v):
                if isinstance(v, list):
                    return [rd(y) for y in v]
                if isinstance(v, FamV) and v.nk == f.nk:
                    x = v.lam.read((i,)) if isinstance(v.lam, Arr) else v.lam
                    if v.guard:
                        if not isinstance(x, FamV) and num(x) == 0:
                            dead[0] = True
                        return x if isinstance(x, FamV) else Str("g")
                    return x
                return v
            a2 = [rd(v) for v in args]
            if not dead[0]:
                self.expand(a2, out, depth + 1)

    def first_fam(self, v):
        for x in v:
            if isinstance(x, FamV):
                return x
            if isinstance(x, list):
                r = self.first_fam(x)
                if r is not None:
                    return r
        return None

    def fptree(self, v):
        if isinstance(v, list):
            return tuple(self.fptree(x) for x in v if not (isinstance(x, Str) and x.s == "g"))
        if isinstance(v, Str):
            return v.s
        return fp(self, v)

    def a_app(self, a, env):
        nm, targs = a.args
        d = self.defs.get(nm)
        if d is not None:
            params, term = d
            e = {}
            vals = {k: self.any(v, env) for k, v in targs}
            for pk, pn in params:
                if pn in vals:
                    e[pk] = vals[pn]
            return self.poly(term, e)
        return self.opaque(a, env)

    def opaque(self, a, env):
        key = (a.head, tuple(self.fpany(x, env) for x in a.args))
        r = self.rnd(_h(key), a.dtype, str(a.args[1]) if a.head == "attr" else None)
        if self.mode == 6 and r == 0 and a.head == "app":
            r = 1 + random.Random(_h(self.seed, key)).random()
        if T.nonneg_atom(a) and isinstance(r, int):
            r = abs(r)
        if a.head in IVERSON:
            return _h(self.seed, key) & 1
        if a.dtype != "any":
            return r
        o = Opq(r, _h(key), self, a.dtype, str(a.args[1]) if a.head == "attr" else None)
        o.long = a.head == "m:readlines"       # files have more lines than headers
        return o

    # ---------------------------------------------------------- misc
    def any(self, x, env):
        if isinstance(x, Poly):
            return self.poly(x, env)
        if isinstance(x, Atom):
            return self.atom(x, env)
        return x

    def fpany(self, x, env):
        if isinstance(x, (Poly, Atom)):
            return fp(self, self.any(x, env))
        if isinstance(x, tuple):
            return tuple(self.fpany(y, env) for y in x)
        return x if isinstance(x, (str, int, float, type(None), bool)) else repr(x)


class FamV:
    """one value per iteration"""

    def __init__(self, nk, n, lam, env, guard):
        self.nk, self.n, self.lam, self.env, self.guard = nk, n, lam, env, guard


class Tupv:
    def __init__(self, items):
        self.items = items


class Opq(Arr):
    """opaque value usable as a number or as an array"""

    def __init__(self, v, key, ev, dtype, hint=None):
        self.v = v
        Arr.__init__(self, lambda idx: ev.rnd((key, idx), dtype, hint or ("[%s]" % idx if len(idx) == 1 else None)), ("o", key))


LITS = {}
PROBE = {1: 9, 2: 5, 3: 3}


def litval(s):
    v = LITS.get(s)
    if v is None:
        r = random.Random(_h("lit", s))
        v = complex(r.uniform(5, 50), r.uniform(5, 50))
        LITS[s] = v
    return v


def num(x):
    if isinstance(x, Opq):
        return x.v
    if isinstance(x, Tupv):
        return litval(("tup",) + tuple(repr(rnum(num(y))) if not isinstance(y, Arr) or isinstance(y, Opq) else "a" for y in x.items))
    if isinstance(x, Arr):
        raise Skip()
    if isinstance(x, bool):
        return int(x)
    return x


def re(x):
    if isinstance(x, complex):
        return x.real
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else float(x)
    return x


def cmpz(x):
    if isinstance(x, complex) and abs(x.imag) > 1e-9:
        raise Skip()        # complex numbers are not ordered
    x = re(x)
    return 0 if abs(x) < 1e-9 else x


def fp(ev, v):
    """fingerprint of a value"""
    if isinstance(v, Opq):
        return v.key
    if isinstance(v, Arr):
        if v.key is not None:
            return v.key
        rank = v.rank or 1
        over = getattr(v, "over", None) or {}
        import itertools as it
        out = []
        vals = set()
        for idx in it.product(range(PROBE.get(rank, 2)), repeat=rank):
            x = fp(ev, v.read(idx))
            vals.add(repr(x))
            out.append(x)
        # keys that are no positions in a grid: dictionaries
        odd = [(repr(k), fp(ev, x)) for k, x in over.items()
               if len(k) != rank or any(not isinstance(i, int) or isinstance(i, bool) for i in k)]
        if odd:
            odd.sort(key=repr)
            out.append(odd)
        elif len(vals) == 1 and isinstance(out[0], (int, float, complex, Fraction)):
            v.key = out[0]
            return v.key
        v.key = ("lam", _h(out))
        return v.key
    if isinstance(v, Tupv):
        r = tup_rank(v)
        if r == 1:
            return fp(ev, Arr(lambda i: v.items[i[0]] if i[0] < len(v.items) else 0, None, 1))
        if r == 2:
            return fp(ev, Arr(lambda i: v.items[i[0]].items[i[1]] if i[0] < len(v.items) and i[1] < len(v.items[i[0]].items) else 0, None, 2))
        return ("tup",) + tuple(fp(ev, x) for x in v.items)
    if isinstance(v, (int, float, complex, Fraction)):
        return rnum(v)
    return repr(v)


def tup_rank(v):
    if not v.items or len(v.items) > 9:
        return 0
    if all(isinstance(x, (int, float, complex, Fraction)) for x in v.items):
        return 1
    if len(v.items) <= 5 and all(isinstance(x, Tupv) and tup_rank(x) == 1 and len(x.items) == len(v.items[0].items) <= 5 for x in v.items):
        return 2
    return 0


def same(ev, a, b):
    if isinstance(a, Arr) and not isinstance(a, Opq) or isinstance(b, Arr) and not isinstance(b, Opq) or \
            isinstance(a, Tupv) or isinstance(b, Tupv):
        if isinstance(a, Arr) and isinstance(b, Arr):
            import itertools as it
            keys = set(getattr(a, "over", {}) or {}) | set(getattr(b, "over", {}) or {})
            rank = a.rank or b.rank
            if not keys or (not hasattr(a, "over") or not hasattr(b, "over")):
                keys |= set(it.product(range(3), repeat=rank or 1))
            for k in keys:
                if any(isinstance(x, int) and x < 0 for x in k):
                    continue
                x, y = a.read(k), b.read(k)
                if not same(ev, x, y):
                    return False
            return True
        if isinstance(a, Tupv) and isinstance(b, Tupv):
            return len(a.items) == len(b.items) and all(same(ev, x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Tupv) or isinstance(b, Tupv):
            return fp(ev, a) == fp(ev, b)
        if isinstance(a, Arr) != isinstance(b, Arr):
            x, y = (a, b) if isinstance(a, Arr) else (b, a)
            if isinstance(y, (int, float, complex, Fraction)):
                import itertools as it
                ks = set(getattr(x, "over", {}) or {}) or set(it.product(range(3), repeat=x.rank or 1))
                return all(same(ev, x.read(k), y) for k in ks)
        return fp(ev, a) == fp(ev, b)
    x, y = num(a), num(b)
    try:
        return abs(complex(x) - complex(y)) <= 1e-6 * (1 + abs(complex(x)) + abs(complex(y))) if max(abs(complex(x)), abs(complex(y))) > 1 else abs(complex(x) - complex(y)) <= 1e-8
    except (TypeError, OverflowError):
        return x == y


def pool_of(*terms):
    lits, ints = {}, set()
    for t in terms:
        for a in atoms_of(t).values():
            if a.head == "lit":
                lits[a.args[0]] = litval(a.args[0])
            if a.head == "tup" and 0 < len(a.args[0]) <= 5:
                cs = [const_val(x) if isinstance(x, Poly) else None for x in a.args[0]]
                if None not in cs:
                    lits[("tup",) + tuple(cs)] = num(Tupv(cs))
            if a.head in ("eq0", "le0", "lt0"):
                for mono, c in a.args[0].m.items():
                    if mono == () and isinstance(c, int) and abs(c) < 50:
                        ints.add(-c)
                        ints.add(c)
    return [lits[k] for k in sorted(lits, key=repr)], sorted(ints)


WITNESS = [None]
FORCIBLE = ("sym", "attr", "idx", "len", "opq")


def guard_values(terms):
    """-> ({key of a closed atom: values at which a guard on it flips}, keys of atoms that are compared by order)"""
    cand, real, labels = {}, set(), {}
    for t in terms:
        for a in atoms_of(t).values():
            if a.head not in ("eq0", "le0", "lt0"):
                continue
            p = a.args[0]
            c0, at = 0, []
            for mono, c in p.m.items():
                if mono == ():
                    c0 = c
                elif len(mono) == 1 and mono[0][1] == 1:
                    at.append((mono[0][0], c))
                else:
                    at = [None, None, None]
                    break
            if len(at) == 1 and at[0] is not None and at[0][0].head in ("abs", "attr", "idx"):
                # |a - c| < d and a < c, also for members of sequences: a = c
                q = at[0][0].args[0].m if at[0][0].head == "abs" else p.m
                in_ = [(mono, c) for mono, c in q.items() if mono != ()]
                k0 = q.get((), 0)
                if len(in_) == 1 and len(in_[0][0]) == 1 and in_[0][0][0][1] == 1 and label(in_[0][0][0][0]) and \
                        isinstance(k0, (int, Fraction)) and isinstance(in_[0][1], (int, Fraction)):
                    v = Fraction(-k0) / Fraction(in_[0][1])
                    labels.setdefault(label(in_[0][0][0][0]), set()).add(int(v) if v.denominator == 1 else float(v))
            for x in at:
                if x is not None and a.head != "eq0" and not bound_in(x[0]):
                    real.add(x[0].key)
            if len(at) == 2 and a.head == "eq0":
                lit = [x for x in at if x[0].head == "lit"]
                oth = [x for x in at if x[0].head != "lit"]
                if len(lit) == 1 and len(oth) == 1 and lit[0][1] == -oth[0][1] and c0 == 0:
                    at, vals = oth, (litval(lit[0][0].args[0]),)
                else:
                    continue
            elif len(at) == 1:
                if at[0][0].dtype not in ("int", "any") or isinstance(at[0][1], complex) or isinstance(c0, complex):
                    continue
                v = Fraction(-c0) / Fraction(at[0][1]) if not isinstance(c0, float) and not isinstance(at[0][1], float) else None
                if v is None or v.denominator != 1 or abs(v) > 1000:
                    continue
                v = int(v)
                vals = (v,) if a.head == "eq0" else (v, v - 1, v + 1)
            else:
                continue
            x = at[0][0]
            if x.head not in FORCIBLE or bound_in(x):
                continue
            if T.nonneg_atom(x) or x.head == "len" or BOUND.search(str(x.args[-1])):
                vals = [v for v in vals if not isinstance(v, int) or v >= 0]
            if vals:
                cand.setdefault(x.key, set()).update(vals)
    return {k: sorted(v, key=repr) for k, v in cand.items()}, real, {k: sorted(v, key=repr) for k, v in labels.items()}


def label(a):
    if a.head == "attr":
        return str(a.args[1])
    if a.head == "idx" and len(a.args[1]) == 1 and isinstance(a.args[1][0], Poly) and bound_in(a):
        c = const_val(a.args[1][0])
        if isinstance(c, int):
            return "[%s]" % c
    return None


def bound_in(a):
    return any(str(s).find("%") >= 0 for s in a.syms)


def agree(t1, t2, n=80, seed=1, defs=None, maxsteps=200000, total=1200000, given=None, hints=()):
    """-> (verdict, detail): True (agree on all tried), False (differ), None (nothing evaluated).
    given: terms of raise conditions; valuations under which one holds are not compared"""
    pool, ints = pool_of(t1, t2)
    cand, real, labels = guard_values((t1, t2))
    ckeys = sorted(cand, key=repr)
    combos = 1
    for c in ckeys:
        combos = min(combos * len(cand[c]), 10 ** 6)
    cplx = any(a.head == "conj" for t in (t1, t2) for a in atoms_of(t).values())
    WITNESS[0] = None

    def trial(ev):
        try:
            for g in given or ():
                if num(ev.any(g, {})) != 0:
                    return None
            a = ev.any(t1, {})
            b = ev.any(t2, {})
            r = same(ev, a, b)
        except (Skip, RecursionError, TypeError, ValueError, AttributeError, IndexError, KeyError, ArithmeticError, MemoryError):
            return None
        except Steps:
            return None
        if r is False:
            WITNESS[0] = ev
        return r

    for h in hints:
        # what separated the terms before callees were expanded, with other values for what the expansion adds
        for j in range(40):
            ev = Eval(h.seed, h.pool, defs, maxsteps, h.intpool, h.mode)
            ev.real, ev.labels, ev.forced = h.real, h.labels, dict(h.forced)
            ev.keep, ev.seed2, ev.mode2 = h.drawn, (seed, j), (3, 0, 6, 4, 2, 1)[j % 6]
            if trial(ev) is False:
                return False, -1
            total -= ev.steps // 2
            if total < 0:
                break
    total = max(total, 400000)
    ok = 0
    k = -1
    tries = n if not given else 3 * n
    while k + 1 < tries and ok < n:
        k += 1
        km = k // 2 if cand else k
        ev = Eval((seed, k), pool, defs, maxsteps, ints, (0, 1, 2, 4, 5 if cplx and km % 14 > 6 else 3, 4, 6)[km % 7])
        ev.real = real
        if cand and k % 2:
            # values at which guards flip, all combinations in turn if there are few
            if combos <= 300:
                j = _h(seed, km, "combo") % combos
                for c in ckeys:
                    j, i = divmod(j, len(cand[c]))
                    ev.forced[c] = cand[c][i]
            else:
                rr = random.Random(_h(seed, k, "forced"))
                for c in ckeys:
                    if rr.random() < 0.7:
                        ev.forced[c] = rr.choice(cand[c])
        ev.labels = labels
        r = trial(ev)
        if r is False:
            return False, k
        total -= ev.steps + 50
        if r:
            ok += 1
        if total < 0:
            break
    return (True, ok) if ok >= 3 else (None, ok)
