"""Algebraic global value numbering: one forward pass over structured code (gated SSA).

No path is enumerated: at every join values are merged with Iverson guards, loops are summarised
once (prefix sums, gated assignments, array effect families, or a canonical recurrence)."""
import ast
import builtins
import time
from .ir import *
from .arr import *
from .term import _akey
from . import term as T
from . import arr as A


class Ref:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "Ref(%s)" % self.id


class View:
    """section of an array cell; spec: per dimension ('i', Poly) or ('s', lo, n|None)"""

    def __init__(self, ref, spec):
        self.ref, self.spec = ref, tuple(spec)


class Tup:
    def __init__(self, items, mutable=False):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class AV:
    """array-valued rvalue given elementwise"""

    def __init__(self, rank, shape, f, kind="any"):
        self.rank, self.shape, self.f, self.kind = rank, tuple(shape), f, kind


class FnV:
    def __init__(self, func, self_=None):
        self.func, self.self_ = func, self_


class Lambda:
    def __init__(self, node, env, fn):
        self.node, self.env, self.fn = node, env, fn


class ClsV:
    def __init__(self, cls):
        self.cls = cls


class ModV:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name


class ExtV:
    def __init__(self, qual):
        self.qual = qual


class DefaultDict(str):
    """container type of defaultdict(number): a dictionary whose missing entries read as zero"""
    shown = "defaultdict"


class CondV:
    """callable chosen by a condition"""

    def __init__(self, g, a, b):
        self.g, self.a, self.b = g, a, b


class MethV:
    """method of an opaque value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Iter:
    filt = None
    """iteration space: n items, item(i)"""

    def __init__(self, n, item):
        self.n, self.item = n, item


NONE = lit("None")


class ArrCell:
    __slots__ = ("base", "effs", "shape", "kind", "rank", "ctype")

    def __init__(self, base, effs=(), shape=None, kind="any", rank=None, ctype="arr"):
        self.base, self.effs, self.shape, self.kind, self.rank, self.ctype = base, tuple(effs), shape, kind, rank, ctype

    def copy(self, **kw):
        c = ArrCell(self.base, self.effs, self.shape, self.kind, self.rank, self.ctype)
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    def covered(self):
        """every element of a short array has been set unconditionally: earlier contents are dead"""
        if self.shape is None or len(self.shape) != 1 or not self.effs or self.ctype != "arr":
            return False
        n = const_val(self.shape[0])
        if n is None or not isinstance(n, int) or not 0 < n <= 8 or len(self.effs) < n:
            return False
        got = set()
        for e in self.effs:
            kind, bl, idx, val, guard = e.args
            if kind == "set" and not bl and const_val(guard) == 1 and len(idx) == 1 and isinstance(idx[0], Poly):
                c = const_val(idx[0])
                if isinstance(c, int):
                    got.add(c)
        return got >= set(range(n))

    def term(self):
        if self.covered():
            return freeze(ZERO, self.effs, self.kind)
        return freeze(self.base, self.effs, self.kind)

    def read(self, idx):
        return aread(self.base, self.effs, idx, self.kind)


class ObjCell:
    __slots__ = ("cls", "fields", "ident")

    def __init__(self, cls, fields, ident):
        self.cls, self.fields, self.ident = cls, fields, ident

    def copy(self):
        return ObjCell(self.cls, dict(self.fields), self.ident)


class State:
    def __init__(self):
        self.env = {}
        self.heap = {}
        self.pc = ONE
        self.gf = ()            # factors of the early-exit gate, outermost first
        self.events = []
        self.dead = False
        self.fwd = {}           # (container path, index) -> (path, index, value stored there)

    @property
    def gate(self):
        g = ONE
        for x in self.gf:
            g = g * x
        return g

    @gate.setter
    def gate(self, g):
        self.gf = () if const_val(g) == 1 else (g,)

    def rgate(self, born):
        """gate relative to the point where an object was created"""
        k = len(born)
        if k and len(self.gf) >= k and all(x is y or x.key == y.key for x, y in zip(self.gf, born)):
            g = ONE
            for x in self.gf[k:]:
                g = g * x
            return g
        return self.gate

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.gf = self.gf
        s.events = list(self.events)
        s.fwd = dict(self.fwd)
        return s


def _leaves(s):
    """bodies of an if/elif chain; None when a branch is missing"""
    out = [s.body]
    if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
        r = _leaves(s.orelse[0])
        return None if r is None else out + r
    if not s.orelse:
        return None
    return out + [s.orelse]


def choice_uses(s, rest):
    """`if c: x = a` / `else: x = b` (or x = a if c else b) where the object chosen is then changed through x:
    number of following statements up to the last such change"""
    cand = {}
    if isinstance(s, ast.Assign):
        if isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                all(isinstance(v, (ast.Attribute, ast.Name, ast.Subscript)) for v in (s.value.body, s.value.orelse)):
            cand = {s.targets[0].id: 2}
    else:
        lv = _leaves(s)
        if lv is None:
            return 0
        for b in lv:
            for x in b:
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
                        isinstance(x.value, (ast.Attribute, ast.Name, ast.Subscript)):
                    cand[x.targets[0].id] = cand.get(x.targets[0].id, 0) + 1
    cand = {n for n, c in cand.items() if c >= 2}
    if not cand:
        return 0
    last = 0
    for q, r in enumerate(rest):
        if isinstance(r, ast.Expr) and isinstance(r.value, ast.Call) and isinstance(r.value.func, ast.Attribute) and \
                isinstance(r.value.func.value, ast.Name) and r.value.func.value.id in cand:
            last = q + 1
        elif isinstance(r, (ast.Assign, ast.AugAssign)):
            for t in (r.targets if isinstance(r, ast.Assign) else [r.target]):
                b = t
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id in cand and (b is not t or isinstance(r, ast.AugAssign)):
                    last = q + 1
                elif b is t and isinstance(t, ast.Name) and t.id in cand:
                    return last
    return last


def push_tail(s, tail):
    def rec(n):
        n2 = ast.If(n.test, list(n.body) + tail, [])
        if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            n2.orelse = [rec(n.orelse[0])]
        else:
            n2.orelse = list(n.orelse) + tail
        return ast.copy_location(n2, n)
    if isinstance(s, ast.Assign):
        b = [ast.fix_missing_locations(ast.copy_location(ast.Assign(s.targets, v), s)) for v in (s.value.body, s.value.orelse)]
        s = ast.copy_location(ast.If(s.value.test, [b[0]], [b[1]]), s)
    return rec(s)


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self.rets = []       # (guard, value)
        self.brk = []        # stack of lists


def const_expr_name(x):
    return None


def no_identity(p):
    """the value is the result of a computation, not an existing object that could be written through this name"""
    for mono, c in p.m.items():
        big = [a for a, e in mono if a.dtype not in ("int", "bool") or a.head in ("ref", "lit", "sym", "attr", "idx", "post", "tup")]
        big = [a for a in big if a.head not in ("cmp", "isnone", "truth", "lt", "eq", "all", "any", "isinst")]
        if len(big) == 1 and big[0].head in ("ref", "lit", "sym", "attr", "idx", "post", "tup", "app", "apply", "aapp", "arr", "m:", "asym",
                                             "mustate_a", "hp", "new") or \
                len(big) == 1 and big[0].head.startswith(("m:", "new", "ret_", "hist")):
            return False
    return True


def foreign_key(x):
    """key of a dictionary returned by a library: taken to have as many components as are unpacked"""
    k = T.single_atom(x.args[0]) if x.head == "idx" else None
    b = T.single_atom(k.args[0]) if k is not None and k.head == "keys" and isinstance(k.args[0], Poly) else None
    return b is not None and b.head.startswith(("ext:", "m:"))


def mk_tup(items):
    """a tuple; (X[0], ..., X[n-1]) of one call result X (possibly chosen by conditions) is X"""
    if len(items) >= 2:
        out = None
        for k, p in enumerate(items):
            q = {}
            for mono, c in p.m.items():
                hit = [a for a, e in mono if a.head == "idx" and e == 1 and len(a.args[1]) == 1 and isinstance(a.args[1][0], Poly) and const_val(a.args[1][0]) == k]
                x = T.single_atom(hit[0].args[0]) if len(hit) == 1 else None
                if x is None or not (x.head in ("app", "apply") or x.head.startswith(("ext:", "m:")) or foreign_key(x)):
                    return P(mk("tup", (tuple(items),)))
                q[tuple(sorted([(a.key, e) for a, e in mono if a is not hit[0]] + [(x.key, "X")], key=str))] = (c, mono, hit[0], x)
            if out is None:
                out = q
            elif set(out) != set(q) or any(out[z][0] != q[z][0] for z in q):
                out = None
                break
        if out:
            r = ZERO
            for c, mono, h, x in out.values():
                t = P(c)
                for a, e in mono:
                    t = t * powi(P(x if a is h else a), e)
                r = r + t
            return r
    return P(mk("tup", (tuple(items),)))


class Interp:
    def __init__(self, project, opaque=(), max_depth=14, timeout=60, inline_ext=None, hooks=None):
        self.p = project
        self.opaque = set(opaque)
        self.max_depth = max_depth
        self.deadline = time.process_time() + timeout
        T.DEADLINE[0] = self.deadline
        self.nid = 0
        self.opaque_used = set()
        self.postmods = {}      # call -> (fields it may write, history before it)
        self._facts = {}
        self.born = {}          # cell -> gate factors at its creation
        self.stack = []
        self.frame = None
        self.calls = 0
        self.unsupported = []
        self.seq = 0
        self.hooks = hooks or {}
        self.basepc = ONE
        self.visited = set()
        self.ptypes = {}
        self.types = getattr(project, "_types", None)
        if self.types is None:
            from .types import Types
            self.types = project._types = Types(project)

    # ------------------------------------------------------------ values
    def newid(self):
        self.nid += 1
        return self.nid

    def alloc(self, st, cell):
        i = self.newid()
        st.heap[i] = cell
        self.born[i] = st.gf
        return Ref(i)

    def term(self, v, st):
        """any value -> Poly"""
        if isinstance(v, Poly):
            return v
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ArrCell):
                if c.ctype in ("arr", "alias"):
                    return c.term()
                if c.ctype == "list" and not c.base.m and c.effs and c.shape and c.shape[0] is not None:
                    t = self.list_term(c)
                    if t is not None:
                        return t
                if c.ctype == "list" and not c.effs and T.single_atom(c.base) is not None and T.single_atom(c.base).head == "sorted":
                    return c.base
                return P(mk("cell", (c.ctype.shown if isinstance(c.ctype, DefaultDict) else c.ctype, c.term(), c.shape[0] if c.shape else ZERO)))
            return P(mk("ref", (v.id,)))
        if isinstance(v, View):
            return self.view_term(v, st)
        if isinstance(v, Tup):
            return mk_tup(tuple(self.term(x, st) for x in v.items))
        if isinstance(v, AV):
            return self.freeze_av(v)
        if isinstance(v, FnV):
            return P(mk("fn", (v.func.qual,) + ((self.term(v.self_, st),) if v.self_ is not None else ())))
        if isinstance(v, ClsV):
            return P(mk("cls", (v.cls.name,)))
        if isinstance(v, ExtV):
            return P(mk("ext", (v.qual,)))
        if isinstance(v, ModV):
            return P(mk("mod", (v.name,)))
        if isinstance(v, RangeV):
            return P(mk("range", (v.lo, v.hi, v.step)))
        if isinstance(v, SliceV):
            return P(mk("slice", tuple(self.term(x, st) if x is not None else None for x in (v.lo, v.hi, v.step))))
        if isinstance(v, CondV):
            return v.g * self.term(v.a, st) + (ONE - v.g) * self.term(v.b, st)
        if isinstance(v, MethV):
            return P(mk("attr", (self.term(v.obj, st), v.name)))
        if isinstance(v, Iter):
            i = fresh()
            return P(mk("iter", (v.n, mk_lam([i], simp_range(self.term(v.item(P(i)), st), i, v.n)))))
        if isinstance(v, Lambda):
            return P(mk("lambda", (ast.dump(v.node),)))
        if v is None:
            return NONE
        raise Unsupported("value %r" % type(v))

    def list_term(self, c):
        """a list filled by appends: the same term as the corresponding display or comprehension"""
        n = const_val(c.shape[0])
        if n is not None:
            items = {}
            for ef in c.effs:
                kind, bs, idx, val, guard = open_eff(ef)
                k = const_val(idx[0]) if len(idx) == 1 and isinstance(idx[0], Poly) else None
                if kind != "set" or bs or k is None or guard.key != ONE.key or k in items:
                    return None
                items[k] = val
            if sorted(items) == list(range(int(n))):
                return P(mk("tup", (tuple(items[k] for k in range(int(n))),)))
            return None
        effs = c.effs if len(c.effs) == 1 else absorb_edges(c.effs)
        if len(effs) == 1:
            kind, bs, idx, val, guard = open_eff(effs[0])
            if kind == "set" and len(bs) == 1 and len(idx) == 1 and guard.key == ONE.key and isinstance(idx[0], Poly) and \
                    idx[0].key == P(bs[0][0]).key and bs[0][1].key == c.shape[0].key:
                return P(mk("iter", (bs[0][1], mk_lam([bs[0][0]], simp_range(val, bs[0][0], bs[0][1])))))
        return None

    def deep(self, v, st, depth=0):
        """value with objects expanded to their contents (canonical, no cell numbers)"""
        if isinstance(v, Poly):
            v2 = self.untern(v)
            if v2 is v:
                return self.deref(v, st, depth)
            v = v2
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ObjCell):
                fl = []
                if depth < 3:
                    for k in sorted(c.fields):
                        x = c.fields[k]
                        t = self.deep(x, st, depth + 1)
                        if t.key != self._field_sym(c, k).key:
                            fl.append((k, t))
                nm = c.cls.name if c.cls is not None else "f90"
                ia = next(iter(c.ident.m))[0][0] if len(c.ident.m) == 1 and next(iter(c.ident.m)) else None
                if ia is not None and ia.head == "new":
                    c = c.copy()
                    c.ident = P(mk("newobj", (ia.args[0],)))
                idt = c.ident if nm != "f90" or not str(c.ident.key).startswith("undef") else NONE
                if not fl:
                    return idt
                return P(mk("obj", (nm, idt, tuple(fl))))
        if isinstance(v, Tup):
            return mk_tup(tuple(self.deep(x, st, depth) for x in v.items))
        return self.deref(self.term(v, st), st, depth)

    def deref(self, p, st, depth=0):
        refs = [a for a in atoms_of(p).values() if a.head == "ref"]
        if not refs or depth > 4:
            return p
        mp = {a.key: self.deep(Ref(a.args[0]), st, depth + 1) for a in refs}
        return map_refs(p, mp, {})

    def unalias(self, v, st):
        """a container that has been stored under a path: use the path"""
        if isinstance(v, Poly):
            v = self.untern(v)
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, ArrCell) and c.ctype == "alias":
                return c.base
        return v

    def untern(self, p):
        """Poly that is really a tuple/ref -> structured value"""
        if isinstance(p, Poly) and len(p.m) == 1:
            (mono, c), = p.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                a = mono[0][0]
                if a.head == "tup":
                    return Tup([self.untern(x) for x in a.args[0]])
                if a.head == "ref":
                    return Ref(a.args[0])
        return p

    def freeze_av(self, v):
        vs = [fresh() for _ in range(v.rank)]
        body = v.f([P(x) for x in vs])
        for x, n in zip(vs, v.shape):
            if n is not None:
                body = A.simp_range(body, x, n)
        return mk_lam(vs, body)

    def av(self, v, st):
        """array-like value -> AV or None"""
        if isinstance(v, AV):
            return v
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, ArrCell) and c.rank:
                base, effs, kind = c.base, c.effs, c.kind
                shape = c.shape or tuple(None for _ in range(c.rank))
                return AV(c.rank, shape, lambda ix: aread(base, effs, ix, kind), kind)
        if isinstance(v, View):
            c = st.heap[v.ref.id]
            base, effs, kind = c.base, c.effs, c.kind
            spec = v.spec
            shape = [s[2] for s in spec if s[0] == "s"]
            shape = [n if n is not None else (c.shape[k] if c.shape else None) for n, k in
                     zip(shape, [k for k, s in enumerate(spec) if s[0] == "s"])]

            def f(ix):
                it = iter(ix)
                full = [s[1] if s[0] == "i" else s[1] + next(it) for s in spec]
                return aread(base, effs, full, kind)
            return AV(len(shape), shape, f, kind)
        if isinstance(v, Iter):
            return AV(1, (v.n,), lambda ix: self.term(v.item(ix[0]), st), "any")
        if isinstance(v, Poly):
            v2 = self.untern(v)
            if v2 is not v:
                return self.av(v2, st)
            if len(v.m) == 1:
                (mono, c), = v.m.items()
                if len(mono) == 1 and mono[0][0].head in ("lam", "arr", "asym", "mustate_a"):
                    return None
        if isinstance(v, Tup) and all(isinstance(x, Poly) for x in v.items):
            items = v.items

            def g(ix):
                c = const_val(ix[0])
                if c is not None:
                    return items[int(c)]
                r = ZERO
                for k, it in enumerate(items):
                    r = r + eq0(ix[0] - P(k)) * it
                return r
            return AV(1, (P(len(items)),), g, "any")
        return None

    def view_term(self, v, st):
        c = st.heap[v.ref.id]
        if self.lang() in ("cy", "f90"):
            a = self.av(v, st)
            return self.freeze_av(a)
        free = [k for k, s in enumerate(v.spec) if s[0] == "s"]
        if len(free) == 1 and c.shape and len(c.shape) == len(v.spec) and c.effs and const_val(c.base) is not None and \
                all(all(isinstance(x, Poly) for x in e.args[2]) and len(e.args[2]) == len(c.shape) for e in c.effs):
            k = free[0]
            n = v.spec[k][2] if v.spec[k][2] is not None else c.shape[k]
            n = const_val(n) if n is not None else None
            if n is not None and n <= 4:
                es = []
                for q in range(int(n)):
                    ix = [s[1] for s in v.spec]
                    ix[k] = ix[k] + P(q)
                    x = aread(c.base, c.effs, ix, c.kind)
                    if x.key != c.base.key:
                        es.append(mk_eff("set", [], (P(q),), x, ONE))
                return freeze(c.base, tuple(es), c.kind)
        idx = []
        for s in v.spec:
            if s[0] == "i":
                idx.append(s[1])
            else:
                if const_val(s[1]) == 0 and s[2] is None:
                    idx.append(mk("slice", (None, None, None)))
                else:
                    idx.append(mk("slice", (s[1], s[1] + s[2] if s[2] is not None else None, None)))
        while idx and isinstance(idx[-1], Atom) and idx[-1].head == "slice" and idx[-1].args == (None, None, None):
            idx.pop()
        if not idx:
            return c.term()
        return aread(c.base, c.effs, idx, c.kind)

    def lang(self):
        return self.frame.fn.lang if self.frame else "py"

    # ------------------------------------------------------------ entry
    def summarize(self, fn, args=None, self_val=None, st=None, argsyms=None, kwargs=None):
        """run fn on symbolic arguments.  Returns (ret Value, State, argument values)"""
        st = st or State()
        vals = {}
        for k, prm in enumerate(fn.params):
            if self_val is not None and k == 0 and prm.name in ("self", "cls"):
                vals[prm.name] = self_val
                continue
            if args is not None and prm.name in args:
                vals[prm.name] = args[prm.name]
                continue
            nm = (argsyms or {}).get(prm.name, prm.name)
            vals[prm.name] = self.sym_arg(prm, nm, st, fn)
        ret = self.call_bound(fn, vals, st)
        return ret, st, vals

    def sym_arg(self, prm, nm, st, fn):
        t = prm.type
        if t is None:
            return P(sym(nm))
        if t.extra.get("derived"):
            return self.alloc(st, ObjCell(None, {}, asym(nm)))
        if t.rank:
            shape = [P(mk("dim", (asym(nm, t.kind), k), "int")) for k in range(t.rank)]
            return self.alloc(st, ArrCell(asym(nm, t.kind), (), tuple(shape), t.kind, t.rank))
        return P(sym(nm, t.kind if t.kind != "bool" else "int"))

    def call_bound(self, fn, vals, st):
        """inline fn with bound parameter values (env replaced); returns value"""
        if time.process_time() > self.deadline:
            raise Budget("time")
        self.visited.add(fn.qual)
        saved_env, saved_frame = st.env, self.frame
        saved_pc, saved_gate, saved_base = st.pc, st.gf, self.basepc
        self.basepc = self.basepc * st.pc
        st.pc = ONE
        self.frame = Frame(fn)
        self.stack.append(fn.qual)
        st.env = dict(vals)
        for prm in fn.params:
            if prm.name not in st.env and prm.default is not None:
                st.env[prm.name] = self.eval(prm.default, st)
        if fn.lang == "f90":
            self.f90_entry(fn, st)
        try:
            alive = self.block(fn.body, st)
            rets = self.frame.rets
            out = None
            if fn.lang == "f90" and fn.result:
                out = st.env.get(fn.result)
                if isinstance(out, Ref):
                    pass
            else:
                out = self.merge_rets(rets, st, alive)
                if isinstance(out, Poly) and len(self.stack) > 1:
                    out = T.abbr(out, 10)
        finally:
            self.stack.pop()
            fr = self.frame
            self.frame = saved_frame
            self.basepc = saved_base
        self.callee_env = st.env
        st.env = saved_env
        st.pc, st.gf = saved_pc, saved_gate
        return out

    def merge_rets(self, rets, st, alive):
        if not rets:
            return NONE
        out = None
        # later returns are under negated guards of earlier ones: combine from the last
        if alive:
            out = NONE
        for g, v in reversed(rets):
            if out is None:
                out = v
            else:
                out = self.merge_vals(g, v, out, st)
        return out

    def f90_entry(self, fn, st):
        order = fn.extra.get("local_order", [])
        params = {p.name for p in fn.params}
        for nm in order:
            t = fn.types[nm]
            if nm in params:
                v = st.env.get(nm)
                # declared shape of dummy argument
                if t.rank and isinstance(v, Ref):
                    c = st.heap[v.id]
                    if isinstance(c, ArrCell) and t.extra.get("dims") and all(d is not None for d in t.extra["dims"]):
                        try:
                            shp = tuple(self.num(self.eval(d, st), st) for d in t.extra["dims"])
                            if len(self.stack) == 1:
                                st.heap[v.id] = c.copy(shape=shp)
                        except Unsupported:
                            pass
                continue
            if t.extra.get("parameter"):
                continue
            if t.rank:
                shape = None
                if t.extra.get("dims") and all(d is not None for d in t.extra["dims"]):
                    try:
                        shape = tuple(self.num(self.eval(d, st), st) for d in t.extra["dims"])
                    except Unsupported:
                        shape = None
                if t.extra.get("pointer") or (t.extra.get("allocatable")):
                    st.env[nm] = NONE
                    continue
                st.env[nm] = self.alloc(st, ArrCell(P(mk("undef", (nm,), t.kind)), (), shape, t.kind, t.rank))
            elif t.extra.get("derived"):
                st.env[nm] = self.alloc(st, ObjCell(None, {}, P(mk("undef", (nm,)))))

    def num(self, v, st):
        return self.term(v, st)

    # ------------------------------------------------------------ merging
    def merge_vals(self, g, a, b, st):
        """value is a under g, else b"""
        if a is b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            if a.key == b.key:
                return a
            return g * a + (ONE - g) * b
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_vals(g, x, y, st) for x, y in zip(a.items, b.items)])
        c = const_val(g)
        if c == 1:
            return a
        if c == 0:
            return b
        if isinstance(a, (FnV, MethV, ExtV, ClsV, Lambda, CondV)) and isinstance(b, (FnV, MethV, ExtV, ClsV, Lambda, CondV)):
            return CondV(g, a, b)
        if isinstance(a, (FnV, MethV, ExtV, ClsV, Lambda, CondV)) and b is NONE or \
                isinstance(b, (FnV, MethV, ExtV, ClsV, Lambda, CondV)) and a is NONE:
            return CondV(g, a, b)
        # arrays allocated separately: merge contents in a fresh cell
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = st.heap.get(a.id), st.heap.get(b.id)
            if isinstance(ca, ArrCell) and isinstance(cb, ArrCell) and ca.ctype == cb.ctype == "arr":
                shp = None
                if ca.shape and cb.shape and len(ca.shape) == len(cb.shape):
                    shp = tuple(self.merge_vals(g, x, y, st) if x is not None and y is not None else None
                                for x, y in zip(ca.shape, cb.shape))
                return self.alloc(st, ArrCell(g * ca.term() + (ONE - g) * cb.term(), (), shp, ca.kind, ca.rank))
        r = self._merge_arr(g, a, b, st.heap, st.heap, st.heap)
        if r is not None:
            return r
        ta, tb = self.term(a, st), self.term(b, st)
        if ta.key == tb.key:
            return a
        return g * ta + (ONE - g) * tb

    def merge_states(self, g, s1, a1, s2, a2, st, npre):
        """merge branch states into st; a1/a2: branch falls through"""
        if a1 and not a2:
            st.env, st.heap, st.pc, st.fwd = s1.env, dict(s1.heap), s1.pc, s1.fwd
            self._heap_effects(st, s1, s2, g)
            st.gf = s1.gf + (g,)
        elif a2 and not a1:
            st.env, st.heap, st.pc, st.fwd = s2.env, dict(s2.heap), s2.pc, s2.fwd
            self._heap_effects(st, s2, s1, ONE - g)
            st.gf = s2.gf + (ONE - g,)
        else:
            env = {}
            heap = {}
            ids = set(s1.heap) | set(s2.heap)
            tmp = State()
            tmp.heap = dict(s1.heap)
            for i, c in s2.heap.items():
                tmp.heap.setdefault(i, c)
            st.heap = self._merge_heaps(g, s1.heap, s2.heap)
            for k in set(s1.env) | set(s2.env):
                if k in s1.env and k in s2.env:
                    x, y = s1.env[k], s2.env[k]
                    v = x if x is y else self.merge_vals(g, x, y, st)
                    if isinstance(v, Poly):
                        v = T.abbr(v, 40)
                    env[k] = v
                else:
                    v = s1.env.get(k, s2.env.get(k))
                    env[k] = v
            st.env = env
            st.fwd = {}
            for k in set(s1.fwd) | set(s2.fwd):
                t, ix, _ = s1.fwd.get(k) or s2.fwd[k]
                x, y = (s.fwd[k][2] if k in s.fwd else self.untern(read_term(t, ix)) for s in (s1, s2))
                try:
                    st.fwd[k] = (t, ix, x if x is y else self.merge_vals(g, x, y, st))
                except (Unsupported, Budget):
                    pass
            st.pc = s1.pc + s2.pc
            k = 0
            while k < len(s1.gf) and k < len(s2.gf) and s1.gf[k].key == s2.gf[k].key:
                k += 1
            if k == len(s1.gf) == len(s2.gf):
                st.gf = s1.gf
            else:
                r1 = r2 = ONE
                for x in s1.gf[k:]:
                    r1 = r1 * x
                for x in s2.gf[k:]:
                    r2 = r2 * x
                st.gf = s1.gf[:k] + (g * r1 + (ONE - g) * r2,)
        st.events = s1.events + s2.events[npre:]

    def _heap_effects(self, st, live, dead, g):
        """the other branch left the function/loop: its heap effects must survive (they are gated by pc)"""
        for i, c in dead.heap.items():
            if i not in st.heap:
                st.heap[i] = c
                continue
            lc = st.heap[i]
            if lc is c:
                continue
            st.heap[i] = self._merge_cell(g, lc, c)

    def _merge_heaps(self, g, h1, h2):
        out = {}
        for i in set(h1) | set(h2):
            if i not in h1:
                out[i] = h2[i]
            elif i not in h2:
                out[i] = h1[i]
            elif h1[i] is h2[i]:
                out[i] = h1[i]
            else:
                out[i] = self._merge_cell(g, h1[i], h2[i], out, h1, h2)
        return out

    def _merge_arr(self, g, x, y, out, h1, h2):
        """a fresh array in one branch, a computed array value (no object with an identity) in the other"""
        if out is None:
            return None
        if isinstance(x, Ref) and isinstance(y, Poly):
            c = h1.get(x.id)
            if isinstance(c, ArrCell) and c.ctype == "arr" and no_identity(y):
                t = g * c.term() + (ONE - g) * y
            else:
                return None
        elif isinstance(y, Ref) and isinstance(x, Poly):
            c = h2.get(y.id)
            if isinstance(c, ArrCell) and c.ctype == "arr" and no_identity(x):
                t = g * x + (ONE - g) * c.term()
            else:
                return None
        else:
            return None
        i = self.newid()
        out[i] = ArrCell(t, (), c.shape, c.kind, c.rank)
        self.born[i] = self.born.get((x if isinstance(x, Ref) else y).id, ())
        return Ref(i)

    def _merge_cell(self, g, c1, c2, out=None, h1=None, h2=None):
        if isinstance(c1, ArrCell) and isinstance(c2, ArrCell):
            shape = c1.shape
            if c1.shape and c2.shape and len(c1.shape) == len(c2.shape):
                shape = tuple(x if (x is y or x is None or y is None or x.key == y.key) else g * x + (ONE - g) * y
                              for x, y in zip(c1.shape, c2.shape))
            if c1.base.key == c2.base.key:
                k = 0
                while k < len(c1.effs) and k < len(c2.effs) and c1.effs[k] is c2.effs[k]:
                    k += 1
                e1 = [gate_eff(e, g) for e in c1.effs[k:]]
                e2 = [gate_eff(e, ONE - g) for e in c2.effs[k:]]
                return c1.copy(effs=c1.effs[:k] + tuple(e for e in e1 + e2 if e is not None), shape=shape)
            return c1.copy(base=g * c1.term() + (ONE - g) * c2.term(), effs=(), shape=shape)
        if isinstance(c1, ObjCell) and isinstance(c2, ObjCell):
            f = {}
            tmp = State()
            for k in set(c1.fields) | set(c2.fields):
                if k in c1.fields and k in c2.fields:
                    x, y = c1.fields[k], c2.fields[k]
                    if x is y:
                        f[k] = x
                    elif isinstance(x, Poly) and isinstance(y, Poly):
                        f[k] = g * x + (ONE - g) * y
                    elif isinstance(x, Ref) and isinstance(y, Ref) and x == y:
                        f[k] = x
                    else:
                        f[k] = self._merge_arr(g, x, y, out, h1, h2)
                        if f[k] is None:
                            f[k] = self._merge_field(g, x, y)
                else:
                    v = c1.fields.get(k, c2.fields.get(k))
                    other = self._field_sym(c2 if k in c1.fields else c1, k)
                    if k in c1.fields:
                        f[k] = self._merge_field(g, v, other) if not self._same(v, other) else v
                    else:
                        f[k] = self._merge_field(ONE - g, v, other) if not self._same(v, other) else v
            return ObjCell(c1.cls, f, c1.ident)
        return c1

    def _same(self, a, b):
        return isinstance(a, Poly) and isinstance(b, Poly) and a.key == b.key

    def _merge_field(self, g, x, y):
        tx = x if isinstance(x, Poly) else P(mk("ref", (x.id,))) if isinstance(x, Ref) else self.term(x, State())
        ty = y if isinstance(y, Poly) else P(mk("ref", (y.id,))) if isinstance(y, Ref) else self.term(y, State())
        return g * tx + (ONE - g) * ty

    def _field_sym(self, c, k):
        return self.field_default(c, k)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """returns True when control can fall through"""
        k = 0
        while k < len(stmts):
            s = stmts[k]
            if time.process_time() > self.deadline:
                raise Budget("time")
            k += 1
            if self.lang() == "py" and k < len(stmts) and isinstance(s, (ast.If, ast.Assign)):
                j = choice_uses(s, stmts[k:k + 4])
                if j:
                    s = push_tail(s, stmts[k:k + j])
                    k += j
            if not self.stmt(s, st):
                return False
        return True

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        r = m(s, st)
        return r is not False

    def s_Pass(self, s, st):
        return True

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return True
        self._stmt_call = s.value
        self.eval(s.value, st, stmt=True)
        return not st.dead

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        self.frame.rets.append((st.pc, v))
        return False

    def s_Raise(self, s, st):
        name = "?"
        args = ()
        e = s.exc
        if e is None:
            return False        # re-raised: what the protected block raises is recorded there
        if e is not None:
            if isinstance(e, ast.Call):
                name = ast.unparse(e.func).split(".")[-1]
                try:
                    args = tuple(self.term(self.eval(a, st), st) for a in e.args)
                except (Unsupported, Budget):
                    args = ()
            else:
                name = ast.unparse(e).split(".")[-1]
        self.event(st, "raise", name, args, s)
        return False

    def s_Assert(self, s, st):
        return True

    def event(self, st, kind, name, args, node):
        g = self.basepc * st.pc
        if kind == "mutate" and len(g.m) == 1:
            (mono, c), = g.m.items()
            if mono and c == 1:
                fx = {a for a, _ in mono if a.head in T.IVERSON}
                args = tuple(assume_in(a, fx, {}) for a in args)
        st.events.append((kind, g, name, tuple(args), getattr(node, "lineno", 0), tuple(self.stack)))

    def s_Break(self, s, st):
        self.frame.brk[-1].append(("break", st.pc, dict(st.env)))
        return False

    def s_Continue(self, s, st):
        self.frame.brk[-1].append(("continue", st.pc, dict(st.env)))
        return False

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                ix = self.index(t.slice, st)
                self.mutate_opaque(b, "del", [self.term(i, st) if not isinstance(i, Poly) else i for i in ix], st, s)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return True

    def s_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, P(mk("enter", (self.term(v, st),))), st, s)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        # body under "no exception"; handlers under exc guard
        tag = self.key_guard(s, st) if not s.finalbody else None
        if tag is not None:
            h = s.handlers[0]
            if h.name:
                st.env[h.name] = P(sym("exc_" + h.name))
            return self.if_core(tag, h.body, list(s.body) + list(s.orelse), st)
        ek = self.exc_key(s, st)
        pre = st.fork()
        n = len(st.events)
        outer, self.trycalls = self.trycalls, []
        try:
            a1 = self.block(s.body, st)
        finally:
            calls, self.trycalls = self.trycalls, outer
        if outer is not None:
            outer.extend(calls)
        seen = {}
        for c in calls:
            seen.setdefault(c.key, c)
        ek = ek + tuple(seen[c] for c in sorted(seen, key=repr))
        tag = P(mk("exc", (ek,), "int"))
        caught = [e for e in st.events[n:] if e[0] == "raise" and s.handlers and self.catches(s.handlers[0], e[2])]
        if caught and len(s.handlers) == 1:
            # exceptions raised by code visible here: their guards are known
            ids = {id(e) for e in caught}
            st.events = st.events[:n] + [e for e in st.events[n:] if id(e) not in ids]
            ok = ONE
            for e in caught:
                ok = ok * (ONE - e[1])
            tag = ONE - (ok if len(ek) == 1 else ok * (ONE - tag))
        # calls to repo code may raise; the guard is an uninterpreted bracket
        evs = st.events[n:]
        s2 = pre
        pc = pre.pc
        s2.pc = pc * tag
        a2 = False
        handled = False
        h = s.handlers[0] if s.handlers else None
        if h is not None:
            if h.name:
                s2.env[h.name] = P(sym("exc_" + h.name))
            a2 = self.block(h.body, s2)
        # drop raise events caught
        if not a2:
            # handler leaves (raise/return): continue with body state under no-exception assumption
            st.events = st.events + s2.events[n:]
            if a1 and s.orelse:
                a1 = self.block(s.orelse, st)
            if s.finalbody:
                a1 = self.block(s.finalbody, st) and a1
            return a1
        s1 = st.fork()
        s1.pc = s1.pc * (ONE - tag)
        if a1 and s.orelse:
            a1 = self.block(s.orelse, s1)
        self.merge_states(ONE - tag, s1, a1, s2, a2, st, n)
        r = a1 or a2
        if s.finalbody and r:
            r = self.block(s.finalbody, st)
        return r

    trycalls = None

    def catches(self, h, name):
        if h.type is None:
            return True
        for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            hn = ast.unparse(t).split(".")[-1]
            if hn == name or hn in ("Exception", "BaseException"):
                return True
            c = self.p.cls(name, required=False)
            if c is not None and any(k.name == hn for k in self.p.mro(c)):
                return True
            b = getattr(builtins, name, None), getattr(builtins, hn, None)
            if all(isinstance(x, type) for x in b) and issubclass(*b):
                return True
        return False

    def key_guard(self, s, st):
        """condition under which a try body made of one dictionary access fails with KeyError"""
        if len(s.handlers) != 1 or not isinstance(s.handlers[0].type, ast.Name) or s.handlers[0].type.id != "KeyError":
            return None
        subs = []
        aug = {id(x.target) for y in s.body for x in ast.walk(y) if isinstance(x, ast.AugAssign)}
        for x in [z for y in s.body for z in ast.walk(y)]:
            if isinstance(x, (ast.For, ast.While, ast.If, ast.IfExp, ast.BoolOp, ast.comprehension)):
                return None
            if isinstance(x, ast.Subscript):
                if isinstance(x.ctx, (ast.Load, ast.Del)) or id(x) in aug:
                    subs.append((x.value, x.slice))
            elif isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and x.func.attr == "pop" and len(x.args) == 1:
                    subs.append((x.func.value, x.args[0]))
                elif isinstance(x.func, ast.Attribute) and x.func.attr in ("conj", "conjugate", "append", "add", "get", "item"):
                    pass
                elif isinstance(x.func, ast.Name) and x.func.id in ("len", "range", "int", "float", "list", "tuple", "sorted", "abs"):
                    pass
                else:
                    return None
        if not subs:
            return None
        ok = ONE
        tmp = st.fork()
        try:
            for b, ix in subs:
                bv = self.eval(b, tmp)
                bt = self.term(bv, tmp)
                if not (isinstance(bv, Ref) and isinstance(tmp.heap.get(bv.id), ArrCell) and tmp.heap[bv.id].ctype == "dict") and self.ctype_of(bt) != "dict":
                    continue
                ok = ok * self.contains(self.eval(ix, tmp), bv, tmp)
        except (Unsupported, KeyError):
            return None
        if ok.key == ONE.key:
            return None
        return ONE - ok

    def exc_key(self, s, st):
        """what may fail: canonical key of the try body's subscripts/calls"""
        parts = []
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Load, ast.Del)):
                    try:
                        tmp = st.fork()
                        b0 = self.term(self.eval(x.value, tmp), tmp)
                        ix = tuple(self.term(i, tmp) if not isinstance(i, (Poly, Atom)) else i for i in self.index(x.slice, tmp))
                        parts.append(mk("sub", (b0, ix)))
                    except (Unsupported, Budget, KeyError):
                        pass
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "remove", "index"):
                    try:
                        tmp = st.fork()
                        b0 = self.term(self.eval(x.func.value, tmp), tmp)
                        ix = tuple(self.term(self.eval(a, tmp), tmp) for a in x.args)
                        parts.append(mk("sub", (b0, ix)))
                    except (Unsupported, Budget, KeyError):
                        pass
        nm = "|".join(sorted(ast.unparse(h.type) if h.type is not None else "" for h in s.handlers))
        return tuple([nm] + parts)

    def s_If(self, s, st):
        g = truth(self.cond_term(self.eval(s.test, st), st))
        return self.if_core(g, s.body, s.orelse, st)

    def if_core(self, g, body, orelse, st):
        c = const_val(g)
        if c is None and st.pc.m:
            # decided by the path condition?
            ctx = self.basepc * st.pc
            pg = ctx * g
            if not pg.m:
                c = 0
            elif pg.key == ctx.key:
                c = 1
        if c == 1:
            return self.block(body, st)
        if c == 0:
            return self.block(orelse, st)
        g = T.abbr(g, 4)
        s1, s2 = st.fork(), st.fork()
        n = len(st.events)
        s1.pc, s2.pc = st.pc * g, st.pc * (ONE - g)
        nr = len(self.frame.rets)
        a1 = self.block(body, s1)
        a2 = self.block(orelse, s2)
        if not a1 and not a2:
            # both leave; keep heap effects of both
            st.heap = self._merge_heaps(g, s1.heap, s2.heap)
            st.events = s1.events + s2.events[n:]
            return False
        # raising branches contribute no state
        raised1 = not a1 and self._only_raise(body)
        raised2 = not a2 and orelse and self._only_raise(orelse)
        if raised1:
            ev = s1.events[n:]
            st.env, st.heap, st.fwd, st.pc = s2.env, s2.heap, s2.fwd, st.pc if not self._split(orelse) else s2.pc
            st.events = s2.events + ev
            return True
        if raised2:
            ev = s2.events[n:]
            st.env, st.heap, st.fwd, st.pc = s1.env, s1.heap, s1.fwd, st.pc if not self._split(body) else s1.pc
            st.events = s1.events + ev
            return True
        pc0 = st.pc
        self.merge_states(g, s1, a1, s2, a2, st, n)
        if a1 and a2 and not self._split(body) and not self._split(orelse):
            st.pc = pc0
        return True

    def _only_raise(self, body):
        """block always ends by raising (no return/break)"""
        for x in body:
            for y in ast.walk(x):
                if isinstance(y, (ast.Return, ast.Break, ast.Continue)):
                    return False
        return True

    def _split(self, body):
        for x in body:
            for y in ast.walk(x):
                if isinstance(y, (ast.Return, ast.Break, ast.Continue)):
                    return True
        return False

    # ------------------------------------------------------------ assignment
    def s_Assign(self, s, st):
        if getattr(s, "pointer", False):
            return self.pointer_assign(s, st)
        v = self.eval(s.value, st)
        v = self.list_cell(v, s.value, s.targets[0], st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return True

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.list_cell(self.eval(s.value, st), s.value, s.target, st), st, s)
        return True

    def pointer_assign(self, s, st):
        t = s.targets[0]
        v = None
        if isinstance(s.value, ast.Name):
            v = st.env.get(s.value.id)
        elif isinstance(s.value, ast.Subscript):
            v = self.eval_view(s.value, st)
        elif isinstance(s.value, ast.Attribute):
            v = self.eval(s.value, st)
        if v is None:
            v = self.eval(s.value, st)
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr(o, t.attr, v, st, s)
        return True

    def s_AugAssign(self, s, st):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        cur = self.eval(load, st)
        rhs = self.eval(s.value, st)
        # in-place on numpy arrays (python): mutate the cell
        if isinstance(t, ast.Name) and isinstance(cur, Ref) and self.lang() == "py":
            c = st.heap.get(cur.id)
            if isinstance(c, ArrCell) and c.ctype == "arr":
                v = self.binop(s.op, c.term(), self.num(rhs, st), s)
                self.write_cell(cur.id, c.copy(base=v, effs=()), st)
                return True
            if isinstance(c, ArrCell) and c.ctype == "list":
                self.mutate_opaque(cur, "extend", [self.num(rhs, st)], st, s)
                return True
        v = self.binop_v(s.op, cur, rhs, st, s)
        if isinstance(t, ast.Attribute) and isinstance(cur, Ref) and self.lang() == "py":
            c = st.heap.get(cur.id)
            if isinstance(c, ArrCell) and c.ctype == "arr":
                self.write_cell(cur.id, c.copy(base=self.term(v, st), effs=()), st)
                return True
        self.assign(t, v, st, s)
        return True

    def write_cell(self, i, new, st):
        """whole-content write, gated after early exits"""
        g = st.rgate(self.born.get(i, ()))
        if const_val(g) != 1:
            old = st.heap[i]
            new = new.copy(base=g * new.term() + (ONE - g) * old.term(), effs=())
        st.heap[i] = new

    def cast(self, v, t, st):
        """value stored in a typed scalar variable"""
        return v

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if self.lang() == "f90":
                return self.f90_assign_name(t, v, st)
            tp = self.frame.fn.types.get(t.id)
            if tp is not None and tp.rank == 0 and isinstance(v, Poly):
                v = self.coerce(v, tp)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), st, t.elts)
            for x, y in zip(t.elts, items):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, y, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval_view(t.value, st)
            self.store(b, self.index(t.slice, st), v, st, node)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr(o, t.attr, v, st, node)
        else:
            raise Unsupported("target %s" % type(t).__name__)

    def coerce(self, v, tp):
        # a C int variable receiving a real value truncates; equality of int/real symbols otherwise ignored
        if tp.kind == "int" and dtype_of(v) in ("real",) and not is_const(v):
            return P(mk("trunc", (v,), "int"))
        return v

    def f90_assign_name(self, t, v, st):
        tp = self.frame.fn.types.get(t.id)
        if tp is not None and tp.rank:
            cur = st.env.get(t.id)
            if isinstance(cur, View):
                self.store(cur, [SliceV(None, None, None)] * sum(1 for x in cur.spec if x[0] == "s"), v, st, t)
                return
            if not isinstance(cur, Ref):
                cur = self.alloc(st, ArrCell(ZERO, (), None, tp.kind, tp.rank))
                st.env[t.id] = cur
            c = st.heap[cur.id]
            a = self.av(v, st)
            if a is not None:
                shape = c.shape or a.shape
                self.write_cell(cur.id, c.copy(base=self.freeze_av(a), effs=(), shape=shape), st)
            else:
                self.write_cell(cur.id, c.copy(base=self.num(v, st), effs=()), st)
            return
        if tp is not None and isinstance(v, Poly):
            v = self.coerce(v, tp)
        st.env[t.id] = v

    def unpack(self, v, n, st, elts=None):
        if isinstance(v, Tup):
            if len(v.items) == n:
                return v.items
            raise Unsupported("unpack length")
        if isinstance(v, Poly):
            u = self.untern(v)
            if isinstance(u, Tup):
                return self.unpack(u, n, st)
            ivs = iv_atoms(v)
            return [self.untern(read_term(v, (P(k),))) for k in range(n)]
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ArrCell):
                if c.rank is not None and c.rank > 1:
                    return [View(v, [("i", P(k))] + [("s", ZERO, None)] * (c.rank - 1)) for k in range(n)]
                return [self.untern(c.read((P(k),))) for k in range(n)]
        if isinstance(v, View):
            return [self.subscript(v, [P(k)], st) for k in range(n)]
        if isinstance(v, Iter):
            return [v.item(P(k)) for k in range(n)]
        t = self.term(v, st)
        return [read_term(t, (P(k),)) for k in range(n)]

    # ------------------------------------------------------------ heap access
    def setattr(self, o, attr, v, st, node):
        o = self.untern(o) if isinstance(o, Poly) else o
        if isinstance(o, Ref) and isinstance(st.heap.get(o.id), ObjCell):
            c = st.heap[o.id].copy()
            cls = self.frame.fn.cls
            name = mangle_name(cls, attr)
            if c.cls is not None:
                for k in self.p.mro(c.cls):
                    if attr in k.setters:
                        f = k.setters[attr]
                        self.call_func(f, [v], {}, st, node, self_=o)
                        return
            g = st.rgate(self.born.get(o.id, ()))
            if const_val(g) != 1:
                old = c.fields.get(name)
                if old is None:
                    old = self.field_default(c, name)
                v = self.merge_vals(g, v, old, st)
            c.fields[name] = v
            st.heap[o.id] = c
            return
        self.event(st, "setattr", attr, (self.term(o, st), self.term(v, st)), node)

    def getattr(self, o, attr, st, node):
        if isinstance(o, Poly):
            o = self.untern(o)
        if attr in self.p.ntup and isinstance(o, (Poly, Tup)) and self.lang() == "py":
            return self.subscript(o, [P(self.p.ntup[attr])], st)
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, ObjCell):
                name = mangle_name(self.frame.fn.cls if self.frame else None, attr)
                if name in c.fields:
                    return c.fields[name]
                if c.cls is not None:
                    pr = self.p.prop(c.cls, attr)
                    if pr is not None and pr.qual not in self.opaque and (c.cls.name + "." + attr) not in self.opaque:
                        return self.call_func(pr, [], {}, st, node, self_=o)
                    m = self.p.method(c.cls, attr)
                    if m is not None:
                        return FnV(m, None if "staticmethod" in m.decorators else o)
                    for k in self.p.mro(c.cls):
                        if attr in k.class_attrs and pr is None:
                            return self.eval_in_module(k.class_attrs[attr], k.module, st)
                if c.cls is None and self.lang() == "f90":
                    t = None
                    v = self.alloc(st, ArrCell(P(mk("attr", (c.ident, name), "any")), (), (P(mk("dim", (P(mk("attr", (c.ident, name))), 0), "int")),), "any", 1))
                    c2 = c.copy()
                    c2.fields[name] = v
                    st.heap[o.id] = c2
                    return v
                v = self.field_default(c, name)
                return v
            if isinstance(c, ArrCell):
                return self.arr_attr(o, c, attr, st)
        if isinstance(o, View):
            a = self.av(o, st)
            if attr == "shape":
                return Tup(a.shape)
            if attr in ("real", "imag"):
                return self.np_unary(attr, o, st)
            if attr in ("conj", "conjugate", "copy", "sum", "max", "min", "dot", "tolist", "reshape", "astype"):
                return MethV(o, attr)
        if isinstance(o, AV):
            if attr == "shape":
                return Tup(o.shape)
            return MethV(o, attr)
        if isinstance(o, ModV):
            return self.mod_attr(o, attr, st)
        if isinstance(o, ExtV):
            return self.ext(o.qual + "." + attr)
        if isinstance(o, ClsV):
            m = self.p.method(o.cls, attr)
            if m is not None:
                return FnV(m)
            for k in self.p.mro(o.cls):
                if attr in k.class_attrs:
                    return self.eval_in_module(k.class_attrs[attr], k.module, st)
            return P(mk("attr", (P(mk("cls", (o.cls.name,))), attr)))
        if isinstance(o, Tup):
            return MethV(o, attr)
        if isinstance(o, Poly):
            if attr in ("real", "imag"):
                return re_(o) if attr == "real" else im_(o)
            if attr == "shape":
                return P(mk("shapeof", (o,)))
            if attr == "size" and False:
                pass
            return MethV(o, attr)
        return MethV(o, attr)

    effects = None

    def field_default(self, c, name):
        if name == "$log":
            return c.ident
        lg = c.fields.get("$log")
        if lg is not None and self.effects is not None and name in self.effects.mutable(c.cls):
            return P(mk("attr", (self.log_for(lg, name), name)))
        return P(mk("attr", (c.ident, name)))

    def log_for(self, lg, name):
        """the call history of an object restricted to calls that may write field `name`"""
        for _ in range(40):
            out, ch = ZERO, False
            if not isinstance(lg, Poly):
                return lg
            for mono, co in lg.m.items():
                t = P(co)
                for a, e in mono:
                    pm = self.postmods.get(a.key) if a.head == "post" and e == 1 else None
                    if pm is not None and name not in pm[0] and isinstance(pm[1], Poly):
                        t = t * pm[1]
                        ch = True
                    else:
                        for _k in range(e):
                            t = t * P(a)
                out = out + t
            lg = out
            if not ch:
                break
        return lg

    def arr_attr(self, o, c, attr, st):
        if attr == "shape":
            if c.shape is not None:
                return Tup(c.shape)
            return P(mk("shapeof", (c.base,)))
        if attr == "size" and c.shape is not None:
            r = ONE
            for x in c.shape:
                r = r * x
            return r
        if attr == "ndim" and c.rank is not None:
            return P(c.rank)
        if attr in ("real", "imag"):
            return self.np_unary(attr, o, st)
        if attr == "T":
            # a fresh cell: writes through the transposed view are not seen by the original (the code rebinds the name)
            shp = tuple(reversed(c.shape)) if c.shape else None
            if c.ctype == "arr" and not self.lang() in ("cy", "f90"):
                return self.alloc(st, ArrCell(P(mk("T", (c.term(),))), (), shp, c.kind, c.rank))
            return P(mk("T", (c.term(),)))
        if attr == "dtype":
            return P(mk("dtype", (c.kind,)))
        return MethV(o, attr)

    def mod_attr(self, o, attr, st):
        if o.kind == "module":
            r = self.p.resolve(o.name, attr)
            if r is None and (o.name + "." + attr) in self.p.modules:
                r = ("module", o.name + "." + attr)
            return self.from_res(r, st, o.name + "." + attr)
        if o.kind == "cymod":
            f = self.p.cy[o.name].get(attr)
            if f is None:
                raise Unsupported("no kernel %s.%s" % (o.name, attr))
            return FnV(f)
        if o.kind == "f90mod":
            f = self.p.f90.get(attr.lower())
            if f is None:
                raise Unsupported("no kernel %s" % attr)
            return FnV(f)
        return ExtV(o.name + "." + attr)

    def from_res(self, r, st, nm):
        if r is None:
            return ExtV(nm)
        if r[0] == "func":
            return FnV(r[1])
        if r[0] == "class":
            return ClsV(r[1])
        if r[0] in ("module", "cymod", "f90mod"):
            return ModV(r[0], r[1])
        if r[0] == "glob":
            return self.eval_in_module(r[2], r[1].name, st)
        return self.ext(r[1])

    def ext(self, q):
        if q in ("numpy.pi", "math.pi", "scipy.constants.pi", "libc.math.pi"):
            return P(T.PI)
        if q in ("numpy.newaxis",):
            return NONE
        return ExtV(q)

    def eval_in_module(self, node, module, st):
        f = Func("<module>", module, "", "py", [], {}, [])
        saved, env = self.frame, st.env
        self.frame = Frame(f)
        st.env = {}
        try:
            return self.eval(node, st)
        finally:
            self.frame, st.env = saved, env

    # index expression -> list of Poly | SliceV | other
    def index(self, sl, st):
        if isinstance(sl, ast.Tuple):
            return [self.index1(x, st) for x in sl.elts]
        v = self.index1(sl, st)
        if isinstance(v, Tup):
            return list(v.items)
        return [v]

    def index1(self, x, st):
        if isinstance(x, ast.Slice):
            return SliceV(self.eval(x.lower, st) if x.lower is not None else None,
                          self.eval(x.upper, st) if x.upper is not None else None,
                          self.eval(x.step, st) if x.step is not None else None)
        v = self.eval(x, st)
        if isinstance(v, Tup):
            return v
        return v

    def idx_norm(self, ix, st):
        """for opaque reads/stores: Poly or slice atoms, trailing full slices dropped"""
        out = []
        for i in ix:
            if isinstance(i, Poly):
                out.append(i)
            elif isinstance(i, SliceV):
                sl = [self.term(x, st) if x is not None else None for x in (i.lo, i.hi, i.step)]
                if sl[2] is not None and const_val(sl[2]) == 1:
                    sl[2] = None
                if sl[2] is None and sl[0] is not None and not sl[0].m:
                    sl[0] = None
                out.append(mk("slice", tuple(sl)))
            else:
                out.append(self.term(i, st))
        while len(out) > 1 and isinstance(out[-1], Atom) and out[-1].args == (None, None, None):
            out.pop()
        return out

    def neg_fix(self, i, n):
        """python negative constant index"""
        c = const_val(i)
        if c is not None and c < 0 and n is not None:
            return n + i
        return i

    def subscript(self, b, ix, st, node=None):
        b = self.unalias(b, st)
        if isinstance(b, Tup):
            if len(ix) == 1 and isinstance(ix[0], Poly):
                c = const_val(ix[0])
                if c is not None:
                    if -len(b.items) <= c < len(b.items):
                        return b.items[int(c)]
                    raise Unsupported("tuple index")
                a = self.av(b, st)
                if a is not None:
                    return a.f([ix[0]])
            if len(ix) == 1 and isinstance(ix[0], SliceV):
                s = ix[0]
                vals = [const_val(self.term(x, st)) if x is not None else None for x in (s.lo, s.hi, s.step)]
                if all((x is None) == (y is None) for x, y in zip((s.lo, s.hi, s.step), vals)):
                    return Tup(b.items[slice(*[int(v) if v is not None else None for v in vals])])
            if len(ix) > 1:
                return self.subscript(self.subscript(b, ix[:1], st), ix[1:], st)
            return read_term(self.term(b, st), self.idx_norm(ix, st))
        if isinstance(b, Ref):
            c = st.heap[b.id]
            if isinstance(c, ArrCell):
                if c.ctype in ("list",) and len(ix) > 1:
                    pass
                if c.rank is None or c.ctype != "arr":
                    ix = [self.neg_fix(i, c.shape[k] if c.shape and k < len(c.shape) else None)
                          if isinstance(i, Poly) and c.ctype != "dict" else i for k, i in enumerate(ix)]
                    return self.untern(aread(c.base, c.effs, self.idx_norm(ix, st), c.kind))
                return self.view_or_elem(View(b, [("s", ZERO, None)] * c.rank), ix, st)
        if isinstance(b, View):
            return self.view_or_elem(b, ix, st)
        if isinstance(b, AV):
            if all(isinstance(i, Poly) for i in ix) and len(ix) == b.rank:
                return b.f(ix)
            b = self.freeze_av(b)
        if isinstance(b, Iter):
            if len(ix) == 1 and isinstance(ix[0], Poly):
                return b.item(ix[0])
        if isinstance(b, Ref):
            raise Unsupported("subscript of object")
        t = self.term(b, st)
        ix = self.idx_norm(ix, st)
        if st.fwd:
            f = st.fwd.get((t.key, _akey(tuple(ix))))
            if f is not None:
                return f[2]
        return self.untern(read_term(t, ix))

    def view_or_elem(self, v, ix, st):
        c = st.heap[v.ref.id]
        spec = list(v.spec)
        pos = [k for k, s in enumerate(spec) if s[0] == "s"]
        if len(ix) > len(pos):
            raise Unsupported("too many indices")
        for k, i in zip(pos, ix):
            lo, n = spec[k][1], spec[k][2]
            dim = c.shape[k] if c.shape and k < len(c.shape) else None
            if isinstance(i, Poly):
                i = self.neg_fix(i, n if n is not None else dim)
                spec[k] = ("i", lo + i)
            elif isinstance(i, SliceV):
                if i.step is not None and const_val(self.term(i.step, st)) != 1:
                    return idx_term(self.view_term(v, st), self.idx_norm(ix, st), c.kind)
                l = self.num(i.lo, st) if i.lo is not None else ZERO
                if i.hi is not None:
                    h = self.num(i.hi, st)
                    ch = const_val(h)
                    if ch is not None and ch < 0 and (n is not None or dim is not None):
                        h = h + (n if n is not None else dim)
                    nn = h - l
                else:
                    nn = None if (n is None and not l.m) else ((n if n is not None else dim) - l if (n is not None or dim is not None) else None)
                spec[k] = ("s", lo + l, nn)
            else:
                return idx_term(self.view_term(v, st), self.idx_norm(ix, st), c.kind)
        if all(s[0] == "i" for s in spec):
            return self.untern(aread(c.base, c.effs, [s[1] for s in spec], c.kind))
        return View(v.ref, spec)

    def eval_view(self, node, st):
        """evaluate a store base without copying"""
        if isinstance(node, ast.Name):
            if node.id in st.env:
                return st.env[node.id]
        if isinstance(node, ast.Subscript):
            b = self.eval_view(node.value, st)
            return self.subscript(b, self.index(node.slice, st), st, node)
        return self.eval(node, st)

    def store(self, b, ix, v, st, node):
        b = self.unalias(b, st)
        if isinstance(b, Ref):
            c = st.heap[b.id]
            if isinstance(c, ObjCell):
                # container object with __setitem__
                if c.cls is not None:
                    m = self.p.method(c.cls, "__setitem__")
                    if m is not None:
                        key = ix[0] if len(ix) == 1 else Tup(ix)
                        self.call_func(m, [key, v], {}, st, node, self_=b)
                        return
                self.event(st, "setitem", "obj", (self.term(b, st),) + tuple(self.idx_norm(ix, st)) + (self.term(v, st),), node)
                return
            if c.rank is None or c.ctype != "arr":
                self.eff_set(b.id, c, self.idx_norm(ix, st), self.term(v, st), st)
                return
            b = View(b, [("s", ZERO, None)] * c.rank)
        if isinstance(b, View):
            c = st.heap[b.ref.id]
            spec = list(b.spec)
            pos = [k for k, s in enumerate(spec) if s[0] == "s"]
            for k, i in zip(pos, ix):
                dim = c.shape[k] if c.shape and k < len(c.shape) else None
                if isinstance(i, Poly):
                    spec[k] = ("i", spec[k][1] + self.neg_fix(i, spec[k][2] or dim))
                elif isinstance(i, SliceV):
                    if i.step is not None:
                        raise Unsupported("strided store")
                    l = self.num(i.lo, st) if i.lo is not None else ZERO
                    n = spec[k][2]
                    if i.hi is not None:
                        n = self.num(i.hi, st) - l
                    elif i.lo is not None:
                        n = (n if n is not None else dim) - l if (n is not None or dim is not None) else None
                    spec[k] = ("s", spec[k][1] + l, n)
                else:
                    self.eff_set(b.ref.id, c, self.idx_norm(ix, st), self.term(v, st), st)
                    return
            free = [k for k, s in enumerate(spec) if s[0] == "s"]
            if not free:
                self.eff_set(b.ref.id, c, [s[1] for s in spec], self.term(v, st), st)
                return
            if self.lang() == "py":
                # a row of known extent: element by element
                if len(free) == 1:
                    k = free[0]
                    n = spec[k][2] if spec[k][2] is not None else (c.shape[k] if c.shape and k < len(c.shape) else None)
                    n = const_val(n) if n is not None else None
                    items = self.known_items(v, st) if n is not None and n <= 6 else None
                    if items is not None and len(items) == n:
                        for q, x in enumerate(items):
                            sp = [y[1] for y in spec]
                            sp[k] = spec[k][1] + P(q)
                            self.eff_set(b.ref.id, st.heap[b.ref.id], sp, x, st)
                        return
                # row stores in numpy code: opaque slice index
                idx = []
                for s in spec:
                    if s[0] == "i":
                        idx.append(s[1])
                    elif s[2] is None and not s[1].m:
                        idx.append(mk("slice", (None, None, None)))
                    else:
                        idx.append(mk("slice", (s[1], s[1] + s[2] if s[2] is not None else None, None)))
                while len(idx) > 1 and isinstance(idx[-1], Atom) and idx[-1].args == (None, None, None):
                    idx.pop()
                if len(idx) == 1 and isinstance(idx[0], Atom) and idx[0].args == (None, None, None):
                    self.write_cell(b.ref.id, c.copy(base=self.term(v, st), effs=()), st)
                    return
                self.eff_set(b.ref.id, c, idx, self.term(v, st), st)
                return
            full = all(s[0] == "s" and not s[1].m and s[2] is None for s in spec)
            a = self.av(v, st)
            if full:
                self.write_cell(b.ref.id, c.copy(base=self.freeze_av(a) if a is not None else self.num(v, st), effs=()), st)
                return
            vs, idx, bs = [], [], []
            for k, s in enumerate(spec):
                if s[0] == "i":
                    idx.append(s[1])
                else:
                    f = fresh()
                    n = s[2] if s[2] is not None else (c.shape[k] if c.shape else None)
                    if n is None:
                        raise Unsupported("section of unknown extent")
                    vs.append(P(f))
                    bs.append((f, n))
                    idx.append(s[1] + P(f))
            val = a.f(vs) if a is not None else self.num(v, st)
            e = mk_eff("set", bs, tuple(idx), val, st.rgate(self.born.get(b.ref.id, ())))
            if e is not None:
                st.heap[b.ref.id] = c.copy(effs=c.effs + (e,))
            return
        self.put_path(self.term(b, st), tuple(self.idx_norm(ix, st)), self.ref_term(v, st), st, node)

    def known_items(self, v, st):
        """elements of a vector of known length, None when it is not one"""
        v = self.untern(v) if isinstance(v, Poly) else v
        if isinstance(v, Tup):
            out = [self.untern(x) if isinstance(x, Poly) else x for x in v.items]
        elif isinstance(v, Ref) and isinstance(st.heap.get(v.id), ArrCell) and st.heap[v.id].shape and len(st.heap[v.id].shape) == 1:
            n = const_val(st.heap[v.id].shape[0]) if st.heap[v.id].shape[0] is not None else None
            if n is None or n > 6:
                return None
            out = [self.subscript(v, [P(q)], st) for q in range(int(n))]
        else:
            return None
        if not all(isinstance(x, Poly) for x in out):
            return None
        return out

    def eff_set(self, cid, c, idx, val, st):
        idx = tuple(idx)
        kind = "set"
        simple = all(isinstance(x, Poly) for x in idx)
        if simple and c.ctype == "arr":
            cur = aread(c.base, c.effs, idx, c.kind)
            phis = self.phi_arrays
            d = None
            if val.m and cur.m and any(k in val.syms for k in cur.syms):
                d = val - cur
                roots = self.arr_roots(c)
                # accumulate form: remaining delta does not read this array's element any more
                if not self.reads_elem(d, cur, c.base):
                    kind = "add"
            if kind == "add":
                val = d
        if kind == "add" and not val.m:
            return
        # the guard is added when branches merge; after an early exit it is the path condition
        g = st.rgate(self.born.get(cid, ()))
        e = mk_eff(kind, [], idx, val, g)
        if e is None:
            return
        effs = c.effs
        if const_val(g) != 1:
            st.heap[cid] = c.copy(effs=effs + (e,))
            return
        # overwrite of the same element
        if kind == "set" and effs and effs[-1].args[0] == "set" and not effs[-1].args[1] and \
                const_val(effs[-1].args[4]) == 1 and tuple(_akey(x) for x in effs[-1].args[2]) == tuple(_akey(x) for x in idx):
            effs = effs[:-1]
        elif kind == "add" and effs and effs[-1].args[0] == "set" and not effs[-1].args[1] and \
                const_val(effs[-1].args[4]) == 1 and tuple(_akey(x) for x in effs[-1].args[2]) == tuple(_akey(x) for x in idx):
            e = mk_eff("set", [], idx, effs[-1].args[3] + val, ONE)
            effs = effs[:-1]
        st.heap[cid] = c.copy(effs=effs + (e,))

    phi_arrays = ()

    def arr_roots(self, c):
        return set()

    def reads_elem(self, d, cur, base=None):
        """does d still contain one of the element-read atoms of cur?"""
        ca = {a.key for mono in cur.m for a, _ in mono if a.head in ("idx", "mustate_a") and
              (base is None or (a.head == "idx" and a.args[0].key == base.key))}
        if not ca:
            # current value known (e.g. zero-initialised): accumulate only if it appears syntactically
            return True
        da = atoms_of(d)
        return any(k in da for k in ca)

    def mutate_opaque(self, b, name, args, st, node):
        """method call that mutates a container: append/pop/update/add/remove/extend/del"""
        st.fwd = {}
        b = b2 = self.unalias(b, st)
        if isinstance(b2, Ref):
            c = st.heap[b2.id]
            if isinstance(c, ArrCell):
                if name == "append" and c.shape is not None:
                    n = c.shape[0]
                    g = st.rgate(self.born.get(b2.id, ()))
                    e = mk_eff("set", [], (n,), args[0], g)
                    st.heap[b2.id] = c.copy(effs=c.effs + (e,), shape=(n + g,))
                    return NONE
                if name == "sort":
                    st.heap[b2.id] = c.copy(base=P(mk("sorted", (c.term(),) + tuple(args))), effs=(), shape=c.shape)
                    return NONE
                r = P(mk("ret_" + name, (c.term(),) + tuple(args)))
                st.heap[b2.id] = c.copy(base=P(mk("after_" + name, (c.term(),) + tuple(args))), effs=(),
                                        shape=(P(mk("len", (P(mk("after_" + name, (c.term(),) + tuple(args))),), "int")),) if c.shape else None)
                return r
        return self.mutate_path(self.term(b, st), name, args, st, node)

    def ctype_of(self, t):
        ty = self.types.of_term(t, self.ptypes)
        return self.types.kind(ty) if ty is not None else None

    def mutate_path(self, t, name, args, st, node):
        """mutation of a container known only by its path: a small vocabulary of effects (put, del, add, append)"""
        k = self.ctype_of(t)

        def ev(nm, *a):
            self.event(st, "mutate", nm, (t,) + a, node)
        if name == "del":
            ev("del", tuple(args))
            return NONE
        if name == "pop" and args and k != "list":
            ix = self.flat(args[0], st)
            val = self.untern(read_term(t, ix))
            if len(args) == 1:
                ev("del", ix)
                return val
            g = T.mk_in(args[0], t)
            s1 = st.fork()
            st.pc = st.pc * g
            ev("del", ix)
            st.pc = s1.pc
            return self.merge_vals(g, val, args[1], st)
        if name == "pop" and k == "list":
            if not args:
                args = [T.mk_len(t) - ONE]
            val = self.untern(read_term(t, tuple(args[:1])))
            ev("del", (args[0],))
            return val
        if name == "discard":
            g = T.mk_in(args[0], t)
            pc = st.pc
            st.pc = st.pc * g
            ev("remove", args[0])
            st.pc = pc
            return NONE
        if name in ("remove", "add", "append"):
            ev(name, args[0])
            return NONE
        if name in ("extend", "update") and len(args) == 1:
            it = None
            v = self.untern(args[0])
            kd = None
            if isinstance(v, Ref):
                c = st.heap[v.id]
                kd = c.ctype if isinstance(c, ArrCell) else "obj"
            elif isinstance(v, Poly):
                kd = self.ctype_of(v)
            isdict = k == "dict" or (k is None and kd == "dict")
            if name == "update" and isdict and isinstance(v, Ref) and kd == "dict":
                c = st.heap[v.id]
                if not c.base.m:
                    for e in c.effs:
                        _, bs, idx, val, guard = open_eff(e)
                        if len(bs) > 1:
                            break
                    else:
                        for e in c.effs:
                            _, bs, idx, val, guard = open_eff(e)
                            n0, pc = len(st.events), st.pc
                            st.pc = st.pc * guard
                            self.put_path(t, tuple(idx), val, st, node)
                            st.pc = pc
                            for q in range(n0, len(st.events)):
                                if bs:
                                    st.events[q] = self.fam_event(*st.events[q], bs[0][0], bs[0][1])
                        return NONE
            if not (name == "update" and (isdict or kd == "obj")):
                try:
                    it = self.iter_space(v, st)
                except (Unsupported, Budget):
                    it = None
                if it is not None:
                    nm = "append" if name == "extend" else "add"
                    c = const_val(it.n)
                    if c is not None and c <= 8:
                        for q in range(int(c)):
                            ev(nm, self.term(it.item(P(q)), st))
                        return NONE
                    i = fresh()
                    item = self.term(it.item(P(i)), st)
                    n0 = len(st.events)
                    ev(nm, item)
                    e = st.events[n0]
                    g = e[1]
                    st.events[n0] = self.fam_event(e[0], g, e[2], e[3], e[4], e[5], i, it.n)
                    return NONE
        if name == "setdefault" and args:
            ix = self.flat(args[0], st)
            pc = st.pc
            st.pc = st.pc * (ONE - T.mk_in(args[0], t))
            self.put_path(t, ix, args[1] if len(args) > 1 else NONE, st, node)
            st.pc = pc
            return self.untern(read_term(t, ix))
        ev(name, *args)
        return P(mk("ret_" + name, (t,) + tuple(args)))

    def flat(self, a, st):
        v = self.untern(a) if isinstance(a, Poly) else a
        if isinstance(v, Tup):
            return tuple(x if isinstance(x, Poly) else self.term(x, st) for x in v.items)
        return (a,)

    def put_path(self, t, ix, val, st, node):
        """store into a container known by its path; a fresh empty container stored where the key is absent is not
        an effect by itself, and a fresh dictionary is stored entry by entry"""
        v = self.untern(val) if isinstance(val, Poly) else val
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ArrCell):
            c = st.heap[v.id]
            key = ix[0] if len(ix) == 1 else P(mk("tup", (tuple(ix),)))
            absent = not (st.pc * T.mk_in(key, t)).m
            if c.ctype in ("dict", "set", "list") and absent and not c.effs and (not c.base.m or c.ctype == "set" or c.base.key == lit("emptyset").key) and \
                    (c.ctype != "list" or not (c.shape and c.shape[0].m)):
                st.heap[v.id] = ArrCell(read_term(t, ix), (), None, "any", None, "alias")
                return
            if c.ctype == "dict" and absent and not c.base.m:
                ok = True
                for e in c.effs:
                    _, bs, idx, vv, guard = open_eff(e)
                    if bs or guard.key != ONE.key:
                        ok = False
                if ok:
                    base = read_term(t, ix)
                    for e in c.effs:
                        _, bs, idx, vv, guard = open_eff(e)
                        self.put_path(base, tuple(idx), vv, st, node)
                    return
        self.event(st, "mutate", "put", (t, tuple(ix), self.term(val, st)), node)
        k = (t.key, _akey(tuple(ix)))
        for q in [q for q in st.fwd if q[0] == t.key and q != k]:
            del st.fwd[q]
        st.fwd[k] = (t, tuple(ix), v)


def map_refs(x, mp, memo):
    """replace ref atoms (content terms are closed)"""
    if isinstance(x, Poly):
        out = ZERO
        ch = False
        parts = []
        for mono, c in x.m.items():
            t = P(c)
            for a, e in mono:
                y = map_refs(a, mp, memo)
                if y is not a:
                    ch = True
                if isinstance(y, Atom):
                    y = P(y)
                t = t * powi(y, e) if isinstance(e, int) else t * P(mk("pow", (y, P(e))))
            parts.append(t)
        if not ch:
            return x
        for t in parts:
            out = out + t
        return out
    if isinstance(x, Atom):
        if x.head == "ref":
            return mp.get(x.key, x)
        if x.key in memo:
            return memo[x.key]
        if not any(a.head == "ref" for a in atoms_of(x).values()):
            memo[x.key] = x
            return x
        na = tuple(map_refs(a, mp, memo) for a in x.args)
        na = tuple((P(a) if isinstance(a, Atom) and isinstance(b, Poly) else a) for a, b in zip(na, x.args))
        r = T._orig_raw_mk(x.head, na, x.dtype, x.height, ())
        r.syms = x.syms
        for a in atoms_of(x).values():
            if a.head == "ref" and a.key in mp:
                r.syms = r.syms | mp[a.key].syms
        memo[x.key] = r
        return r
    if isinstance(x, tuple):
        return tuple(map_refs(y, mp, memo) for y in x)
    return x


def assume_in(x, fx, memo):
    """simplify a term under the assumption that the brackets fx hold"""
    if isinstance(x, Poly):
        ch = False
        out = ZERO
        for mono, c in x.m.items():
            t = P(c)
            for a, e in mono:
                if a in fx:
                    ch = True
                    continue
                y = assume_in(a, fx, memo)
                if y is not a:
                    ch = True
                if isinstance(y, Atom):
                    y = P(y)
                t = t * powi(y, e) if isinstance(e, int) else t * P(mk("pow", (y, P(e))))
            out = out + t
        return out if ch else x
    if isinstance(x, Atom):
        if x.key in memo:
            return memo[x.key]
        r = x
        if x.head in ("idx", "tup", "in", "len", "keys", "attr", "app") and not x.height:
            na = tuple(assume_in(a, fx, memo) for a in x.args)
            if any(p is not q for p, q in zip(na, x.args)) and _akey(na) != _akey(x.args):
                if x.head == "idx":
                    r = read_term(na[0], na[1], x.dtype)
                else:
                    r = T.rebuild(x.head, na, x.dtype, x)
        memo[x.key] = r
        return r
    if isinstance(x, tuple):
        return tuple(assume_in(y, fx, memo) for y in x)
    return x


def _as_load(t):
    import copy
    t2 = copy.deepcopy(t)
    for x in ast.walk(t2):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t2


def mangle_name(cls, attr):
    if cls and attr.startswith("__") and not attr.endswith("__"):
        return "_%s%s" % (cls.lstrip("_"), attr)
    return attr
