"""Loop summarisation: every loop body is valued once; carried values are resolved to closed forms
(prefix sums, products, gated assignments, element-effect families) or to a canonical recurrence."""
import ast
import copy
from .ir import *
from .arr import *
from . import term as T
from .term import _akey
from .gvn import *


def _stores(body):
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.NamedExpr):
                out.add(x.target.id)
    return out


def _has(body, kinds):
    """own break/continue/return (not those of nested loops for break/continue)"""
    for s in body:
        if isinstance(s, kinds):
            return True
        for f in ("body", "orelse", "finalbody"):
            sub = getattr(s, f, None)
            if not sub or not isinstance(sub, list):
                continue
            k = kinds
            if isinstance(s, (ast.For, ast.While)) and f == "body":
                k = tuple(x for x in kinds if x is ast.Return)
                if not k:
                    continue
            if isinstance(s, (ast.FunctionDef, ast.Lambda)):
                continue
            if _has(sub, k):
                return True
        for h in getattr(s, "handlers", []) or []:
            if _has(h.body, kinds):
                return True
    return False


class Comp:
    """one loop-carried component"""

    def __init__(self, what, phi, init, isarr):
        self.what, self.phi, self.init, self.isarr = what, phi, init, isarr
        self.out = None          # Poly (scalars / frozen arrays)
        self.effs = None         # array effects on top of phi
        self.closed = None       # function Poly(iter) -> Poly

    def deps(self, keys):
        if self.effs is not None:
            s = frozenset()
            for e in self.effs:
                s |= e.syms
            return s & keys
        return self.out.syms & keys

    def frozen(self):
        if self.effs is not None:
            return freeze(P(self.phi), self.effs, self.phi.dtype)
        return self.out

    def sub(self, mp):
        if self.effs is not None:
            self.effs = tuple(x for x in (subst_eff(e, mp) for e in self.effs) if x is not None)
        else:
            self.out = subst(self.out, mp)


class LoopMixin:
    UNROLL = 4

    # ------------------------------------------------------------ for
    def s_For(self, s, st):
        src = self.eval(s.iter, st)
        it = self.filtered(src, st)
        if it is not None:
            i0, nm = it, "$f%d" % self.newid()
            it = Iter(i0.n, lambda k: Tup([i0.filt(k), i0.item(k)]))
            s2 = ast.For(ast.Tuple([ast.Name(nm, ast.Store()), s.target], ast.Store()), s.iter,
                         [ast.If(ast.Name(nm, ast.Load()), s.body, [])], s.orelse)
            s = ast.fix_missing_locations(ast.copy_location(s2, s))
        else:
            segs = self.segments(src, st) if not _has(s.body, (ast.Break, ast.Return)) and not s.orelse else None
            if segs is not None:
                for it in segs:
                    if not self._for_iter(s, st, it):
                        return False
                return True
            it = self.iter_space(src, st)
        return self._for_iter(s, st, it)

    def segments(self, v, st):
        """a list made of several consecutive pieces (appends by successive loops, concatenation): one walk per piece"""
        v = self.unalias(v, st)
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if not isinstance(c, ArrCell) or c.ctype != "list" or c.base.m or len(c.effs) < 2 or not c.shape:
                return None
            out, off = [], ZERO
            for e in c.effs:
                kind, bs, idx, val, guard = open_eff(e)
                if kind != "set" or guard.key != ONE.key or len(idx) != 1 or not isinstance(idx[0], Poly) or len(bs) > 1:
                    return None
                if bs:
                    i, n = bs[0]
                    if (idx[0] - P(i)).key != off.key:
                        return None
                    out.append(Iter(n, lambda k, val=val, i=i: self.untern(subst(val, {i.key: k}))))
                    off = off + n
                else:
                    if idx[0].key != off.key:
                        return None
                    out.append(Iter(ONE, lambda k, val=val: self.untern(val)))
                    off = off + ONE
            if off.key != c.shape[0].key or all(const_val(x.n) == 1 for x in out):
                return None
            return out
        if isinstance(v, Poly):
            a = T.single_atom(v)
            if a is not None and a.head == "seqcat":
                out = []
                for x in a.args[0]:
                    y = T.single_atom(x) if isinstance(x, Poly) else None
                    if y is not None and y.head == "star":
                        out.append(self.iter_space(y.args[0], st))
                    else:
                        out.append(Iter(ONE, lambda k, x=x: self.untern(x)))
                return out if len(out) > 1 else None
        return None

    def _for_iter(self, s, st, it):
        c = const_val(it.n)
        if c is not None and c <= self.UNROLL and not _has(s.body, (ast.Break, ast.Return, ast.Continue)):
            for k in range(max(0, int(c))):
                self.assign(s.target, it.item(P(k)), st, s)
                if not self.block(s.body, st):
                    return False
            if s.orelse:
                return self.block(s.orelse, st)
            return True
        if s.orelse and _has(s.body, (ast.Break,)):
            fl = "$else%d" % self.newid()
            s2 = ast.For(s.target, s.iter, [_FlagBreak(fl).visit(copy.deepcopy(b)) for b in s.body], [])
            s2 = ast.fix_missing_locations(ast.copy_location(s2, s))
            st.env[fl] = ONE
            r = self.loop(s2, st, it, None)
            if r:
                c = ast.If(ast.Name(fl, ast.Load()), s.orelse, [])
                r = self.block([ast.fix_missing_locations(ast.copy_location(c, s))], st)
                st.env.pop(fl, None)
            return r
        r = self.loop(s, st, it, None)
        if r and s.orelse:
            return self.block(s.orelse, st)
        return r

    def counted(self, s, st):
        """`while i < hi: ...; i += 1` as a for loop"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and not s.orelse and len(s.body) >= 1):
            return None
        a, b, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b, op = b, a, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(op)]()
        if isinstance(op, ast.NotEq):
            return None
        if not isinstance(a, ast.Name) or not isinstance(op, (ast.Lt, ast.LtE)):
            return None
        last = s.body[-1]
        one = None
        if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == a.id:
            one = last.value
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == a.id and \
                isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add):
            p, q = last.value.left, last.value.right
            if isinstance(p, ast.Constant):
                p, q = q, p
            if isinstance(p, ast.Name) and p.id == a.id:
                one = q
        if not (isinstance(one, ast.Constant) and one.value == 1 and type(one.value) is int):
            return None
        body = s.body[:-1]
        if not body:
            return None
        if _has(body, (ast.Continue,)) or a.id in _stores(body):
            return None
        brk = _has(body, (ast.Break,))
        if brk and self._used_after(a.id, s):
            return None
        st_names = _stores(body)
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and (x.id in st_names or x.id == a.id):
                return None
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len"):
                return None
            if isinstance(x, ast.Attribute):
                for y in body:
                    for z in ast.walk(y):
                        if isinstance(z, ast.Attribute) and z.attr == x.attr and isinstance(z.ctx, ast.Store):
                            return None
        if any(isinstance(x, ast.Call) for x in ast.walk(b)):
            # a length may change with the list
            nm = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(b) if isinstance(x, ast.Attribute)}
            for y in body:
                for z in ast.walk(y):
                    if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr in ("append", "pop", "extend", "insert", "remove", "clear"):
                        o = z.func.value
                        if (isinstance(o, ast.Name) and o.id in nm) or (isinstance(o, ast.Attribute) and o.attr in nm):
                            return None
        if a.id not in st.env or not isinstance(st.env[a.id], Poly):
            return None
        i0 = st.env[a.id]
        hi = self.num(self.eval(b, st), st)
        if isinstance(op, ast.LtE):
            hi = hi + ONE
        lo = "$lo%d" % self.newid()
        st.env[lo], st.env[lo + "h"] = i0, hi
        it = ast.Call(ast.Name("$range", ast.Load()), [], [])
        f = ast.For(ast.Name(a.id, ast.Store()), ast.Name(lo + "r", ast.Load()), body or [ast.Pass()], [])
        st.env[lo + "r"] = RangeV(i0, hi, ONE)
        f = ast.fix_missing_locations(ast.copy_location(f, s))
        r = self.s_For(f, st)
        if r and brk:
            st.env.pop(a.id, None)
        elif r:
            c = const_val(hi - i0)
            if c is not None:
                st.env[a.id] = hi if c > 0 else i0
            else:
                g = le0(hi - i0)
                st.env[a.id] = g * i0 + (ONE - g) * hi
        for x in (lo, lo + "h", lo + "r"):
            st.env.pop(x, None)
        return r

    def _used_after(self, name, s):
        """may `name` be read after loop `s` before being assigned again (conservative)"""
        inside = {id(x) for x in ast.walk(s)}
        body = getattr(self.frame.fn, "body", None)
        if not isinstance(body, list):
            return True
        seen, after = [False], [False]

        def walk(n):
            if n is s:
                seen[0] = True
                return
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and (seen[0] or id(n) in inside):
                after[0] = True
            for c in ast.iter_child_nodes(n):
                walk(c)
        for b in body:
            walk(b)
        return after[0] or not seen[0]

    def s_While(self, s, st):
        if self.lang() != "f90" and not (isinstance(s.test, ast.Constant)):
            r = self.counted(s, st)
            if r is not None:
                return r
        if isinstance(s.test, ast.Constant) and s.test.value:
            return self.loop(s, st, None, ONE)
        return self.loop(s, st, None, s.test)

    # ------------------------------------------------------------ carried state
    def phi_value(self, v, st, name, comps, what):
        """replace a carried value by a phi; returns the new value or None (not carried as such)"""
        if isinstance(v, Poly):
            u = self.untern(v)
            if u is not v:
                return self.phi_value(u, st, name, comps, what)
            f = fresh("$phi", dtype_of(v))
            comps.append(Comp(what, f, v, False))
            return P(f)
        if isinstance(v, Tup):
            out = []
            for k, x in enumerate(v.items):
                y = self.phi_value(x, st, name, comps, what + (k,))
                if y is None:
                    return None
                out.append(y)
            return Tup(out)
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, ArrCell):
                f = mk("asym", ("$phi%d" % next(T._fresh),), c.kind)
                comps.append(Comp(what + ("content",), f, c.term(), True))
                return self.alloc(st, ArrCell(P(f), (), c.shape, c.kind, c.rank, c.ctype))
        return None

    def loop(self, s, st, it, cond):
        """generic loop: `it` iteration space (for) or cond (while)"""
        pc0, gate0, base0 = st.pc, st.gf, self.basepc
        names = set()          # scalar / rebound names to phi-ize
        cells = {}             # cell id -> set of parts ("content", "len", field names)
        pre = st.fork()
        body_names = _stores(s.body)
        for nm in body_names:
            v = pre.env.get(nm)
            if isinstance(v, MethV):
                v = pre.env[nm] = self.term(v, pre)
            if v is not None and isinstance(v, (Poly, Tup)):
                names.add(nm)
        for nm in _sub_stores(s.body):
            v = pre.env.get(nm)
            if isinstance(v, Ref) and isinstance(pre.heap.get(v.id), ArrCell) and pre.heap[v.id].ctype == "arr" and self.lang() != "py":
                cells[v.id] = {"content"}
        stoppable = _has(s.body, (ast.Break, ast.Return)) or cond is not None
        nid0 = self.nid
        for attempt in range(12):
            comps = []
            b = pre.fork()
            b.fwd = {}
            nev = len(b.events)
            b.pc, self.basepc = ONE, base0 * pc0
            iv = fresh("$i")
            if it is not None:
                T.RANGES[iv.key] = (iv, it.n)
            alive_sym = fresh("$al", "any")
            alive = P(mk("truth", (P(alive_sym),), "int")) if stoppable else ONE
            for nm in sorted(names):
                nv = self.phi_value(pre.env[nm], b, nm, comps, ("env", nm))
                if nv is None:
                    raise Unsupported("carried %s" % nm)
                b.env[nm] = nv
            for cid in sorted(cells, key=str):
                c = pre.heap[cid]
                if isinstance(c, ArrCell):
                    f = mk("asym", ("$phi%d" % next(T._fresh),), c.kind)
                    comps.append(Comp(("cell", cid, "content"), f, c.term(), True))
                    shape = c.shape
                    if "len" in cells[cid]:
                        g = fresh("$phi", "int")
                        comps.append(Comp(("cell", cid, "len"), g, c.shape[0], False))
                        shape = (P(g),) + tuple(c.shape[1:])
                    b.heap[cid] = ArrCell(P(f), (), shape, c.kind, c.rank, c.ctype)
                else:
                    c2 = c.copy()
                    for fld in sorted(cells[cid]):
                        old = c.fields.get(fld)
                        if old is None:
                            old = self.field_default(c, fld)
                        nv = self.phi_value(old, b, fld, comps, ("field", cid, fld))
                        if nv is None:
                            raise Unsupported("carried field %s" % fld)
                        c2.fields[fld] = nv
                    b.heap[cid] = c2
            entry = {k: v for k, v in b.env.items()}
            hentry = dict(b.heap)
            nret = len(self.frame.rets)
            self.frame.brk.append([])
            b.gf = gate0 + (alive,) if stoppable else gate0
            cond_t = None
            if cond is not None and isinstance(cond, ast.AST):
                cond_t = truth(self.cond_term(self.eval(cond, b), b))
            if it is not None:
                self.assign(s.target, it.item(P(iv)), b, s)
            try:
                falls = self.block(s.body, b)
            except BaseException:
                self.frame.brk.pop()
                self.basepc = base0
                raise
            exits = self.frame.brk.pop()
            rets = self.frame.rets[nret:]
            del self.frame.rets[nret:]
            self.basepc = base0
            # --- anything changed that was not phi-ized?
            again = False
            for k, v in [kv for e_ in [b.env] + [x[2] for x in exits] for kv in e_.items()]:
                if k in names or k not in pre.env or k not in entry:
                    continue
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and s.target.id == k:
                    continue
                if not self._same_val(v, entry[k]):
                    names.add(k)
                    again = True
            for cid in list(pre.heap):
                c0, c1 = hentry.get(cid), b.heap.get(cid)
                if c0 is c1 or c1 is None:
                    continue
                if isinstance(c1, ArrCell):
                    need = cells.setdefault(cid, set()) if self._cell_changed(c0, c1) or cid in cells else None
                    if need is None:
                        continue
                    if "content" not in need:
                        need.add("content")
                        again = True
                    if c0.shape and c1.shape and c1.shape[0] is not None and c0.shape[0] is not None and \
                            c0.shape[0].key != c1.shape[0].key and "len" not in need:
                        need.add("len")
                        again = True
                else:
                    for fld in c1.fields:
                        if cid in cells and fld in cells[cid]:
                            continue
                        old = c0.fields.get(fld)
                        if old is None:
                            old = self.field_default(c0, fld)
                            if self._same_val(c1.fields[fld], old) or isinstance(c1.fields[fld], Ref):
                                # lazily materialised default
                                pre.heap[cid] = pre.heap[cid].copy()
                                pre.heap[cid].fields[fld] = c1.fields[fld] if isinstance(c1.fields[fld], Ref) and c1.fields[fld].id in pre.heap else old
                                if isinstance(c1.fields[fld], Ref) and c1.fields[fld].id not in pre.heap:
                                    # cell created in the body for a field that existed before
                                    pre.heap[c1.fields[fld].id] = self._default_cell(c0, fld, b.heap[c1.fields[fld].id])
                                    pre.heap[cid].fields[fld] = c1.fields[fld]
                                again = True
                                continue
                        if not self._same_val(c1.fields[fld], old):
                            cells.setdefault(cid, set()).add(fld)
                            again = True
            if not again:
                break
        else:
            raise Unsupported("loop state does not stabilise")
        # --- join continue snapshots
        stop = ZERO
        snaps = []
        for kind, g, env in exits:
            if kind == "break":
                stop = stop + g
            snaps.append((g, env))
        rstop = ZERO
        for g, v in rets:
            rstop = rstop + g
        env_end = b.env if falls else None
        out_env = self._join_snaps(snaps, env_end, b)
        # --- outs
        keyset = frozenset(c.phi.key for c in comps)
        for c in comps:
            self._set_out(c, out_env, b, hentry)
            self._snap_refs(c, pre, b)
            if stoppable and not c.isarr and c.out is not None:
                c.out = alive * c.out + (ONE - alive) * P(c.phi)
            elif stoppable and c.isarr and c.effs is None and c.what[0] == "env":
                c.out = alive * c.out + (ONE - alive) * P(c.phi)
        n = it.n if it is not None else None
        if cond is not None:
            return self._finish_while(s, st, pre, b, comps, iv, alive_sym, stop, rstop, rets, cond_t, pc0, gate0, nev, out_env)
        return self._finish_for(s, st, pre, b, comps, iv, n, alive_sym, stop, rstop, rets, pc0, gate0, nev, out_env, it)

    def _default_cell(self, c, fld, made):
        return ArrCell(P(mk("attr", (c.ident, fld), "any")), (), made.shape, made.kind, made.rank, made.ctype)

    def _same_val(self, a, b):
        if a is b:
            return True
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a.key == b.key
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self._same_val(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, View) and isinstance(b, View):
            return a.ref == b.ref and len(a.spec) == len(b.spec) and all(
                x[0] == y[0] and x[1].key == y[1].key for x, y in zip(a.spec, b.spec))
        return type(a) is type(b) and not isinstance(a, (Poly, Ref, Tup, View, AV))

    def _cell_changed(self, a, b):
        if a.base.key != b.base.key or len(a.effs) != len(b.effs):
            return True
        if any(x is not y for x, y in zip(a.effs, b.effs)):
            return True
        if a.shape and b.shape:
            for x, y in zip(a.shape, b.shape):
                if (x is None) != (y is None) or (x is not None and x.key != y.key):
                    return True
        return False

    def _join_snaps(self, snaps, env_end, b):
        if not snaps:
            return env_end if env_end is not None else dict(b.env)
        envs = list(snaps)
        if env_end is None:
            g, last = envs.pop()
            out = dict(last)
        else:
            out = dict(env_end)
        for g, env in reversed(envs):
            new = {}
            for k in set(out) | set(env):
                if k in out and k in env:
                    x, y = env[k], out[k]
                    new[k] = y if self._same_val(x, y) else self.merge_vals(g, x, y, b)
                else:
                    new[k] = out.get(k, env.get(k))
            out = new
        return out

    def _set_out(self, c, env, b, hentry):
        w = c.what
        if w[0] == "env":
            v = env[w[1]]
            self._walk_out(c, v, w[2:], b)
        elif w[0] == "field":
            cell = b.heap[w[1]]
            self._walk_out(c, cell.fields[w[2]], w[3:], b)
        else:
            cell = b.heap[w[1]]
            if w[2] == "len":
                c.out = cell.shape[0]
            else:
                self._arr_out(c, cell)

    def _snap_refs(self, c, pre, b):
        """containers made anew in each iteration and stored in a carried one: their content at the end of the iteration"""
        def go(p):
            mp = {}
            for a in atoms_of(p).values():
                if a.head == "ref" and a.args[0] not in pre.heap and isinstance(b.heap.get(a.args[0]), ArrCell):
                    mp[a.key] = self.term(Ref(a.args[0]), b)
            return map_refs(p, mp, {}) if mp else p
        if c.effs is not None:
            out = []
            for e in c.effs:
                if any(a.head == "ref" for a in atoms_of(e).values()):
                    kind, bs, idx, val, guard = open_eff(e)
                    v2 = go(val)
                    if v2 is not val:
                        e = mk_eff(kind, bs, idx, v2, guard)
                out.append(e)
            c.effs = tuple(out)
        elif c.out is not None:
            c.out = go(c.out)

    def _walk_out(self, c, v, path, b):
        for p in path:
            if p == "content":
                if isinstance(v, Poly):
                    v = self.untern(v)
                if isinstance(v, Ref) and isinstance(b.heap.get(v.id), ArrCell):
                    self._arr_out(c, b.heap[v.id])
                else:
                    c.out = self.term(v, b)
                return
            if isinstance(v, Poly):
                v = self.untern(v)
            if isinstance(v, Tup):
                v = v.items[p]
            else:
                v = self.subscript(v, [P(p)], b)
        c.out = self.term(v, b)

    def _arr_out(self, c, cell):
        if cell.base.key == P(c.phi).key:
            c.effs = tuple(cell.effs)
        else:
            c.out = cell.term()

    # ------------------------------------------------------------ resolution
    def resolve(self, comps, iv, n, alive_sym, stop_total):
        """closed forms at the start of iteration `iv`; returns {phi key: function(iter Poly) -> Poly}"""
        self._loop_n = n
        todo = [c for c in comps]
        done = {}
        stop = stop_total
        alive_done = alive_sym is None
        guardn = 0

        def apply(mp):
            nonlocal stop
            for c in todo:
                c.sub(mp)
            if stop is not None:
                stop = subst(stop, mp)

        keys = frozenset(c.phi.key for c in comps)
        alive_fn = None
        while todo or not alive_done:
            guardn += 1
            if guardn > 60:
                raise Budget("loop resolution")
            # liveness resolvable?
            if not alive_done and not (stop.syms & frozenset(c.phi.key for c in todo)):
                # stop may mention alive itself only through gates: alive * stop
                sfree = assume_alive(stop, alive_sym)
                j = fresh()
                body = ONE - subst(sfree, {iv.key: P(j)})

                def alive_fn(i, body=body, j=j):
                    return T.mk_all(j, ZERO, i, body)
                alive_done = True
                stop = sfree
                a = alive_fn(P(iv))
                for c in todo:
                    c.sub({alive_sym.key: a})
                continue
            prog = False
            cur = frozenset(c.phi.key for c in todo)
            for c in list(todo):
                if not alive_done and alive_sym.key in (c.frozen().syms):
                    continue
                f = self.closed_form(c, iv, cur)
                if f is not None:
                    todo.remove(c)
                    done[c.phi.key] = f
                    apply({c.phi.key: f(P(iv))})
                    prog = True
                    break
            if prog:
                continue
            # recurrence over the smallest strongly connected set
            scc = self.pick_scc(todo, alive_sym if not alive_done else None)
            sc = [c for c in todo if c.phi.key in scc]
            mcs = [(c.phi, c.init, c.frozen(), c.isarr) for c in sc]
            extra = None
            if not alive_done and any(alive_sym.key in c.frozen().syms for c in sc):
                # liveness is part of the recurrence
                ph = fresh("$phi", "any")
                nzp = P(mk("truth", (P(ph),), "int"))
                sfree = assume_alive(stop, alive_sym)
                mcs = [(p, i, subst(o, {alive_sym.key: P(ph)}), a) for p, i, o, a in mcs]
                mcs.append((ph, ONE, nzp * (ONE - sfree), False))
                unk = sfree.syms & frozenset(c.phi.key for c in todo) - frozenset(c.phi.key for c in sc)
                if unk:
                    raise Unsupported("loop recurrence")
                extra = ph
            mu, perm = mk_mu(iv, n, mcs)
            for k, c in enumerate(sc):
                head = "mustate_a" if c.isarr else "mustate"

                def f(i, mu=mu, k=perm[k], head=head, dt=c.phi.dtype):
                    return P(mk(head, (mu, k, i), dt))
                todo.remove(c)
                done[c.phi.key] = f
            mp = {c.phi.key: done[c.phi.key](P(iv)) for c in sc}
            if extra is not None:
                def alive_fn(i, mu=mu, k=perm[len(sc)]):
                    return P(mk("truth", (P(mk("mustate", (mu, k, i), "any")),), "int"))
                alive_done = True
                mp[alive_sym.key] = alive_fn(P(iv))
                stop = assume_alive(stop, alive_sym)
            apply(mp)
        return done, alive_fn, stop

    def pick_scc(self, todo, alive_sym):
        keys = {c.phi.key: c for c in todo}
        ks = frozenset(keys)
        dep = {k: set(c.frozen().syms & ks) for k, c in keys.items()}
        if alive_sym is not None:
            # through liveness everything depends on what stop reads: take all
            al = {k for k, c in keys.items() if alive_sym.key in c.frozen().syms}
            if al:
                for k in al:
                    dep[k] |= al
        reach = {}
        for k in keys:
            seen, stack = set(), [k]
            while stack:
                x = stack.pop()
                for y in dep[x]:
                    if y not in seen:
                        seen.add(y)
                        stack.append(y)
            reach[k] = seen
        best = None
        for k in keys:
            scc = {k} | {y for y in reach[k] if k in reach[y]}
            out = set()
            for y in scc:
                out |= dep[y] - scc
            if not out and (best is None or len(scc) < len(best)):
                best = scc
        return best

    def closed_form(self, c, iv, cur):
        deps = c.deps(cur)
        pk = c.phi.key
        if c.effs is not None:
            if pk in deps and not deps - {pk}:
                self._drop_self_reads(c, iv)
                deps = c.deps(cur)
                if deps == {pk}:
                    self._scan(c, iv)
                    deps = c.deps(cur)
            if deps:
                return None
            if not self._bindable(c.effs, iv):
                return None
            effs, init, kind = c.effs, c.init, c.phi.dtype

            def f(i, effs=effs, init=init, kind=kind):
                j = fresh()
                es = tuple(bind_eff(subst_eff(e, {iv.key: P(j)}), j, i) for e in effs)
                return freeze_on(init, es, kind)
            return f
        o = c.out
        if deps - {pk}:
            return None
        if pk not in deps:
            if iv.key not in o.syms and o.key == c.init.key:
                return lambda i: o

            def f(i):
                cz = const_val(i)
                if cz == 0:
                    return c.init
                last = subst(o, {iv.key: i - ONE})
                e = eq0(i)
                if c.init.head_is("undef") if hasattr(c.init, "head_is") else False:
                    return last
                return e * c.init + (ONE - e) * last
            return f
        if c.isarr:
            return None
        # linear in phi ?
        A, B, ok = ZERO, ZERO, True
        for mono, cf in o.m.items():
            ph = [(a, e) for a, e in mono if pk in a.syms]
            if not ph:
                B = B + Poly({mono: cf})
            elif len(ph) == 1 and ph[0][0] is c.phi and ph[0][1] == 1:
                A = A + Poly({tuple(x for x in mono if x[0] is not c.phi): cf})
            else:
                ok = False
                break
        if not ok:
            return None
        ca = const_val(A)
        if ca == 1:
            def f(i):
                j = fresh()
                return c.init + mk_sum(j, ZERO, i, subst(B, {iv.key: P(j)}))
            return f
        if not B.m:
            def f(i):
                j = fresh()
                return c.init * mk_prod(j, ZERO, i, subst(A, {iv.key: P(j)}))
            if not is_bool(A):
                return f
        if is_bool(A):
            def f(i):
                j, k = fresh(), fresh()
                Aj = subst(A, {iv.key: P(k)})
                r = c.init * T.mk_all(k, ZERO, i, Aj)
                if B.m:
                    inner = subst(B, {iv.key: P(j)}) * T.mk_all(k, P(j) + ONE, i, Aj)
                    r = r + mk_sum(j, ZERO, i, inner)
                return r
            return f
        return None

    def _bindable(self, effs, iv):
        """iteration families of the effects may be applied one after another"""
        if len(effs) > 14:
            return False
        v1, v2 = fresh(), fresh()
        for a in range(len(effs)):
            for b in range(a + 1, len(effs)):
                e, f = effs[a], effs[b]
                if e.args[0] == "add" and f.args[0] == "add":
                    continue
                e1, f2 = subst_eff(e, {iv.key: P(v1)}), subst_eff(f, {iv.key: P(v2)})
                if e1 is None or f2 is None:
                    continue
                if same_iter_only(e1, v1, f2, v2, getattr(self, "_loop_n", None)) or commute(e1, f2):
                    continue
                return False
        return True

    def _scan(self, c, iv):
        """a[i + k] = a[i + k - 1] + f(i): a running sum"""
        pk = c.phi.key
        if len(c.effs) != 1:
            return
        kind, bl, idx, val, guard = c.effs[0].args
        if kind != "set" or bl or len(idx) != 1 or const_val(guard) != 1 or not isinstance(idx[0], Poly):
            return
        x = idx[0]
        if pk in x.syms or iv.key in (x - P(iv)).syms:
            return
        prev = read_term(P(c.phi), (x - ONE,), c.phi.dtype)
        rest = val - prev
        if pk in rest.syms:
            return
        j = fresh()
        start = subst(x, {iv.key: ZERO}) - ONE
        first = read_term(c.init, (start,), c.phi.dtype)
        c.effs = (mk_eff("set", [], idx, first + mk_sum(j, ZERO, P(iv) + ONE, subst(rest, {iv.key: P(j)})), guard),)

    def _drop_self_reads(self, c, iv):
        """reads of the array's own entry value that no other iteration can have written"""
        pk = c.phi.key
        reads = {}
        for e in c.effs:
            for a in atoms_of_eff(e):
                if a.head == "idx" and pk in a.syms:
                    reads[a.key] = a
        if not reads:
            return
        v1, v2 = fresh(), fresh()
        for a in reads.values():
            if a.args[0].key != P(c.phi).key:
                return
            if any(not isinstance(x, Poly) or pk in x.syms for x in a.args[1]):
                return
        # every read index must be expressible outside effect binders: compare dimension-wise
        for e in c.effs:
            _, bs, idx, _, _ = open_eff(e)
            bk = {v.key for v, _ in bs}
            for a in reads.values():
                ridx = a.args[1]
                if len(ridx) != len(idx):
                    return
                ok = False
                for x, y in zip(idx, ridx):
                    if not isinstance(x, Poly):
                        continue
                    if x.syms & bk or any(s.startswith("sym(%") or "%" in s for s in y.syms):
                        if not (x.syms & bk) and not any("%" in s for s in y.syms):
                            pass
                        else:
                            continue
                    d = subst(x, {iv.key: P(v1)}) - subst(y, {iv.key: P(v2)})
                    if provably_nonzero(d):
                        ok = True
                        break
                    sl = solve_linear(d, v1)
                    if sl is not None and sl.key == P(v2).key:
                        ok = True
                        break
                if not ok:
                    return
        mp = {pk: c.init}
        c.effs = tuple(x for x in (subst_eff(e, mp) for e in c.effs) if x is not None)

    # ------------------------------------------------------------ finishing
    def _finish_for(self, s, st, pre, b, comps, iv, n, alive_sym, stop, rstop, rets, pc0, gate0, nev, out_env, it):
        total = stop + rstop
        has_stop = bool(total.m)
        asym_ = alive_sym if has_stop else None
        if not has_stop:
            for c in comps:
                c.sub({alive_sym.key: ONE})
        done, alive_fn, stop_c = self.resolve(comps, iv, n, asym_, total)
        # final state
        st.env, st.heap, st.fwd = dict(pre.env), dict(pre.heap), {}
        for k, v in b.heap.items():
            if k not in st.heap:
                st.heap[k] = v
        subs = {k: f(P(iv)) for k, f in done.items()}
        if alive_fn is not None:
            subs[alive_sym.key] = alive_fn(P(iv))
        else:
            subs[alive_sym.key] = ONE
        last = {iv.key: n - ONE}

        def final(p):
            return subst(subst(p, subs), last)

        self._write_back(comps, done, n, st, b)
        carried = {c.what[1] for c in comps if c.what[0] == "env"}
        for k, v in out_env.items():
            if k in carried or k in pre.env:
                continue
            # defined inside: value of the last iteration
            try:
                st.env[k] = self._map_val(v, final, b, st)
            except (Unsupported, Budget):
                pass
        if isinstance(s.target, ast.Name) and not has_stop and s.target.id in pre.env and s.target.id not in carried:
            st.env[s.target.id] = self._map_val(out_env.get(s.target.id), final, b, st)
        # new cells created in the body
        for k, v in list(b.heap.items()):
            if k not in pre.heap:
                if isinstance(v, ArrCell):
                    st.heap[k] = v.copy(base=final(v.base), effs=tuple(x for x in (subst_eff(subst_eff(e, subs), last) if subst_eff(e, subs) is not None else None for e in v.effs) if x is not None),
                                        shape=tuple(final(x) if x is not None else None for x in v.shape) if v.shape else None)
                else:
                    c2 = v.copy()
                    for fk, fv in v.fields.items():
                        try:
                            c2.fields[fk] = self._map_val(fv, final, b, st)
                        except (Unsupported, Budget):
                            pass
                    st.heap[k] = c2
        # events
        st.events = list(pre.events)
        for kind, g, name, args, line, stack in b.events[nev:]:
            g2 = subst(g, subs)
            j = fresh()
            gj = subst(g2, {iv.key: P(j)})
            if alive_fn is not None and kind == "raise":
                gj = gj * alive_fn(P(j))
            ex = ONE - T.mk_all(j, ZERO, n, ONE - gj) if iv.key in g2.syms or alive_fn is not None else g2
            def w(a):
                if isinstance(a, tuple):
                    return tuple(w(x) for x in a)
                if isinstance(a, Poly):
                    q = subst(a, subs)
                    if iv.key in q.syms:
                        q = P(mk("fam", (n, mk_lam([iv], simp_range(q, iv, n)))))
                    return q
                return a
            args2 = [w(a) for a in args]
            if ex is g2 and (kind == "raise" or not hasfam(args2)):
                # happens only if there is an iteration
                ex = g2 * (ONE - T.le0(n))
            if kind != "raise" and iv.key in g2.syms:
                args2.append(P(mk("famg", (n, mk_lam([iv], g2)))))
            st.events.append((kind, ex, name, tuple(args2), line, stack))
        # returns
        if rstop.m:
            returned = ZERO
            j = fresh()
            seq = []
            for g, v in rets:
                g2 = subst(subst(g, subs), {iv.key: P(j)}) * alive_fn(P(j))
                seq.append((g2, v))
            anyret = mk_sum(j, ZERO, n, sum((g for g, _ in seq), ZERO))
            if not stop.m:
                anyret = ONE - alive_fn(n)
            vals = [self.term(v, b) if not isinstance(v, Poly) else v for _, v in rets]
            vals = [subst(v, subs) for v in vals]
            if all(iv.key not in v.syms for v in vals) and len({v.key for v in vals}) == 1:
                rv = vals[0]
            else:
                rv = ZERO
                for (g, _), v in zip(seq, vals):
                    rv = rv + mk_sum(j, ZERO, n, g * subst(v, {iv.key: P(j)}))
            self.frame.rets.append((pc0 * anyret, self.untern(rv)))
            st.pc = pc0 * (ONE - anyret)
            st.gf = gate0 + (ONE - anyret,)
        else:
            st.pc, st.gf = pc0, gate0
        return True

    def _map_val(self, v, f, b, st):
        if isinstance(v, Poly):
            return f(v)
        if isinstance(v, Tup):
            return Tup([self._map_val(x, f, b, st) for x in v.items])
        if isinstance(v, Ref):
            return v
        if isinstance(v, View):
            return View(v.ref, [(x[0], f(x[1])) + tuple((f(y) if y is not None else None) for y in x[2:]) for x in v.spec])
        if isinstance(v, AV):
            return AV(v.rank, [f(x) if x is not None else None for x in v.shape], lambda ix, g=v.f: f(g(ix)), v.kind)
        return v

    def _write_back(self, comps, done, n, st, b):
        groups = {}
        for c in comps:
            val = done[c.phi.key](n)
            w = c.what
            if w[0] == "env":
                groups.setdefault(("env", w[1]), []).append((w[2:], c, val))
            elif w[0] == "field":
                groups.setdefault(("field", w[1], w[2]), []).append((w[3:], c, val))
            else:
                cell = st.heap[w[1]]
                if w[2] == "len":
                    st.heap[w[1]] = cell.copy(shape=(val,) + tuple(cell.shape[1:]))
                else:
                    st.heap[w[1]] = thaw(cell, val)
        for key, parts in groups.items():
            old = st.env[key[1]] if key[0] == "env" else st.heap[key[1]].fields.get(key[2])
            nv = self._rebuild(old, parts, st)
            if key[0] == "env":
                st.env[key[1]] = nv
            else:
                c2 = st.heap[key[1]].copy()
                c2.fields[key[2]] = nv
                st.heap[key[1]] = c2

    def _rebuild(self, old, parts, st):
        if len(parts) == 1 and parts[0][0] == ():
            return self.untern(parts[0][2])
        if len(parts) == 1 and parts[0][0] == ("content",):
            val = parts[0][2]
            c = st.heap.get(old.id) if isinstance(old, Ref) else None
            if c is None:
                return val
            return self.alloc(st, thaw(c.copy(), val))
        if isinstance(old, Poly):
            old = self.untern(old)
        items = []
        for k in range(len(old.items)):
            items.append(self._rebuild(old.items[k], [(p[1:], c, v) for p, c, v in parts if p[0] == k], st))
        return Tup(items)

    # ------------------------------------------------------------ while
    def _finish_while(self, s, st, pre, b, comps, iv, alive_sym, stop, rstop, rets, cond_t, pc0, gate0, nev, out_env):
        if cond_t is None:
            cond_t = ONE
        if rstop.m:
            raise Unsupported("return in while")
        nzal = alive_sym.key
        for c in comps:
            c.sub({nzal: ONE})
        stop = subst(stop, {nzal: ONE})
        # break first in the body: fold into the loop condition when nothing precedes it
        outs = [(c, c.frozen()) for c in comps]
        # pattern: counting loop
        if not stop.m:
            for c, o in outs:
                if c.isarr or c.phi.key not in o.syms:
                    continue
                if (o - P(c.phi)).key == ONE.key:
                    others = frozenset(x.phi.key for x, _ in outs if x is not c)
                    bound = self._upper(cond_t, c.phi)
                    if bound is not None and not (bound.syms & (others | {c.phi.key})):
                        n = bound - c.init
                        done, _, _ = self.resolve(comps, iv, n, None, None)
                        st.env, st.heap, st.fwd = dict(pre.env), dict(pre.heap), {}
                        for k, v in b.heap.items():
                            if k not in st.heap:
                                st.heap[k] = v
                        self._write_back(comps, done, n, st, b)
                        st.pc, st.gf = pc0, gate0
                        return True
        # pattern: periodic reduction of one scalar
        live = [(c, o) for c, o in outs if not (o - P(c.phi)).key == ZERO.key]
        cond_all = cond_t * (ONE - stop) if stop.m else cond_t
        if len(live) == 1 and not live[0][0].isarr:
            c, o = live[0]
            if stop.m:
                # while True: if x<..: x+=n elif ..: else break
                r = self._wrap_pattern(c, o, stop)
            else:
                r = self._shift_pattern(c, o, cond_t)
            if r is not None:
                st.env, st.heap, st.fwd = dict(pre.env), dict(pre.heap), {}
                dn = {x.phi.key: (lambda i, x=x: x.init) for x, _ in outs}
                dn[c.phi.key] = lambda i: r
                self._write_back(comps, dn, ZERO, st, b)
                st.pc, st.gf = pc0, gate0
                return True
        mcs = []
        for c, o in outs:
            mcs.append((c.phi, c.init, o, c.isarr))
        if stop.m:
            # state after the break keeps its snapshot: model as a stop flag component
            ph = fresh("$phi", "any")
            nzp = P(mk("truth", (P(ph),), "int"))
            mcs.append((ph, ONE, ONE - stop, False))
            mu, perm = mk_mu(iv, P(sym("@inf", "int")), mcs, cond_t * nzp)
        else:
            mu, perm = mk_mu(iv, P(sym("@inf", "int")), mcs, cond_t)
        done = {}
        for k, (c, o) in enumerate(outs):
            head = "mustate_a" if c.isarr else "mustate"
            done[c.phi.key] = lambda i, k=perm[k], head=head, dt=c.phi.dtype: P(mk(head, (mu, k, P(sym("@inf", "int"))), dt))
        st.env, st.heap, st.fwd = dict(pre.env), dict(pre.heap), {}
        for k, v in b.heap.items():
            if k not in st.heap:
                st.heap[k] = v
        self._write_back(comps, done, ZERO, st, b)
        st.pc, st.gf = pc0, gate0
        return True

    def _upper(self, cond, phi):
        """cond == [phi < bound] -> bound"""
        if len(cond.m) == 1:
            (mono, c), = cond.m.items()
            if c == 1 and len(mono) == 1 and mono[0][0].head == "le0":
                q = mono[0][0].args[0]       # q <= 0, q = phi - bound + 1
                r = q - P(phi)
                if phi.key not in r.syms:
                    return ONE - r
        return None

    def _shift_pattern(self, c, o, cond):
        """while x < a: x += n   /  while x >= a: x -= n   -> x shifted into the window by a multiple of n"""
        x = P(c.phi)
        d = o - x
        if c.phi.key in d.syms:
            return None
        init = c.init
        integer = c.phi.dtype == "int"
        lt = subst(cond, {c.phi.key: init})
        for sgn in (1, -1):
            # x < a
            for a_guess in (ZERO, d, -d, ONE):
                if sgn == 1:
                    test = lt0(x - a_guess)
                else:
                    test = ONE - lt0(x - a_guess)
                if test.key == cond.key:
                    w = P(mk("shift", (init, d, a_guess, P(sgn)), c.phi.dtype))
                    if sgn == 1:
                        # result in [a, a+d) when x < a
                        if a_guess.key == ZERO.key:
                            return (ONE - lt) * init + lt * mod_(init, d) if integer else \
                                (ONE - lt) * init + lt * P(mk("fmod", (init, d), "real"))
                    else:
                        m = -d
                        if a_guess.key == m.key:
                            return (ONE - lt) * init + lt * mod_(init, m) if integer else \
                                (ONE - lt) * init + lt * P(mk("fmod", (init, m), "real"))
                    return (ONE - lt) * init + lt * w
        return None

    def _wrap_pattern(self, c, o, stop):
        x = P(c.phi)
        # o = x + n*[x<0] - n*[x>=n]
        for n in self._shift_candidates(o, c.phi):
            lo, hi = lt0(x), ONE - lt0(x - n)
            want = x + n * lo - n * hi * (ONE - lo)
            if (o - want).key == ZERO.key or not (o - want).m:
                if (stop - (ONE - lo) * (ONE - hi)).key == ZERO.key:
                    return mod_(c.init, n)
        return None

    def _shift_candidates(self, o, phi):
        out = []
        for mono in o.m:
            rest = [(a, e) for a, e in mono if phi.key not in a.syms]
            if rest:
                p = Poly({tuple(rest): 1})
                if all(p.key != q.key for q in out):
                    out.append(p)
        return out + [ONE]


class _FlagBreak(ast.NodeTransformer):
    """break -> flag = 0; break (of this loop only)"""

    def __init__(self, name):
        self.name = name

    def visit_Break(self, n):
        a = ast.Assign([ast.Name(self.name, ast.Store())], ast.Constant(0))
        return [ast.copy_location(a, n), n]

    def keep(self, n):
        return n

    visit_For = visit_While = visit_FunctionDef = visit_Lambda = keep


def hasfam(x):
    if isinstance(x, (tuple, list)):
        return any(hasfam(y) for y in x)
    return isinstance(x, Poly) and any(a.head == "fam" for a in atoms_of(x).values())


def thaw(cell, val):
    """array Poly -> cell content (base, effects)"""
    if len(val.m) == 1:
        (mono, c), = val.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].head == "arr":
            base, effs = mono[0][0].args
            return cell.copy(base=base, effs=effs)
    return cell.copy(base=val, effs=())


def _sub_stores(body):
    out = set()
    for b in body:
        for x in ast.walk(b):
            tg = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []
            for t in tg:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    out.add(t.value.id)
    return out


def freeze_on(init, es, kind):
    es = tuple(e for e in es if e is not None)
    if len(init.m) == 1:
        (mono, c), = init.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].head == "arr":
            base, effs = mono[0][0].args
            return freeze(base, tuple(effs) + es, kind)
    return freeze(init, es, kind)


def atoms_of_eff(e):
    acc = {}
    kind, bl, idx, val, guard = e.args
    for x in list(idx) + [val, guard] + [n for _, n in bl]:
        atoms_of(x, acc) if isinstance(x, Poly) else None
    return list(acc.values())


def assume_alive(p, alive_sym):
    """value while the loop is still running"""
    return subst(p, {alive_sym.key: ONE})
