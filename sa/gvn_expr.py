"""Expressions and calls of the value numbering engine."""
import ast
from fractions import Fraction
from .ir import *
from .arr import *
from .term import _akey
from .gvn import *
from . import term as T

PURE_UN = {"cos": cos_, "sin": sin_, "exp": exp_, "sqrt": sqrt_, "conj": conj, "conjugate": conj, "real": re_, "imag": im_,
           "abs": abs_, "absolute": abs_, "fabs": abs_,
           "dcos": cos_, "dsin": sin_, "dexp": exp_, "cexp": exp_, "dsqrt": sqrt_, "conjg": conj, "dconjg": conj, "dimag": im_, "aimag": im_,
           "cdexp": exp_, "zexp": exp_, "dabs": abs_, "cabs": abs_, "zabs": abs_, "square": lambda x: mul(x, x), "negative": lambda x: -x}
EXT_UN = {"log": "log", "dlog": "log", "tan": "tan", "tanh": "tanh", "arccos": "acos", "acos": "acos", "arcsin": "asin", "asin": "asin",
          "arctan": "atan", "cosh": "cosh", "sinh": "sinh", "log2": "log2", "log10": "log10", "sign": "sign", "angle": "angle",
          "floor": "floor", "ceil": "ceil", "nint": "nint"}


def str_const(v):
    """the Python string a value is known to be, or None"""
    if not isinstance(v, Poly):
        return None
    a = T.single_atom(v)
    if a is not None and a.head == "lit" and isinstance(a.args[0], str) and a.args[0].startswith("s:"):
        return a.args[0][2:]
    return None


def is_str(v):
    a = T.single_atom(v)
    return a is not None and (a.head == "fstr" or str_const(v) is not None)


def str_join(parts):
    """concatenation of strings (or of the text of values): flattened, constants merged"""
    out = []
    for p in parts:
        a = T.single_atom(p)
        for q in (a.args[0] if a is not None and a.head == "fstr" else (p,)):
            c = str_const(q)
            if c == "":
                continue
            if c is not None and out and str_const(out[-1]) is not None:
                out[-1] = lit("s:" + str_const(out[-1]) + c)
            else:
                out.append(q)
    if not out:
        return lit("s:")
    if len(out) == 1 and str_const(out[0]) is not None:
        return out[0]
    return P(mk("fstr", (tuple(out),)))


def str_percent(f, items):
    import re
    toks = re.split(r"(%%|%[-+ 0#]*\d*(?:\.\d+)?[a-zA-Z])", f)
    items, parts = list(items), []
    for t in toks:
        if t == "%%":
            parts.append(lit("s:%"))
        elif t.startswith("%") and len(t) > 1:
            if not items:
                return None
            x = items.pop(0)
            parts.append(x if t in ("%s", "%d") else P(mk("fmtspec", (x, t[1:]))))
        elif t:
            parts.append(lit("s:" + t))
    return str_join(parts) if not items else None


def str_format(f, items):
    import re
    toks = re.split(r"(\{\{|\}\}|\{[^{}]*\})", f)
    k, parts = 0, []
    for t in toks:
        if t in ("{{", "}}"):
            parts.append(lit("s:" + t[0]))
        elif t.startswith("{") and t.endswith("}"):
            nm, _, sp = t[1:-1].partition(":")
            if nm == "":
                j, k = k, k + 1
            elif nm.isdigit():
                j = int(nm)
            else:
                return None
            if j >= len(items):
                return None
            parts.append(P(mk("fmtspec", (items[j], sp))) if sp else items[j])
        elif t:
            parts.append(lit("s:" + t))
    return str_join(parts)


def resolve(p, facts):
    """p with the brackets in facts replaced by their truth value (also inside abbreviations)"""
    out, ch = None, False
    for mono in p.m:
        for a, _ in mono:
            if a.key in facts and a.head in T.IVERSON or a.head in ("let", "bool"):
                ch = True
    if not ch:
        return p
    out, ch = ZERO, False
    for mono, c in p.m.items():
        t = P(c)
        for a, e in mono:
            x = P(a)
            if a.key in facts and a.head in T.IVERSON:
                x = ONE if facts[a.key] else ZERO
                ch = True
            elif a.head in ("let", "bool"):
                y = resolve(a.args[0], facts)
                if y is not a.args[0]:
                    ch = True
                    x = T.abbr(y, 40) if a.head == "let" else T.abbr(y, 4)
            if not x.m:
                t = ZERO
                break
            t = t * (powi(x, e) if isinstance(e, int) else P(mk("pow", (x, P(e)))))
        out = out + t
    return out if ch else p


_mutl = {}


def mutated_lists(fn):
    """local names of lists that the function changes in place"""
    r = _mutl.get(id(fn))
    if r is not None and r[0] is fn:
        return r[1]
    names = set()
    for b in fn.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                    x.func.attr in ("append", "extend", "pop", "remove", "insert", "clear", "sort", "reverse"):
                names.add(x.func.value.id)
            tg = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []
            for t in tg:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    names.add(t.value.id)
    _mutl[id(fn)] = (fn, names)
    return names


class ExprMixin:
    def eval(self, n, st, stmt=False):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if v is None:
            return NONE
        if isinstance(v, str):
            return lit("s:" + v)
        if v is Ellipsis:
            return lit("...")
        if isinstance(v, bytes):
            return lit(repr(v))
        if isinstance(v, float) and abs(v) > 0.5:
            import math
            for d in (1, 2, 3, 4, 6, 180):
                r = v * d / math.pi
                k = round(r)
                if k and abs(k) <= 24 and abs(r - k) < 4e-14 * abs(k):
                    return P(Fraction(k, d)) * P(T.PI)
        return P(v)

    def here(self, v, st):
        """a value as seen on the current path: conditionals decided by the path condition are resolved"""
        if not isinstance(v, Poly) or self.lang() != "py":
            return v
        facts = self._facts.get(st.pc.key)
        if facts is None:
            facts = {}
            pa = T.iv_atoms(st.pc)
            if 0 < len(pa) <= 12:
                for k, a in pa.items():
                    if all(any(x is a for x, _ in mono) for mono in st.pc.m):
                        facts[k] = True
                    elif not T.assume(st.pc, a, True).m:
                        facts[k] = False
            self._facts[st.pc.key] = facts
        if not facts:
            return v
        return self.untern(resolve(v, facts))

    def e_Name(self, n, st):
        nm = n.id
        if nm in st.env:
            return self.here(st.env[nm], st)
        fn = self.frame.fn
        clo = fn.extra.get("closure")
        if clo and nm in clo:
            return clo[nm]
        if fn.lang == "f90":
            t = fn.types.get(nm)
            if nm in self.p.f90_globs and (t is None or t.extra.get("parameter") or nm not in fn.extra.get("local_order", [])):
                return self.eval(self.p.f90_globs[nm], st)
            if nm in self.p.f90:
                return FnV(self.p.f90[nm])
            if nm in self.p.f90_generics:
                return ExtV("f90gen:" + nm)
            if t is not None and nm in fn.extra.get("local_order", []):
                return P(mk("undef", (nm,), t.kind if t.kind in ("int", "real", "complex") else "any"))
            return ExtV("f90:" + nm)
        if fn.lang == "cy":
            fs = self.p.cy.get(fn.module, {})
            if nm in fs:
                return FnV(fs[nm])
            if nm in self.p.cy_globs.get(fn.module, {}):
                return self.eval(self.p.cy_globs[fn.module][nm], st)
            if nm == "pi":
                return P(T.PI)
            t = fn.types.get(nm)
            if t is not None:
                return P(mk("undef", (nm,), t.kind if t.kind in ("int", "real", "complex") else "any"))
            if nm == "np":
                return ExtV("numpy")
            return ExtV("c:" + nm)
        if fn.lang == "spec":
            if nm in fn.extra["module_funcs"]:
                return FnV(fn.extra["module_funcs"][nm])
            if nm == "pi":
                return P(T.PI)
            if nm == "np":
                return ExtV("numpy")
            return ExtV("builtins." + nm)
        r = self.p.resolve(fn.module, nm)
        if r is not None:
            return self.from_res(r, st, nm)
        return ExtV("builtins." + nm)

    def e_Tuple(self, n, st):
        items = []
        star = False
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.unstar(self.eval(x.value, st), st)
                if isinstance(v, Tup):
                    items += list(v.items)
                else:
                    star = True
                    items.append(P(mk("star", (self.term(v, st),))))
            else:
                items.append(self.eval(x, st))
        if star:
            return self.seqcat(items, st)
        return Tup(items)

    def seqcat(self, items, st):
        out = []
        for x in items:
            x = self.term(x, st)
            a = T.single_atom(x)
            if a is not None and a.head == "star":
                b = T.single_atom(a.args[0])
                if b is not None and b.head == "seqcat":
                    out += list(b.args[0])
                    continue
                if b is not None and b.head == "tup":
                    out += list(b.args[0])
                    continue
            out.append(x)
        if len(out) == 1 and T.single_atom(out[0]) is not None and T.single_atom(out[0]).head == "star":
            return T.single_atom(out[0]).args[0]
        return P(mk("seqcat", (tuple(out),)))

    def seq_add(self, a, b, st):
        """concatenation of tuples/lists, one of which is opaque; None when it is arithmetic"""
        a, b = self.unalias(a, st), self.unalias(b, st)
        if not (isinstance(a, Tup) or isinstance(b, Tup) or (isinstance(a, Poly) and isinstance(b, Poly))):
            return None

        def part(v):
            if isinstance(v, Tup):
                return list(v.items)
            if isinstance(v, Poly):
                x = T.single_atom(v)
                if (x is not None and x.head in ("seqcat", "seq")) or self.ctype_of(v) in ("tuple", "list"):
                    u = self.unstar(v, st)
                    return list(u.items) if isinstance(u, Tup) else [P(mk("star", (v,)))]
            return None
        pa, pb = part(a), part(b)
        if pa is None or pb is None:
            return None
        if any(T.single_atom(x) is not None and T.single_atom(x).head == "star" for x in pa + pb if isinstance(x, Poly)):
            return self.seqcat(pa + pb, st)
        return Tup(pa + pb)

    def unstar(self, v, st):
        """value of a starred expression: a constant slice of an opaque sequence is spelled out"""
        v = self.unalias(v, st)
        if isinstance(v, Poly):
            a = T.single_atom(v)
            if a is not None and a.head == "idx" and len(a.args[1]) == 1 and isinstance(a.args[1][0], Atom) and a.args[1][0].head == "slice":
                lo, hi, step = a.args[1][0].args
                l, h = (0 if lo is None else const_val(lo)), (None if hi is None else const_val(hi))
                if step is None and isinstance(l, int) and isinstance(h, int) and 0 <= l <= h <= l + 8:
                    return Tup([self.untern(read_term(a.args[0], (P(k),))) for k in range(l, h)])
            ty = self.types.of_term(v, self.ptypes)
            if ty is not None and self.types.kind(ty) == "tuple":
                ar = self.types.args(ty)
                if ar and not any(isinstance(q, ast.Constant) and q.value is Ellipsis for q in ar):
                    return Tup([self.untern(read_term(v, (P(k),))) for k in range(len(ar))])
        return v

    def e_List(self, n, st):
        t = self.e_Tuple(n, st)
        if self.lang() in ("f90",) or isinstance(t, Poly):
            return t
        if not t.items:
            return self.alloc(st, ArrCell(ZERO, (), (ZERO,), "any", None, "list"))
        return t

    def e_Set(self, n, st):
        t = self.e_Tuple(n, st)
        return P(mk("setlit", (tuple(sorted((self.term(x, st) for x in t.items), key=lambda q: q.key)),)))

    def e_Dict(self, n, st):
        effs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported("dict unpack")
            kk, vv = self.eval(k, st), self.eval(v, st)
            e = mk_eff("set", [], (self.term(kk, st),), self.ref_term(vv, st), ONE)
            effs.append(e)
        return self.alloc(st, ArrCell(ZERO, tuple(effs), None, "any", None, "dict"))

    def list_cell(self, v, node, target, st):
        """a list display (comprehension, repetition) bound to a name that is changed in place later"""
        if isinstance(v, Tup) and isinstance(target, ast.Name) and self.lang() == "py" and \
                isinstance(node, (ast.List, ast.ListComp, ast.BinOp)) and target.id in mutated_lists(self.frame.fn):
            effs = tuple(mk_eff("set", [], (P(k),), self.ref_term(x, st), ONE) for k, x in enumerate(v.items))
            return self.alloc(st, ArrCell(ZERO, effs, (P(len(v.items)),), "any", None, "list"))
        return v

    def ref_term(self, v, st):
        if isinstance(v, Ref):
            return P(mk("ref", (v.id,)))
        if isinstance(v, Tup):
            return mk_tup(tuple(self.ref_term(x, st) for x in v.items))
        return self.term(v, st)

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(lit("s:" + v.value))
            else:
                try:
                    p = self.term(self.eval(v.value, st), st)
                except Unsupported:
                    p = lit("?")
                if v.format_spec is not None:
                    try:
                        sp = str_const(self.eval(v.format_spec, st))
                    except Unsupported:
                        sp = None
                    p = P(mk("fmtspec", (p, sp if sp is not None else "?")))
                elif getattr(v, "conversion", -1) == 114:
                    p = P(mk("fmtspec", (p, "!r")))
                parts.append(p)
        return str_join(parts)

    def e_Lambda(self, n, st):
        f = Func("<lambda>", self.frame.fn.module, self.frame.fn.file, "py" if self.lang() == "py" else self.lang(),
                 [Param(a.arg) for a in n.args.args], {}, [ast.fix_missing_locations(ast.copy_location(ast.Return(n.body), n))],
                 n.lineno)
        f.extra["closure"] = dict(st.env)
        if self.lang() == "spec":
            f.extra["module_funcs"] = self.frame.fn.extra["module_funcs"]
        return FnV(f)

    def s_FunctionDef(self, s, st):
        from .project import py_func
        f = py_func(s, self.frame.fn.module, self.frame.fn.file)
        f.lang = self.lang()
        f.extra["closure"] = st.env      # by reference: late binding
        if self.lang() == "spec":
            f.extra["module_funcs"] = self.frame.fn.extra["module_funcs"]
        st.env[s.name] = FnV(f)
        return True

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            return ONE - truth(self.cond_term(v, st))
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.USub):
            a = self.av(v, st) if self.lang() in ("cy", "f90", "spec") else None
            if a is not None and not isinstance(v, Poly):
                return AV(a.rank, a.shape, lambda ix: -a.f(ix), a.kind)
            return -self.num(v, st)
        return P(mk("invert", (self.num(v, st),)))

    def cond_term(self, v, st):
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, ArrCell) and c.ctype == "list" and c.shape:
                return ONE - eq0(c.shape[0])
            if isinstance(c, ObjCell):
                return ONE
        if isinstance(v, Tup):
            return ONE if v.items else ZERO
        t = self.num(v, st)
        if self.ctype_of(t) in ("dict", "list", "set", "tuple"):
            return ONE - eq0(T.mk_len(t))
        return t

    def e_BoolOp(self, n, st):
        vals = []
        # python semantics on booleans; evaluation of later operands is conditional only for effects
        pc0 = st.pc
        out = None
        isand = isinstance(n.op, ast.And)
        first = self.eval(n.values[0], st)
        acc = self.cond_term(first, st)
        accb = truth(acc)
        rawbool = is_bool(acc)
        raw = acc
        for x in n.values[1:]:
            c = const_val(accb)
            if c is not None and ((isand and c == 0) or (not isand and c == 1)):
                return raw
            st.pc = st.pc * (accb if isand else ONE - accb)
            if not st.pc.m:
                st.pc = pc0
            v = self.cond_term(self.eval(x, st), st)
            st.pc = pc0
            b = truth(v)
            if isand:
                raw = accb * v + (ONE - accb) * raw
                accb = accb * b
            else:
                raw = accb * raw + (ONE - accb) * v
                accb = accb + b - accb * b
            rawbool = rawbool and is_bool(v)
        return accb if rawbool else raw

    def e_IfExp(self, n, st):
        g = truth(self.cond_term(self.eval(n.test, st), st))
        c = const_val(g)
        if c == 1:
            return self.eval(n.body, st)
        if c == 0:
            return self.eval(n.orelse, st)
        if not any(isinstance(x, (ast.Call, ast.Attribute, ast.ListComp, ast.NamedExpr)) for y in (n.body, n.orelse) for x in ast.walk(y)):
            return self.merge_vals(g, self.eval(n.body, st), self.eval(n.orelse, st), st)
        s1, s2 = st.fork(), st.fork()
        k = len(st.events)
        pc0 = st.pc
        s1.pc, s2.pc = st.pc * g, st.pc * (ONE - g)
        s1.env["$r"] = self.eval(n.body, s1)
        s2.env["$r"] = self.eval(n.orelse, s2)
        self.merge_states(g, s1, True, s2, True, st, k)
        st.pc = pc0
        return st.env.pop("$r")

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        res = ONE
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            res = res * self.cmp(op, left, right, st)
            left = right
        return res

    def cmp(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st)
            return r if isinstance(op, ast.In) else ONE - r
        ta, tb = self.cmp_term(a, st), self.cmp_term(b, st)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b, ta, tb, st)
            return r if isinstance(op, ast.Is) else ONE - r
        if isinstance(a, Tup) and isinstance(b, Tup):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if len(a.items) != len(b.items):
                    r = ZERO
                else:
                    r = ONE
                    for x, y in zip(a.items, b.items):
                        r = r * self.cmp(ast.Eq(), x, y, st)
                return r if isinstance(op, ast.Eq) else ONE - r
        if self.arrayish(a, st) or self.arrayish(b, st):
            on = type(op).__name__
            if on in ("Gt", "GtE"):
                on, ta, tb = {"Gt": "Lt", "GtE": "LtE"}[on], tb, ta
            elif on in ("Eq", "NotEq") and tb.key < ta.key:
                ta, tb = tb, ta
            return P(mk("cmparr", (on, ta, tb)))
        d = ta - tb
        if isinstance(op, ast.Eq):
            return eq0(d)
        if isinstance(op, ast.NotEq):
            return ONE - eq0(d)
        if isinstance(op, ast.Lt):
            return lt0(d)
        if isinstance(op, ast.LtE):
            return le0(d) if dtype_of(d) == "int" else ONE - lt0(-d)
        if isinstance(op, ast.Gt):
            return lt0(-d)
        if isinstance(op, ast.GtE):
            return le0(-d) if dtype_of(d) == "int" else ONE - lt0(d)
        raise Unsupported("comparison")

    def arrayish(self, v, st):
        if isinstance(v, (AV, View)):
            return True
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ArrCell):
            return st.heap[v.id].ctype == "arr"
        return False

    def cmp_term(self, v, st):
        return self.term(v, st)

    def identical(self, a, b, ta, tb, st):
        if ta.key == tb.key:
            return ONE
        if tb.key == NONE.key:
            if isinstance(a, (Ref, Tup, AV, View, FnV)):
                return ZERO
            return lift(ta, lambda q: ONE if q.key == NONE.key else (ZERO if self.notnone(q) else P(mk("isnone", (q,), "int"))))
        if ta.key == NONE.key:
            return self.identical(b, a, tb, ta, st)
        if is_bool(ta) and is_bool(tb):
            return eq0(ta - tb)
        return P(mk("is", (ta, tb)))

    def notnone(self, q):
        if const_val(q) is not None:
            return True
        if len(q.m) == 1:
            (mono, c), = q.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                a = mono[0][0]
                return a.head in ("tup", "ref", "setlit", "fstr", "fn", "cls", "ext", "matmul", "arr", "lam", "mustate_a", "ext:inv", "ext:array",
                                  "ext:zeros", "ext:solve", "ext:cross", "ext:dot") or (a.head == "idx" and (self.ctype_of(q) is not None or self.dict_field(a.args[0]))) or (a.head == "lit" and a.args[0] != "None") or a.dtype in ("int", "real", "complex")
        return True

    def dict_field(self, p):
        """a dictionary kept in a field: its values are never None"""
        b = T.single_atom(p) if isinstance(p, Poly) else p
        return b is not None and b.head == "attr" and self.ctype_of(P(b)) == "dict"

    def contains(self, a, b, st):
        b = self.unalias(b, st)
        if isinstance(b, Tup):
            r = ZERO
            for x in b.items:
                e = self.cmp(ast.Eq(), a, x, st)
                r = r + e - r * e
            return r
        if isinstance(b, RangeV):
            t = self.num(a, st)
            if const_val(b.step) == 1:
                return le0(b.lo - t) * lt0(t - b.hi)
        tb = self.term(b, st)
        if isinstance(b, Ref) and isinstance(st.heap.get(b.id), ObjCell):
            c = st.heap[b.id]
            if c.cls is not None:
                m = self.p.method(c.cls, "__contains__")
                if m is not None:
                    return truth(self.num(self.call_func(m, [a], {}, st, None, self_=b), st))
        if isinstance(b, Ref) and isinstance(st.heap.get(b.id), ArrCell) and st.heap[b.id].ctype == "dict":
            c = st.heap[b.id]
            if not c.base.m:
                key = self.term(a, st)
                r = ZERO
                for e in c.effs:
                    if e.args[0] != "set" or e.args[1]:
                        break
                    q = eq0(e.args[2][0] - key)
                    r = r + q - r * q
                else:
                    return r
        if len(tb.m) == 1:
            (mono, c), = tb.m.items()
            if c == 1 and len(mono) == 1 and mono[0][0].head == "setlit":
                r = ZERO
                for x in mono[0][0].args[0]:
                    e = eq0(self.term(a, st) - x)
                    r = r + e - r * e
                return r
        return T.mk_in(self.term(a, st), tb)

    # ------------------------------------------------------------ arithmetic
    def e_BinOp(self, n, st):
        a, b = self.eval(n.left, st), self.eval(n.right, st)
        return self.binop_v(n.op, a, b, st, n)

    def binop_v(self, op, a, b, st, node):
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add) and self.lang() not in ("f90",):
            return Tup(a.items + b.items)
        if isinstance(op, ast.Add) and self.lang() == "py":
            r = self.seq_add(a, b, st)
            if r is not None:
                return r
        if isinstance(a, Ref) and isinstance(st.heap.get(a.id), ObjCell) and self.lang() == "f90" and isinstance(op, ast.Mult):
            f = self.p.f90_generics.get("operator*", [])
            if f:
                return self.call_func(self.p.f90[f[0]], [a, b], {}, st, node)
        if isinstance(op, ast.Mod) and isinstance(a, Poly) and str_const(a) is not None:
            items = b.items if isinstance(b, Tup) else [b]
            r = str_percent(str_const(a), [self.term(x, st) for x in items])
            if r is not None:
                return r
            return P(mk("fmt", (a, self.term(b, st))))
        if isinstance(op, ast.Add) and isinstance(a, Poly) and isinstance(b, Poly) and (
                is_str(a) or is_str(b)):
            return str_join([a, b])
        if self.lang() in ("cy", "f90", "spec"):
            x = None if isinstance(a, Poly) else self.av(a, st)
            y = None if isinstance(b, Poly) else self.av(b, st)
            if x is not None or y is not None:
                shape = x.shape if x is not None else y.shape
                rank = x.rank if x is not None else y.rank
                ta = None if x is not None else self.num(a, st)
                tb = None if y is not None else self.num(b, st)
                kinds = {q.kind for q in (x, y) if q is not None}
                return AV(rank, shape, lambda ix: self.binop(op, x.f(ix) if x is not None else ta,
                                                             y.f(ix) if y is not None else tb, node),
                          "any")
        return self.binop(op, self.num(a, st), self.num(b, st), node)

    def binop(self, op, a, b, node):
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            if self.lang() == "f90" and dtype_of(a) == "int" and dtype_of(b) == "int" and not (
                    self.f90_real(node.left) or self.f90_real(node.right)):
                return floordiv(a, b)
            return div(a, b)
        if isinstance(op, ast.FloorDiv):
            return floordiv(a, b)
        if isinstance(op, ast.Mod):
            return mod_(a, b)
        if isinstance(op, ast.Pow):
            return self.pow(a, b)
        if isinstance(op, ast.MatMult):
            return P(mk("matmul", (a, b)))
        return P(mk("op_" + type(op).__name__, (a, b)))

    def f90_real(self, node):
        """does a Fortran expression have non-integer type (literals such as 2D0 fold to integers)"""
        for x in ast.walk(node):
            if isinstance(x, ast.Constant) and isinstance(x.value, float):
                return True
            if isinstance(x, ast.Name):
                t = self.frame.fn.types.get(x.id)
                if t is not None and t.kind in ("real", "complex"):
                    return True
                if x.id in ("pi", "img", "dble", "real", "cmplx"):
                    return True
        return False

    def pow(self, a, b):
        c = const_val(b)
        if c is not None:
            if isinstance(c, int) or c == int(c):
                return powi(a, int(c))
            if Fraction(c).denominator == 2:
                n = Fraction(c).numerator
                return powi(sqrt_(a), n)
        return P(mk("pow", (a, b)))

    # ------------------------------------------------------------ access
    def e_Attribute(self, n, st):
        o = self.eval(n.value, st)
        return self.here(self.getattr(o, n.attr, st, n), st)

    def e_Subscript(self, n, st):
        b = self.eval_view(n.value, st)
        if isinstance(b, Poly):
            b = self.untern(b)
        if isinstance(b, (ExtV, ClsV)):
            return b
        if isinstance(b, Ref) and isinstance(st.heap.get(b.id), ObjCell):
            c = st.heap[b.id]
            if c.cls is not None:
                m = self.p.method(c.cls, "__getitem__")
                if m is not None:
                    return self.call_func(m, [self.eval(n.slice, st)], {}, st, n, self_=b)
            return P(mk("idx", (c.ident, tuple(self.idx_norm(self.index(n.slice, st), st)))))
        return self.subscript(b, self.index(n.slice, st), st, n)

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "gen")

    def e_SetComp(self, n, st):
        v = self.comp(n, st, "set")
        return P(mk("setof", (self.term(v, st),)))

    def e_DictComp(self, n, st):
        name = "$comp%d" % self.newid()
        body = [ast.Assign([ast.Subscript(ast.Name(name, ast.Load()), n.key, ast.Store())], n.value)]
        for gen in reversed(n.generators):
            for c in reversed(gen.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(gen.target, gen.iter, body, [])]
        for b in body:
            ast.copy_location(b, n)
            ast.fix_missing_locations(b)
        env = dict(st.env)
        st.env[name] = self.alloc(st, ArrCell(ZERO, (), None, "any", None, "dict"))
        self.block(body, st)
        r = st.env[name]
        st.env = env
        return r

    def assign_local(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        else:
            self.assign(t, v, st, t)

    def comp(self, n, st, kind):
        src = None
        if len(n.generators) == 1 and not n.generators[0].ifs:
            gen = n.generators[0]
            src = self.eval(gen.iter, st)
        if src is not None and self.filtered(src, st) is None and self.segments(src, st) is None:
            it = self.iter_space(src, st)
            c = const_val(it.n)
            env = dict(st.env)
            if c is not None and c <= 8:
                items = []
                for k in range(int(c)):
                    self.assign_local(gen.target, it.item(P(k)), st)
                    items.append(self.eval(n.elt, st))
                st.env = env
                return Tup(items)
            i = fresh()
            nev = len(st.events)
            self.assign_local(gen.target, it.item(P(i)), st)
            v = self.eval(n.elt, st)
            tv = self.term(v, st)
            st.env = env
            interp = self
            for q in range(nev, len(st.events)):
                kind_, g_, nm_, a_, ln_, sk_ = st.events[q]
                st.events[q] = self.fam_event(kind_, g_, nm_, a_, ln_, sk_, i, it.n)

            if kind == "list":
                e = mk_eff("set", [(i, it.n)], (P(i),), tv, ONE)
                return self.alloc(st, ArrCell(ZERO, (e,), (it.n,), "any", None, "list"))

            def item(k, tv=tv, i=i):
                return interp.untern(subst(tv, {i.key: k}))
            return Iter(it.n, item)
        # filtered / nested: build as list via loop semantics
        name = "$comp%d" % self.newid()
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), "append", ast.Load()), [n.elt], []))]
        for gen in reversed(n.generators):
            for c in reversed(gen.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(gen.target, gen.iter, body, [])]
        for b in body:
            ast.copy_location(b, n)
            ast.fix_missing_locations(b)
        env = dict(st.env)
        st.env[name] = self.alloc(st, ArrCell(ZERO, (), (ZERO,), "any", None, "list"))
        self.block(body, st)
        v = st.env[name]
        env2 = st.env
        st.env = env
        return v

    def fam_event(self, kind, g, name, args, line, stack, i, n):
        """event raised once per value of the bound index i < n"""
        def w(a):
            if isinstance(a, tuple):
                return tuple(w(x) for x in a)
            if isinstance(a, Poly) and i.key in a.syms:
                return P(mk("fam", (n, mk_lam([i], simp_range(a, i, n)))))
            return a
        args = tuple(w(a) for a in args)
        if i.key in g.syms:
            j = fresh()
            gj = subst(g, {i.key: P(j)})
            if kind != "raise":
                args = args + (P(mk("famg", (n, mk_lam([i], g)))),)
            g = ONE - T.mk_all(j, ZERO, n, ONE - gj)
        elif kind == "raise" or not any(isinstance(a, Poly) and any(x.head == "fam" for x in atoms_of(a).values()) for a in args):
            g = g * (ONE - T.le0(n))
        return (kind, g, name, args, line, stack)

    def filtered(self, v, st):
        """a list built by appending under a condition while walking another sequence: the walk with its condition"""
        v = self.unalias(v, st)
        if not isinstance(v, Ref):
            return None
        c = st.heap.get(v.id)
        if not isinstance(c, ArrCell) or c.ctype != "list" or c.base.m or len(c.effs) != 1:
            return None
        kind, bs, idx, val, guard = open_eff(c.effs[0])
        if kind != "set" or len(bs) != 1 or len(idx) != 1 or guard.key == ONE.key or not isinstance(idx[0], Poly):
            return None
        i, n = bs[0]
        j = fresh()
        if mk_sum(j, ZERO, P(i), subst(guard, {i.key: P(j)})).key != idx[0].key:
            return None
        r = Iter(n, lambda k: self.untern(subst(val, {i.key: k})))
        r.filt = lambda k: subst(guard, {i.key: k})
        return r

    def iter_space(self, v, st):
        if isinstance(v, Iter):
            return v
        v = self.unalias(v, st)
        if isinstance(v, RangeV):
            c = const_val(v.step)
            if c == 1:
                return Iter(v.hi - v.lo, lambda k: v.lo + k)
            if c == -1:
                return Iter(v.lo - v.hi, lambda k: v.lo - k)
            if c is not None and c > 0:
                return Iter(floordiv(v.hi - v.lo + P(c - 1), P(c)), lambda k: v.lo + k * P(c))
            return Iter(floordiv(v.hi - v.lo + v.step - ONE, v.step), lambda k: v.lo + k * v.step)
        if isinstance(v, Tup):
            items = v.items
            return Iter(P(len(items)), lambda k: items[int(const_val(k))] if const_val(k) is not None
                        else self.subscript(v, [k], st))
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ArrCell):
                if c.ctype == "dict":
                    ks = P(mk("keys", (c.term(),)))
                    return Iter(T.mk_len(ks), lambda k: self.untern(read_term(ks, (k,))))
                if c.shape is not None and c.shape[0] is not None:
                    n = c.shape[0]
                else:
                    n = T.mk_len(c.term())
                if c.rank is not None and c.rank > 1:
                    return Iter(n, lambda k: View(v, [("i", k)] + [("s", ZERO, None)] * (c.rank - 1)))
                base, effs, kind = c.base, c.effs, c.kind
                return Iter(n, lambda k: self.untern(aread(base, effs, (k,), kind)))
            if isinstance(c, ObjCell) and c.cls is not None:
                pass
        if isinstance(v, (View, AV)):
            a = self.av(v, st)
            if a is not None and a.rank == 1 and a.shape[0] is not None:
                return Iter(a.shape[0], lambda k: a.f([k]))
        t = self.term(v, st)
        if self.ctype_of(t) == "dict":
            ks = P(mk("keys", (t,)))
            return Iter(T.mk_len(ks), lambda k: self.untern(read_term(ks, (k,))))
        u = self.unstar(t, st)
        if isinstance(u, Tup):
            return self.iter_space(u, st)
        return Iter(self.len_of(t), lambda k: self.untern(read_term(t, (k,))))

    def len_of(self, t):
        if len(t.m) == 1:
            (mono, c), = t.m.items()
            if c == 1 and len(mono) == 1 and mono[0][0].head == "iter":
                return mono[0][0].args[0]
        return lift(t, T.mk_len)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st):
        f = n.func
        # attribute call on values
        if isinstance(f, ast.Attribute):
            o = self.eval_view(f.value, st) if isinstance(f.value, (ast.Name, ast.Subscript)) else self.eval(f.value, st)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                return self.super_call(f.attr, n, st)
            fv = self.getattr(o, f.attr, st, n)
        elif isinstance(f, ast.Name) and f.id.startswith("__unsupported"):
            raise Unsupported(f.id)
        elif isinstance(f, ast.Name) and f.id.startswith("__io_"):
            return NONE
        elif isinstance(f, ast.Name) and f.id == "__omp":
            return NONE
        elif isinstance(f, ast.Name) and f.id.startswith("operator."):
            sp = self.p.f90_generics.get(f.id, [])
            args = [self.eval(a, st) for a in n.args]
            return self.f90_generic(sp, args, st, n, f.id)
        elif isinstance(f, ast.Name) and f.id == "__alloc":
            shape = tuple(self.num(self.eval(a, st), st) for a in n.args)
            return self.alloc(st, ArrCell(P(mk("undef", ("alloc",))), (), shape, "any", len(shape)))
        elif isinstance(f, ast.Name) and f.id.startswith("__cast_"):
            v = self.num(self.eval(n.args[0], st), st)
            k = f.id[7:]
            if k == "int" and dtype_of(v) in ("real", "any") and const_val(v) is None:
                return P(mk("trunc", (v,), "int"))
            return v
        else:
            fv = self.eval(f, st)
        if self.lang() == "f90":
            return self.f90_call(fv, n, st)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.unstar(self.eval(a.value, st), st)
                k = self.star_arity(fv, n) if not isinstance(v, Tup) else None
                if k is not None:
                    v = Tup([self.subscript(v, [P(q)], st) for q in range(k)])
                if isinstance(v, Tup):
                    args += list(v.items)
                else:
                    args.append(P(mk("star", (self.term(v, st),))))
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return self.call(fv, args, kwargs, st, n)

    def star_arity(self, fv, n):
        """f(a, *v): the number of values v must have when f is a known function without optional parameters"""
        if not isinstance(fv, FnV) or n.keywords or sum(isinstance(a, ast.Starred) for a in n.args) != 1:
            return None
        ps = list(fv.func.params)
        if fv.self_ is not None:
            ps = ps[1:]
        if any(p.default is not None or p.kind != "pos" for p in ps):
            return None
        return len(ps) - (len(n.args) - 1)

    def super_call(self, name, n, st):
        fn = self.frame.fn
        args = [self.eval(a, st) for a in n.args]
        kwargs = {k.arg: self.eval(k.value, st) for k in n.keywords}
        selfv = st.env.get(fn.params[0].name)
        if isinstance(selfv, Ref):
            c = st.heap[selfv.id]
            if isinstance(c, ObjCell) and c.cls is not None:
                mro = self.p.mro(c.cls)
                here = [k for k in mro if k.name == fn.cls]
                if here:
                    for k in mro[mro.index(here[0]) + 1:]:
                        if name in k.methods:
                            return self.call_func(k.methods[name], args, kwargs, st, n, self_=selfv)
        return NONE if name == "__init__" else P(mk("super_" + name, tuple(self.term(a, st) for a in args)))

    def call(self, fv, args, kwargs, st, node):
        if isinstance(fv, FnV):
            return self.call_func(fv.func, args, kwargs, st, node, self_=fv.self_)
        if isinstance(fv, ClsV):
            return self.construct(fv.cls, args, kwargs, st, node)
        if isinstance(fv, ExtV):
            return self.call_ext(fv.qual, args, kwargs, st, node)
        if isinstance(fv, MethV):
            return self.call_method(fv.obj, fv.name, args, kwargs, st, node)
        if isinstance(fv, CondV) and (fv.a is NONE or fv.b is NONE):
            return self.call(fv.b if fv.a is NONE else fv.a, args, kwargs, st, node)
        if isinstance(fv, CondV):
            s1, s2 = st.fork(), st.fork()
            n = len(st.events)
            s1.pc, s2.pc = st.pc * fv.g, st.pc * (ONE - fv.g)
            pc0 = st.pc
            s1.env["$r"] = self.call(fv.a, args, kwargs, s1, node)
            s2.env["$r"] = self.call(fv.b, args, kwargs, s2, node)
            self.merge_states(fv.g, s1, True, s2, True, st, n)
            st.pc = pc0
            return st.env.pop("$r")
        t = self.term(fv, st)
        cv = self.cond_callable(t, st)
        if cv is not None:
            return self.call(cv, args, kwargs, st, node)
        nt = T.single_atom(t)
        if nt is not None and nt.head == "ext:namedtuple" and len(nt.args) >= 2:
            names = self.p.ntuple_names(nt.args[1])
            if names is not None and len(args) + len(kwargs) == len(names):
                return Tup(list(args) + [kwargs[k] for k in names[len(args):]])
        at = tuple(self.deep(a, st) for a in args) + tuple((k, self.deep(v, st)) for k, v in sorted(kwargs.items()))
        if self.lang() == "py" and self.effects is not None:
            # an unknown callable may write the arrays it is given
            if node is getattr(self, "_stmt_call", None):
                self.event(st, "apply", "", (t, at), node)
            for k, a in enumerate(args):
                if isinstance(a, Ref) and isinstance(st.heap.get(a.id), ArrCell) and st.heap[a.id].ctype == "arr":
                    c = st.heap[a.id]
                    self.write_cell(a.id, c.copy(base=P(mk("aapp", ("apply:%d" % k, (t, at)), c.kind)), effs=()), st)
        return P(mk("apply", (t,) + tuple(self.term(a, st) for a in args) +
                    tuple((k, self.term(v, st)) for k, v in sorted(kwargs.items()))))

    def cond_callable(self, t, st):
        """a table of bound methods indexed by a key: guarded sum of method values"""
        if self.lang() != "py" or not isinstance(t, Poly) or not 1 <= len(t.m) <= 8:
            return None
        alts = []
        for mono, c in t.m.items():
            at = [a for a, _ in mono if a.head == "attr"]
            if c != 1 or len(at) != 1 or any(a.head not in T.IVERSON for a, _ in mono if a is not at[0]) or any(e != 1 for _, e in mono):
                return None
            alts.append((Poly({tuple((a, e) for a, e in mono if a is not at[0]): 1}), at[0]))
        if len(alts) == 1 and not alts[0][0].m:
            return None
        if not all(a.args[1] in self.p.method_names() for _, a in alts):
            return None
        v = None
        for g, a in reversed(alts):
            o = self.untern(a.args[0])
            m = self.getattr(o, a.args[1], st, None) if isinstance(o, Ref) else MethV(o, a.args[1])
            v = m if v is None else CondV(g, m, v)
        return v

    def construct(self, cls, args, kwargs, st, node):
        if cls.name in self.opaque or cls.qual in self.opaque:
            return P(mk("new_" + cls.name, tuple(self.term(a, st) for a in args) +
                        tuple((k, self.term(v, st)) for k, v in sorted(kwargs.items()))))
        if cls.name.endswith("Error") or cls.name.endswith("Warning"):
            return P(mk("exc_" + cls.name, tuple(self.term(a, st) for a in args)))
        init = self.p.method(cls, "__init__")
        if init is not None and self.effects is not None and init.qual in self.opaque:
            vals = None
            try:
                vals = self.bind(init, args, kwargs, st, NONE)
            except Unsupported:
                pass
            if vals is not None:
                tt = []
                for prm in init.params[1:]:
                    if prm.name in vals:
                        tt.append((prm.name, self.deep(vals[prm.name], st)))
                    elif prm.default is not None:
                        try:
                            tt.append((prm.name, self.term(self.eval_in_module(prm.default, init.module, st), st)))
                        except Unsupported:
                            pass
            else:
                tt = [("a%d" % k, self.deep(a, st)) for k, a in enumerate(args)] + \
                     [(k, self.deep(v, st)) for k, v in sorted(kwargs.items())]
            if self.effects.eventful(init):
                self.event(st, "new", cls.name, tuple(t for _, t in tt), node)
            return self.alloc(st, ObjCell(cls, {}, P(mk("new_" + cls.name, tuple(tt)))))
        try:
            vals = self.bind(init, args, kwargs, st, NONE) if init is not None else {}
            ta = []
            for prm in (init.params[1:] if init is not None else ()):
                if prm.name in vals:
                    ta.append((prm.name, self.deep(vals[prm.name], st)))
                elif prm.default is not None:
                    ta.append((prm.name, self.term(self.eval_in_module(prm.default, init.module, st), st)))
            ta = tuple(ta)
        except Unsupported:
            ta = ("?", self.newid())
        k = 0
        have = {c.ident.key for c in st.heap.values() if isinstance(c, ObjCell)}
        while True:
            ident = P(mk("new", (cls.name, ta, k)))
            if ident.key not in have:
                break
            k += 1
        o = self.alloc(st, ObjCell(cls, {}, ident))
        if init is not None:
            self.call_func(init, args, kwargs, st, node, self_=o)
        return o

    def bind(self, fn, args, kwargs, st, self_):
        vals = {}
        params = list(fn.params)
        if self_ is not None and params and fn.cls and "staticmethod" not in fn.decorators:
            vals[params[0].name] = self_
            params = params[1:]
        args = list(args)
        for prm in params:
            if prm.kind == "pos":
                if args:
                    vals[prm.name] = args.pop(0)
                elif prm.name in kwargs:
                    vals[prm.name] = kwargs[prm.name]
            elif prm.kind == "var":
                vals[prm.name] = Tup(args)
                args = []
            elif prm.kind == "kwonly":
                if prm.name in kwargs:
                    vals[prm.name] = kwargs[prm.name]
            elif prm.kind == "kw":
                vals[prm.name] = P(mk("kwargs", tuple((k, self.term(v, st)) for k, v in sorted(kwargs.items())
                                                      if k not in vals)))
        if args:
            raise Unsupported("too many arguments for %s" % fn.name)
        for prm in fn.params:
            if prm.name not in vals:
                if prm.default is not None:
                    continue
                raise Unsupported("missing argument %s of %s" % (prm.name, fn.name))
        return vals

    def call_func(self, fn, args, kwargs, st, node, self_=None):
        self.calls += 1
        nm = (fn.cls + "." if fn.cls else "") + fn.name
        hook = self.hooks.get(nm) or self.hooks.get(fn.name) or self.hooks.get(fn.qual)
        if hook is not None:
            return hook(self, fn, args, kwargs, st, node, self_)
        native = fn.lang in ("cy", "f90") and self.lang() == "py"
        if fn.name in self.opaque or nm in self.opaque or fn.qual in self.opaque or len(self.stack) >= self.max_depth or \
                self.stack.count(fn.qual) >= 4 or (native and not self.inline_native):
            return self.opaque_call(fn, args, kwargs, st, node, self_)
        if fn.lang == "f90" and self.lang() == "py":
            return self.opaque_call(fn, args, kwargs, st, node, self_)
        vals = self.bind(fn, args, kwargs, st, self_)
        return self.call_bound(fn, vals, st)

    inline_native = False

    def opaque_call(self, fn, args, kwargs, st, node, self_=None):
        nm = fn.name
        st.fwd = {}
        self.opaque_used.add(nm)
        try:
            vals = self.bind(fn, args, kwargs, st, self_) if fn.lang != "f90" else f2py_bind(fn, args, kwargs)
        except Unsupported:
            vals = None
        if vals is not None:
            targs = []
            for prm in fn.params:
                if prm.name in vals:
                    targs.append((prm.name, self.term(self.here(self.deep(vals[prm.name], st), st), st)))
                elif prm.default is not None:
                    try:
                        targs.append((prm.name, self.term(self.eval_in_module(prm.default, fn.module, st), st)))
                    except Unsupported:
                        pass
        else:
            targs = [("a%d" % k, self.deep(a, st)) for k, a in enumerate(args)] + \
                    [(k, self.deep(v, st)) for k, v in sorted(kwargs.items())]
        tt = tuple(targs)
        # in-place writes of native kernels
        wr = ()
        if vals is not None and fn.lang == "cy":
            wr = sorted(written_params(self.p, fn))
        elif vals is not None and fn.lang == "f90" and self.lang() == "py":
            wr = [q.name for q in fn.params if q.intent == "inout" and q.name in vals]
        if wr:
            for w in wr:
                v = vals.get(w)
                if isinstance(v, Poly):
                    v = self.untern(v)
                if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ArrCell):
                    c = st.heap[v.id]
                    self.write_cell(v.id, c.copy(base=P(mk("aapp", (nm + ":" + w, tt), c.kind)), effs=()), st)
                elif isinstance(v, View):
                    self.store(v, [SliceV(None, None, None)] * sum(1 for x in v.spec if x[0] == "s"),
                               P(mk("aapp", (nm + ":" + w, tt))), st, node)
                elif isinstance(v, Poly):
                    self.overwrite(v, P(mk("aapp", (nm + ":" + w, tt))), st, node)
        if self.effects is None:
            self.event(st, "call", nm, tuple(t for _, t in targs), node)
        elif fn.lang == "py":
            if self.effects.eventful(fn):
                self.event(st, "call", nm, tuple(t for _, t in targs), node)
            if vals is not None:
                self.havoc(fn, nm, tt, vals, st)
        r = P(mk("app", (nm, tt)))
        if self.trycalls is not None:
            self.trycalls.append(r)
        ann = fn.extra.get("returns") if fn.lang == "py" else None
        return truth(r) if isinstance(ann, ast.Name) and ann.id == "bool" else r

    effects = None

    def overwrite(self, v, new, st, node):
        """in-place write of an array known only by name"""
        a = T.single_atom(v)
        if a is not None and a.head == "attr":
            for i, c in st.heap.items():
                if isinstance(c, ObjCell) and self._field_sym(c, a.args[1]).key == v.key and a.args[1] not in c.fields or \
                        isinstance(c, ObjCell) and isinstance(c.fields.get(a.args[1]), Poly) and c.fields[a.args[1]].key == v.key:
                    c = c.copy()
                    c.fields[a.args[1]] = new if const_val(st.gate) == 1 else st.gate * new + (ONE - st.gate) * v
                    st.heap[i] = c
                    return
        self.event(st, "write", "", (v, new), node)
        for k, x in list(st.env.items()):
            if isinstance(x, Poly) and x.key == v.key:
                st.env[k] = new if const_val(st.gate) == 1 else st.gate * new + (ONE - st.gate) * v

    def havoc(self, fn, nm, tt, vals, st):
        """fields of the receiver (and of written arguments) take an unknown value determined by the call"""
        for prm in fn.params:
            v = vals.get(prm.name)
            if isinstance(v, Poly):
                v = self.untern(v)
            if not isinstance(v, Ref):
                continue
            c = st.heap.get(v.id)
            if prm is fn.params[0] and fn.cls and isinstance(c, ObjCell):
                fl = self.effects.mods(c.cls, fn)
            elif prm.name in self.effects.args_written(fn):
                fl = None
            else:
                continue
            if isinstance(c, ObjCell):
                if fl is None:
                    fl = {"?"}
                if not fl:
                    continue
                c = c.copy()
                post = P(mk("post", (nm, tt, prm.name)))
                g = st.rgate(self.born.get(v.id, ()))
                g1 = const_val(g) == 1
                prev = self.field_default(c, "$log") if "$log" not in c.fields else c.fields["$log"]
                if "?" in fl:
                    fl = self.effects.mutable(c.cls)
                for f in sorted(c.fields):
                    if f in fl:
                        new = P(mk("attr", (post, f)))
                        c.fields[f] = new if g1 else self.merge_vals(g, new, c.fields[f], st)
                self.postmods[T.single_atom(post).key] = (frozenset(fl), prev)
                c.fields["$log"] = post if g1 else self.merge_vals(g, post, prev, st)
                st.heap[v.id] = c
            elif isinstance(c, ArrCell):
                self.write_cell(v.id, c.copy(base=P(mk("post", (nm, tt, prm.name))), effs=()), st)

    # ------------------------------------------------------------ external functions
    def np_unary(self, name, v, st):
        f = PURE_UN[{"imag": "imag", "real": "real"}.get(name, name)]
        if self.lang() in ("cy", "f90", "spec"):
            a = None if isinstance(v, Poly) else self.av(v, st)
            if a is not None:
                return AV(a.rank, a.shape, lambda ix: f(a.f(ix)), a.kind)
        return f(self.num(v, st))

    def call_ext(self, q, args, kwargs, st, node):
        last = q.split(".")[-1].split(":")[-1]
        root = q.split(".")[0].split(":")[0]
        if root == "builtins":
            m = getattr(self, "b_" + last, None)
            if m is not None:
                return m(args, kwargs, st, node)
        if last in PURE_UN and len(args) == 1:
            return self.np_unary(last, args[0], st)
        if last in EXT_UN and len(args) == 1:
            return self.ext_un(EXT_UN[last], args[0], st)
        m = getattr(self, "np_" + last, None)
        if m is not None and root in ("numpy", "np"):
            r = m(args, kwargs, st, node)
            if r is not None:
                return r
        if last in ("pow", "power") and len(args) == 2:
            return self.pow(self.num(args[0], st), self.num(args[1], st))
        if root == "c":
            m = getattr(self, "b_" + last, None)
            if m is not None:
                return m(args, kwargs, st, node)
        if last in ("append", "shuffle", "put") and root == "numpy" and False:
            pass
        if last == "defaultdict" and len(args) == 1 and not kwargs and isinstance(args[0], ExtV) and \
                args[0].qual.split(".")[-1] in ("int", "float", "complex"):
            return self.alloc(st, ArrCell(ZERO, (), None, "any", None, DefaultDict("dict")))
        t = tuple(self.term(a, st) for a in args) + tuple((k, self.term(v, st)) for k, v in sorted(kwargs.items()))
        if self.effects is not None:
            if last in self.effects.ext_impure and last != "print":
                self.event(st, "ext", last, t, node)
        elif root not in ("numpy", "np", "math", "scipy", "builtins", "c", "cmath", "itertools", "copy"):
            self.event(st, "ext", q, t, node)
        return P(mk("ext:" + last, t))

    def ext_un(self, nm, v, st):
        a = None
        if self.lang() in ("cy", "f90", "spec") and not isinstance(v, Poly):
            a = self.av(v, st)
        dt = "int" if nm in ("nint",) else "real"

        def f(x):
            if nm == "floor" and dtype_of(x) == "int":
                return x
            return lift(x, lambda y: P(mk(nm, (y,), dt if dtype_of(y) in ("int", "real") else "any")))
        if a is not None:
            return AV(a.rank, a.shape, lambda ix: f(a.f(ix)), a.kind)
        return f(self.num(v, st))

    # builtins
    def b_range(self, args, kw, st, node):
        a = [self.num(x, st) for x in args]
        if len(a) == 1:
            return RangeV(ZERO, a[0], ONE)
        if len(a) == 2:
            return RangeV(a[0], a[1], ONE)
        return RangeV(a[0], a[1], a[2])

    b_prange = b_range

    def b_len(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Poly):
            v = self.untern(v)
        if isinstance(v, Tup):
            return P(len(v.items))
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ArrCell):
                if c.shape is not None and c.shape[0] is not None and c.ctype != "dict":
                    return c.shape[0]
                return T.mk_len(c.term())
            if isinstance(c, ObjCell) and c.cls is not None:
                m = self.p.method(c.cls, "__len__")
                if m is not None:
                    return self.call_func(m, [], {}, st, node, self_=v)
        if isinstance(v, Iter):
            return v.n
        if isinstance(v, RangeV):
            return self.iter_space(v, st).n
        if isinstance(v, (View, AV)):
            a = self.av(v, st)
            if a is not None and a.shape[0] is not None:
                return a.shape[0]
        return self.len_of(self.term(v, st))

    def b_abs(self, args, kw, st, node):
        return self.np_unary("abs", args[0], st)

    def b_getattr(self, args, kw, st, node):
        nm = str_const(args[1]) if len(args) == 2 else None
        if nm is None:
            return P(mk("ext:getattr", tuple(self.term(a, st) for a in args)))
        return self.getattr(args[0], nm, st, node)

    def b_setattr(self, args, kw, st, node):
        nm = str_const(args[1]) if len(args) == 3 else None
        if nm is None:
            raise Unsupported("setattr with a computed name")
        self.setattr(args[0], nm, args[2], st, node)
        return NONE

    def b_str(self, args, kw, st, node):
        if not args:
            return lit("s:")
        return str_join([self.term(args[0], st)])

    def b_int(self, args, kw, st, node):
        if not args:
            return ZERO
        v = self.num(args[0], st)
        if const_val(v) is not None:
            return P(int(const_val(v)))
        if dtype_of(v) == "int":
            return v
        return lift(v, lambda x: x if dtype_of(x) == "int" else P(mk("trunc", (x,), "int")))

    def b_float(self, args, kw, st, node):
        if not args:
            return ZERO
        return self.num(args[0], st)

    def b_complex(self, args, kw, st, node):
        a = [self.num(x, st) for x in args]
        return a[0] if len(a) == 1 else a[0] + I * a[1]

    def b_bool(self, args, kw, st, node):
        return truth(self.cond_term(args[0], st))

    def b_str(self, args, kw, st, node):
        return P(mk("str", (self.term(args[0], st),)))

    def b_print(self, args, kw, st, node):
        self.event(st, "print", "print", (), node)
        return NONE

    def b_isinstance(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Poly):
            v = self.untern(v)
        if isinstance(args[1], Tup):
            r = ZERO
            for x in args[1].items:
                e = self.b_isinstance([v, x], kw, st, node)
                r = r + e - r * e
            return r
        if isinstance(args[1], ExtV) and args[1].qual in T.EXCL:
            h = T.single_atom(v) if isinstance(v, Poly) else None
            if isinstance(v, Tup) or h is not None and h.head == "seq":
                return ONE if args[1].qual == "builtins.tuple" else ZERO
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ObjCell):
            c = st.heap[v.id]
            if c.cls is not None and isinstance(args[1], ClsV):
                return ONE if args[1].cls in self.p.mro(c.cls) else ZERO
        return P(mk("isinst", (self.term(v, st), self.term(args[1], st)), "int"))

    def b_tuple(self, args, kw, st, node):
        if not args:
            return Tup([])
        v = args[0]
        if isinstance(v, Poly):
            v = self.untern(v)
        if isinstance(v, Tup):
            return v
        if isinstance(v, Iter):
            return v
        return P(mk("seq", (self.term(v, st),)))

    def b_list(self, args, kw, st, node):
        if not args:
            return self.alloc(st, ArrCell(ZERO, (), (ZERO,), "any", None, "list"))
        return self.b_tuple(args, kw, st, node)

    def b_dict(self, args, kw, st, node):
        if not args and not kw:
            return self.alloc(st, ArrCell(ZERO, (), None, "any", None, "dict"))
        pairs = []
        if len(args) == 1:
            v = self.untern(args[0]) if isinstance(args[0], Poly) else args[0]
            if isinstance(v, Iter) and const_val(v.n) is not None and const_val(v.n) <= 16:
                v = Tup([v.item(P(k)) for k in range(int(const_val(v.n)))])
            for x in v.items if isinstance(v, Tup) else [None]:
                x = self.untern(x) if isinstance(x, Poly) else x
                pairs.append(tuple(x.items) if isinstance(x, Tup) and len(x.items) == 2 else None)
        if not args or None not in pairs:
            pairs += [(lit("s:" + k), v) for k, v in kw.items()]
            effs = tuple(mk_eff("set", [], (self.term(k, st),), self.ref_term(v, st), ONE) for k, v in pairs)
            return self.alloc(st, ArrCell(ZERO, effs, None, "any", None, "dict"))
        return P(mk("ext:dict", tuple(self.term(a, st) for a in args) + tuple((k, self.term(v, st)) for k, v in sorted(kw.items()))))

    def b_set(self, args, kw, st, node):
        if not args:
            return self.alloc(st, ArrCell(lit("emptyset"), (), None, "any", None, "set"))
        return P(mk("setof", (self.term(args[0], st),)))

    def b_enumerate(self, args, kw, st, node):
        it = self.iter_space(args[0], st)
        s = self.num(args[1], st) if len(args) > 1 else (self.num(kw["start"], st) if "start" in kw else ZERO)
        return Iter(it.n, lambda k: Tup([k + s, it.item(k)]))

    def b_zip(self, args, kw, st, node):
        its = [self.iter_space(a, st) for a in args]
        return Iter(its[0].n, lambda k: Tup([i.item(k) for i in its]))

    def b_reversed(self, args, kw, st, node):
        it = self.iter_space(args[0], st)
        return Iter(it.n, lambda k: it.item(it.n - ONE - k))

    def b_map(self, args, kw, st, node):
        it = self.iter_space(args[1], st)
        return Iter(it.n, lambda k: self.call(args[0], [it.item(k)], {}, st, node))

    def b_sum(self, args, kw, st, node):
        it = self.iter_space(args[0], st)
        c = const_val(it.n)
        start = self.num(args[1], st) if len(args) > 1 else ZERO
        if c is not None and c <= 12:
            r = start
            for k in range(int(c)):
                r = r + self.num(it.item(P(k)), st)
            return r
        i = fresh()
        return start + mk_sum(i, ZERO, it.n, self.num(it.item(P(i)), st))

    def b_all(self, args, kw, st, node):
        it = self.iter_space(args[0], st)
        c = const_val(it.n)
        if c is not None and c <= 12:
            r = ONE
            for k in range(int(c)):
                r = r * truth(self.num(it.item(P(k)), st))
            return r
        i = fresh()
        return T.mk_all(i, ZERO, it.n, truth(self.num(it.item(P(i)), st)))

    def b_any(self, args, kw, st, node):
        it = self.iter_space(args[0], st)
        c = const_val(it.n)
        if c is not None and c <= 12:
            r = ONE
            for k in range(int(c)):
                r = r * (ONE - truth(self.num(it.item(P(k)), st)))
            return ONE - r
        i = fresh()
        return ONE - T.mk_all(i, ZERO, it.n, ONE - truth(self.num(it.item(P(i)), st)))

    def minmax(self, args, st, mx):
        if len(args) == 1:
            v = self.untern(args[0]) if isinstance(args[0], Poly) else args[0]
            if isinstance(v, Tup):
                args = list(v.items)
            else:
                return P(mk("max" if mx else "min", (self.term(args[0], st),)))
        r = self.num(args[0], st)
        for x in args[1:]:
            y = self.num(x, st)
            d = r - y
            if is_const(d):
                c = const_val(d)
                r = r if (c >= 0) == mx else y
                continue
            g = lt0(d) if mx else lt0(-d)     # r<y -> y for max
            r = g * y + (ONE - g) * r
        return r

    def b_max(self, args, kw, st, node):
        return self.minmax(args, st, True)

    def b_min(self, args, kw, st, node):
        return self.minmax(args, st, False)

    def b_hasattr(self, args, kw, st, node):
        return P(mk("bool", ("hasattr", self.term(args[0], st), self.term(args[1], st)), "int"))

    def b_sorted(self, args, kw, st, node):
        return P(mk("sorted", (self.term(args[0], st),) + tuple((k, self.term(v, st)) for k, v in sorted(kw.items()))))

    def b_round(self, args, kw, st, node):
        return P(mk("round", tuple(self.num(a, st) for a in args)))

    def b_divmod(self, args, kw, st, node):
        a, b = self.num(args[0], st), self.num(args[1], st)
        return Tup([floordiv(a, b), mod_(a, b)])

    def b_hash(self, args, kw, st, node):
        return P(mk("hash", (self.term(args[0], st),)))

    def b_id(self, args, kw, st, node):
        v = self.untern(args[0]) if isinstance(args[0], Poly) else args[0]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ObjCell):
            return P(mk("id", (st.heap[v.id].ident,)))
        return P(mk("id", (self.term(args[0], st),)))

    def b_type(self, args, kw, st, node):
        return P(mk("type", (self.term(args[0], st),)))

    # numpy
    def np_array(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Poly):
            v = self.untern(v)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ArrCell):
                return self.alloc(st, ArrCell(c.base, c.effs, c.shape, c.kind, c.rank, "arr"))
        if isinstance(v, Tup) and v.items and all(isinstance(x, Poly) for x in v.items):
            effs = tuple(mk_eff("set", [], (P(k),), x, ONE) for k, x in enumerate(v.items))
            if any(self.untern(x) is not x for x in v.items):
                return self.term(v, st)
            return self.alloc(st, ArrCell(ZERO, effs, (P(len(v.items)),), "any", 1))
        if isinstance(v, Tup) and v.items and all(isinstance(x, Tup) and all(isinstance(y, Poly) for y in x.items) for x in v.items) \
                and len({len(x.items) for x in v.items}) == 1:
            effs = tuple(mk_eff("set", [], (P(k), P(l)), y, ONE) for k, x in enumerate(v.items) for l, y in enumerate(x.items))
            return self.alloc(st, ArrCell(ZERO, effs, (P(len(v.items)), P(len(v.items[0].items))), "any", 2))
        return self.term(v, st)

    def np_asarray(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Ref):
            return v
        return self.np_array(args, kw, st, node)

    np_ascontiguousarray = np_asarray
    np_copy = np_array

    def shape_of_arg(self, v, st):
        if isinstance(v, Poly):
            v = self.untern(v)
        if isinstance(v, Tup):
            return tuple(self.num(x, st) for x in v.items)
        if isinstance(v, Poly):
            a = None
            if len(v.m) == 1:
                (mono, c), = v.m.items()
                if len(mono) == 1 and mono[0][0].head in ("shapeof",):
                    return None
            return (v,)
        return None

    def np_alloc(self, base, args, kw, st, kind="any"):
        v = args[0] if args else kw.get("shape")
        dt = kw.get("dtype", args[1] if len(args) > 1 else None)
        if dt is not None:
            t = self.term(dt, st)
            s = repr(t)
            kind = "complex" if "complex" in s else "int" if "int" in s else "real" if "float" in s else kind
        elif kind == "any":
            kind = "real"
        shape = self.shape_of_arg(v, st)
        if shape is None:
            return self.alloc(st, ArrCell(base, (), None, kind, None))
        return self.alloc(st, ArrCell(base, (), shape, kind, len(shape)))

    def np_zeros(self, args, kw, st, node):
        return self.np_alloc(ZERO, args, kw, st)

    def np_ones(self, args, kw, st, node):
        return self.np_alloc(ONE, args, kw, st)

    def np_empty(self, args, kw, st, node):
        return self.np_alloc(P(mk("undef", ("empty",))), args, kw, st)

    def np_eye(self, args, kw, st, node):
        n = const_val(args[0]) if len(args) == 1 and isinstance(args[0], Poly) else None
        if n is None or n > 4 or set(kw) - {"dtype"}:
            return None
        n = int(n)
        effs = tuple(mk_eff("set", [], (P(k), P(k)), ONE, ONE) for k in range(n))
        return self.alloc(st, ArrCell(ZERO, effs, (P(n), P(n)), "any", 2))

    np_identity = np_eye

    def np_full(self, args, kw, st, node):
        return self.np_alloc(self.num(args[1], st), [args[0]], kw, st)

    def np_zeros_like(self, args, kw, st, node):
        v = args[0]
        a = None
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ArrCell):
                return self.alloc(st, ArrCell(ZERO, (), c.shape, c.kind, c.rank))
        return self.alloc(st, ArrCell(ZERO, (), None, "any", None))

    def np_sum(self, args, kw, st, node):
        if kw or len(args) > 1:
            return None
        a = self.av(args[0], st)
        if a is not None and a.rank >= 1 and all(x is not None for x in a.shape):
            vs = [fresh() for _ in range(a.rank)]
            t = a.f([P(v) for v in vs])
            for v, n in reversed(list(zip(vs, a.shape))):
                t = mk_sum(v, ZERO, n, t)
            return t
        if isinstance(args[0], Iter):
            return self.b_sum(args, kw, st, node)
        return P(mk("ext:sum", (self.term(args[0], st),)))

    def np_prod(self, args, kw, st, node):
        if kw or len(args) > 1:
            return None
        v = self.untern(args[0]) if isinstance(args[0], Poly) else args[0]
        if isinstance(v, Tup):
            r = ONE
            for x in v.items:
                r = r * self.num(x, st)
            return r
        a = self.av(v, st)
        if a is not None and a.rank == 1 and a.shape[0] is not None:
            n = const_val(a.shape[0])
            if n is None and self.lang() in ("cy", "spec"):
                # dim-like arrays of extent 3 are declared so by the caller through assumptions
                n = self.known_len.get(a.shape[0].key)
            if n is not None:
                r = ONE
                for k in range(int(n)):
                    r = r * a.f([P(k)])
                return r
        return P(mk("ext:prod", (self.term(v, st),)))

    known_len = {}

    def np_dot(self, args, kw, st, node):
        x, y = self.av(args[0], st), self.av(args[1], st)
        if x is not None and y is not None and x.rank == 1 and y.rank == 1:
            n = x.shape[0] if x.shape[0] is not None else y.shape[0]
            if n is not None:
                c = const_val(n)
                i = fresh()
                return mk_sum(i, ZERO, n, x.f([P(i)]) * y.f([P(i)]))
        return P(mk("matmul", (self.term(args[0], st), self.term(args[1], st))))

    np_matmul = np_dot

    def np_vdot(self, args, kw, st, node):
        x, y = self.av(args[0], st), self.av(args[1], st)
        if x is not None and y is not None and x.rank == 1 and y.rank == 1 and x.shape[0] is not None:
            i = fresh()
            return mk_sum(i, ZERO, x.shape[0], conj(x.f([P(i)])) * y.f([P(i)]))
        return None

    def np_floor(self, args, kw, st, node):
        return self.ext_un("floor", args[0], st)

    def np_maximum(self, args, kw, st, node):
        return self.minmax(args, st, True)

    def np_minimum(self, args, kw, st, node):
        return self.minmax(args, st, False)

    def np_int32(self, args, kw, st, node):
        return self.num(args[0], st) if args else None

    np_int64 = np_float64 = np_complex128 = np_int32

    def np_multiply(self, args, kw, st, node):
        return self.binop_v(ast.Mult(), args[0], args[1], st, node)

    def np_add(self, args, kw, st, node):
        return self.binop_v(ast.Add(), args[0], args[1], st, node)

    def np_subtract(self, args, kw, st, node):
        return self.binop_v(ast.Sub(), args[0], args[1], st, node)

    def np_divide(self, args, kw, st, node):
        return self.binop_v(ast.Div(), args[0], args[1], st, node)

    # ------------------------------------------------------------ methods of opaque values
    def call_method(self, o, name, args, kwargs, st, node):
        if name == "_replace" and kwargs and not args and all(k in self.p.ntup for k in kwargs):
            names = next((x for x in self.p.ntup_decl if set(kwargs) <= set(x)), None)
            if names is not None:
                return Tup([kwargs[x] if x in kwargs else self.subscript(o, [P(k)], st) for k, x in enumerate(names)])
        if name == "format" and not kwargs and str_const(o) is not None:
            r = str_format(str_const(o), [self.term(a, st) for a in args])
            if r is not None:
                return r
        if name in ("conj", "conjugate") and not args:
            return self.np_unary("conj", o, st)
        if name in ("copy", "tolist", "flatten", "ravel") and not args:
            if isinstance(o, Ref):
                c = st.heap[o.id]
                if isinstance(c, ArrCell):
                    return self.alloc(st, c.copy())
            if name == "copy" and isinstance(o, Poly) and self.lang() == "py" and self.ctype_of(o) is None:
                return self.alloc(st, ArrCell(o, (), None, "any", None))
            return self.term(o, st)
        if name == "astype":
            return o
        if name == "sum" and not args and not kwargs:
            return self.np_sum([o], {}, st, node)
        if name == "dot":
            return self.np_dot([o] + args, {}, st, node)
        if name in ("append", "extend", "pop", "update", "add", "remove", "clear", "insert", "setdefault", "sort", "fill", "discard"):
            o2 = self.untern(o) if isinstance(o, Poly) else o
            if name == "extend" and len(args) == 1 and isinstance(o2, Ref) and isinstance(st.heap.get(o2.id), ArrCell) and \
                    st.heap[o2.id].shape is not None and st.heap[o2.id].ctype == "list":
                nm = "$ext%d" % self.newid()
                env = dict(st.env)
                st.env[nm], st.env[nm + "i"] = o2, args[0]
                f = ast.For(ast.Name(nm + "v", ast.Store()), ast.Name(nm + "i", ast.Load()), [ast.Expr(ast.Call(ast.Attribute(
                    ast.Name(nm, ast.Load()), "append", ast.Load()), [ast.Name(nm + "v", ast.Load())], []))], [])
                ast.fix_missing_locations(ast.copy_location(f, node))
                self.s_For(f, st)
                st.env = env
                return NONE
            if isinstance(o2, Tup) and self.lang() == "py":
                raise Unsupported("%s of a list display" % name)
            if isinstance(o2, Ref) or not isinstance(o2, (Tup,)):
                if name == "sort" and not args and isinstance(o2, Ref) and isinstance(st.heap.get(o2.id), ArrCell) and self.lang() == "py" and \
                        st.heap[o2.id].ctype == "list":
                    v = self.b_sorted([o2], kwargs, st, node)
                    self.write_cell(o2.id, st.heap[o2.id].copy(base=self.term(v, st), effs=()), st)
                    return NONE
                if isinstance(o2, Ref) and isinstance(st.heap.get(o2.id), ArrCell):
                    if name == "fill":
                        c = st.heap[o2.id]
                        self.write_cell(o2.id, c.copy(base=self.num(args[0], st), effs=()), st)
                        return NONE
                    return self.mutate_opaque(o2, name, [self.ref_term(a, st) for a in args], st, node)
                return self.mutate_opaque(o2, name, [self.ref_term(a, st) for a in args], st, node)
        if name == "item" and len(args) > 1 and not kwargs:
            return self.subscript(o, [a if isinstance(a, Poly) else self.term(a, st) for a in args], st)
        if name == "item" and len(args) == 1:
            return self.subscript(o, list(self.untern(args[0]).items) if isinstance(args[0], Poly) and isinstance(self.untern(args[0]), Tup)
                                  else (list(args[0].items) if isinstance(args[0], Tup) else args), st)
        if name == "get" and args and not kwargs:
            g = self.contains(args[0], o, st)
            ix = list(args[0].items) if isinstance(args[0], Tup) else [args[0]]
            return self.merge_vals(g, self.subscript(o, [i if isinstance(i, Poly) else self.term(i, st) for i in ix], st), args[1] if len(args) > 1 else NONE, st)
        if name in ("items", "keys", "values") and not args:
            t = self.term(o, st)
            o2 = self.untern(o) if isinstance(o, Poly) else o
            if isinstance(o2, Ref) and isinstance(st.heap.get(o2.id), ArrCell) and st.heap[o2.id].ctype == "dict":
                t = st.heap[o2.id].term()
            ks = P(mk("keys", (t,)))
            n = T.mk_len(ks)
            if name == "keys":
                return Iter(n, lambda k: self.untern(read_term(ks, (k,))))
            if name == "values":
                return Iter(n, lambda k: self.untern(read_term(t, (read_term(ks, (k,)),))))
            return Iter(n, lambda k: Tup([self.untern(read_term(ks, (k,))), self.untern(read_term(t, (read_term(ks, (k,)),)))]))
        args, kwargs = self.bind_named(name, args, kwargs, st)
        t = tuple(self.term(a, st) for a in args) + tuple((k, self.term(v, st)) for k, v in sorted(kwargs.items()))
        to = self.term(o, st)
        if self.effects is None or name in self.effects.event_names or name in self.effects.ext_impure:
            self.event(st, "method", name, (to,) + t, node)
        if self.effects is not None and self.lang() == "py":
            for k, a in list(enumerate(args)) + sorted(kwargs.items()):
                if isinstance(a, Poly):
                    a = self.untern(a)
                if isinstance(a, Ref) and isinstance(st.heap.get(a.id), ArrCell) and self.effects.method_writes(name, k):
                    self.write_cell(a.id, st.heap[a.id].copy(base=P(mk("aapp", ("m:%s:%s" % (name, k), (("self", to),) + t))), effs=()), st)
        return P(mk("m:" + name, (to,) + t))

    def bind_named(self, name, args, kwargs, st):
        """arguments of a method of an unknown receiver, in the order and with the defaults of the only signature the
        program has for that method name"""
        fs = self.types.sigs.get(name)
        if not fs or "**" in kwargs:
            return args, kwargs
        sgs = {tuple((p.name, p.kind, ast.dump(p.default) if p.default is not None else None) for p in f.params[1:]) for f in fs
               if "staticmethod" not in f.decorators}
        if len(sgs) != 1:
            return args, kwargs
        ps = fs[0].params[1:]
        if any(p.kind not in ("pos", "kwonly") for p in ps) or len(args) > len(ps):
            return args, kwargs
        out = list(args)
        kw = dict(kwargs)
        for p in ps[len(args):]:
            if p.name in kw:
                out.append(kw.pop(p.name))
            elif p.default is not None and isinstance(p.default, (ast.Constant, ast.UnaryOp)):
                out.append(self.eval(p.default, st))
            else:
                return args, kwargs
        if kw:
            return args, kwargs
        return out, {}

    # ------------------------------------------------------------ Fortran calls
    def f90_call(self, fv, n, st):
        if isinstance(n.func, ast.Name) and n.func.id == "range":
            return self.b_range([self.eval(a, st) for a in n.args], {}, st, n)
        args = []
        for a in n.args:
            if isinstance(a, ast.Name) and a.id in st.env:
                args.append(st.env[a.id])
            elif isinstance(a, ast.Subscript):
                args.append(self.eval_view(a, st))
            else:
                args.append(self.eval(a, st))
        kw = {k.arg: self.eval(k.value, st) for k in n.keywords}
        if isinstance(fv, FnV):
            return self.f90_invoke(fv.func, args, kw, n, st)
        if isinstance(fv, ExtV):
            q = fv.qual
            if q.startswith("f90gen:"):
                return self.f90_generic(self.p.f90_generics[q[7:]], args, st, n, q[7:])
            return self.f90_intrinsic(q.split(":")[-1], args, kw, n, st)
        if isinstance(fv, Poly):
            raise Unsupported("call of %r" % n.func)
        raise Unsupported("call")

    def f90_generic(self, specs, args, st, n, name):
        for sp in specs:
            f = self.p.f90.get(sp)
            if f is None or len(f.params) < len(args):
                continue
            if all(self.f90_match(prm.type, a, st) for prm, a in zip(f.params, args)):
                return self.f90_invoke(f, args, {}, n, st)
        # fall back on rank only
        for sp in specs:
            f = self.p.f90.get(sp)
            if f is not None and len(f.params) == len(args) and \
                    all(self.f90_match(prm.type, a, st, True) for prm, a in zip(f.params, args)):
                return self.f90_invoke(f, args, {}, n, st)
        raise Unsupported("no specific procedure for %s" % name)

    def f90_match(self, t, a, st, loose=False):
        rank, kind = 0, "any"
        if isinstance(a, Ref):
            c = st.heap[a.id]
            if isinstance(c, ObjCell):
                return bool(t.extra.get("derived"))
            rank, kind = c.rank or 1, c.kind
        elif isinstance(a, (View, AV)):
            x = self.av(a, st)
            rank = x.rank
            kind = x.kind
            if kind == "any":
                kind = dtype_of(x.f([P(fresh()) for _ in range(rank)]))
        elif isinstance(a, Poly):
            rank = 0
            kind = dtype_of(a)
            if kind == "int":
                kind = "real?"
            if t.extra.get("derived"):
                x = T.single_atom(a)
                return x is not None and x.head in ("app", "aapp", "attr", "sym", "post")
        if rank != t.rank or t.extra.get("derived"):
            return False
        if loose or kind == "any":
            return True
        if kind == "real?":
            return t.kind in ("int", "real")
        return kind == t.kind

    def f90_invoke(self, fn, args, kw, n, st):
        if fn.name in self.opaque or self.stack.count(fn.qual) or len(self.stack) >= self.max_depth:
            return self.f90_opaque(fn, args, kw, n, st)
        vals, back = {}, []
        params = {prm.name: prm for prm in fn.params}
        named = list(zip([prm.name for prm in fn.params], args, n.args)) + \
            [(k, v, next(x.value for x in n.keywords if x.arg == k)) for k, v in kw.items()]
        for nm, v, an in named:
            prm = params[nm]
            if prm.type.rank:
                if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ArrCell):
                    vals[nm] = v
                else:
                    a = self.av(v, st)
                    if a is not None:
                        cell = ArrCell(self.freeze_av(a), (), a.shape, a.kind if a.kind != "any" else prm.type.kind, a.rank)
                    else:
                        cell = ArrCell(self.num(v, st), (), None, prm.type.kind, prm.type.rank)
                    r = self.alloc(st, cell)
                    vals[nm] = r
                    if isinstance(v, View):
                        back.append(("view", v, r, cell))
            else:
                vals[nm] = v if isinstance(v, Ref) else self.num(v, st)
                if isinstance(an, (ast.Name, ast.Subscript)) and not isinstance(v, Ref) and prm.intent != "in":
                    back.append(("scalar", an, nm, vals[nm]))
        hook = self.hooks.get(fn.name)
        if hook is not None:
            out = hook(self, fn, [vals[prm.name] for prm in fn.params if prm.name in vals], {}, st, n, None)
            self.callee_env = dict(vals)
        else:
            out = self.call_bound(fn, vals, st)
        env = self.callee_env
        for b in back:
            if b[0] == "view":
                _, v, r, cell = b
                c = st.heap[r.id]
                if c is not cell and c.term().key != cell.term().key:
                    self.store(v, [SliceV(None, None, None)] * sum(1 for x in v.spec if x[0] == "s"), r, st, n)
            else:
                _, an, nm, old = b
                new = env.get(nm)
                if isinstance(new, Poly) and new.key != old.key:
                    t = _as_store(an)
                    self.assign(t, new, st, n)
        if isinstance(out, Ref):
            c = st.heap[out.id]
            if isinstance(c, ArrCell):
                base, effs, kind = c.base, c.effs, c.kind
                return AV(c.rank, c.shape or (None,) * c.rank, lambda ix: aread(base, effs, ix, kind), kind)
        return out

    def f90_opaque(self, fn, args, kw, n, st):
        targs = tuple((prm.name, self.deep(a, st)) for prm, a in zip(fn.params, args) if prm.intent != "out")
        for prm, a, an in zip(fn.params, args, n.args):
            if prm.intent in ("out", "inout"):
                if prm.type.rank:
                    v = P(mk("aapp", (fn.name + ":" + prm.name, targs), prm.type.kind))
                    if isinstance(a, Ref):
                        c = st.heap[a.id]
                        self.write_cell(a.id, c.copy(base=v, effs=()), st)
                    elif isinstance(a, View):
                        av = AV(prm.type.rank, [s[2] for s in a.spec if s[0] == "s"], lambda ix: read_term(v, ix), prm.type.kind)
                        self.store(a, [SliceV(None, None, None)] * prm.type.rank, av, st, n)
                else:
                    self.assign(_as_store(an), P(mk("app", (fn.name + ":" + prm.name, targs), prm.type.kind)), st, n)
        if fn.result:
            t = fn.types.get(fn.result)
            if t is not None and t.rank:
                v = P(mk("aapp", (fn.name, targs), t.kind))
                shape = None
                for a in args:
                    x = self.av(a, st)
                    if x is not None and x.rank == t.rank:
                        shape = x.shape
                return AV(t.rank, shape or (None,) * t.rank, lambda ix: read_term(v, ix, t.kind), t.kind)
            return P(mk("app", (fn.name, targs), t.kind if t is not None else "any"))
        return NONE

    def f90_intrinsic(self, nm, args, kw, n, st):
        if nm in ("real", "dble", "dreal") and args:
            v = args[0]
            a = None if isinstance(v, Poly) else self.av(v, st)
            if a is not None:
                return AV(a.rank, a.shape, lambda ix: re_(a.f(ix)), "real")
            return re_(self.num(v, st)) if dtype_of(self.num(v, st)) not in ("int", "real") else self.num(v, st)
        if nm in PURE_UN and len(args) == 1:
            return self.np_unary(nm, args[0], st)
        if nm in EXT_UN and len(args) == 1:
            return self.ext_un(EXT_UN[nm], args[0], st)
        if nm in ("cmplx", "dcmplx"):
            a = [self.num(x, st) for x in args]
            return a[0] if len(a) == 1 else a[0] + I * a[1]
        if nm in ("mod", "modulo"):
            return mod_(self.num(args[0], st), self.num(args[1], st))
        if nm == "int":
            return self.b_int(args, kw, st, n)
        if nm in ("min", "max", "dmin1", "dmax1"):
            return self.minmax(args, st, "max" in nm)
        if nm == "size":
            a = self.av(args[0], st)
            if a is None:
                raise Unsupported("size")
            if len(args) > 1:
                return a.shape[int(const_val(self.num(args[1], st))) - 1]
            r = ONE
            for x in a.shape:
                if x is None:
                    raise Unsupported("size of unknown shape")
                r = r * x
            return r
        if nm == "sum":
            r = self.np_sum([args[0]], {}, st, n)
            return r
        if nm == "dot_product":
            x, y = self.av(args[0], st), self.av(args[1], st)
            i = fresh()
            return mk_sum(i, ZERO, x.shape[0], conj(x.f([P(i)])) * y.f([P(i)]))
        if nm == "random_number":
            rng = st.env.get("@rng")
            s = self.rng_state(st)
            v = P(mk("rnd", (s,), "real"))
            self.set_rng(st, P(mk("rndnext", (s,))))
            self.assign(_as_store(n.args[0]), v, st, n)
            return NONE
        if nm == "random_seed":
            for k in n.keywords:
                if k.arg == "size":
                    self.assign(_as_store(k.value), P(sym("rngsize", "int")), st, n)
                elif k.arg == "put":
                    self.set_rng(st, P(mk("seeded", (self.num(kw["put"], st),))))
            if not n.keywords:
                self.set_rng(st, P(mk("unseeded", ())))
            return NONE
        if nm in ("associated", "allocated", "present"):
            return P(mk("bool", (nm,) + tuple(self.term(a, st) for a in args), "int"))
        if nm in ("trim", "adjustl", "__concat", "kind", "epsilon", "tiny", "huge", "selected_real_kind"):
            return P(mk("ext:" + nm, tuple(self.term(a, st) for a in args)))
        if nm == "atan2":
            return P(mk("atan2", tuple(self.term(a, st) for a in args), "real"))
        # external procedure: arrays passed may be overwritten
        t = tuple(self.term(a, st) for a in args)
        for k, a in enumerate(args):
            if isinstance(a, Ref) and isinstance(st.heap.get(a.id), ArrCell):
                c = st.heap[a.id]
                self.write_cell(a.id, c.copy(base=P(mk("aapp", ("ext:%s:%d" % (nm, k), t), c.kind)), effs=()), st)
        self.event(st, "ext", nm, t, n)
        return P(mk("ext:" + nm, t))

    def rng_state(self, st):
        i = "@rng"
        if i not in st.heap:
            st.heap[i] = ArrCell(P(sym("rng0")), (), None, "any", None, "rng")
        return st.heap[i].base

    def set_rng(self, st, v):
        self.rng_state(st)
        self.write_cell("@rng", st.heap["@rng"].copy(base=v), st)


def _as_store(t):
    import copy
    t2 = copy.deepcopy(t)
    if hasattr(t2, "ctx"):
        t2.ctx = ast.Store()
    return t2


_wp = {}


def f2py_visible(fn):
    """parameters of the Python wrapper f2py makes: extents of input arrays are taken from the arrays, outputs are returned"""
    dims = set()
    for q in fn.params:
        if q.type is not None and q.type.rank and q.intent != "out":
            for d in q.type.extra.get("dims") or ():
                if isinstance(d, ast.Name):
                    dims.add(d.id.lower())
    return [q for q in fn.params if q.intent != "out" and not (q.type.rank == 0 and q.name.lower() in dims)]


def f2py_bind(fn, args, kwargs):
    vis = f2py_visible(fn)
    if len(args) > len(vis) or any(k not in {q.name for q in fn.params} for k in kwargs):
        return None
    vals = {q.name: a for q, a in zip(vis, args)}
    vals.update(kwargs)
    return vals


def written_params(proj, fn, depth=0):
    """names of array parameters a Cython kernel writes (syntactic, transitive)"""
    k = (id(proj), fn.qual)
    if k in _wp:
        return _wp[k]
    _wp[k] = set()
    out = set()
    ps = {p.name for p in fn.params}
    alias = {}
    for s in walk_stmts(fn.body):
        if isinstance(s, ast.Assign):
            tg = []
            for t in s.targets:
                tg += list(t.elts) if isinstance(t, (ast.Tuple, ast.List)) else [t]
            for t in tg:
                b = t
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(t, ast.Subscript) and isinstance(b, ast.Name) and b.id in ps:
                    out.add(b.id)
        elif isinstance(s, ast.AugAssign):
            b = s.target
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(s.target, ast.Subscript) and isinstance(b, ast.Name) and b.id in ps:
                out.add(b.id)
        for c in ast.walk(s) if not hasattr(s, "body") else ast.walk(getattr(s, "test", getattr(s, "iter", ast.Pass()))):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name):
                g = proj.cy.get(fn.module, {}).get(c.func.id)
                if g is not None and g is not fn:
                    w = written_params(proj, g, depth + 1)
                    for prm, a in zip(g.params, c.args):
                        b = a
                        while isinstance(b, ast.Subscript):
                            b = b.value
                        if prm.name in w and isinstance(b, ast.Name) and b.id in ps:
                            out.add(b.id)
    _wp[k] = out
    return out
