"""Semantic comparison of a function of /repo with its specification (a function of the specification program in
/verif/spec/ref): both are reduced to gated-value-number summaries (return value, fields written, arrays written,
exceptions and effects with their guards) and every channel must denote the same term.

Verdicts per function:
  proved    every channel has the same canonical term
  agree     the normal forms differ but random interpretation of the two terms finds no difference
  differ    some channel denotes a different term (construct reported)
  undecided construct outside the modelled fragment / vocabulary not comparable / budget
"""
import ast
import re
import time
import sys
from .project import Project
from .summ import *
from .term import Budget
from .ir import Unsupported
from .effects import Effects, unify
from .types import Types, share
from . import consteval, evalt
from . import term as T

sys.setrecursionlimit(20000)


class Key:
    """identity of a function: ('py', module, cls or None, name, kind) / ('cy', module, name) / ('f90', name)"""


def all_funcs(p):
    out = {}
    for m in p.modules.values():
        for f in m.funcs.values():
            out[("py", m.name, None, f.name, "f")] = f
        for c in m.classes.values():
            for kind, d in (("m", c.methods), ("p", c.props), ("s", c.setters)):
                for n, f in d.items():
                    out[("py", m.name, c.name, n, kind)] = f
    for mod, d in p.cy.items():
        for n, f in d.items():
            out[("cy", mod, n)] = f
    for n, f in p.f90.items():
        out[("f90", n)] = f
    return out


def kname(k):
    if k[0] == "py":
        return "%s:%s%s" % (k[1], k[2] + "." if k[2] else "", k[3])
    if k[0] == "cy":
        return "cython.%s:%s" % (k[1], k[2])
    return "fortran:%s" % k[1]


def is_private(k, f):
    if k[0] == "cy":
        return not f.public or k[2].startswith("_")
    if k[0] == "f90":
        return False
    n = k[3]
    return n.startswith("_") and not (n.startswith("__") and n.endswith("__"))


def sig(f):
    return tuple((p.name, p.kind) for p in f.params) if f.lang == "py" else tuple(
        (p.type.kind, p.type.rank) if p.type is not None else None for p in f.params)


NUMHEADS = {"ext:ceil", "ext:rint", "ext:round", "ext:sign", "ext:tan", "ext:arctan", "ext:arctan2", "ext:tanh", "ext:cosh", "ext:sinh"}


def doc_shapes(proj):
    """constant extents of array attributes documented in the class docstrings of the reference: `_x: (3,) int64 array`"""
    out, bad = {}, set()
    for m in proj.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.ClassDef):
                continue
            for nm, sh in re.findall(r"^\s*(_[A-Za-z0-9_]+): \(([0-9a-z_, ]+)\) [a-z0-9]+ array", ast.get_docstring(n) or "", re.M):
                t = tuple(int(x) if x.strip().isdigit() else None for x in sh.split(",") if x.strip())
                if nm in out and out[nm] != t:
                    bad.add(nm)
                out[nm] = t
    return {k: v for k, v in out.items() if k not in bad and any(x is not None for x in v)}


class Cmp:
    def __init__(self, ref, cur, timeout=20, seed=1):
        self.ref, self.cur = ref, cur
        self.rf, self.cf = all_funcs(ref), all_funcs(cur)
        self.reff, self.cefe = Effects(ref), Effects(cur)
        unify(self.reff, self.cefe)
        ref._types, cur._types = Types(ref), Types(cur)
        share(ref._types, cur._types)
        # effect facts of the specification win where both programs have the function
        self.timeout, self.seed = timeout, seed
        self.common = {}
        for k, f in self.rf.items():
            g = self.cf.get(k)
            if g is not None and sig(f) == sig(g):
                self.common[k] = (f, g)
        # annotations dropped by a rewrite are still what callers rely on
        for f, g in self.common.values():
            if f.lang == "py":
                mine = {p.name: p for p in g.params}
                for p in f.params:
                    q = mine.get(p.name)
                    if q is not None and q.intent is None and p.intent is not None:
                        q.intent = p.intent
                if g.extra.get("returns") is None and f.extra.get("returns") is not None:
                    g.extra["returns"] = f.extra["returns"]
        self.opq_r = {f.qual for f, g in self.common.values()} | {k[1] for k in self.common if k[0] == "f90"}
        self.opq_c = {g.qual for f, g in self.common.values()} | {k[1] for k in self.common if k[0] == "f90"}
        self.names = {k[-1] if k[0] != "py" else k[3] for k in self.rf}
        self.qual2key = {f.qual: k for k, f in self.rf.items()}
        attrs = set()
        for m in ref.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute):
                    attrs.add(x.attr)
        self.attrs = attrs
        T.ATTR_SHAPE.clear()
        T.ATTR_SHAPE.update(doc_shapes(ref))

    # -------------------------------------------------------------- lookup
    def current(self, k):
        f = self.cf.get(k)
        if f is not None:
            return f
        if k[0] == "py" and k[2]:
            c = self.cur.cls(k[2], required=False)
            if c is not None:
                if k[4] == "m":
                    return self.cur.method(c, k[3])
                if k[4] == "p":
                    return self.cur.prop(c, k[3])
        if k[0] == "py" and not k[2]:
            try:
                return self.cur.func(k[1], k[3], required=False)
            except Exception:
                return None
        return None

    def summ(self, side, k, inline, timeout=None):
        p = self.ref if side == "r" else self.cur
        f = self.rf[k] if side == "r" else self.current(k)
        cls = None
        if k[0] == "py" and k[2]:
            cls = p.cls(k[2])
        opq = set(self.opq_r if side == "r" else self.opq_c)
        for q in inline:
            pair = self.common.get(q)
            if pair:
                g = pair[0] if side == "r" else pair[1]
                opq.discard(g.qual)
                if q[0] == "f90":
                    opq.discard(q[1])
        # the function itself is never opaque at the root (call_bound is used)
        argn = None
        if side == "c" and k[0] != "py":
            argn = [x.name for x in self.rf[k].params]
        fresh0()
        sp = {x.name for x in self.rf[k].params} if side == "c" and k[0] == "py" else None
        return summarize(p, f, cls, opaque=opq, timeout=timeout or self.timeout, depth=8, argnames=argn, spec_params=sp,
                         inline_native=True, effects=self.reff if side == "r" else self.cefe)

    # -------------------------------------------------------------- comparison
    def default(self, ch, other):
        if ch.startswith("raise:"):
            return ZERO
        if ch.startswith("self."):
            return P(mk("attr", (P(sym("self")), ch[5:])))
        if ch.startswith("arg:"):
            nm = ch[4:]
            if "." in nm:
                a, b = nm.split(".", 1)
                return P(mk("attr", (P(sym(a)), b)))
            for a in atoms_of(other).values():
                if a.head == "asym" and a.args[0] == nm:
                    return P(a)
            return asym(nm)
        if ch == "return":
            return NONE
        return P(mk("evs", ((),)))

    def channels(self, a, b, k):
        known = {c for c in a.out}
        for ch in sorted(set(a.out) | set(b.out)):
            x, y = a.out.get(ch), b.out.get(ch)
            if x is None and ch.startswith("self.") and ch[5:] not in self.attrs and mangled(ch[5:]) not in self.attrs:
                continue     # a field the specification program does not know: no observer
            if x is None:
                x = self.default(ch, y)
            if y is None:
                y = self.default(ch, x)
            yield ch, x, y

    def abstract(self, f):
        """interface method without a body: its overrides matter, inlining it would lose the call"""
        if f.lang != "py" or not f.cls:
            return False
        return all(isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) or
                   isinstance(x, ast.Raise) for x in f.body)

    def vocab(self, x):
        apps, exts, attrs = set(), set(), set()
        for a in atoms_of(x).values():
            if a.head in ("app", "post"):
                apps.add(a.args[0])
            elif a.head == "aapp":
                apps.add(str(a.args[0]).split(":")[0])
            elif a.head.startswith("new_"):
                apps.add("__init__")
                exts.add(a.head)
            elif a.head == "attr":
                attrs.add(a.args[1])
            elif a.head.startswith(("ext:", "m:", "super_", "ret_", "after_")) or a.head in ("apply", "lambda", "exc", "enter", "undef", "star"):
                exts.add(a.head)
        return apps, exts, attrs

    def _dump(self, f):
        if f is None:
            return None
        body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return (tuple((p.name, ast.dump(p.default) if isinstance(p.default, ast.AST) else repr(p.default)) for p in f.params), repr(sorted(f.types.items(), key=str)) if f.types else "",
                tuple(ast.dump(s) for s in body))

    def same_source(self, k):
        """the function and all functions, classes and module data reachable from it by name have equal syntax trees"""
        if not hasattr(self, "_byname"):
            self._byname = {}
            for fs in (self.rf, self.cf):
                for q in fs:
                    self._byname.setdefault(q[-1] if q[0] != "py" else q[3], set()).add(q)
            self._data = {}
            for side, p in ((0, self.ref), (1, self.cur)):
                for m in p.modules.values():
                    for n, e in m.globs.items():
                        self._data.setdefault(n, [set(), set()])[side].add((m.name, ast.dump(e)))
                    for c in m.classes.values():
                        for n, e in c.class_attrs.items():
                            self._data.setdefault(n, [set(), set()])[side].add((m.name, c.name, ast.dump(e)))
                        self._data.setdefault(c.name, [set(), set()])[side].add((m.name, c.name, tuple(c.bases)))
        seen, todo = set(), [k]
        while todo:
            q = todo.pop()
            if q in seen:
                continue
            seen.add(q)
            f, g = self.rf.get(q), self.cf.get(q)
            if f is None or g is None or self._dump(f) != self._dump(g):
                return False
            for n in callees(f):
                d = self._data.get(n)
                if d is not None and d[0] != d[1]:
                    return False
                todo += [x for x in self._byname.get(n, ()) if x not in seen]
                if d is not None:
                    todo += [x for m in ("__init__", "__new__", "__getitem__", "__setitem__", "__hash__", "__eq__", "__len__", "__iter__") for x in self._byname.get(m, ()) if n in x and x not in seen]
        return True

    def default_changes(self, k):
        """literal default values of public parameters that are not the specified ones"""
        if k[0] != "py" or is_private(k, self.rf[k]):
            return []
        g = self.current(k)
        mine = {p.name: p for p in g.params} if g is not None else {}
        out = []
        for p in self.rf[k].params:
            q = mine.get(p.name)
            if p.default is None or q is None:
                continue
            if q.default is None:
                out.append((p.name, ast.unparse(p.default), "(no default)"))
                continue
            try:
                x, y = consteval.value(self.ref, self.rf[k].module, p.default), consteval.value(self.cur, g.module, q.default)
            except (consteval.NotConst, TypeError):
                continue
            if x is None or y is None:
                continue
            if not consteval.same(x, y):
                out.append((p.name, ast.unparse(p.default), ast.unparse(q.default)))
        return out

    def compare(self, k, inline=(), rounds=3, timeout=None):
        rec = self.compare_(k, inline, rounds, timeout)
        first = rec.pop("first", None)
        if rec["verdict"] == "undecided" and first and self.omitted(k, first[3]):
            rec["verdict"] = "differ"
            rec["channel"], rec["all_channels"] = first[0], first[4]
            rec["spec"], rec["code"] = diffshow(first[1], first[2])
        return rec

    def compare_(self, k, inline=(), rounds=3, timeout=None):
        d = self.default_changes(k)
        if d:
            return {"fn": kname(k), "file": self.rf[k].file, "rounds": 0, "channels": len(d), "verdict": "differ", "t": 0.0,
                    "channel": "default:" + d[0][0], "all_channels": ["default:" + x[0] for x in d], "spec": d[0][1], "code": d[0][2]}
        t0 = time.time()
        cpu0 = time.process_time()
        inline = set(inline)
        rec = {"fn": kname(k), "file": self.rf[k].file, "rounds": 0, "channels": 0}
        last = None
        hints = []
        for rd in range(rounds + 1):
            rec["rounds"] = rd
            try:
                a = self.summ("r", k, inline, timeout)
            except (Budget, Unsupported, RecursionError) as e:
                return self.fin(rec, last, "spec: %s %s" % (type(e).__name__, str(e)[:60]), t0)
            except Exception as e:
                return self.fin(rec, last, "spec: exc %s %s" % (type(e).__name__, str(e)[:60]), t0)
            try:
                b = self.summ("c", k, inline, timeout)
            except (Budget, Unsupported, RecursionError) as e:
                return self.fin(rec, last, "%s %s" % (type(e).__name__, str(e)[:60]), t0)
            except Exception as e:
                return self.fin(rec, last, "exc %s %s" % (type(e).__name__, str(e)[:60]), t0)
            bad, agreed, n = [], [], 0
            wit = []
            und = []
            # (a constant condition is no valuation's business)
            raised = [x for s_ in (a, b) for c_, x in s_.out.items() if c_.startswith("raise:") and const_val(x) is None]
            for ch, x, y in self.channels(a, b, k):
                n += 1
                if x.key == y.key:
                    continue
                T.DEADLINE[0] = min(time.process_time() + 30, cpu0 + 150)
                try:
                    v, d = evalt.agree(x, y, 1500, self.seed, given=None if ch.startswith("raise:") else raised, hints=hints)
                    if v is False and len(wit) < 4:
                        wit.append(evalt.WITNESS[0])
                    if v is not True and ch.startswith("raise:") and a.honest is not None and b.honest is not None:
                        # raised first: independent of how earlier checks are nested
                        hx, hy = a.honest.get(ch[6:], ZERO), b.honest.get(ch[6:], ZERO)
                        v2 = True if hx.key == hy.key else evalt.agree(hx, hy, 1500, self.seed, hints=hints)[0]
                        if v2 is False and len(wit) < 4:
                            wit.append(evalt.WITNESS[0])
                        v = True if v2 is True else (None if v is None or v2 is None else False)
                except (Budget, RecursionError, MemoryError):
                    v = None
                if v is True:
                    agreed.append(ch)
                elif v is None:
                    und.append((ch, x, y))
                else:
                    bad.append((ch, x, y))
            hints = (hints + wit)[:6]
            rec["channels"] = n
            rec["agreed"] = len(agreed)
            if not bad and not und:
                rec["verdict"] = "proved" if not agreed else "agree"
                rec["t"] = time.time() - t0
                return rec
            if not bad and last is not None and not last[2] and not agreed:
                # expanding callees that both versions use alike did not settle it: the difference before stands
                return self.fin(rec, last, "terms not evaluable: " + ",".join(c for c, _, _ in und), t0)
            if not bad:
                rec["verdict"] = "undecided"
                rec["why"] = "terms not evaluable: " + ",".join(c for c, _, _ in und)
                rec["t"] = time.time() - t0
                return rec
            # vocabulary and names involved
            sums_r = [self.vocab(x) for x in a.out.values()]
            ext_r = set().union(*[s[1] for s in sums_r]) if sums_r else set()
            dif, allapps = set(), set()
            problems = []
            good = []
            for ch, x, y in bad:
                ax, ex, tx = self.vocab(x)
                ay, ey, ty = self.vocab(y)
                evn = ch.split(":", 1)[1] if ch.startswith(("call:", "new:", "method:")) else None
                if evn:
                    ax, ay = ax | ({evn} if ch in a.out else set()), ay | ({evn} if ch in b.out else set())
                dif |= ax ^ ay
                allapps |= ax | ay
                nx = ey - ext_r
                na = {t for t in ty if t not in self.attrs and mangled(t) not in self.attrs and t not in tx}
                if nx or na:
                    problems.append("%s: new operations %s" % (ch, sorted(nx | na)))
                else:
                    good.append((ch, x, y))
            last = (good, problems, dif, a, b)
            if rd == 0 and good:
                rec["first"] = good[0] + (dif, [c_ for c_, _, _ in good])
            cand = dif or allapps
            nxt = set()
            for q, (f, g) in self.common.items():
                nm = q[3] if q[0] == "py" else q[-1]
                if nm in cand and q not in inline and q != k and not self.abstract(f):
                    nxt.add(q)
            if not nxt and rd < rounds:
                # helpers that validate: what holds after them is only visible in their bodies
                used = a.opaque_used | b.opaque_used
                for q, (f, g) in self.common.items():
                    nm = q[3] if q[0] == "py" else q[-1]
                    if nm in used and q not in inline and q != k and q[0] == "py" and not self.abstract(f) and \
                            any(isinstance(x, ast.Raise) for s_ in f.body for x in ast.walk(s_)) and \
                            sum(1 for s_ in f.body for _ in ast.walk(s_)) < 200:
                        nxt.add(q)
            if not nxt or rd == rounds:
                break
            inline |= nxt
        return self.fin(rec, last, None, t0)

    def binds(self, k, q):
        """a call of q's name on the receiver of k can reach q (and not an override or an overridden version)"""
        if k[0] != "py" or q[0] != "py" or not k[2] or not q[2]:
            return True
        c = self.ref.cls(k[2], required=False)
        if c is None:
            return True
        m = self.ref.method(c, q[3])
        return m is None or m is self.rf.get(q) or getattr(m, "cls", None) in (q[2], None) or \
            getattr(getattr(m, "cls", None), "name", None) == q[2]

    def omitted(self, k, dif):
        """the code is the specification without some statements, nothing is added, and what they called is not
        reached in any other way"""
        f, g = self.rf.get(k), self.current(k)
        if f is None or g is None or not dif:
            return False
        import collections
        simple = (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return, ast.Raise, ast.Pass)

        def stmts(fn):
            out = collections.Counter()
            for s_ in fn.body:
                for x in ast.walk(s_):
                    if isinstance(x, ast.Pass) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                        continue
                    if isinstance(x, simple):
                        out[ast.dump(x)] += 1
                    elif isinstance(x, (ast.If, ast.While)):
                        out["%s %s" % (type(x).__name__, ast.dump(x.test))] += 1
                    elif isinstance(x, ast.For):
                        out["For %s %s" % (ast.dump(x.target), ast.dump(x.iter))] += 1
                    elif isinstance(x, ast.stmt):
                        out[type(x).__name__] += 1
            return out
        sf, sg = stmts(f), stmts(g)
        if sg - sf or not sf - sg:
            return False
        gone = {n for n in callees(f) if n not in callees(g)}
        if not dif & gone:
            return False
        byname = self.cf_all()

        def called(h):
            out = set()
            for s_ in h.body:
                for x in ast.walk(s_):
                    if isinstance(x, ast.Call):
                        n = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else None
                        if n and n != "__init__":
                            out.add(n)
                    elif isinstance(x, ast.Attribute) and ("prop", x.attr) in byname:
                        out.add(x.attr)
            return out
        todo, seen = list(called(g)), set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n in dif & gone:
                return False
            for h in byname.get(n, ()):
                todo += list(called(h))
        return True

    def cf_all(self):
        out = {}
        for q, g in self.cf.items():
            n = q[3] if q[0] == "py" else q[-1]
            if n == "__init__":
                n = q[2]
            out.setdefault(n, []).append(g)
            if q[0] == "py" and q[4] == "p":
                out[("prop", n)] = True
        return out

    def recursive(self, a, b, good):
        """exactly one of the two versions calls itself"""
        return self.calls_self(a.fn) != self.calls_self(b.fn)

    @staticmethod
    def calls_self(f):
        for s in f.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == f.name and not f.cls or
                                                isinstance(x.func, ast.Attribute) and x.func.attr == f.name and f.cls and
                                                isinstance(x.func.value, ast.Name) and x.func.value.id == "self"):
                    return True
        return False

    def fin(self, rec, last, err, t0):
        rec["t"] = time.time() - t0
        if last is None:
            rec["verdict"] = "undecided"
            rec["why"] = err
            return rec
        good, problems, dif, a, b = last
        if self.recursive(a, b, good):
            rec["verdict"] = "undecided"
            rec["why"] = "recursive function rewritten: judged through its callers"
            return rec
        if not good:
            rec["verdict"] = "undecided"
            rec["why"] = "; ".join(problems) or err
            return rec
        if err is not None and dif:
            rec["verdict"] = "undecided"
            rec["why"] = "%s; differing callees %s" % (err, sorted(dif))
            return rec
        rec["verdict"] = "differ"
        ch, x, y = good[0]
        rec["channel"] = ch
        rec["all_channels"] = [c for c, _, _ in good]
        rec["spec"], rec["code"] = diffshow(x, y)
        return rec


def mangled(n):
    import re
    m = re.match(r"_[A-Za-z0-9]+(__\w+)$", n)
    return m.group(1) if m else n


def fresh0():
    pass


def diffshow(x, y, depth=0):
    """smallest differing subterms"""
    if depth < 12:
        ax, ay = single(x), single(y)
        if ax is not None and ay is not None and ax.head == ay.head and len(ax.args) == len(ay.args):
            d = [(p, q) for p, q in zip(ax.args, ay.args) if keyof(p) != keyof(q)]
            if len(d) == 1:
                p, q = d[0]
                while isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
                    dd = [(u, v) for u, v in zip(p, q) if keyof(u) != keyof(v)]
                    if len(dd) != 1:
                        break
                    p, q = dd[0]
                if isinstance(p, (Poly, T.Atom)) and isinstance(q, (Poly, T.Atom)):
                    return diffshow(p, q, depth + 1)
        if isinstance(x, Poly) and isinstance(y, Poly):
            c = x - y
            mx = Poly({m: v for m, v in x.m.items() if y.m.get(m) != v})
            my = Poly({m: v for m, v in y.m.items() if x.m.get(m) != v})
            if mx.m and my.m and (len(mx.m) < len(x.m) or len(my.m) < len(y.m)):
                return diffshow(mx, my, depth + 1)
    return sh(x), sh(y)


def sh(x):
    if isinstance(x, Poly):
        return show(x, 700)
    return T.show_any(x)[:700]


def single(x):
    if isinstance(x, T.Atom):
        return x
    if isinstance(x, Poly) and len(x.m) == 1:
        (mono, c), = x.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            return mono[0][0]
    return None


def keyof(x):
    return T._akey(x)


# ------------------------------------------------------------------ call graph by name
def callees(f):
    out = set()
    for s in f.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name):
                out.add(x.id)
            elif isinstance(x, ast.Attribute):
                out.add(x.attr)
    return out


def close_private(funcs, keys):
    """add private functions (transitively) referenced by the given ones"""
    byname = {}
    for k, f in funcs.items():
        nm = k[3] if k[0] == "py" else k[-1]
        if is_private(k, f):
            byname.setdefault(nm, []).append(k)
    todo, seen = list(keys), set(keys)
    while todo:
        k = todo.pop()
        for n in callees(funcs[k]):
            for q in byname.get(n, ()):
                if q[0] != k[0] or (q[1] != k[1] and q[0] == "cy"):
                    continue
                if q[0] == "py" and k[1].split(".")[:2] != q[1].split(".")[:2]:
                    continue
                if q not in seen:
                    seen.add(q)
                    todo.append(q)
    return seen


_C = None


def _init(refdir, curdir, timeout, seed):
    global _C
    _C = Cmp(Project(refdir), Project(curdir), timeout, seed)


def _task(a):
    k, inline, rounds = a
    r = _C.compare(k, inline, rounds)
    if r["verdict"] in ("undecided", "differ") and _C.same_source(k):
        # the function, everything it can call and the module data it reads have the same syntax trees in both programs
        r["verdict"], r["why"] = "proved", "identical syntax trees (%s)" % (r.get("why") or r.get("channel") or "")
    return k, r


def _limit():
    """a runaway term must not take the machine down: the function is then undecided"""
    import resource
    lim = 4 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def run_all(cmpo, keys, jobs=8, log=None):
    """-> {key: record}; private differences are judged through their callers"""
    import multiprocessing as mp
    global _C
    _C = cmpo
    ctx = mp.get_context("fork")
    res = {}
    funcs = cmpo.rf
    order = sorted(keys, key=lambda k: -sum(1 for s in funcs[k].body for _ in ast.walk(s)))
    tasks = []
    for k in order:
        g = cmpo.current(k)
        if g is None:
            res[k] = {"fn": kname(k), "file": funcs[k].file, "verdict": "missing", "why": "not found in the current tree",
                      "channels": 0, "rounds": 0, "t": 0}
            continue
        if k in cmpo.common or not is_private(k, funcs[k]):
            tasks.append((k, (), 0 if is_private(k, funcs[k]) else 3))
        else:
            res[k] = {"fn": kname(k), "file": funcs[k].file, "verdict": "inlined", "why": "private function with a changed signature: judged through its callers",
                      "channels": 0, "rounds": 0, "t": 0}
    with ctx.Pool(jobs, _limit) as pool:
        for k, r in pool.imap_unordered(_task, tasks, chunksize=1):
            res[k] = r
        # private functions that differ: judge through callers
        D = {k for k, r in res.items() if is_private(k, funcs[k]) and r["verdict"] in ("differ", "undecided") and k in cmpo.common}
        if D:
            names = {}
            for k in D:
                names.setdefault(k[3] if k[0] == "py" else k[-1], set()).add(k)
            tasks2 = []
            for k in keys:
                if k in D and not (callees(funcs[k]) & names.keys()):
                    continue
                if is_private(k, funcs[k]):
                    continue
                # transitive private callees
                cl = close_private(funcs, [k])
                inl = cl & D
                if inl and res.get(k, {}).get("verdict") in ("proved", "agree", "undecided"):
                    tasks2.append((k, tuple(sorted(cl & {q for q in cl if is_private(q, funcs[q])})) if len(inl) > 3 else tuple(via(funcs, k, inl)), 3))
            callers = {}
            for k, r in pool.imap_unordered(_task, tasks2, chunksize=1):
                cl = close_private(funcs, [k]) & D
                for q in cl:
                    if cmpo.binds(k, q):
                        callers.setdefault(q, []).append((k, r))
            for q in D:
                cs = callers.get(q, [])
                r = res[q]
                if r["verdict"] == "undecided":
                    # decide through callers only
                    for k, rr in cs:
                        if rr["verdict"] == "differ":
                            res[k] = rr
                    continue
                if any(rr["verdict"] == "differ" for _, rr in cs):
                    for k, rr in cs:
                        if rr["verdict"] == "differ":
                            rr["via"] = r["fn"]
                            res[k] = rr
                    r["verdict"] = "differ"
                elif cs and all(rr["verdict"] in ("proved", "agree") for _, rr in cs):
                    r["verdict"] = "compensated"
                elif not cs:
                    r["verdict"] = "differ"
                # otherwise: callers undecided, the difference of the helper itself stands
    return res


def via(funcs, k, inl):
    """private functions on a path from k to a member of inl"""
    out = set(inl)
    cl = close_private(funcs, [k])
    ch = True
    while ch:
        ch = False
        nm = {q[3] if q[0] == "py" else q[-1] for q in out}
        for q in cl:
            if q not in out and q != k and is_private(q, funcs[q]) and callees(funcs[q]) & nm:
                out.add(q)
                ch = True
    return sorted(out)
