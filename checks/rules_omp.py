"""Data-race rules on the OpenMP work-sharing loops of the native kernels (C15)."""
import ast
import copy
import os
import re
from .framework import Ob


def clauses(d):
    """(private names, {reduction variable: operator}, other words)"""
    priv, red = set(), {}
    for m in re.finditer(r"(\w+)\s*\(([^()]*)\)", d):
        k, a = m.group(1).lower(), m.group(2)
        if k in ("private", "firstprivate", "lastprivate"):
            priv |= {x.strip().lower() for x in a.split(",")}
        elif k == "reduction":
            op, _, v = a.partition(":")
            for x in v.split(","):
                red[x.strip().lower()] = op.strip().lower()
    first = set()
    for m in re.finditer(r"firstprivate\s*\(([^()]*)\)", d):
        first |= {x.strip().lower() for x in m.group(1).split(",")}
    return priv, red, first


def lin(e, env):
    """linear form {name: coefficient, '': constant} or None"""
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return {"": e.value}
    if isinstance(e, ast.Name):
        if e.id in env and env[e.id] is not None:
            return dict(env[e.id])
        return {e.id: 1}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        a = lin(e.operand, env)
        return {k: -v for k, v in a.items()} if a is not None else None
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        a, b = lin(e.left, env), lin(e.right, env)
        if a is None or b is None:
            return None
        s = 1 if isinstance(e.op, ast.Add) else -1
        for k, v in b.items():
            a[k] = a.get(k, 0) + s * v
        return {k: v for k, v in a.items() if v}
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        a, b = lin(e.left, env), lin(e.right, env)
        if a is None or b is None:
            return None
        for x, y in ((a, b), (b, a)):
            if set(x) <= {""}:
                return {k: v * x.get("", 0) for k, v in y.items() if v * x.get("", 0)}
    return None


def dims(sub):
    s = sub.slice
    return list(s.elts) if isinstance(s, ast.Tuple) else [s]


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def intent(t):
    try:
        return (t.attrs if hasattr(t, "attrs") else t.extra).get("intent")
    except Exception:
        return None


class Loop:
    def __init__(self, fn, node, proj):
        self.fn, self.node, self.p = fn, node, proj
        self.priv, self.red, self.first = clauses(node.omp)
        self.v = node.target.id
        self.problems, self.unknown = [], []
        self.inner, self.assigned = set(), {}
        self.writes, self.reads = [], []
        self.n = 0

    def calls(self, body):
        """CALL of a project subroutine -> assignments of its INTENT(OUT)/INTENT(INOUT) arguments"""
        out = []
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name):
                c = s.value
                g = self.p.f90.get(c.func.id)
                if g is not None and not c.keywords and len(c.args) == len(g.params):
                    ins, outs = [], []
                    for a, pr in zip(c.args, g.params):
                        it = intent(g.types.get(pr.name))
                        if it in ("out", "inout", None) and isinstance(a, (ast.Name, ast.Subscript, ast.Attribute)):
                            outs.append(a)
                        if it != "out":
                            ins.append(a)
                    for a in outs:
                        n = ast.Assign([a], ast.Call(c.func, ins, []))
                        ast.copy_location(n, s)
                        ast.fix_missing_locations(n)
                        out.append(n)
                    continue
            if isinstance(s, (ast.For, ast.If, ast.While)):
                n = copy.copy(s)
                n.body, n.orelse = self.calls(s.body), self.calls(s.orelse or [])
                s = n
            out.append(s)
        return out

    def run(self):
        nd = copy.copy(self.node)
        nd.body = self.calls(nd.body)
        self.node = nd
        for x in self.walk(self.node.body):
            if isinstance(x, ast.For):
                self.inner.add(x.target.id)
            elif isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Name):
                        self.assigned.setdefault(t.id, []).append(x)
                    elif isinstance(t, ast.Subscript):
                        self.writes.append((t, x))
                    elif isinstance(t, ast.Attribute):
                        self.problems.append("component %s of a shared object is assigned by every iteration" % ast.unparse(t))
            elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                c = x.value
                if isinstance(c.func, ast.Name) and c.func.id == "__omp":
                    d = c.args[0].value
                    if re.match(r"(atomic|critical|ordered)", d):
                        self.unknown.append("synchronised section %r" % d)
                    continue
                nm = c.func.id if isinstance(c.func, ast.Name) else ast.unparse(c.func)
                if nm.startswith("random_"):
                    self.problems.append("random numbers are drawn inside the parallel loop (%s)" % nm)
                else:
                    self.unknown.append("subroutine call %s in the parallel loop" % nm)
        self.scalars()
        self.arrays()
        self.functions()
        return self

    def walk(self, body):
        for s in body:
            yield s
            for f in ("body", "orelse"):
                for x in self.walk(getattr(s, f, []) or []):
                    yield x

    def scalars(self):
        for n, sts in sorted(self.assigned.items()):
            self.n += 1
            if n in self.priv or n in self.inner or n == self.v:
                continue
            if n in self.red:
                for st in sts:
                    if not self.red_ok(n, st):
                        self.problems.append("reduction variable %s is changed by %s, not by %s = %s %s ..." % (n, ast.unparse(st), n, n, self.red[n]))
                continue
            if self.unknown and any(u.startswith("synchronised") for u in self.unknown):
                continue
            self.problems.append("shared scalar %s is assigned inside the parallel loop (neither PRIVATE nor REDUCTION)" % n)
        # a private scalar has no value before its first assignment in the iteration
        for n in sorted(self.priv - self.first):
            if n in self.inner:
                continue
            self.n += 1
            if self.read_first(self.node.body, n) == "read":
                self.problems.append("private variable %s is read before it is assigned in the iteration" % n)
        for n, op in self.red.items():
            for x in self.walk(self.node.body):
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    t = x.targets[0] if isinstance(x, ast.Assign) else x.target
                    if not (isinstance(t, ast.Name) and t.id == n) and root(t) != n and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(x.value)):
                        self.problems.append("partial value of reduction variable %s is read by %s" % (n, ast.unparse(x)))

    def red_ok(self, n, st):
        op = self.red[n]
        v = st.value
        if isinstance(st, ast.AugAssign):
            return {"+": isinstance(st.op, (ast.Add, ast.Sub)), "*": isinstance(st.op, ast.Mult)}.get(op, True)
        if op in ("+", "-"):
            return self.count(v, n, +1) == 1
        if op == "*":
            return isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult)
        return True

    def count(self, e, n, s):
        """coefficient of n among the additive terms of e; None-like large number if n occurs elsewhere"""
        if isinstance(e, ast.Name) and e.id == n:
            return s
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.count(e.left, n, s) + self.count(e.right, n, s)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub):
            return self.count(e.left, n, s) + self.count(e.right, n, -s)
        if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(e)):
            return 1000
        return 0

    def read_first(self, body, n):
        """'read' if some path reads n before assigning it, 'def' if every path assigns, None otherwise"""
        for s in body:
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                srcs = [s.value] + ([t.slice] if isinstance(t, ast.Subscript) else []) + ([t] if isinstance(s, ast.AugAssign) else [])
                if any(isinstance(y, ast.Name) and y.id == n for e in srcs for y in ast.walk(e)):
                    return "read"
                if isinstance(t, ast.Name) and t.id == n:
                    return "def"
            elif isinstance(s, (ast.If, ast.While)):
                if any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(s.test)):
                    return "read"
                a, b = self.read_first(s.body, n), self.read_first(s.orelse, n)
                if "read" in (a, b):
                    return "read"
                if a == b == "def":
                    return "def"
            elif isinstance(s, ast.For):
                if any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(s.iter)):
                    return "read"
                if s.target.id == n:
                    return "def"
                if self.read_first(s.body, n) == "read":
                    return "read"
            else:
                if any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(s)):
                    return "read"
        return None

    def arrays(self):
        env, dep = {}, {self.v}
        # private scalars with one definition stand for that definition; scalars computed from the loop variable depend on it
        for n, sts in self.assigned.items():
            if n in self.priv and len(sts) == 1:
                env[n] = lin(sts[0].value, {})
        changed = True
        while changed:
            changed = False
            for n, sts in self.assigned.items():
                if n not in dep and any(isinstance(y, ast.Name) and y.id in dep for st in sts for y in ast.walk(st.value)):
                    dep.add(n)
                    changed = True
            for x in self.walk(self.node.body):
                if isinstance(x, ast.For) and x.target.id not in dep and any(isinstance(y, ast.Name) and y.id in dep for y in ast.walk(x.iter)):
                    dep.add(x.target.id)
                    changed = True
        variant = set(self.inner) | {n for n in self.assigned if env.get(n) is None}
        written = {}
        for t, st in self.writes:
            r = root(t)
            if r in self.priv or r in self.red:
                self.n += 1
                if r in self.red and not isinstance(st, ast.AugAssign) and self.red[r] in "+-" and ast.unparse(t) not in ast.unparse(st.value):
                    self.problems.append("reduction array %s is overwritten by %s" % (r, ast.unparse(st)))
                continue
            written.setdefault(r, []).append((t, True, st))
        for x in ast.walk(ast.Module(self.node.body, [])):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and root(x) in written:
                written[root(x)].append((x, False, x))
            elif isinstance(x, ast.Call):
                for a in x.args:
                    if isinstance(a, ast.Name) and a.id in written:
                        self.problems.append("array %s is written element-wise by the iterations and passed whole to %s" % (a.id, ast.unparse(x.func)))
        for r, acc in sorted(written.items()):
            self.n += 1
            self.one_array(r, acc, env, dep, variant)

    def one_array(self, r, acc, env, dep, variant):
        forms = []
        for t, w, st in acc:
            ds = dims(t)
            fs = [None if isinstance(d, ast.Slice) else lin(d, env) for d in ds]
            uses = [not isinstance(d, ast.Slice) and any(isinstance(y, ast.Name) and y.id in dep for y in ast.walk(d)) for d in ds]
            if w and not any(uses):
                self.problems.append("every iteration writes the same element(s) %s of the shared array %s" % (ast.unparse(t), r))
                return
            forms.append((fs, w, t))
        nd = min(len(f[0]) for f in forms)
        for d in range(nd):
            fd = [f[0][d] for f in forms]
            if all(x is not None and x.get(self.v) and not (set(x) - {"", self.v}) & variant for x in fd) and all(x == fd[0] for x in fd):
                return          # one dimension selects the iteration: accesses of different iterations are disjoint
        # a definite conflict: equal coefficients of the loop variable, different offsets, in every dimension that separates
        for fs, w, t in forms:
            if not w:
                continue
            for gs, _, u in forms:
                sep = []
                for a, b in zip(fs, gs):
                    if a is None or b is None:
                        sep.append(None)
                        continue
                    k = set(a) | set(b)
                    if all(a.get(x, 0) == b.get(x, 0) for x in k if x):
                        sep.append(a.get("", 0) - b.get("", 0) if a.get(self.v) else 0)
                    else:
                        sep.append(None)
                if all(s is not None for s in sep) and any(sep):
                    self.problems.append("iteration writes %s while another iteration accesses %s" % (ast.unparse(t), ast.unparse(u)))
                    return
        self.unknown.append("accesses to array %s are not separated by an affine index" % r)

    def functions(self):
        """project functions called in the loop keep no state of their own"""
        for x in ast.walk(ast.Module(self.node.body, [])):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                g = self.p.f90.get(x.func.id)
                if g is None:
                    continue
                self.n += 1
                outs = set()
                for s in g.body:
                    for y in ast.walk(s):
                        if isinstance(y, (ast.Assign, ast.AugAssign)):
                            t = y.targets[0] if isinstance(y, ast.Assign) else y.target
                            if root(t) in self.p.f90_globs:
                                outs.add(root(t))
                for o in sorted(o for o in outs if o):
                    self.problems.append("function %s called in the parallel loop writes module variable %s" % (x.func.id, o))


def omp_race(ctx):
    """In every `!$OMP PARALLEL DO` loop: assigned scalars are private, reduction or inner loop variables; private scalars are assigned
    before they are read; reduction variables are only accumulated with their operator; every shared array that is written is indexed, in one
    fixed dimension and in all its accesses, by the same injective affine function of the parallel loop variable; called functions write no module variable."""
    out = []
    for name, f in sorted(ctx.cur.f90.items()):
        k = 0
        for s in f.body:
            for x in ast.walk(s):
                if not getattr(x, "omp", None):
                    continue
                k += 1
                where = "%s:%s:parallel loop %d over %s" % (os.path.relpath(f.file, ctx.repo), name, k, ast.unparse(x.target) if isinstance(x, ast.For) else "?")
                if not isinstance(x, ast.For) or not isinstance(x.target, ast.Name):
                    out.append(Ob("omp-race", where, None, "not a counted loop"))
                    continue
                if not re.match(r"parallel\s+do|do", x.omp):
                    continue
                lp = Loop(f, x, ctx.cur).run()
                if lp.problems:
                    for p in lp.problems:
                        out.append(Ob("omp-race", where, False, p, key="omp-race@%s#%s" % (where, p)))
                elif lp.unknown:
                    out.append(Ob("omp-race", where, None, "; ".join(lp.unknown)))
                else:
                    out.append(Ob("omp-race", where, True, "%d variables and arrays" % lp.n))
    return out


RULES = {"C15": [omp_race]}
