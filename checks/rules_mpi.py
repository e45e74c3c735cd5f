"""Rank-dependence rules on the classes built over MPIEnv.

A value is rank-dependent if it comes from the rank, from the share of work given by dist_*, from a branch or loop controlled by such a
value, or from a native routine that receives the rank.  all_reduce, all_average and bcast make a value uniform again."""
import ast
import os
from sa.effects import chain
from .framework import Ob

UNIFORM = {"all_reduce", "all_average"}
COLL = {"reduce", "all_reduce", "average", "all_average", "bcast", "barrier"}
RAW = {"Reduce", "Allreduce", "Bcast", "Barrier", "Gather", "Allgather", "Scatter", "reduce", "allreduce", "bcast", "barrier", "gather", "allgather", "scatter", "Gatherv", "Allgatherv"}
DIST = {"dist_list", "dist_range", "dist_bound"}
RANK = {"rank", "is_master", "__rank", "_MPIEnv__rank"}
WRITERS = {"np.save", "np.savetxt", "np.savez", "np.savez_compressed", "numpy.save", "numpy.savetxt", "pickle.dump", "json.dump", "os.mkdir", "os.makedirs",
           "os.remove", "os.rename", "shutil.rmtree", "shutil.copy", "print"}


def family(proj):
    out = []
    for m in proj.modules.values():
        for c in m.classes.values():
            try:
                mro = proj.mro(c)
            except Exception:
                continue
            if any(k.name == "MPIEnv" for k in mro):
                out.append(c)
    return sorted(out, key=lambda c: (c.module, c.name))


def own(c):
    for d in (c.methods, c.props, c.setters):
        for n, f in d.items():
            yield n, f


def collective_methods(proj, cls):
    """names of methods of cls that may enter a collective"""
    out = set(COLL)
    bodies = {}
    for k in proj.mro(cls):
        for n, f in k.methods.items():
            bodies.setdefault(n, f)
    changed = True
    while changed:
        changed = False
        for n, f in bodies.items():
            if n not in out and any(is_coll(x, out) for s in f.body for x in ast.walk(s)):
                out.add(n)
                changed = True
    return out


def is_coll(x, names):
    if not isinstance(x, ast.Call) or not isinstance(x.func, ast.Attribute):
        return None
    ch = chain(x.func.value)
    if ch and ch[-1].endswith("comm") and x.func.attr in RAW:
        return x.func.attr
    if ch == ["self"] and x.func.attr in names:
        return x.func.attr
    return None


class Taint:
    """forward pass over one method; tests and variables that depend on the rank"""
    def __init__(self, colls):
        self.colls = colls
        self.t = set()                 # rank-dependent local names / self fields ('self.x')
        self.bad, self.ncoll = [], 0
        self.exited = None             # description of a rank-dependent early exit already passed
        self.ret = []
        self.nret = 0

    def key(self, e):
        ch = chain(e)
        if not ch:
            return None
        return ".".join(ch[:2]) if ch[0] == "self" else ch[0]

    def tainted(self, e):
        if e is None:
            return False
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and chain(f.value) == ["self"]:
                if f.attr in UNIFORM:
                    return False
                if f.attr in DIST:
                    return True
            return any(self.tainted(x) for x in list(e.args) + [k.value for k in e.keywords]) or (isinstance(f, ast.Attribute) and self.tainted(f.value))
        if isinstance(e, ast.Attribute):
            ch = chain(e)
            if ch and ch[0] == "self" and len(ch) > 1 and ch[1] in RANK:
                return True
            if ch and ch[0] == "self":
                return ".".join(ch[:2]) in self.t
            if e.attr in ("shape", "dtype", "size", "ndim"):
                return False
            return self.tainted(e.value)
        if isinstance(e, ast.Name):
            return e.id in self.t
        if isinstance(e, (ast.Lambda,)):
            return False
        return any(self.tainted(c) for c in ast.iter_child_nodes(e) if isinstance(c, (ast.expr, ast.comprehension))) \
            if not isinstance(e, ast.comprehension) else self.tainted(e.iter) or any(self.tainted(i) for i in e.ifs)

    def seq(self, body):
        """collectives entered by a block, in order (flat)"""
        return [is_coll(x, self.colls) for s in body for x in ast.walk(s) if is_coll(x, self.colls)]

    def colls_in(self, e, guard):
        for x in ast.walk(e):
            c = is_coll(x, self.colls)
            if c:
                self.ncoll += 1
                if guard:
                    self.bad.append((c, "inside %s" % guard))
                elif self.exited:
                    self.bad.append((c, "after %s" % self.exited))

    def assign(self, t, tn):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, tn)
            return
        if isinstance(t, ast.Starred):
            return self.assign(t.value, tn)
        k = self.key(t)
        if k is None:
            return
        if tn:
            self.t.add(k)
        elif isinstance(t, ast.Name) or (isinstance(t, ast.Attribute) and chain(t) and len(chain(t)) == 2):
            self.t.discard(k)

    def run(self, body, guard=None):
        for s in body:
            self.stmt(s, guard)

    def stmt(self, s, g):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is None:
                return
            self.colls_in(s.value, g)
            tn = bool(g) or self.tainted(s.value) or (isinstance(s, ast.AugAssign) and self.tainted(s.target))
            if isinstance(s, ast.Assign):
                vs = s.value.elts if isinstance(s.value, ast.Tuple) else None
                for t in s.targets:
                    if vs and isinstance(t, ast.Tuple) and len(t.elts) == len(vs) and not g:
                        ts = [self.tainted(v) for v in vs]
                        for a, b in zip(t.elts, ts):
                            self.assign(a, b)
                    else:
                        self.assign(t, tn)
            else:
                self.assign(s.target, tn)
        elif isinstance(s, ast.Expr):
            self.colls_in(s.value, g)
            c = s.value
            if isinstance(c, ast.Call):
                if isinstance(c.func, ast.Attribute) and chain(c.func.value) == ["self"] and c.func.attr == "bcast" and c.args and not g:
                    k = self.key(c.args[0])
                    self.t.discard(k)
                elif g or any(self.tainted(a) for a in list(c.args) + [k.value for k in c.keywords]):
                    # arrays handed to a routine together with rank-dependent data may be filled with it
                    if not (isinstance(c.func, ast.Attribute) and c.func.attr in ("print", "log")):
                        for a in list(c.args) + [k.value for k in c.keywords]:
                            k = self.key(a)
                            if k and isinstance(a, (ast.Name,)):
                                self.t.add(k)
                        if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id not in ("self", "np"):
                            if c.func.attr in ("append", "extend", "add", "update", "fill"):
                                self.t.add(c.func.value.id)
        elif isinstance(s, ast.If):
            self.colls_in(s.test, g)
            tn = self.tainted(s.test)
            g2 = g
            if tn:
                a, b = self.seq(s.body), self.seq(s.orelse)
                why = "the branch on `%s`, which depends on the process" % ast.unparse(s.test)
                if a != b:
                    g2 = why
                else:
                    g2 = g or "="
            before = set(self.t)
            self.run(s.body, g2 if g2 != "=" else None)
            ta = set(self.t)
            self.t = set(before)
            self.run(s.orelse, g2 if g2 != "=" else None)
            self.t |= ta
            if tn:
                for blk in (s.body, s.orelse):
                    for x in blk:
                        for y in ast.walk(x):
                            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                self.t.add(y.id)
                            elif isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.ctx, ast.Store):
                                k = self.key(y)
                                if k:
                                    self.t.add(k)
                ea, eb = self.exits(s.body), self.exits(s.orelse)
                if ea != eb and not self.exited:
                    self.exited = "the exit on `%s`, which depends on the process" % ast.unparse(s.test)
        elif isinstance(s, (ast.For, ast.While)):
            it = s.iter if isinstance(s, ast.For) else s.test
            self.colls_in(it, g)
            tn = self.tainted(it)
            g2 = g
            if tn and self.seq(s.body):
                g2 = "the loop over `%s`, whose length depends on the process" % ast.unparse(it)
            for _ in range(2):
                if isinstance(s, ast.For):
                    self.assign(s.target, tn)
                n0, b0 = self.ncoll, len(self.bad)
                self.run(s.body, g2)
                if _ == 0:
                    self.ncoll = n0
                    del self.bad[b0:]
            if tn:
                for x in s.body:
                    for y in ast.walk(x):
                        if isinstance(y, (ast.Subscript, ast.Attribute, ast.Name)) and isinstance(getattr(y, "ctx", None), ast.Store):
                            k = self.key(y)
                            if k:
                                self.t.add(k)
            self.run(s.orelse, g)
        elif isinstance(s, ast.Try):
            self.run(s.body, g)
            for h in s.handlers:
                self.run(h.body, g)
            self.run(s.orelse, g)
            self.run(s.finalbody, g)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.colls_in(i.context_expr, g)
            self.run(s.body, g)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.colls_in(s.value, g)
                self.nret += 1
                parts = s.value.elts if isinstance(s.value, ast.Tuple) else [s.value]
                for p in parts:
                    if self.tainted(p):
                        self.ret.append(ast.unparse(p))
        elif isinstance(s, ast.Raise):
            pass

    def exits(self, body):
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Return, ast.Raise)):
                    return True
        return False


def _analyse(proj, f, cls):
    t = Taint(collective_methods(proj, cls))
    t.run(f.body)
    return t


def collective_matching(ctx):
    """In every method of the classes built over MPIEnv, no collective (MPIEnv.reduce/all_reduce/average/all_average/bcast/barrier, a method that
    enters one, or a communicator call) is control-dependent on a rank-dependent test or loop, and none follows a rank-dependent early exit,
    unless both branches enter the same sequence."""
    out = []
    for c in family(ctx.cur):
        for n, f in own(c):
            t = _analyse(ctx.cur, f, c)
            if not t.ncoll:
                continue
            where = "%s:%s.%s" % (os.path.relpath(f.file, ctx.repo), c.name, n)
            if t.bad:
                for cname, why in t.bad:
                    out.append(Ob("collective-matching", where, False, "collective %s is reached only by some processes: it lies %s" % (cname, why),
                                  key="collective-matching@%s#%s" % (where, cname)))
            else:
                out.append(Ob("collective-matching", where, True, "%d collective calls" % t.ncoll))
    return out


def uniform_results(ctx):
    """Every public method of the solver and analyzer classes returns values that are equal on all processes: what depends on the rank passes
    all_reduce, all_average or bcast before it is returned (methods whose specification returns a process-local value are excluded)."""
    out = []
    for c in family(ctx.cur):
        if c.name == "MPIEnv":
            continue
        rc = ctx.ref.cls(c.name, required=False)
        for n, f in own(c):
            if n.startswith("_") or rc is None:
                continue
            rf = rc.methods.get(n) or rc.props.get(n)
            if rf is None or _analyse(ctx.ref, rf, rc).ret:
                continue
            t = _analyse(ctx.cur, f, c)
            if not t.nret:
                continue
            where = "%s:%s.%s" % (os.path.relpath(f.file, ctx.repo), c.name, n)
            if t.ret:
                out.append(Ob("uniform-results", where, False, "returned value %s differs between processes: it is not reduced or broadcast before the return" % t.ret[0],
                              key="uniform-results@%s#%s" % (where, t.ret[0])))
            else:
                out.append(Ob("uniform-results", where, True))
    return out


# ---------------------------------------------------------------- master-only output
def implies_master(test):
    """+1 the test being true implies the master, -1 being false implies it"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return -implies_master(test.operand)
    if isinstance(test, ast.Attribute) and test.attr == "is_master":
        return 1
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        l, r = test.left, test.comparators[0]
        if isinstance(l, ast.Constant):
            l, r = r, l
        if isinstance(l, ast.Attribute) and l.attr in ("rank", "__rank", "_MPIEnv__rank") and isinstance(r, ast.Constant) and r.value == 0:
            return {ast.Eq: 1, ast.NotEq: -1, ast.Gt: -1}.get(type(test.ops[0]), 0)
        if isinstance(l, ast.Attribute) and l.attr == "is_master" and isinstance(r, ast.Constant):
            pos = 1 if bool(r.value) else -1
            return {ast.Eq: pos, ast.Is: pos, ast.NotEq: -pos, ast.IsNot: -pos}.get(type(test.ops[0]), 0)
    if isinstance(test, ast.BoolOp):
        ks = [implies_master(v) for v in test.values]
        if isinstance(test.op, ast.And) and 1 in ks:
            return 1
        if isinstance(test.op, ast.Or) and -1 in ks:
            return -1
    return 0


class Output:
    def __init__(self, proj, cls):
        self.p, self.cls = proj, cls
        self.found, self.unguarded = 0, []

    def writer(self, x):
        if not isinstance(x, ast.Call):
            return None
        nm = ast.unparse(x.func)
        if nm in WRITERS:
            return nm
        if nm == "open":
            mode = x.args[1] if len(x.args) > 1 else next((k.value for k in x.keywords if k.arg == "mode"), None)
            if isinstance(mode, ast.Constant) and isinstance(mode.value, str) and set(mode.value) & set("wax+"):
                return "open(mode=%r)" % mode.value
        if isinstance(x.func, ast.Attribute) and x.func.attr in ("savefig", "tofile"):
            return nm
        return None

    def run(self, body, master, env):
        """returns whether the code after the block is reached by the master only"""
        for s in body:
            if isinstance(s, ast.If):
                test = s.test
                if isinstance(test, ast.Name) and test.id in env:
                    test = env[test.id]
                k = implies_master(test)
                self.expr(s.test, master)
                self.run(s.body, master or k == 1, env)
                self.run(s.orelse, master or k == -1, env)
                if (k == -1 and self.leaves(s.body)) or (k == 1 and s.orelse and self.leaves(s.orelse)):
                    master = True
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env = dict(env, **{s.targets[0].id: s.value})
            sub = [getattr(s, a) for a in ("body", "orelse", "finalbody") if getattr(s, a, None)] + [h.body for h in getattr(s, "handlers", [])]
            if sub and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                for e in ast.iter_child_nodes(s):
                    if isinstance(e, ast.expr):
                        self.expr(e, master)
                    elif isinstance(e, ast.withitem):
                        self.expr(e.context_expr, master)
                for b in sub:
                    self.run(b, master, env)
            elif not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.expr(s, master)
        return master

    def leaves(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise))

    def expr(self, e, master):
        for x in ast.walk(e):
            w = self.writer(x)
            if w:
                self.found += 1
                if not master:
                    self.unguarded.append(w)


def master_only_output(ctx):
    """In every method of the classes built over MPIEnv, each statement that writes a file or prints (np.save, pickle.dump, open for writing,
    os.mkdir, print, savefig) is dominated by a test that only the master process passes; private helpers inherit the guard of their callers."""
    out = []
    for c in family(ctx.cur):
        rc = ctx.ref.cls(c.name, required=False)
        for n, f in own(c):
            o = Output(ctx.cur, c)
            o.run(f.body, False, {})
            if not o.found:
                continue
            where = "%s:%s.%s" % (os.path.relpath(f.file, ctx.repo), c.name, n)
            rf = (rc.methods.get(n) or rc.props.get(n)) if rc is not None else None
            spec = Output(ctx.ref, rc)
            if rf is not None:
                spec.run(rf.body, False, {})
            bad = [w for w in o.unguarded if w not in spec.unguarded]
            if bad and n.startswith("_") and rf is None:
                if guarded_callers(ctx.cur, c, n):
                    out.append(Ob("master-only-output", where, True, "called by the master only"))
                else:
                    out.append(Ob("master-only-output", where, None, "new helper that writes; judged through its callers"))
            elif bad:
                out.append(Ob("master-only-output", where, False, "%s is executed by every process (no is_master guard dominates it)" % bad[0],
                              key="master-only-output@%s#%s" % (where, bad[0])))
            else:
                out.append(Ob("master-only-output", where, True, "%d output statements" % o.found))
    return out


def guarded_callers(proj, cls, name):
    ok = False
    for k in proj.mro(cls):
        for n, f in own(k):
            o = Output(proj, cls)
            o.writer = lambda x: name if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == name else None
            o.run(f.body, False, {})
            if o.unguarded:
                return False
            ok = ok or o.found > 0
    return ok


RULES = {"C12": [collective_matching], "C13": [uniform_results], "C14": [uniform_results, master_only_output]}
