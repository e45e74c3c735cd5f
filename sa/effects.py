"""Name-resolved effect inference: which functions write state, and which fields of their receiver."""
import ast
from .project import mangle

MUTATORS = {"append", "extend", "pop", "update", "add", "remove", "clear", "insert", "setdefault", "sort", "fill", "discard",
            "popitem", "reverse", "resize", "put", "itemset"}
EXT_IMPURE = {"save", "savetxt", "savez", "open", "write", "writelines", "makedirs", "mkdir", "remove", "unlink", "rename", "dump",
              "system", "exit", "seed", "show", "savefig", "Barrier", "barrier", "Bcast", "bcast", "Reduce", "Allreduce", "allreduce",
              "reduce", "gather", "scatter", "Gather", "Scatter", "send", "recv", "Send", "Recv", "shuffle", "set_printoptions",
              "allgather", "Allgather", "Abort", "rmtree", "print_exc", "seterr"}


# derived-array caches; rebuilding them on demand is unobservable provided reads are preceded by a sync
CACHE = {"_orb_pos", "_orb_eng", "_hop_ind", "_hop_eng", "_hash_dict", "_vac_id_sc", "_orb_id_pc"}
# console output and timing
SILENT = {"print", "log", "tic", "toc", "report_total_time", "timer", "overview", "report"}


def root_name(n):
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
        n = n.value if not isinstance(n, ast.Call) else n.func
    return n.id if isinstance(n, ast.Name) else None


def chain(n):
    """a.b.c[..].d -> ['a','b','c','d'] (subscripts skipped)"""
    out = []
    while True:
        if isinstance(n, ast.Attribute):
            out.append(n.attr)
            n = n.value
        elif isinstance(n, ast.Subscript):
            n = n.value
        elif isinstance(n, ast.Name):
            out.append(n.id)
            return out[::-1]
        else:
            return None


def unify(a, b):
    """the two trees are analysed under the same effect assumptions for the functions they share"""
    for k, r in a.info.items():
        q = b.info.get(k)
        if q is None:
            continue
        for f in ("fields", "args"):
            u = r[f] | q[f]
            r[f], q[f] = u, set(u)
        for f in ("impure", "raises"):
            r[f] = q[f] = r[f] or q[f]
    for e in (a, b):
        e.impure = {n for n, rs in e.byname.items() if any(r["impure"] for r in rs)}
        e.finish()


class Effects:
    def __init__(self, proj):
        self.p = proj
        self.info = {}           # (cls or None, name, module) -> record
        self.recs = []
        for m in proj.modules.values():
            for f in m.funcs.values():
                self._scan(f, None)
            for c in m.classes.values():
                for d in (c.methods, c.props, c.setters):
                    for f in d.values():
                        self._scan(f, c)
        self._fix()
        self.finish()

    def _scan(self, f, cls):
        params = [p.name for p in f.params]
        selfn = params[0] if cls is not None and params and "staticmethod" not in f.decorators else None
        local = set()
        for s in f.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    local.add(x.id)
        alias = {}               # local name -> self field it aliases
        fresh = set()
        for s in f.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    ch = chain(x.value)
                    nm = x.targets[0].id
                    if ch and len(ch) >= 2 and ch[0] == selfn:
                        alias[nm] = mangle(f.cls, ch[1])
                    elif not ch:
                        fresh.add(nm)
        raises = any(isinstance(x, ast.Raise) for s in f.body for x in ast.walk(s))
        rec = {"raises": raises, "f": f, "cls": cls, "fields": set(), "args": set(), "impure": False, "calls": set(), "selfcalls": set(), "ext": set(), "passes": [], "ppass": []}

        def store(t):
            ch = chain(t)
            if ch is None:
                rec["impure"] = True
                return
            r = ch[0]
            if r == selfn:
                if len(ch) >= 2:
                    rec["fields"].add(mangle(f.cls, ch[1]))
                rec["impure"] = True
            elif r in alias:
                rec["fields"].add(alias[r])
                rec["impure"] = True
            elif r in params and r not in fresh:
                rec["args"].add(r)
                rec["impure"] = True
            elif r not in local and r not in params:
                rec["impure"] = True
        for s in f.body:
            for x in ast.walk(s):
                tg = []
                if isinstance(x, ast.Assign):
                    tg = x.targets
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                    tg = [x.target]
                elif isinstance(x, ast.Delete):
                    tg = x.targets
                elif isinstance(x, ast.For):
                    tg = [x.target]
                fl = []
                for t in tg:
                    if isinstance(t, (ast.Tuple, ast.List)):
                        fl += t.elts
                    else:
                        fl.append(t)
                for t in fl:
                    if isinstance(t, (ast.Attribute, ast.Subscript)):
                        store(t)
                    elif isinstance(x, ast.AugAssign) and isinstance(t, ast.Name) and t.id in params and t.id != selfn:
                        rec["args"].add(t.id)
                if isinstance(x, ast.Call):
                    fn = x.func
                    cn = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
                    for q, a in list(enumerate(x.args)) + [(k.arg, k.value) for k in x.keywords]:
                        ca = chain(a)
                        fld = None
                        if ca and ca[0] == selfn and len(ca) >= 2:
                            fld = mangle(f.cls, ca[1])
                        elif ca and len(ca) == 1 and ca[0] in alias:
                            fld = alias[ca[0]]
                        elif ca and len(ca) == 1 and ca[0] in params and ca[0] != selfn and ca[0] not in fresh and cn is not None:
                            rec["ppass"].append((cn, q, ca[0]))
                        if fld is not None and cn is not None:
                            rec["passes"].append((cn, isinstance(fn, ast.Attribute), q, fld))
                    if cn == "setattr" and x.args and chain(x.args[0]) == [selfn]:
                        rec["impure"] = True
                        for s2 in f.body:
                            for y in ast.walk(s2):
                                if isinstance(y, ast.Constant) and isinstance(y.value, str) and y.value.isidentifier():
                                    rec["fields"].add(mangle(f.cls, y.value))
                    if isinstance(fn, ast.Attribute):
                        ch = chain(fn.value)
                        if fn.attr in MUTATORS and not self._known_method(fn.attr):
                            store(fn.value)
                        elif fn.attr in MUTATORS:
                            store(fn.value)
                            rec["calls"].add(fn.attr)
                        elif ch is not None and ch == [selfn]:
                            rec["selfcalls"].add(fn.attr)
                        elif isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                            rec["selfcalls"].add("super." + fn.attr)
                        else:
                            rec["calls"].add(fn.attr)
                            if fn.attr in EXT_IMPURE:
                                rec["ext"].add(fn.attr)
                                rec["impure"] = True
                    elif isinstance(fn, ast.Name):
                        rec["calls"].add(fn.id)
                        if fn.id in EXT_IMPURE or fn.id == "print":
                            rec["ext"].add(fn.id)
                            rec["impure"] = True
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    rec["impure"] = True
        self.recs.append(rec)
        self.info[(cls.name if cls else None, f.name, f.module)] = rec

    def _written(self, f):
        if getattr(f, "lang", "py") == "py":
            return ()
        from .gvn_expr import written_params
        return written_params(self.p, f)

    def _known_method(self, n):
        return any(n in c.methods for m in self.p.modules.values() for c in m.classes.values())

    def _fix(self):
        byname = {}
        for r in self.recs:
            byname.setdefault(r["f"].name, []).append(r)
        self.byname = byname
        # arrays of the receiver handed to a callee that writes the corresponding parameter
        for r in self.recs:
            for cn, meth, q, fld in r["passes"]:
                if q == "out":
                    r["fields"].add(fld)
                for t in byname.get(cn, ()):
                    nm = self._param_at(t, q)
                    if nm is not None and (nm in t["args"] or nm in self._written(t["f"])):
                        r["fields"].add(fld)
                        r["impure"] = True
        ch = True
        while ch:
            ch = False
            for r in self.recs:
                for cn, q, prm in r["ppass"]:
                    if prm in r["args"]:
                        continue
                    for t in byname.get(cn, ()):
                        nm = self._param_at(t, q)
                        if nm is not None and (nm in t["args"] or nm in self._written(t["f"])):
                            r["args"].add(prm)
                            r["impure"] = True
                            ch = True
                            break
                imp, rai = r["impure"], r["raises"]
                fields = set(r["fields"])
                for n in r["selfcalls"]:
                    for t in self._self_targets(r, n):
                        imp = imp or t["impure"]
                        rai = rai or t["raises"]
                        fields |= t["fields"]
                for n in r["calls"]:
                    for t in byname.get(n, ()):
                        # a constructor or a function writing only its own fresh object is harmless for callers
                        if t["cls"] is not None and t["f"].name == "__init__":
                            continue
                        if t["impure"]:
                            imp = True
                        if t["raises"]:
                            rai = True
                if imp != r["impure"] or fields != r["fields"] or rai != r["raises"]:
                    r["impure"], r["fields"], r["raises"] = imp, fields, rai
                    ch = True
        for r in self.recs:
            # writing only derived-array caches is not observable (their freshness is a separate rule)
            r["fields"] = {f for f in r["fields"] if f not in CACHE}
        self.impure = {n for n, rs in byname.items() if any(r["impure"] for r in rs)}

    def _param_at(self, t, q):
        ps = [p.name for p in t["f"].params]
        if t["cls"] is not None and "staticmethod" not in t["f"].decorators:
            ps = ps[1:]
        if isinstance(q, str):
            return q
        return ps[q] if q is not None and q < len(ps) else None

    def method_writes(self, name, k):
        """may a method of this name write the array it is given in argument position k (or keyword k)?"""
        for t in self.byname.get(name, ()):
            if t["cls"] is not None:
                nm = self._param_at(t, k)
                if nm is not None and nm in t["args"]:
                    return True
        return False

    def _self_targets(self, r, n):
        out = []
        sup = n.startswith("super.")
        if sup:
            n = n[6:]
        c = r["cls"]
        cands = [c] + self.p.subclasses(c) if not sup else [c]
        seen = set()
        for k in cands:
            mro = self.p.mro(k)
            if sup:
                mro = mro[1:]
            for b in mro:
                if n in b.methods:
                    f = b.methods[n]
                    rec = self.info.get((b.name, f.name, f.module))
                    if rec is not None and id(rec) not in seen:
                        seen.add(id(rec))
                        out.append(rec)
                    break
        return out

    def finish(self):
        self.ext_impure = EXT_IMPURE
        self._mut = {}
        self.event_names = {n for n, rs in self.byname.items() if any((r["impure"] and r["f"].name not in SILENT) or r["raises"] for r in rs)
                            and n not in SILENT}

    def eventful(self, fn):
        rec = self.info.get((fn.cls, fn.name, fn.module))
        if rec is None:
            return fn.name in self.event_names
        if fn.name in SILENT:
            return False
        if rec["impure"] or rec["raises"]:
            return True
        if fn.cls and fn.name != "__init__":
            # an override of a method the base class leaves empty
            for c in self._classes(fn):
                for k in self.p.subclasses(c):
                    g = k.methods.get(fn.name)
                    if g is not None and g is not fn:
                        r2 = self.info.get((g.cls, g.name, g.module))
                        if r2 is not None and (r2["impure"] or r2["raises"]):
                            return True
        return False

    def _classes(self, fn):
        m = self.p.modules.get(fn.module) if hasattr(self.p, "modules") else None
        c = m.classes.get(fn.cls) if m is not None else None
        return [c] if c is not None else []

    def mods(self, cls, fn):
        """fields of the receiver possibly written by method fn called on an instance of cls"""
        rec = self.info.get((fn.cls, fn.name, fn.module))
        return rec["fields"] if rec else set()

    def mutable(self, cls):
        """fields written by some method other than the constructor"""
        if cls is None:
            return frozenset()
        r = self._mut.get(cls.qual)
        if r is None:
            r = set()
            for k in self.p.mro(cls):
                for f in list(k.methods.values()) + list(k.setters.values()):
                    if f.name != "__init__":
                        r |= self.mods(k, f)
            r = frozenset(r)
            self._mut[cls.qual] = r
        return r

    def args_written(self, fn):
        rec = self.info.get((fn.cls, fn.name, fn.module))
        return rec["args"] if rec else set()
