"""The analysed program: all Python modules, Cython and Fortran sources of /repo/tbplas."""
import ast
from .memo import unmemo
import glob
import os
from .ir import Func, Param, Type, AnalysisError
from . import front_cy, front_f90

REPO = os.environ.get("VERIF_REPO", "/repo")


class ClassInfo:
    def __init__(self, name, module, node, file):
        self.name, self.module, self.node, self.file = name, module, node, file
        self.bases = []          # names as written
        self.methods = {}        # name -> Func (own)
        self.props = {}          # name -> Func (getter)
        self.setters = {}
        self.class_attrs = {}
        self.statics = set()

    @property
    def qual(self):
        return self.module + "." + self.name

    def __repr__(self):
        return "<Class %s>" % self.qual


class PyModule:
    def __init__(self, name, file, tree):
        self.name, self.file, self.tree = name, file, tree
        self.funcs, self.classes, self.imports, self.globs = {}, {}, {}, {}
        self.stars = []


def _dec_names(node):
    r = []
    for d in node.decorator_list:
        try:
            r.append(ast.unparse(d))
        except Exception:
            r.append("?")
    return r


def py_func(node, module, file, cls=None):
    node = unmemo(node)
    a = node.args
    ps = []
    pos = list(a.posonlyargs) + list(a.args)
    nd = len(a.defaults)
    for k, x in enumerate(pos):
        d = a.defaults[k - (len(pos) - nd)] if k >= len(pos) - nd else None
        ps.append(Param(x.arg, None, d, "pos"))
        ps[-1].intent = x.annotation
    if a.vararg:
        ps.append(Param(a.vararg.arg, None, None, "var"))
        ps[-1].intent = a.vararg.annotation
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        ps.append(Param(x.arg, None, d, "kwonly"))
        ps[-1].intent = x.annotation
    if a.kwarg:
        ps.append(Param(a.kwarg.arg, None, None, "kw"))
    body = node.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        doc = body[0].value.value
        body = body[1:]
    else:
        doc = ""
    f = Func(node.name, module, file, "py", ps, {}, body, node.lineno, _dec_names(node), cls)
    f.extra["node"] = node
    f.extra["doc"] = doc
    f.extra["returns"] = node.returns
    return f


class Project:
    @property
    def ntup(self):
        """fields of the namedtuples of the program (unambiguous ones) -> position"""
        if getattr(self, "_ntup", None) is None:
            d, self.ntup_decl, own = {}, [], set()
            for m in self.modules.values():
                for c in m.classes.values():
                    own |= set(c.methods) | set(c.props)
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        own.add(x.attr)
                    if isinstance(x, ast.Call) and (getattr(x.func, "id", None) == "namedtuple" or getattr(x.func, "attr", None) == "namedtuple") and len(x.args) >= 2:
                        a = x.args[1]
                        if isinstance(a, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in a.elts):
                            ns = [e.value for e in a.elts]
                        elif isinstance(a, ast.Constant) and isinstance(a.value, str):
                            ns = a.value.replace(",", " ").split()
                        else:
                            continue
                        self.ntup_decl.append(ns)
                        for k, n in enumerate(ns):
                            if d.setdefault(n, k) != k:
                                own.add(n)
            self._ntup = {n: k for n, k in d.items() if n not in own}
        return self._ntup

    def ntuple_names(self, t):
        a = t
        if not hasattr(a, "head"):
            from .term import single_atom
            a = single_atom(t)
        if a is None:
            return None
        if a.head == "tup":
            out = []
            for x in a.args[0]:
                from .term import single_atom
                y = single_atom(x)
                if y is None or y.head != "lit":
                    return None
                out.append(str(y.args[0])[2:] if str(y.args[0]).startswith("s:") else str(y.args[0]))
            return out
        if a.head == "lit":
            v = str(a.args[0])
            return (v[2:] if v.startswith("s:") else v).replace(",", " ").split()
        return None
    def __init__(self, repo=None, native=True):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, "tbplas")
        if not os.path.isdir(self.root):
            raise AnalysisError("no tbplas package in %s" % self.repo)
        self.modules = {}
        self.cy = {}         # module -> {name: Func}
        self.cy_globs = {}
        self.f90 = {}        # name -> Func
        self.f90_generics = {}
        self.f90_globs = {}
        self.f90_types = {}
        self.f90_unsupported = []
        for p in sorted(glob.glob(self.root + "/**/*.py", recursive=True)):
            self._py(p)
        if native:
            for p in sorted(glob.glob(self.root + "/**/*.pyx", recursive=True)):
                m = os.path.basename(p)[:-4]
                self.cy[m], self.cy_globs[m] = front_cy.parse_file(p, m)
            self._f90()
        self._mro = {}

    def rel(self, f):
        return os.path.relpath(f, self.repo)

    def _py(self, p):
        rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
        if rel.endswith(".__init__"):
            rel = rel[:-9]
        src = open(p, encoding="utf-8").read()
        try:
            tree = ast.parse(src, p)
        except SyntaxError as e:
            raise AnalysisError("cannot parse %s: %s" % (p, e))
        m = PyModule(rel, p, tree)
        pkg = rel if p.endswith("__init__.py") else rel.rsplit(".", 1)[0]
        self.modules[rel] = m
        for n in tree.body:
            self._top(n, m, pkg)

    def _top(self, n, m, pkg):
        if isinstance(n, ast.Import):
            for a in n.names:
                m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                parts = pkg.split(".")
                parts = parts[:len(parts) - (n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            for a in n.names:
                if a.name == "*":
                    m.stars.append(base)
                else:
                    m.imports[a.asname or a.name] = base + "." + a.name
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            m.funcs[n.name] = py_func(n, m.name, m.file)
        elif isinstance(n, ast.ClassDef):
            c = ClassInfo(n.name, m.name, n, m.file)
            for b in n.bases:
                try:
                    c.bases.append(ast.unparse(b))
                except Exception:
                    pass
            for s in n.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = py_func(s, m.name, m.file, n.name)
                    if "property" in f.decorators or any(d.endswith("cached_property") for d in f.decorators):
                        c.props[s.name] = f
                    elif any(d.endswith(".setter") for d in f.decorators):
                        c.setters[s.name] = f
                    else:
                        c.methods[s.name] = f
                        if "staticmethod" in f.decorators:
                            c.statics.add(s.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.class_attrs[t.id] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    c.class_attrs[s.target.id] = s.value
            # name = property(getter)
            for k, v in list(c.class_attrs.items()):
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property" and v.args and \
                        isinstance(v.args[0], ast.Name) and v.args[0].id in c.methods:
                    c.props[k] = c.methods[v.args[0].id]
                elif isinstance(v, ast.Name) and v.id in c.methods:
                    c.methods[k] = c.methods[v.id]
            m.classes[n.name] = c
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    m.globs[t.id] = n.value
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            m.globs[n.target.id] = n.value
        elif isinstance(n, (ast.If, ast.Try)):
            for s in n.body + n.orelse + getattr(n, "finalbody", []):
                self._top(s, m, pkg)
            for h in getattr(n, "handlers", []):
                for s in h.body:
                    self._top(s, m, pkg)

    def _f90(self):
        files = sorted(glob.glob(self.root + "/**/*.[fF]90", recursive=True))
        parsers = []
        # module constants and types first (flat name space)
        derived = {}
        for p in files:
            pr = front_f90.Parser(p)
            pr.derived = derived
            pr.gscope.derived = derived
            parsers.append(pr)
        parsers.sort(key=lambda q: 0 if "csr" in os.path.basename(q.path).lower() or "const" in q.path else 1)
        for pr in parsers:
            pr.parse()
            for k, f in pr.funcs.items():
                self.f90[k] = f
            self.f90_generics.update(pr.generics)
            self.f90_globs.update(pr.globs)
            self.f90_unsupported += [(pr.path, a, b) for a, b in pr.unsupported]
        self.f90_types = derived

    # ------------------------------------------------------------ lookup
    def resolve(self, module, name, seen=()):
        """name visible in a module -> ('func',Func)|('class',ClassInfo)|('module',str)|('glob',module,node)|('ext',qual)|None"""
        m = self.modules.get(module)
        if m is None:
            return None
        if name in m.funcs:
            return ("func", m.funcs[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.imports:
            return self.resolve_qual(m.imports[name], seen + ((module, name),))
        if name in m.globs:
            return ("glob", m, m.globs[name])
        for s in m.stars:
            if s in self.modules and (s, name) not in seen:
                r = self.resolve(s, name, seen + ((module, name),))
                if r:
                    return r
        return None

    def resolve_qual(self, q, seen=()):
        if q in self.modules:
            return ("module", q)
        if q.startswith("tbplas.cython.") and q.count(".") >= 2:
            parts = q.split(".")
            if parts[2] in self.cy:
                if len(parts) == 3:
                    return ("cymod", parts[2])
                f = self.cy[parts[2]].get(parts[3])
                return ("func", f) if f else ("ext", q)
        if q.startswith("tbplas.fortran"):
            parts = q.split(".")
            if len(parts) == 3:
                return ("f90mod", parts[2])
            if len(parts) == 4:
                f = self.f90.get(parts[3].lower())
                return ("func", f) if f else ("ext", q)
        if "." in q:
            b, n = q.rsplit(".", 1)
            if b in self.modules:
                if (b, n) in seen:
                    return None
                r = self.resolve(b, n, seen)
                if r:
                    return r
                sub = b + "." + n
                if sub in self.modules:
                    return ("module", sub)
                return ("ext", q)
        return ("ext", q)

    def cls(self, name, required=True):
        """class by simple name (unique in the package)"""
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        if required:
            raise AnalysisError("class %s not found" % name)
        return None

    def mro(self, c):
        k = c.qual
        if k in self._mro:
            return self._mro[k]
        seqs = []
        bs = []
        for b in c.bases:
            r = self.resolve(c.module, b.split(".")[-1]) if "." not in b else self._resolve_attr(c.module, b)
            if r and r[0] == "class":
                bs.append(r[1])
        seqs = [list(self.mro(b)) for b in bs] + [list(bs)]
        res = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            for s in seqs:
                if s and s[0] is h:
                    s.pop(0)
        self._mro[k] = res
        return res

    def _resolve_attr(self, module, dotted):
        a, b = dotted.rsplit(".", 1)
        r = self.resolve(module, a.split(".")[0])
        if r and r[0] == "module":
            return self.resolve(r[1], b)
        return None

    def method_names(self):
        if getattr(self, "_mnames", None) is None:
            self._mnames = {n for m in self.modules.values() for c in m.classes.values() for n in c.methods}
        return self._mnames

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def prop(self, c, name):
        for k in self.mro(c):
            if name in k.props:
                return k.props[name]
            if name in k.methods:
                return None
        return None

    def all_methods(self, c):
        out = {}
        for k in reversed(self.mro(c)):
            for n, f in k.methods.items():
                out[n] = f
        return out

    def subclasses(self, c):
        return [d for m in self.modules.values() for d in m.classes.values() if c in self.mro(d)]

    def func(self, module, name, required=True):
        m = self.modules.get(module)
        f = m.funcs.get(name) if m else None
        if f is None:
            r = self.resolve(module, name) if m else None
            if r and r[0] == "func":
                return r[1]
            if required:
                raise AnalysisError("function %s.%s not found" % (module, name))
        return f

    def cyf(self, module, name, required=True):
        f = self.cy.get(module, {}).get(name)
        if f is None and required:
            raise AnalysisError("Cython function %s.%s not found" % (module, name))
        return f

    def ff(self, name, required=True):
        f = self.f90.get(name.lower())
        if f is None and required:
            raise AnalysisError("Fortran procedure %s not found" % name)
        return f


def mangle(cls, attr):
    if attr.startswith("__") and not attr.endswith("__") and cls:
        return "_%s%s" % (cls.lstrip("_"), attr)
    return attr
