"""Container types of opaque values, from the annotations and field initialisers of the analysed program.

A type is an `ast` annotation expression; only its outermost constructor (dict/list/set/tuple/ndarray) and its
element types are used, to give iteration, membership and mutation of an unknown container their meaning."""
import ast

DICT = {"dict", "Dict", "OrderedDict", "defaultdict", "Mapping", "MutableMapping"}
LIST = {"list", "List", "Sequence"}
SET = {"set", "Set", "frozenset", "FrozenSet"}
TUP = {"tuple", "Tuple"}


def _name(a):
    if isinstance(a, ast.Name):
        return a.id
    if isinstance(a, ast.Attribute):
        return a.attr
    return None


def single(p):
    if hasattr(p, "head"):
        return p
    if len(p.m) != 1:
        return None
    (mono, c), = p.m.items()
    if c != 1 or len(mono) != 1 or mono[0][1] != 1:
        return None
    return mono[0][0]


def _str(a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            return ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return None
    return a


class Types:
    def __init__(self, proj):
        self.alias = {}
        self.fields = {}          # attribute name -> annotation (or None if ambiguous)
        self.cfields = {}         # (class, attribute) -> annotation of the property
        self.elems = {}           # attribute name -> kinds of the elements stored in it
        self.rets = {}            # function/method name -> return annotation
        self.sigs = {}            # method name -> list of signatures
        for m in proj.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                        isinstance(n.value, ast.Subscript) and _name(n.value.value) in DICT | LIST | SET | TUP | {"Union", "Optional"}:
                    self.alias.setdefault(n.targets[0].id, n.value)
        for m in proj.modules.values():
            for c in m.classes.values():
                for d in (c.methods, c.props):
                    for name, f in d.items():
                        self._func(c, f, prop=d is c.props)
            for f in m.funcs.values():
                self._put(self.rets, f.name, self.ann(f))

    def ann(self, f):
        return _str(f.extra.get("returns")) if f.extra.get("returns") is not None else None

    def _put(self, d, k, t):
        if k in d:
            a, b = d[k], t
            if a is None or b is None or ast.dump(a) != ast.dump(b):
                d[k] = None
        else:
            d[k] = t

    def _func(self, c, f, prop):
        if prop:
            self._put(self.fields, f.name, self.ann(f))
            self.cfields[c.name, f.name] = self.ann(f)
        else:
            self._put(self.rets, f.name, self.ann(f))
            self.sigs.setdefault(f.name, []).append(f)
        pa = {p.name: _str(p.intent) for p in f.params if isinstance(p.intent, ast.AST)}
        for s in f.body:
            for x in ast.walk(s):
                if isinstance(x, ast.AnnAssign) and self._selfattr(x.target, f):
                    self._fput(c, x.target.attr, _str(x.annotation))
                elif isinstance(x, ast.Return) and prop and self._selfattr(x.value, f):
                    self._fput(c, x.value.attr, self.ann(f))
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Tuple) and isinstance(x.value, ast.Tuple) and len(t.elts) == len(x.value.elts):
                            for t1, v1 in zip(t.elts, x.value.elts):
                                if self._selfattr(t1, f):
                                    ty = self.of_expr(v1, pa)
                                    if ty is not None:
                                        self._fput(c, t1.attr, ty, weak=True)
                        if isinstance(t, ast.Subscript) and self._selfattr(t.value, f):
                            ty = self.of_expr(x.value, pa)
                            if ty is not None and isinstance(ty, ast.Name):
                                self.elems.setdefault(mangle(c.name, t.value.attr), set()).add(ty.id)
                        if self._selfattr(t, f):
                            ty = self.of_expr(x.value, pa)
                            if ty is not None:
                                self._fput(c, t.attr, ty, weak=True)

    def _fput(self, c, name, t, weak=False):
        k = mangle(c.name, name)
        if t is None:
            return
        old = self.fields.get(k)
        if old is None and k not in self.fields:
            self.fields[k] = t
        elif old is not None and self.kind(old) != self.kind(t):
            self.fields[k] = None
        elif old is not None and not isinstance(old, ast.Subscript) and isinstance(t, ast.Subscript):
            self.fields[k] = t

    @staticmethod
    def _selfattr(t, f):
        return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and f.params and t.value.id == f.params[0].name

    def of_expr(self, v, pa):
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return ast.Name("dict", ast.Load())
        if isinstance(v, (ast.List, ast.ListComp)):
            return ast.Name("list", ast.Load())
        if isinstance(v, (ast.Set, ast.SetComp)):
            return ast.Name("set", ast.Load())
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set", "defaultdict", "OrderedDict"):
            return v.func
        if isinstance(v, ast.Name):
            return pa.get(v.id)
        return None

    # ------------------------------------------------------------------ queries
    def kind(self, t, depth=0):
        t = _str(t)
        if t is None or depth > 6:
            return None
        n = _name(t.value) if isinstance(t, ast.Subscript) else _name(t)
        if n in DICT:
            return "dict"
        if n in LIST:
            return "list"
        if n in SET:
            return "set"
        if n in TUP:
            return "tuple"
        if n in ("Union", "Optional") and isinstance(t, ast.Subscript):
            ks = {self.kind(x, depth + 1) for x in (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice])
                  if not (isinstance(x, ast.Constant) and x.value is None)}
            return ks.pop() if len(ks) == 1 and n == "Union" else None
        if n in self.alias and isinstance(t, ast.Name):
            return self.kind(self.alias[n], depth + 1)
        return None

    def args(self, t):
        t = _str(t)
        if isinstance(t, ast.Name) and t.id in self.alias:
            t = self.alias[t.id]
        if isinstance(t, ast.Subscript) and _name(t.value) not in ("Union", "Optional"):
            return t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
        return []

    def elem(self, t):
        """type of t[i]"""
        k, a = self.kind(t), self.args(t)
        if k == "dict" and len(a) == 2:
            return _str(a[1])
        if k in ("list", "set") and a:
            return _str(a[0])
        if k == "tuple" and len(a) == 2 and isinstance(a[1], ast.Constant) and a[1].value is Ellipsis:
            return _str(a[0])
        return None

    def key(self, t):
        a = self.args(t)
        return _str(a[0]) if self.kind(t) == "dict" and len(a) == 2 else None

    def of_term(self, p, ptypes, depth=0):
        """annotation of an opaque value term"""
        a = single(p)
        return self.of_atom(a, ptypes, depth) if a is not None and depth <= 8 else None

    def of_atom(self, a, ptypes, depth):
        h = a.head
        if h == "sym" or h == "asym":
            return ptypes.get(a.args[0])
        if h == "attr":
            b = single(a.args[0])
            if b is not None and b.head == "sym" and b.args[0] == "self":
                for c in ptypes.get("$selfcls", ()):
                    if self.cfields.get((c, a.args[1])) is not None:
                        return self.cfields[c, a.args[1]]
            return self.fields.get(a.args[1])
        if h in ("app", "aapp"):
            return self.rets.get(str(a.args[0]).split(":")[0])
        if h.startswith("m:"):
            return self.rets.get(h[2:])
        if h == "idx" and len(a.args[1]) == 1:
            b = single(a.args[0])
            if b is None:
                return None
            if b.head == "keys":
                t = self.of_term(b.args[0], ptypes, depth + 1)
                return self.key(t) if t is not None else None
            t = self.of_atom(b, ptypes, depth + 1)
            r = self.elem(t) if t is not None else None
            if r is None and b.head == "attr" and len(self.elems.get(b.args[1], ())) == 1:
                r = ast.Name(next(iter(self.elems[b.args[1]])), ast.Load())
            return r
        return None


def share(a, b):
    """two versions of one program: a container type known in one is used for the other as well"""
    for f in ("fields", "cfields", "rets", "alias"):
        x, y = getattr(a, f), getattr(b, f)
        for k, v in x.items():
            if y.get(k) is None:
                y[k] = v
        for k, v in y.items():
            if x.get(k) is None:
                x[k] = v
    for k, v in a.elems.items():
        b.elems.setdefault(k, v)
    for k, v in b.elems.items():
        a.elems.setdefault(k, v)


def mangle(cls, attr):
    if cls and attr.startswith("__") and not attr.endswith("__"):
        return "_%s%s" % (cls.lstrip("_"), attr)
    return attr
