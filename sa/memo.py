"""Removal of local memo tables: `try: r = D[k] except KeyError: r = f(k); D[k] = r` (or `if k not in D: D[k] = f(k)`)
with D a local dictionary used for nothing else and f(k) depending on k and on once-assigned values only."""
import ast
import copy


def unmemo(fnode):
    """FunctionDef -> FunctionDef without memo tables (the same node when there is none)"""
    fnode = fuse(unproduct(fnode))
    tabs = _tables(fnode)
    if not tabs:
        return fnode
    new = copy.deepcopy(fnode)
    ch = False
    for d in tabs:
        r = _remove(new, d)
        if r is not None:
            new, ch = r, True
    return ast.fix_missing_locations(new) if ch else fnode


def _empty(v):
    return isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" and not v.args and not v.keywords


def _tables(fn):
    out, cnt = [], {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            cnt[x.id] = cnt.get(x.id, 0) + 1
    for s in fn.body:
        t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
        if isinstance(t, ast.Name) and s.value is not None and _empty(s.value) and cnt.get(t.id) == 1:
            out.append(t.id)
    return out


def _is(n, d, k=None):
    return isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == d and isinstance(n.slice, ast.Name) and \
        (k is None or n.slice.id == k)


def _uses(n, d):
    return sum(isinstance(x, ast.Name) and x.id == d for x in ast.walk(n))


def _free_ok(fn, nodes, k, d):
    assigned = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            assigned[x.id] = assigned.get(x.id, 0) + 1
    inner = {x.id for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    params = {a.arg for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn for a in x.args.args}
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in inner | {k, d}:
                top = [s for s in fn.body if any(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store) for y in ast.walk(s))]
                if assigned.get(x.id, 0) > 1 or x.id in params or any(isinstance(s, (ast.For, ast.While)) for s in top):
                    return False
    return True


class _Rw(ast.NodeTransformer):
    def __init__(self, fn, d):
        self.fn, self.d, self.n = fn, d, 0

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.blocks(b))
        return n

    def blocks(self, body):
        out, i = [], 0
        while i < len(body):
            s = body[i]
            r = self.try_(s)
            if r is not None:
                out += r
            else:
                r = self.if_(s)
                if r is not None:
                    pre, k, tmp = r
                    body = body[:i + 1] + [_Sub(self.d, k, tmp).visit(x) for x in body[i + 1:]]
                    out += pre
                else:
                    out.append(s)
            i += 1
        return out

    def try_(self, s):
        d = self.d
        if not (isinstance(s, ast.Try) and len(s.body) == 1 and len(s.handlers) == 1 and not s.orelse and not s.finalbody):
            return None
        h = s.handlers[0]
        if not (isinstance(h.type, ast.Name) and h.type.id == "KeyError") or h.name:
            return None
        b = s.body[0]
        if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and _is(b.value, d):
            k, x = b.value.slice.id, b.targets[0].id
        elif isinstance(b, ast.Return) and b.value is not None and _is(b.value, d):
            k, x = b.value.slice.id, None
        else:
            return None
        new = self.store(h.body, k, x)
        return new if new is not None and _free_ok(self.fn, h.body, k, d) else None

    def if_(self, s):
        d = self.d
        if not (isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and
                isinstance(s.test.ops[0], ast.NotIn) and isinstance(s.test.left, ast.Name) and
                isinstance(s.test.comparators[0], ast.Name) and s.test.comparators[0].id == d):
            return None
        k = s.test.left.id
        tmp = "$memo_%s" % d
        new = self.store(s.body, k, tmp)
        if new is None or not _free_ok(self.fn, s.body, k, d):
            return None
        return new, k, tmp

    def store(self, body, k, x):
        """body with the single top-level `D[k] = v` replaced by `x = v`"""
        d, out, n = self.d, [], 0
        for q in body:
            if isinstance(q, ast.Assign) and any(_is(t, d, k) for t in q.targets):
                if _uses(q, d) != 1:
                    return None
                n += 1
                rest = [t for t in q.targets if not _is(t, d, k)]
                if rest:
                    out.append(ast.copy_location(ast.Assign(rest, q.value), q))
                    if x is not None and not any(isinstance(t, ast.Name) and t.id == x for t in rest):
                        out.append(ast.copy_location(ast.Assign([ast.Name(x, ast.Store())], copy.deepcopy(q.value)), q))
                elif x is not None and not (isinstance(q.value, ast.Name) and q.value.id == x):
                    out.append(ast.copy_location(ast.Assign([ast.Name(x, ast.Store())], q.value), q))
            elif _uses(q, d):
                return None
            else:
                out.append(q)
        return out if n == 1 else None


class _Sub(ast.NodeTransformer):
    def __init__(self, d, k, tmp):
        self.d, self.k, self.tmp = d, k, tmp

    def visit_Subscript(self, n):
        if _is(n, self.d, self.k) and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Name(self.tmp, ast.Load()), n)
        return self.generic_visit(n)


def _remove(fn, d):
    new = copy.deepcopy(fn)
    new = _Rw(new, d).visit(new)
    if _uses(new, d) != 1:          # only the initialisation is left
        return None
    new.body = [s for s in new.body if _uses(s, d) == 0] or [ast.Pass()]
    return new


# ------------------------------------------------------------------ itertools.product
def _product(it):
    """factors of `product(X, Y, ...)` / `itertools.product(...)`"""
    if not isinstance(it, ast.Call) or not (isinstance(it.func, ast.Name) and it.func.id == "product" or
                                            isinstance(it.func, ast.Attribute) and it.func.attr == "product" and
                                            isinstance(it.func.value, ast.Name) and it.func.value.id == "itertools"):
        return None
    if any(isinstance(a, ast.Starred) for a in it.args):
        return None
    rep = 1
    for k in it.keywords:
        if k.arg != "repeat" or not isinstance(k.value, ast.Constant):
            return None
        rep = k.value.value
    fs = list(it.args) * rep
    return fs if 1 <= len(fs) <= 4 else None


def _own_break(body):
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Break):
            return True
        if not isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(x))
    return False


class _Prod(ast.NodeTransformer):
    n = 0

    def names(self, target, k):
        """loop targets of the factors and the statements binding the original target"""
        if isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == k and not any(isinstance(e, ast.Starred) for e in target.elts):
            return list(target.elts), None
        self.n += 1
        nm = ["prod_%d_%d" % (self.n, i) for i in range(k)]
        return [ast.Name(x, ast.Store()) for x in nm], ast.Tuple([ast.Name(x, ast.Load()) for x in nm], ast.Load())

    def visit_For(self, s):
        self.generic_visit(s)
        fs = _product(s.iter)
        if fs is None or s.orelse or _own_break(s.body):
            return s
        ts, val = self.names(s.target, len(fs))
        body = ([ast.Assign([s.target], val)] if val is not None else []) + s.body
        for t, f in reversed(list(zip(ts, fs))):
            body = [ast.For(t, copy.deepcopy(f), body, [])]
        for x in body:
            ast.copy_location(x, s)
        return ast.fix_missing_locations(body[0])

    def comp(self, c):
        self.generic_visit(c)
        gens = []
        for g in c.generators:
            fs = _product(g.iter)
            if fs is None or not isinstance(g.target, (ast.Tuple, ast.List)) or len(g.target.elts) != len(fs):
                gens.append(g)
                continue
            for i, (t, f) in enumerate(zip(g.target.elts, fs)):
                gens.append(ast.comprehension(t, copy.deepcopy(f), g.ifs if i == len(fs) - 1 else [], 0))
        c.generators = gens
        return ast.fix_missing_locations(c)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comp


def unproduct(fnode):
    if not any(isinstance(x, ast.Call) and _product(x) is not None for x in ast.walk(fnode)):
        return fnode
    return _Prod().visit(copy.deepcopy(fnode))


# ------------------------------------------------------------------ lists built only to be iterated
PLAIN = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Tuple, ast.operator, ast.unaryop, ast.expr_context, ast.Compare, ast.cmpop,
         ast.BoolOp, ast.boolop, ast.comprehension, ast.ListComp, ast.keyword)


def _plain(comp):
    for x in ast.walk(comp):
        if isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Name) and x.func.id in ("range", "abs", "min", "max", "int")):
                return False
        elif not isinstance(x, PLAIN):
            return False
    return True


def fuse(fnode):
    """`L = [e for a in A for b in B]` over plain names, used only as the iterable of for statements -> nested loops"""
    cand = {}
    stores = {}
    for x in ast.walk(fnode):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            stores[x.id] = stores.get(x.id, 0) + 1
    for s in fnode.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and \
                stores.get(s.targets[0].id) == 1 and _plain(s.value) and len(s.value.generators) > 1:
            cand[s.targets[0].id] = s
    if not cand:
        return fnode
    params = {a.arg for a in fnode.args.args + fnode.args.kwonlyargs + fnode.args.posonlyargs}
    for n, s in list(cand.items()):
        own = {x.id for g in s.value.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        loads = [x for x in ast.walk(fnode) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)]
        fors = [x for x in ast.walk(fnode) if isinstance(x, ast.For) and isinstance(x.iter, ast.Name) and x.iter.id == n]
        free = {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} - own
        if len(fors) != len(loads) or not fors or any(f.orelse or _own_break(f.body) for f in fors):
            del cand[n]
        elif any(stores.get(v, 0) > (0 if v in params else 1) for v in free) or not all(isinstance(g.target, ast.Name) for g in s.value.generators):
            del cand[n]
    if not cand:
        return fnode
    new = copy.deepcopy(fnode)

    class R(ast.NodeTransformer):
        k = 0

        def visit_For(self, s):
            self.generic_visit(s)
            if not (isinstance(s.iter, ast.Name) and s.iter.id in cand):
                return s
            c = copy.deepcopy(cand[s.iter.id].value)
            self.k += 1
            ren = {g.target.id: "fuse_%d_%s" % (self.k, g.target.id) for g in c.generators}
            for x in ast.walk(c):
                if isinstance(x, ast.Name) and x.id in ren:
                    x.id = ren[x.id]
            body = [ast.Assign([s.target], c.elt)] + s.body
            for g in reversed(c.generators):
                for t in reversed(g.ifs):
                    body = [ast.If(t, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            for x in body:
                ast.copy_location(x, s)
            return ast.fix_missing_locations(body[0])

        def visit_Assign(self, s):
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in cand:
                return None
            return s
    return ast.fix_missing_locations(R().visit(new))
