"""Flow rules on the mutators of the shared model objects.

lock-dominance (C01): on every path through a public method of an Observable class (private helpers and inherited methods followed),
`check_lock` of the receiver is called before the first write of a model-state field.
atomic-failure (C04): an exception class that a public mutator can raise is not raised after a write of a model-state field, unless the
specification's version of the method has the same possibility (set inclusion of exception names; rollback handlers recognised)."""
import ast
from sa.effects import chain, MUTATORS
from .framework import Ob

STATE = {"PrimitiveCell": {"_lat_vec", "_origin", "_orbital_list", "_hopping_dict", "_hop_dict"},
         "PCInterHopping": {"_hoppings", "__hoppings", "_IntraHopping__hoppings"},
         "SCInterHopping": {"_hoppings", "__hoppings", "_IntraHopping__hoppings"},
         "InterHopping": {"_hoppings", "__hoppings", "_IntraHopping__hoppings"},
         "OrbitalSet": {"_vacancy_set"},
         "SuperCell": {"_vacancy_set", "_hop_modifier", "_orb_pos_modifier"}}
# not entry points for changes by the user: construction, cache upkeep and the locking protocol itself
EXEMPT = {"__init__", "purge", "lock", "unlock", "add_subscriber", "check_lock", "update", "sync_array", "sync_orb", "sync_hop"}


class Sum:
    def __init__(self):
        self.raises, self.dirty = set(), set()
        self.writes = False            # may write state
        self.unchecked = []            # state writes reached without check_lock
        self.checks = False            # check_lock called on every path that returns


class Flow:
    def __init__(self, proj, cls, state):
        self.p, self.cls, self.state = proj, cls, state
        self.memo = {}
        self.ftype = {}
        for c in proj.mro(cls):
            for f in list(c.methods.values()):
                for s in f.body:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name):
                            k = proj.cls(x.value.func.id, required=False)
                            for t in x.targets:
                                if k is not None and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                    self.ftype[t.attr] = k

    # ------------------------------------------------------------ resolution
    def method(self, name, fn):
        return self.p.method(self.cls, name)

    def callee(self, call, fn):
        """('self', Func) / ('field', Func, class) / ('fn', Func) / None"""
        f = call.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == "self":
                m = self.method(f.attr, fn)
                return ("self", m) if m is not None else None
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                c = self.p.cls(fn.cls, required=False)
                mro = self.p.mro(self.cls)
                if c in mro:
                    for k in mro[mro.index(c) + 1:]:
                        if f.attr in k.methods:
                            return ("self", k.methods[f.attr])
                return None
            if isinstance(f.value, ast.Name):
                k = self.p.cls(f.value.id, required=False)
                if k is not None and f.attr in k.methods and call.args and isinstance(call.args[0], ast.Name) and call.args[0].id == "self":
                    return ("self", k.methods[f.attr])
            ch = chain(f.value)
            if ch and ch[0] == "self" and len(ch) == 2 and ch[1] in self.ftype:
                m = self.p.method(self.ftype[ch[1]], f.attr)
                if m is not None:
                    return ("field", m, ch[1])
            return None
        if isinstance(f, ast.Name):
            try:
                r = self.p.resolve(fn.module, f.id)
            except Exception:
                r = None
            if r is not None and r[0] == "func":
                return ("fn", r[1])
        return None

    def plain_raises(self, fn, seen=()):
        """exceptions a function outside the receiver may raise"""
        if fn.qual in seen or len(seen) > 4 or fn.lang != "py":
            return set()
        out = set()
        k = self.p.cls(fn.cls, required=False) if fn.cls else None
        for s in fn.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Raise) and x.exc is not None:
                    e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
                    out.add(ast.unparse(e).split(".")[-1])
                elif isinstance(x, ast.Call):
                    g = None
                    if k is not None and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
                        g = self.p.method(k, x.func.attr)
                    elif isinstance(x.func, ast.Name):
                        try:
                            r = self.p.resolve(fn.module, x.func.id)
                            g = r[1] if r is not None and r[0] == "func" else None
                        except Exception:
                            g = None
                    if g is not None:
                        out |= self.plain_raises(g, seen + (fn.qual,))
        return out

    def field_writes(self, fn, seen=()):
        """does a method of a field's class change that object?"""
        if fn.qual in seen or len(seen) > 4:
            return False
        k = self.p.cls(fn.cls, required=False)
        alias = set()
        for s in fn.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
                    ts = x.targets if not isinstance(x, ast.AugAssign) else [x.target]
                    for t in ts:
                        c = chain(t)
                        if c and c[0] == "self" and len(c) > 1:
                            return True
                        if isinstance(t, ast.Subscript) and c and c[0] in alias:
                            return True
                    if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                        c = chain(x.value)
                        if c and c[0] == "self" and len(c) > 1:
                            alias.add(x.targets[0].id)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    c = chain(x.func.value)
                    if x.func.attr in MUTATORS and c and (c[0] == "self" and len(c) > 1 or c[0] in alias):
                        return True
                    if c == ["self"] and k is not None:
                        g = self.p.method(k, x.func.attr)
                        if g is not None and self.field_writes(g, seen + (fn.qual,)):
                            return True
        return False

    # ------------------------------------------------------------ summaries
    def summary(self, fn, checked=False, dirty=False, depth=0):
        key = (fn.qual, checked, dirty)
        if key in self.memo:
            return self.memo[key]
        s = Sum()
        self.memo[key] = s
        if depth > 6:
            return s
        env = {"checked": checked, "dirty": dirty, "alias": set()}
        live = self.block(fn.body, env, fn, s, depth)
        s.out = dict(env) if live else {"checked": True, "dirty": False, "alias": set()}
        rets = s.__dict__.setdefault("rets", [])
        s.checks = all(r["checked"] for r in rets) and (env["checked"] if live else True)
        s.after_dirty = any(r["dirty"] for r in rets) or (live and env["dirty"])
        return s

    def is_state(self, c):
        return bool(c) and c[0] == "self" and len(c) > 1 and c[1] in self.state

    def write(self, env, s, fn, node):
        s.writes = True
        if not env["checked"]:
            s.unchecked.append("%s:%s" % (fn.qual.split(":")[-1], getattr(node, "lineno", 0)))
        env["dirty"] = True

    def exprs(self, node, env, fn, s, depth):
        """calls and in-place writes inside an expression, innermost first"""
        if node is None:
            return
        for x in ast.iter_child_nodes(node):
            if not isinstance(x, (ast.Lambda, ast.FunctionDef)):
                self.exprs(x, env, fn, s, depth)
        if not isinstance(node, ast.Call):
            return
        r = self.callee(node, fn)
        if r is None:
            if isinstance(node.func, ast.Attribute) and node.func.attr in MUTATORS:
                c = chain(node.func.value)
                if self.is_state(c) or c and c[0] in env["alias"]:
                    self.write(env, s, fn, node)
            return
        kind, g = r[0], r[1]
        if g.name == "purge":
            return              # dropping empty containers is not a change of the model
        if kind == "self":
            if g.name == "check_lock":
                s.raises.add("LockError")
                if env["dirty"]:
                    s.dirty.add("LockError")
                env["checked"] = True
                return
            q = self.summary(g, env["checked"], env["dirty"], depth + 1)
            s.raises |= q.raises
            s.dirty |= q.dirty
            s.writes |= q.writes
            s.unchecked += [u for u in q.unchecked if u not in s.unchecked]
            env["checked"] = env["checked"] or q.checks
            env["dirty"] = env["dirty"] or getattr(q, "after_dirty", q.writes)
        elif kind == "field":
            rs = self.plain_raises(g)
            s.raises |= rs
            if env["dirty"]:
                s.dirty |= rs
            if r[2] in self.state and self.field_writes(g):
                self.write(env, s, fn, node)
        else:
            rs = self.plain_raises(g)
            s.raises |= rs
            if env["dirty"]:
                s.dirty |= rs

    def block(self, body, env, fn, s, depth):
        for st in body:
            if not self.stmt(st, env, fn, s, depth):
                return False
        return True

    @staticmethod
    def join(env, a, b):
        """a, b: envs of the branches that continue (None: does not continue)"""
        xs = [e for e in (a, b) if e is not None]
        env["checked"] = all(e["checked"] for e in xs)
        env["dirty"] = any(e["dirty"] for e in xs)
        env["alias"] = set().union(*[e["alias"] for e in xs])

    def stmt(self, st, env, fn, s, depth):
        cp = lambda: {"checked": env["checked"], "dirty": env["dirty"], "alias": set(env["alias"])}
        if isinstance(st, ast.If):
            self.exprs(st.test, env, fn, s, depth)
            a, b = cp(), cp()
            la, lb = self.block(st.body, a, fn, s, depth), self.block(st.orelse, b, fn, s, depth)
            if la or lb:
                self.join(env, a if la else None, b if lb else None)
            return la or lb
        if isinstance(st, (ast.For, ast.While)):
            self.exprs(st.iter if isinstance(st, ast.For) else st.test, env, fn, s, depth)
            entry = cp()
            if isinstance(st, ast.For):
                c = chain(st.iter.func.value) if isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Attribute) else chain(st.iter)
                if self.is_state(c):
                    entry["alias"] |= {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
            for _ in range(2):
                e = {"checked": entry["checked"], "dirty": entry["dirty"], "alias": set(entry["alias"])}
                self.block(st.body, e, fn, s, depth)
                entry["dirty"] = entry["dirty"] or e["dirty"]
                entry["alias"] |= e["alias"]
            env["dirty"] = entry["dirty"]
            env["alias"] = entry["alias"]
            return self.block(st.orelse, env, fn, s, depth)
        if isinstance(st, ast.Try):
            q = Sum()
            e = cp()
            lb = self.block(st.body, e, fn, q, depth)
            s.writes |= q.writes
            s.unchecked += q.unchecked
            s.__dict__.setdefault("rets", []).extend(getattr(q, "rets", []))
            caught, caught_dirty = set(), set()
            outs = []
            for h in st.handlers:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else []
                names = {ast.unparse(t).split(".")[-1] for t in ts}
                hit = {x for x in q.raises if not names or x in names or names & {"Exception", "BaseException"} or self.sub(x, names)}
                caught |= hit
                he = cp()
                he["dirty"] = env["dirty"] or bool(hit & q.dirty) or (e["dirty"] and not hit)
                hs = Sum()
                restores = any(isinstance(t, ast.Assign) and any(self.is_state(chain(z)) for z in t.targets) for t in h.body)
                if restores:
                    he["dirty"] = False
                # what the handler re-raises
                for t in h.body:
                    for z in ast.walk(t):
                        if isinstance(z, ast.Raise) and z.exc is None:
                            s.raises |= hit
                            if not restores:
                                s.dirty |= hit & q.dirty
                lh = self.block([t for t in h.body if not (isinstance(t, ast.Assign) and any(self.is_state(chain(z)) for z in t.targets))], he, fn, hs, depth)
                if any(isinstance(t, ast.Raise) for t in h.body):
                    lh = False
                s.raises |= hs.raises
                s.dirty |= hs.dirty
                s.writes |= hs.writes
                s.__dict__.setdefault("rets", []).extend(getattr(hs, "rets", []))
                outs.append(he if lh else None)
            s.raises |= q.raises - caught
            s.dirty |= q.dirty - caught
            if lb:
                lb = self.block(st.orelse, e, fn, s, depth)
            outs.append(e if lb else None)
            alive = [o for o in outs if o is not None]
            if alive:
                env["checked"] = all(o["checked"] for o in alive)
                env["dirty"] = any(o["dirty"] for o in alive)
                env["alias"] = set().union(*[o["alias"] for o in alive])
            r = self.block(st.finalbody, env, fn, s, depth)
            return bool(alive) and r
        if isinstance(st, ast.With):
            for it in st.items:
                self.exprs(it.context_expr, env, fn, s, depth)
            return self.block(st.body, env, fn, s, depth)
        if isinstance(st, ast.Raise):
            self.exprs(st.exc, env, fn, s, depth)
            if st.exc is not None:
                x = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
                n = ast.unparse(x).split(".")[-1]
                s.raises.add(n)
                if env["dirty"]:
                    s.dirty.add(n)
            return False
        if isinstance(st, ast.Return):
            self.exprs(st.value, env, fn, s, depth)
            s.__dict__.setdefault("rets", []).append(cp())
            return False
        if isinstance(st, (ast.Break, ast.Continue)):
            return False
        if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            if not isinstance(st, ast.Delete):
                self.exprs(st.value, env, fn, s, depth)
            ts = st.targets if isinstance(st, (ast.Assign, ast.Delete)) else [st.target]
            for t in ts:
                for z in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    c = chain(z)
                    if self.is_state(c):
                        self.write(env, s, fn, st)
                    elif isinstance(z, ast.Subscript) and c and c[0] in env["alias"]:
                        self.write(env, s, fn, st)
                    elif isinstance(z, ast.Name) and isinstance(st, ast.Assign):
                        env["alias"].discard(z.id)
                        if self.is_state(chain(st.value)) and isinstance(st.value, (ast.Attribute, ast.Subscript)):
                            env["alias"].add(z.id)
            return True
        for x in ast.iter_child_nodes(st):
            if isinstance(x, ast.expr):
                self.exprs(x, env, fn, s, depth)
        return True

    def sub(self, name, handlers):
        c = self.p.cls(name, required=False)
        return c is not None and any(k.name in handlers for k in self.p.mro(c)) or \
            c is not None and any(b in handlers for k in self.p.mro(c) for b in k.bases)


def entry_points(proj, cls):
    """public methods and setters of a class, most derived version"""
    seen = {}
    for k in proj.mro(cls):
        for d, kind in ((k.methods, "m"), (k.setters, "s")):
            for n, f in d.items():
                if (not n.startswith("_")) and n not in EXEMPT and (n, kind) not in seen:
                    seen[(n, kind)] = f
    return seen


def where(ctx, f):
    import os
    return "%s:%s.%s" % (os.path.relpath(f.file, ctx.cur.repo), f.cls, f.name)


def classes(ctx):
    for cn, state in STATE.items():
        c, r = ctx.cur.cls(cn, required=False), ctx.ref.cls(cn, required=False)
        if c is not None and r is not None:
            yield cn, c, r, state


def lock_dominance(ctx):
    """every public method of an Observable model object calls check_lock before its first write of a model-state field, on every path"""
    for cn, c, r, state in classes(ctx):
        if not any(k.name == "Observable" for k in ctx.cur.mro(c)):
            continue
        fl, rl = Flow(ctx.cur, c, state), Flow(ctx.ref, r, state)
        ref = entry_points(ctx.ref, r)
        for (n, kind), f in sorted(entry_points(ctx.cur, c).items()):
            s = fl.summary(f)
            if not s.writes:
                continue
            w = "%s[%s]" % (where(ctx, f), cn)
            g = ref.get((n, kind))
            if g is not None and rl.summary(g).unchecked:
                continue        # the specification itself writes before checking here: judged by semantic comparison only
            yield Ob("lock-dominance", w, not s.unchecked, "a model-state field is written without a preceding check_lock: %s" % ", ".join(sorted(set(s.unchecked))[:4]))


def atomic_failure(ctx):
    """no exception is raised by a public mutator after it has written a model-state field, beyond what the specification allows"""
    for cn, c, r, state in classes(ctx):
        fl, rl = Flow(ctx.cur, c, state), Flow(ctx.ref, r, state)
        ref = entry_points(ctx.ref, r)
        for (n, kind), f in sorted(entry_points(ctx.cur, c).items()):
            g = ref.get((n, kind))
            if g is None:
                continue
            s, q = fl.summary(f), rl.summary(g)
            if not s.writes:
                continue
            extra = s.dirty - q.dirty
            yield Ob("atomic-failure", "%s[%s]" % (where(ctx, f), cn), not extra,
                     "%s can be raised after the model has been changed" % ", ".join(sorted(extra)))


RULES = {"C01": [lock_dominance], "C04": [atomic_failure]}
