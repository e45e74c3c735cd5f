"""Constant folding of module-level values and parameter defaults (names resolved through imports)."""
import ast
import math
import operator

BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.Pow: operator.pow,
       ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod}
FUN = {"sqrt": math.sqrt, "cos": math.cos, "sin": math.sin, "tan": math.tan, "exp": math.exp, "log": math.log, "arccos": math.acos, "arctan": math.atan, "radians": math.radians}


class NotConst(Exception):
    pass


def value(proj, module, e, depth=0):
    if depth > 30:
        raise NotConst()
    r = lambda x: value(proj, module, x, depth + 1)
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd, ast.Not)):
        v = r(e.operand)
        return -v if isinstance(e.op, ast.USub) else (not v if isinstance(e.op, ast.Not) else +v)
    if isinstance(e, ast.BinOp) and type(e.op) in BIN:
        try:
            return BIN[type(e.op)](r(e.left), r(e.right))
        except (TypeError, ZeroDivisionError, OverflowError, ValueError):
            raise NotConst()
    if isinstance(e, (ast.Tuple, ast.List)):
        return tuple(r(x) for x in e.elts)
    if isinstance(e, ast.Set):
        return frozenset(r(x) for x in e.elts)
    if isinstance(e, ast.Dict) and all(k is not None for k in e.keys):
        return {r(k): r(v) for k, v in zip(e.keys, e.values)}
    if isinstance(e, ast.Call) and not e.keywords:
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", None)
        if n in FUN and len(e.args) == 1:
            try:
                return FUN[n](r(e.args[0]))
            except (TypeError, ValueError, OverflowError):
                raise NotConst()
        if n in ("array", "tuple", "list", "float", "int", "frozenset") and len(e.args) == 1:
            v = r(e.args[0])
            return v
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        if e.attr == "pi" and e.value.id in ("np", "math", "numpy"):
            return math.pi
        q = _res(proj, module, e.value.id)
        if q is not None and q[0] == "module":
            m = proj.modules.get(q[1])
            if m is not None and e.attr in m.globs:
                return value(proj, q[1], m.globs[e.attr], depth + 1)
    if isinstance(e, ast.Name):
        q = _res(proj, module, e.id)
        if q is not None and q[0] == "glob":
            return value(proj, q[1], q[2], depth + 1)
        if e.id == "pi":
            return math.pi
    raise NotConst()


def _res(proj, module, name):
    try:
        return proj.resolve(module, name)
    except Exception:
        return None


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)) and a == b
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b
