"""Fortran front end (free form, the subset used by numerical kernels) -> Python ast.

Array subscripts are normalised to base 0 with the declared lower bounds; `do i = a, b` becomes
range(a, b + 1).  OpenMP directives are kept as `.omp` attributes of the loop they precede."""
import ast
import re
from .ir import Func, Param, Type, AnalysisError, Unsupported

TOK = re.compile(r"""
   (?P<num>(\d+\.(?![A-Za-z]+\.)\d*([edED][+-]?\d+)?|\.\d+([edED][+-]?\d+)?|\d+[edED][+-]?\d+|\d+)(_\w+)?)
 | (?P<dot>\.[A-Za-z]+\.)
 | (?P<name>[A-Za-z_]\w*)
 | (?P<str>'([^']|'')*'|"([^"]|"")*")
 | (?P<op>\*\*|//|==|/=|<=|>=|=>|::|[-+*/<>=(),:%\[\]])
 | (?P<ws>\s+)
""", re.X | re.I)


def preprocess(src, defines=()):
    """handle # directives; returns list of (lineno, text)"""
    out = []
    stack = []

    def active():
        return all(s[0] for s in stack)
    for n, line in enumerate(src.split("\n"), 1):
        s = line.strip()
        if s.startswith("#"):
            m = re.match(r"#\s*(ifdef|ifndef|if|elif|else|endif|define|include)\b(.*)", s)
            if not m:
                continue
            d, rest = m.group(1), m.group(2).strip()
            if d == "ifdef":
                v = rest in defines
                stack.append([v, v])
            elif d == "ifndef":
                v = rest not in defines
                stack.append([v, v])
            elif d == "if":
                e = re.sub(r"defined\s*\(?\s*(\w+)\s*\)?", lambda k: str(k.group(1) in defines), rest)
                e = e.replace("&&", " and ").replace("||", " or ").replace("!", " not ")
                try:
                    v = bool(eval(e, {"__builtins__": {}}, {}))
                except Exception:
                    v = False
                stack.append([v, v])
            elif d == "elif":
                if stack:
                    stack[-1][0] = False if stack[-1][1] else False
            elif d == "else":
                if stack:
                    stack[-1][0] = not stack[-1][1]
                    stack[-1][1] = True
            elif d == "endif":
                if stack:
                    stack.pop()
            continue
        if active():
            out.append((n, line))
    return out


def strip_comment(line):
    q = None
    for i, c in enumerate(line):
        if q:
            if c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c == "!":
            return line[:i]
    return line


def logical_lines(lines):
    """join continuations; yields (lineno, kind, text) with kind 'stmt' or 'omp'"""
    out = []
    cur, start, kind = "", None, None
    for n, raw in lines:
        s = raw.strip()
        if re.match(r"!\$omp\b", s, re.I):
            t = re.sub(r"^!\$omp&?", "", s, flags=re.I).strip()
            if kind == "omp" and cur:
                t2 = t.lstrip("&")
                cur += " " + t2
            else:
                cur, start, kind = t, n, "omp"
            if cur.rstrip().endswith("&"):
                cur = cur.rstrip()[:-1]
                continue
            out.append((start, "omp", cur.strip()))
            cur, kind = "", None
            continue
        s = strip_comment(raw).strip()
        if not s:
            continue
        if kind == "stmt" and cur:
            s2 = s[1:] if s.startswith("&") else s
            cur += " " + s2
        else:
            cur, start, kind = s, n, "stmt"
        if cur.endswith("&"):
            cur = cur[:-1].rstrip()
            continue
        for part in split_semi(cur):
            if part.strip():
                out.append((start, "stmt", part.strip()))
        cur, kind = "", None
    return out


def split_semi(s):
    r, q, cur = [], None, ""
    for c in s:
        if q:
            if c == q:
                q = None
            cur += c
        elif c in "'\"":
            q = c
            cur += c
        elif c == ";":
            r.append(cur)
            cur = ""
        else:
            cur += c
    r.append(cur)
    return r


def tokenize(s):
    toks = []
    i = 0
    while i < len(s):
        # '1.and.' style ambiguities: number followed by .op.
        m = re.match(r"\d+(?=\.(and|or|eq|ne|lt|le|gt|ge)\.)", s[i:], re.I)
        if m:
            toks.append(("num", m.group(0)))
            i += m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            if s[i] == ";":
                i += 1
                continue
            raise Unsupported("token %r in %r" % (s[i], s))
        k = m.lastgroup
        # lastgroup may be an inner group; find which named alternative matched
        for g in ("num", "dot", "name", "str", "op", "ws"):
            if m.group(g):
                k = g
                break
        if k != "ws":
            t = m.group(k)
            if k == "name":
                t = t.lower()
            elif k == "dot":
                t = t.lower()
            toks.append((k, t))
        i = m.end()
    return toks


class ExprParser:
    def __init__(self, toks, scope, line):
        self.t, self.i, self.scope, self.line = toks, 0, scope, line

    def L(self, n):
        n.lineno = n.end_lineno = self.line
        n.col_offset = n.end_col_offset = 0
        return n

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != "str":
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported("expected %s at %r" % (v, self.t[self.i:self.i + 5]))

    STDDOT = (".and.", ".or.", ".not.", ".eqv.", ".neqv.", ".true.", ".false.", ".eq.", ".ne.", ".lt.", ".le.", ".gt.", ".ge.")

    def expr(self):
        a = self.p_or()
        while self.peek()[0] == "dot" and self.peek()[1] not in self.STDDOT:
            op = self.next()[1]
            b = self.p_or()
            a = self.L(ast.Call(ast.Name("operator" + op, ast.Load()), [a, b], []))
        return a

    def p_or(self):
        a = self.p_and()
        while self.peek()[1] in (".or.", ".eqv.", ".neqv."):
            op = self.next()[1]
            b = self.p_and()
            if op == ".or.":
                a = self.L(ast.BoolOp(ast.Or(), [a, b]))
            else:
                a = self.L(ast.Compare(a, [ast.Eq() if op == ".eqv." else ast.NotEq()], [b]))
        return a

    def p_and(self):
        a = self.p_not()
        while self.peek()[1] == ".and.":
            self.next()
            a = self.L(ast.BoolOp(ast.And(), [a, self.p_not()]))
        return a

    def p_not(self):
        if self.peek()[1] == ".not.":
            self.next()
            return self.L(ast.UnaryOp(ast.Not(), self.p_not()))
        return self.p_cmp()

    CM = {"==": ast.Eq, "/=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE,
          ".eq.": ast.Eq, ".ne.": ast.NotEq, ".lt.": ast.Lt, ".le.": ast.LtE, ".gt.": ast.Gt, ".ge.": ast.GtE}

    def p_cmp(self):
        a = self.p_cat()
        if self.peek()[1] in self.CM and self.peek()[0] in ("op", "dot"):
            op = self.next()[1]
            return self.L(ast.Compare(a, [self.CM[op]()], [self.p_cat()]))
        return a

    def p_cat(self):
        a = self.p_add()
        while self.peek() == ("op", "//"):
            self.next()
            b = self.p_add()
            a = self.L(ast.Call(ast.Name("__concat", ast.Load()), [a, b], []))
        return a

    def p_add(self):
        if self.peek() in (("op", "-"), ("op", "+")):
            op = self.next()[1]
            a = self.p_mul()
            if op == "-":
                a = self.L(ast.UnaryOp(ast.USub(), a))
        else:
            a = self.p_mul()
        while self.peek() in (("op", "-"), ("op", "+")):
            op = self.next()[1]
            b = self.p_mul()
            a = self.L(ast.BinOp(a, ast.Add() if op == "+" else ast.Sub(), b))
        return a

    def p_mul(self):
        a = self.p_pow()
        while self.peek() in (("op", "*"), ("op", "/")):
            if self.peek() == ("op", "/") and self.peek(1) == ("op", ")"):
                break
            op = self.next()[1]
            b = self.p_pow()
            a = self.L(ast.BinOp(a, ast.Mult() if op == "*" else ast.Div(), b))
        return a

    def p_pow(self):
        a = self.p_prim()
        if self.peek() == ("op", "**"):
            self.next()
            if self.peek() == ("op", "-"):
                self.next()
                b = self.L(ast.UnaryOp(ast.USub(), self.p_pow()))
            else:
                b = self.p_pow()
            return self.L(ast.BinOp(a, ast.Pow(), b))
        return a

    def p_prim(self):
        k, v = self.next()
        if k == "num":
            v = v.split("_")[0].lower().replace("d", "e")
            if re.fullmatch(r"\d+", v):
                return self.L(ast.Constant(int(v)))
            return self.L(ast.Constant(float(v)))
        if k == "dot":
            if v == ".true.":
                return self.L(ast.Constant(True))
            if v == ".false.":
                return self.L(ast.Constant(False))
        if k == "str":
            return self.L(ast.Constant(v[1:-1]))
        if k == "op" and v == "[":
            el = []
            while not self.accept("]"):
                el.append(self.expr())
                self.accept(",")
            return self.L(ast.List(el, ast.Load()))
        if k == "op" and v == "(":
            if self.peek() == ("op", "/"):
                self.next()
                el = []
                while not (self.peek() == ("op", "/") and self.peek(1) == ("op", ")")):
                    el.append(self.p_add())
                    if not self.accept(","):
                        break
                self.expect("/")
                self.expect(")")
                return self.L(ast.List(el, ast.Load()))
            a = self.expr()
            if self.accept(","):
                # complex literal or implied do: (re, im)
                if self.peek()[0] == "name" and self.peek(1) == ("op", "="):
                    v = self.next()[1]
                    self.next()
                    lo = self.expr()
                    self.expect(",")
                    hi = self.expr()
                    self.expect(")")
                    rng = ast.Call(ast.Name("range", ast.Load()), [lo, ast.BinOp(hi, ast.Add(), ast.Constant(1))], [])
                    return self.L(ast.ListComp(a, [ast.comprehension(ast.Name(v, ast.Store()), rng, [], 0)]))
                b = self.expr()
                self.expect(")")
                return self.L(ast.Call(ast.Name("cmplx", ast.Load()), [a, b], []))
            self.expect(")")
            return a
        if k == "name":
            node = self.L(ast.Name(v, ast.Load()))
            tp = self.scope.get(v)
            while True:
                if self.peek() == ("op", "("):
                    self.next()
                    args, kws = self.arglist()
                    if tp is not None and tp.rank > 0:
                        node = self.subscript(node, tp, args)
                        tp = Type(tp.kind, 0, **tp.extra)
                    elif tp is not None and tp.kind == "str":
                        node = self.L(ast.Subscript(node, args[0], ast.Load()))
                    else:
                        if isinstance(node, ast.Name) and any(isinstance(a, ast.Slice) for a in args):
                            raise Unsupported("slice in call %s" % ast.dump(node))
                        node = self.L(ast.Call(node, args, kws))
                        tp = None
                elif self.peek() == ("op", "%"):
                    self.next()
                    fld = self.next()[1]
                    dt = None
                    if tp is not None:
                        dt = self.scope.field(tp.extra.get("derived"), fld)
                    node = self.L(ast.Attribute(node, fld, ast.Load()))
                    tp = dt or Type("any", 1, lb=[None])
                else:
                    return node
        raise Unsupported("primary %r" % (v,))

    def arglist(self):
        args, kws = [], []
        if self.accept(")"):
            return args, kws
        while True:
            if self.peek()[0] == "name" and self.peek(1) == ("op", "="):
                nm = self.next()[1]
                self.next()
                kws.append(ast.keyword(nm, self.expr()))
            else:
                args.append(self.arg())
            if self.accept(")"):
                return args, kws
            self.expect(",")

    def arg(self):
        lo = hi = st = None
        if self.peek()[1] != ":":
            lo = self.expr()
            if self.peek() != ("op", ":"):
                return lo
        self.expect(":")
        if self.peek()[1] not in (",", ")", ":"):
            hi = self.expr()
        if self.accept(":"):
            st = self.expr()
        return self.L(ast.Slice(lo, hi, st))

    def subscript(self, node, tp, args):
        lbs = tp.extra.get("lb") or [None] * tp.rank
        out = []
        for a, lb in zip(args, lbs):
            one = lb if lb is not None else ast.Constant(1)
            if isinstance(a, ast.Slice):
                lo = self.L(ast.BinOp(a.lower, ast.Sub(), one)) if a.lower is not None else None
                hi = None
                if a.upper is not None:
                    hi = self.L(ast.BinOp(self.L(ast.BinOp(a.upper, ast.Sub(), one)), ast.Add(), ast.Constant(1)))
                out.append(self.L(ast.Slice(lo, hi, a.step)))
            else:
                x = self.L(ast.BinOp(a, ast.Sub(), one))
                out.append(x)
        sl = out[0] if len(out) == 1 else self.L(ast.Tuple(out, ast.Load()))
        return self.L(ast.Subscript(node, sl, ast.Load()))


class Scope(dict):
    def __init__(self, parent=None, derived=None):
        super().__init__()
        self.parent = parent
        self.derived = derived if derived is not None else {}

    def get(self, k, d=None):
        if k in self:
            return self[k]
        if self.parent is not None:
            return self.parent.get(k, d)
        return d

    def field(self, dt, f):
        return self.derived.get(dt, {}).get(f)


class Parser:
    def __init__(self, path, module=None, src=None):
        self.path = path
        self.src = src if src is not None else open(path, encoding="utf-8", errors="replace").read()
        self.lines = logical_lines(preprocess(self.src))
        self.i = 0
        self.funcs = {}
        self.generics = {}
        self.globs = {}
        self.derived = {}
        self.gscope = Scope(None, self.derived)
        self.module = "file"
        self.unsupported = []

    def peek(self):
        return self.lines[self.i] if self.i < len(self.lines) else (0, None, "")

    def ex(self, s, scope, line):
        p = ExprParser(tokenize(s), scope, line)
        e = p.expr()
        if p.i != len(p.t):
            raise Unsupported("trailing tokens in %r" % s)
        return ast.fix_missing_locations(e)

    def parse(self):
        while self.i < len(self.lines):
            n, k, s = self.lines[self.i]
            l = s.lower()
            if k == "omp":
                self.i += 1
                continue
            m = re.match(r"module\s+(\w+)$", l)
            if m and m.group(1) != "procedure":
                self.module = m.group(1)
                self.i += 1
                continue
            if re.match(r"end\s*module|contains|implicit|private|public|use\b|include|program|end\s*program", l):
                self.i += 1
                continue
            m = re.match(r"interface\b\s*(.*)$", l)
            if m:
                g = m.group(1).strip()
                if g.startswith("operator"):
                    g = "operator" + re.search(r"\((.*?)\)", g).group(1).strip()
                self.i += 1
                sp = []
                while not re.match(r"end\s*interface", self.peek()[2].lower()):
                    mm = re.match(r"module\s+procedure\s*(?:::)?\s*(.*)$", self.peek()[2].lower())
                    if mm:
                        sp += [x.strip() for x in mm.group(1).split(",")]
                    self.i += 1
                self.i += 1
                self.generics[g] = sp
                continue
            m = re.match(r"type\s*(?:,[^:]*)?(?:::)?\s*(\w+)$", l)
            if m and not l.startswith("type("):
                nm = m.group(1)
                self.i += 1
                sc = Scope(None, self.derived)
                while not re.match(r"end\s*type", self.peek()[2].lower()):
                    self.decl(self.peek()[2], sc, self.peek()[0], {}, [])
                    self.i += 1
                self.i += 1
                self.derived[nm] = dict(sc)
                continue
            m = re.match(r"(?:(pure|elemental|recursive)\s+)*(subroutine|function)\s+(\w+)", l)
            m2 = re.match(r"(?:(?:pure|elemental|recursive)\s+)*((?:integer|real|complex|double precision|logical)[^!]*?)\s+function\s+(\w+)", l)
            if (m or m2) and not l.startswith("end"):
                self.proc(bool(m2), m2)
                continue
            if self.is_decl(l):
                vals = {}
                try:
                    self.decl(s, self.gscope, n, vals, [])
                except Unsupported:
                    pass
                self.globs.update(vals)
                self.i += 1
                continue
            self.i += 1
        return self

    def is_decl(self, l):
        return bool(re.match(r"(integer|real|complex|logical|character|double\s+precision|type\s*\()", l)) and \
            not re.match(r"(real|integer|complex)\s*\(.*\)\s*=[^=>]", l) and ("::" in l or re.match(r"(integer|real|complex|logical|character|double\s+precision)\b[^=]*\s+\w", l))

    def decl(self, s, scope, line, vals, order):
        if "::" in s:
            left, right = s.split("::", 1)
        else:
            m = re.match(r"\s*((?:integer|real|complex|logical|character|double\s+precision|type)\s*(?:\*\s*\d+|\([^)]*\))?)\s+(.*)$", s, re.I)
            if not m:
                return
            left, right = m.group(1), m.group(2)
        l = left.strip().lower()
        m = re.match(r"(integer|real|complex|logical|character|double\s+precision|type)", l)
        if not m:
            return
        base = m.group(1)
        kind = {"integer": "int", "real": "real", "complex": "complex", "logical": "bool", "character": "str",
                "type": "any"}.get(base, "real")
        extra = {}
        rest = l[m.end():]
        mm = re.match(r"\s*\(([^()]*)\)", rest)
        if mm:
            if base == "type":
                extra["derived"] = mm.group(1).strip()
            else:
                extra["kindspec"] = mm.group(1).replace(" ", "")
            rest = rest[mm.end():]
        attrs = split_top(rest)
        dim = None
        for a in attrs:
            a = a.strip()
            if a.startswith("dimension"):
                dim = a[a.index("(") + 1:a.rindex(")")]
            elif a.startswith("intent"):
                extra["intent"] = re.search(r"\((.*?)\)", a).group(1).replace(" ", "")
            elif a in ("pointer", "target", "parameter", "optional", "allocatable", "save", "external"):
                extra[a] = True
        for d in split_top(right):
            d = d.strip()
            if not d:
                continue
            init = None
            m = re.match(r"^(\w+)\s*(\((.*)\))?\s*(\*\s*\S+)?\s*(=>|=)?\s*(.*)$", d)
            if not m:
                raise Unsupported("declaration %r" % d)
            nm = m.group(1).lower()
            # find matching paren for dims
            mdim = dim
            tail = d[len(m.group(1)):].strip()
            if tail.startswith("("):
                e = match_paren(tail)
                mdim = tail[1:e]
                tail = tail[e + 1:].strip()
            if tail.startswith("="):
                init = tail.lstrip("=>").strip()
            lbs, dims, rank = [], [], 0
            if mdim is not None:
                for x in split_top(mdim):
                    rank += 1
                    x = x.strip()
                    if x == ":" or x == "*":
                        lbs.append(None)
                        dims.append(None)
                    else:
                        parts = split_colon(x)
                        if len(parts) == 2 and parts[0].strip():
                            lb = self.ex(parts[0], scope, line)
                            lbs.append(lb)
                            if parts[1].strip() in ("", "*"):
                                dims.append(None)
                            else:
                                ub = self.ex(parts[1], scope, line)
                                dims.append(ast.fix_missing_locations(ast.BinOp(ast.BinOp(ub, ast.Sub(), lb), ast.Add(), ast.Constant(1))))
                        else:
                            lbs.append(None)
                            dims.append(self.ex(x, scope, line))
            t = Type(kind, rank, **dict(extra, lb=lbs, dims=dims))
            scope[nm] = t
            order.append(nm)
            if init is not None:
                vals[nm] = self.ex(init, scope, line)

    def proc(self, typed, m2):
        n, _, s = self.lines[self.i]
        self.i += 1
        l = s.lower()
        m = re.search(r"(subroutine|function)\s+(\w+)\s*(\((.*?)\))?\s*(.*)$", l)
        kind, name, argl, tail = m.group(1), m.group(2), m.group(4) or "", m.group(5) or ""
        args = [a.strip() for a in argl.split(",") if a.strip()]
        res = None
        if kind == "function":
            mm = re.search(r"result\s*\(\s*(\w+)\s*\)", tail)
            res = mm.group(1) if mm else name
        scope = Scope(self.gscope, self.derived)
        if typed:
            try:
                self.decl(m2.group(1) + " :: " + res, scope, n, {}, [])
            except Unsupported:
                pass
        inits, order, body = {}, [], []
        ok = True
        try:
            body = self.block(scope, inits, order, top=kind)
        except Unsupported as e:
            self.unsupported.append((name, str(e)))
            # skip to the end of the procedure
            depth = 0
            while self.i < len(self.lines):
                t = self.lines[self.i][2].lower()
                self.i += 1
                if re.match(r"end\s*(subroutine|function)\b", t):
                    break
            body = [ast.fix_missing_locations(ast.Expr(ast.Call(ast.Name("__unsupported_f90", ast.Load()), [ast.Constant(str(e))], [])))]
        params = []
        for a in args:
            t = scope.get(a) or Type("any", 0)
            params.append(Param(a, t, None, "pos", t.extra.get("intent")))
        pre = []
        for nm, e in inits.items():
            pre.append(ast.fix_missing_locations(ast.Assign([ast.Name(nm, ast.Store())], e)))
        fn = Func(name, self.module, self.path, "f90", params, dict(scope), pre + body, n, [], None, res)
        fn.extra["local_order"] = order
        fn.extra["kind"] = kind
        self.funcs[name] = fn

    # ---- statements
    def block(self, scope, inits, order, top=None, until=None):
        out = []
        omp = None
        while True:
            n, k, s = self.peek()
            if k is None:
                return out
            l = s.lower()
            if k == "omp":
                self.i += 1
                d = l
                if d.startswith("end"):
                    if not re.match(r"end\s+(parallel\s+)?do|end\s+simd", d):
                        out.append(self.omp_stmt(d, n))
                    continue
                if re.match(r"(parallel\s+do|do|simd)\b", d):
                    omp = (d, n)
                else:
                    out.append(self.omp_stmt(d, n))
                continue
            if top and re.match(r"end\s*(subroutine|function)\b", l) or (top and l == "end"):
                self.i += 1
                return out
            if until and until(l):
                return out
            if re.match(r"(use\b|implicit\b|external\b|include\b|save\b|intrinsic\b|contains$)", l):
                self.i += 1
                continue
            if self.is_decl(l) and not re.match(r"\w+\s*(\(.*\))?\s*=[^=>]", l):
                self.i += 1
                self.decl(s, scope, n, inits, order)
                continue
            st = self.stmt(scope, inits, order)
            if omp is not None:
                for x in st:
                    if isinstance(x, (ast.For, ast.While)):
                        x.omp = omp[0]
                        x.omp_line = omp[1]
                omp = None
            out.extend(st)

    def omp_stmt(self, d, n):
        e = ast.Expr(ast.Call(ast.Name("__omp", ast.Load()), [ast.Constant(d)], []))
        e.lineno = n
        e.col_offset = 0
        return ast.fix_missing_locations(e)

    def fin(self, node, n):
        node.lineno = n
        node.col_offset = 0
        return ast.fix_missing_locations(node)

    def stmt(self, scope, inits, order):
        n, k, s = self.lines[self.i]
        self.i += 1
        l = s.lower()
        lab = re.match(r"^(\w+)\s*:\s*(do|if|select)\b", l)
        if lab:
            s = s[s.index(":") + 1:].strip()
            l = s.lower()
        m = re.match(r"do\s*while\s*\((.*)\)$", s, re.I)
        if m:
            c = self.ex(m.group(1), scope, n)
            b = self.block(scope, inits, order, until=lambda x: re.match(r"end\s*do", x))
            self.i += 1
            return [self.fin(ast.While(c, b or [ast.Pass()], []), n)]
        m = re.match(r"do\s+(?:concurrent\b)", l)
        if m:
            raise Unsupported("do concurrent")
        m = re.match(r"do\s+(\w+)\s*=\s*(.*)$", s, re.I)
        if m:
            parts = [self.ex(x, scope, n) for x in split_top(m.group(2))]
            b = self.block(scope, inits, order, until=lambda x: re.match(r"end\s*do", x))
            self.i += 1
            step = parts[2] if len(parts) > 2 else None
            up = ast.BinOp(parts[1], ast.Add(), ast.Constant(1))
            if step is not None and isinstance(step, ast.UnaryOp):
                up = ast.BinOp(parts[1], ast.Sub(), ast.Constant(1))
            rng = ast.Call(ast.Name("range", ast.Load()), [parts[0], up] + ([step] if step is not None else []), [])
            return [self.fin(ast.For(ast.Name(m.group(1).lower(), ast.Store()), rng, b or [ast.Pass()], []), n)]
        if l == "do":
            b = self.block(scope, inits, order, until=lambda x: re.match(r"end\s*do", x))
            self.i += 1
            return [self.fin(ast.While(ast.Constant(True), b or [ast.Pass()], []), n)]
        m = re.match(r"if\s*\(", l)
        if m:
            e = match_paren(s[m.end() - 1:]) + m.end() - 1
            cond = self.ex(s[m.end():e], scope, n)
            rest = s[e + 1:].strip()
            if rest.lower() == "then":
                return [self.if_block(cond, scope, inits, order, n)]
            self.lines.insert(self.i, (n, "stmt", rest))
            b = self.stmt(scope, inits, order)
            return [self.fin(ast.If(cond, b or [ast.Pass()], []), n)]
        m = re.match(r"select\s*case\s*\((.*)\)$", s, re.I)
        if m:
            sel = m.group(1)
            cases = []
            while True:
                t = self.peek()[2]
                tl = t.lower()
                if re.match(r"end\s*select", tl):
                    self.i += 1
                    break
                mm = re.match(r"case\s*(default|\((.*)\))$", t, re.I)
                if not mm:
                    raise Unsupported("select body")
                self.i += 1
                b = self.block(scope, inits, order, until=lambda x: re.match(r"(end\s*select|case\b)", x))
                cases.append((None if mm.group(1).lower() == "default" else split_top(mm.group(2)), b))
            orelse = []
            for vals, b in cases:
                if vals is None:
                    orelse = b
            for vals, b in reversed(cases):
                if vals is None:
                    continue
                tests = [ast.Compare(self.ex(sel, scope, n), [ast.Eq()], [self.ex(v, scope, n)]) for v in vals]
                c = tests[0] if len(tests) == 1 else ast.BoolOp(ast.Or(), tests)
                orelse = [self.fin(ast.If(c, b or [ast.Pass()], orelse), n)]
            return orelse
        if re.match(r"exit\b", l):
            return [self.fin(ast.Break(), n)]
        if re.match(r"cycle\b", l):
            return [self.fin(ast.Continue(), n)]
        if re.match(r"return$", l):
            return [self.fin(ast.Return(None), n)]
        if re.match(r"(stop|error\s+stop)\b", l):
            return [self.fin(ast.Raise(ast.Name("StopError", ast.Load()), None), n)]
        if re.match(r"(continue)$", l):
            return []
        m = re.match(r"(write|print|open|close|read|flush|inquire|rewind)\b", l)
        if m and not re.match(r"\w+\s*(\(.*\))?\s*=[^=>]", l):
            e = ast.Expr(ast.Call(ast.Name("__io_" + m.group(1), ast.Load()), [ast.Constant(s)], []))
            return [self.fin(e, n)]
        m = re.match(r"call\s+(\w+)\s*(\(.*\))?$", s, re.I)
        if m:
            a = m.group(2) or "()"
            p = ExprParser(tokenize(a), scope, n)
            p.expect("(")
            args, kws = p.arglist()
            return [self.fin(ast.Expr(ast.Call(ast.Name(m.group(1).lower(), ast.Load()), args, kws)), n)]
        m = re.match(r"(allocate|deallocate|nullify)\s*\((.*)\)$", s, re.I)
        if m:
            out = []
            if m.group(1).lower() != "allocate":
                return []
            for x in split_top(m.group(2)):
                x = x.strip()
                mm = re.match(r"^(\w+)\s*\((.*)\)$", x)
                if not mm:
                    continue
                nm = mm.group(1).lower()
                dims, lbs = [], []
                for d in split_top(mm.group(2)):
                    ps = split_colon(d)
                    if len(ps) == 2:
                        lb = self.ex(ps[0], scope, n)
                        ub = self.ex(ps[1], scope, n)
                        lbs.append(lb)
                        dims.append(ast.BinOp(ast.BinOp(ub, ast.Sub(), lb), ast.Add(), ast.Constant(1)))
                    else:
                        lbs.append(None)
                        dims.append(self.ex(d, scope, n))
                if scope.get(nm) is not None:
                    scope.get(nm).extra["lb"] = lbs
                out.append(self.fin(ast.Assign([ast.Name(nm, ast.Store())],
                                               ast.Call(ast.Name("__alloc", ast.Load()), dims, [])), n))
            return out
        # assignment / pointer assignment
        i = find_assign(s)
        if i is not None:
            ptr = s[i:i + 2] == "=>"
            lhs = self.ex(s[:i].strip(), scope, n)
            rhs = self.ex(s[i + (2 if ptr else 1):].strip(), scope, n)
            if isinstance(lhs, ast.Call):
                raise Unsupported("assignment to %s" % s)
            lhs.ctx = ast.Store()
            a = ast.Assign([lhs], rhs)
            a.pointer = ptr
            return [self.fin(a, n)]
        raise Unsupported("statement %r" % s)

    def if_block(self, cond, scope, inits, order, n):
        stop = lambda x: re.match(r"(end\s*if|else)", x)
        b = self.block(scope, inits, order, until=stop)
        n2, _, t = self.peek()
        tl = t.lower()
        self.i += 1
        orelse = []
        m = re.match(r"else\s*if\s*\(", tl)
        if m:
            e = match_paren(t[m.end() - 1:]) + m.end() - 1
            c2 = self.ex(t[m.end():e], scope, n2)
            orelse = [self.if_block(c2, scope, inits, order, n2)]
        elif tl == "else":
            orelse = self.block(scope, inits, order, until=stop)
            self.i += 1
        return self.fin(ast.If(cond, b or [ast.Pass()], orelse), n)


def match_paren(s):
    d = 0
    q = None
    for i, c in enumerate(s):
        if q:
            if c == q:
                q = None
            continue
        if c in "'\"":
            q = c
        elif c == "(":
            d += 1
        elif c == ")":
            d -= 1
            if d == 0:
                return i
    raise Unsupported("unbalanced %r" % s)


def split_top(s):
    r, d, cur, q = [], 0, "", None
    for c in s:
        if q:
            if c == q:
                q = None
            cur += c
            continue
        if c in "'\"":
            q = c
        if c in "([":
            d += 1
        if c in ")]":
            d -= 1
        if c == "," and d == 0:
            r.append(cur)
            cur = ""
        else:
            cur += c
    r.append(cur)
    return [x for x in r if x.strip()]


def split_colon(s):
    d = 0
    for i, c in enumerate(s):
        if c == "(":
            d += 1
        elif c == ")":
            d -= 1
        elif c == ":" and d == 0:
            return [s[:i], s[i + 1:]]
    return [s]


def find_assign(s):
    d, q = 0, None
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            if c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c == "(":
            d += 1
        elif c == ")":
            d -= 1
        elif c == "=" and d == 0:
            if s[i:i + 2] == "==":
                i += 2
                continue
            if i and s[i - 1] in "/<>":
                i += 1
                continue
            return i
        i += 1
    return None


def parse_file(path):
    return Parser(path).parse()
