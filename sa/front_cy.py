"""Cython front end: Cython's own parser -> Python ast."""
import ast
import os
from Cython.Compiler.TreeFragment import parse_from_strings
from .ir import Func, Param, Type, AnalysisError, Unsupported

CTYPES = {"int": "int", "long": "int", "short": "int", "char": "int", "Py_ssize_t": "int", "size_t": "int",
          "double": "real", "float": "real", "complex": "complex", "bint": "bool", "object": "any",
          "int32_t": "int", "int64_t": "int", "tuple": "any", "list": "any", "dict": "any", "str": "str", "void": "any"}


class Conv:
    def __init__(self, file):
        self.file = file
        self.types = {}

    def loc(self, node, n):
        try:
            node.lineno = n.pos[1]
            node.col_offset = n.pos[2]
        except Exception:
            node.lineno, node.col_offset = 0, 0
        node.end_lineno, node.end_col_offset = node.lineno, node.col_offset
        return node

    # types -------------------------------------------------------------
    def ctype(self, bt, decl=None):
        t = type(bt).__name__
        rank = 0
        extra = {}
        if t == "MemoryViewSliceTypeNode":
            rank = len(bt.axes)
            base = self.ctype(bt.base_type_node)
            kind = base.kind
        elif t == "CSimpleBaseTypeNode":
            if bt.name is None:
                kind = "any"
            else:
                kind = CTYPES.get(bt.name, "any")
                if bt.complex:
                    kind = "complex"
                if kind == "any" and bt.is_basic_c_type:
                    kind = "int"
            extra["c"] = bt.name
            extra["longness"] = getattr(bt, "longness", 0)
            extra["signed"] = getattr(bt, "signed", 1)
        elif t == "CComplexBaseTypeNode":
            return self.ctype(bt.base_type, bt.declarator)
        elif t == "TemplatedTypeNode":
            kind = "any"
        else:
            kind = "any"
        d = decl
        while d is not None and type(d).__name__ in ("CArrayDeclaratorNode", "CPtrDeclaratorNode"):
            rank += 1
            d = d.base
        return Type(kind, rank, **extra)

    def dname(self, d):
        while not hasattr(d, "name"):
            d = d.base
        return d.name

    # expressions --------------------------------------------------------
    def e(self, n):
        if n is None:
            return None
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.loc(ast.Call(func=ast.Name(id="__unsupported_%s" % type(n).__name__, ctx=ast.Load()),
                                     args=[], keywords=[]), n)
        return self.loc(m(n), n)

    def es(self, l):
        return [self.e(x) for x in l]

    def e_NameNode(self, n):
        return ast.Name(id=str(n.name), ctx=ast.Load())

    def e_IntNode(self, n):
        v = str(n.value)
        return ast.Constant(int(v.rstrip("uUlL"), 0))

    def e_FloatNode(self, n):
        return ast.Constant(float(n.value))

    def e_ImagNode(self, n):
        return ast.Constant(complex(0, float(n.value)))

    def e_BoolNode(self, n):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(None)

    def e_UnicodeNode(self, n):
        return ast.Constant(str(n.value))
    e_StringNode = e_UnicodeNode
    e_IdentifierStringNode = e_UnicodeNode
    e_BytesNode = e_UnicodeNode

    def e_AttributeNode(self, n):
        return ast.Attribute(value=self.e(n.obj), attr=str(n.attribute), ctx=ast.Load())

    def e_IndexNode(self, n):
        return ast.Subscript(value=self.e(n.base), slice=self.e(n.index), ctx=ast.Load())

    def e_SliceIndexNode(self, n):
        return ast.Subscript(value=self.e(n.base),
                             slice=ast.Slice(lower=self.nn(n.start), upper=self.nn(n.stop), step=None), ctx=ast.Load())

    def nn(self, x):
        if x is None or type(x).__name__ == "NoneNode":
            return None
        return self.e(x)

    def e_SliceNode(self, n):
        return ast.Slice(lower=self.nn(n.start), upper=self.nn(n.stop), step=self.nn(n.step))

    def e_TupleNode(self, n):
        return ast.Tuple(elts=self.es(n.args), ctx=ast.Load())

    def e_ListNode(self, n):
        return ast.List(elts=self.es(n.args), ctx=ast.Load())

    def e_SetNode(self, n):
        return ast.Set(elts=self.es(n.args))

    def e_DictNode(self, n):
        return ast.Dict(keys=[self.e(i.key) for i in n.key_value_pairs], values=[self.e(i.value) for i in n.key_value_pairs])

    def e_SimpleCallNode(self, n):
        return ast.Call(func=self.e(n.function), args=self.es(n.args or []), keywords=[])

    def e_GeneralCallNode(self, n):
        pos = n.positional_args
        args = self.es(pos.args) if hasattr(pos, "args") else [self.e(pos)]
        kws = []
        ka = n.keyword_args
        if ka is not None and hasattr(ka, "key_value_pairs"):
            for i in ka.key_value_pairs:
                kws.append(ast.keyword(arg=str(i.key.value), value=self.e(i.value)))
        return ast.Call(func=self.e(n.function), args=args, keywords=kws)

    OPS = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod, "**": ast.Pow,
           "@": ast.MatMult, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift}

    def bin(self, n):
        return ast.BinOp(left=self.e(n.operand1), op=self.OPS[n.operator](), right=self.e(n.operand2))
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_MatMultNode = bin
    e_IntBinopNode = e_NumBinopNode = e_BitwiseOrNode = bin

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(op=ast.USub(), operand=self.e(n.operand))

    def e_UnaryPlusNode(self, n):
        return self.e(n.operand)

    def e_NotNode(self, n):
        return ast.UnaryOp(op=ast.Not(), operand=self.e(n.operand))

    def e_BoolBinopNode(self, n):
        op = ast.And() if n.operator == "and" else ast.Or()
        return ast.BoolOp(op=op, values=[self.e(n.operand1), self.e(n.operand2)])

    CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq,
           "is": ast.Is, "is_not": ast.IsNot, "in": ast.In, "not_in": ast.NotIn}

    def e_PrimaryCmpNode(self, n):
        ops, comps = [self.CMP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(self.CMP[c.operator]())
            comps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(left=self.e(n.operand1), ops=ops, comparators=comps)

    def e_CondExprNode(self, n):
        return ast.IfExp(test=self.e(n.test), body=self.e(n.true_val), orelse=self.e(n.false_val))

    def e_TypecastNode(self, n):
        t = self.ctype(n.base_type, n.declarator)
        return ast.Call(func=ast.Name(id="__cast_%s" % t.kind, ctx=ast.Load()), args=[self.e(n.operand)], keywords=[])

    def e_ComprehensionNode(self, n):
        raise Unsupported("comprehension in Cython")

    # statements -----------------------------------------------------------
    def block(self, n):
        if n is None:
            return []
        t = type(n).__name__
        if t == "StatListNode":
            out = []
            for s in n.stats:
                out.extend(self.block(s))
            return out
        m = getattr(self, "s_" + t, None)
        if m is None:
            return [self.loc(ast.Expr(self.loc(ast.Call(func=ast.Name(id="__unsupported_%s" % t, ctx=ast.Load()),
                                                        args=[], keywords=[]), n)), n)]
        r = m(n)
        if r is None:
            return []
        if not isinstance(r, list):
            r = [r]
        for x in r:
            if not hasattr(x, "lineno"):
                self.loc(x, n)
        return r

    def target(self, n):
        x = self.e(n)
        _store(x)
        return x

    def s_SingleAssignmentNode(self, n):
        if isinstance(n.rhs, object) and type(n.rhs).__name__ == "ImportNode":
            return []
        return ast.Assign(targets=[self.target(n.lhs)], value=self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign(targets=[self.target(x) for x in n.lhs_list], value=self.e(n.rhs))

    def s_ParallelAssignmentNode(self, n):
        ts = [self.target(s.lhs) for s in n.stats]
        vs = [self.e(s.rhs) for s in n.stats]
        return ast.Assign(targets=[self.loc(ast.Tuple(elts=ts, ctx=ast.Store()), n)],
                          value=self.loc(ast.Tuple(elts=vs, ctx=ast.Load()), n))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(target=self.target(n.lhs), op=self.OPS[n.operator](), value=self.e(n.rhs))

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            nm = self.dname(d)
            self.types[nm] = self.ctype(n.base_type, d)
            if getattr(d, "default", None) is not None:
                out.append(self.loc(ast.Assign(targets=[self.loc(ast.Name(id=nm, ctx=ast.Store()), n)],
                                               value=self.e(d.default)), n))
        return out

    def s_ForInStatNode(self, n):
        return ast.For(target=self.target(n.target), iter=self.e(n.iterator.sequence), body=self.block(n.body) or [ast.Pass()],
                       orelse=self.block(n.else_clause))

    def s_ForFromStatNode(self, n):
        a, b = self.e(n.bound1), self.e(n.bound2)
        one = ast.Constant(1)
        if n.relation1 == "<":
            a = ast.BinOp(a, ast.Add(), one)
        if n.relation2 == "<=":
            b = ast.BinOp(b, ast.Add(), one)
        args = [a, b] + ([self.e(n.step)] if n.step is not None else [])
        it = self.loc(ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=args, keywords=[]), n)
        ast.fix_missing_locations(it)
        return ast.For(target=self.target(n.target), iter=it, body=self.block(n.body) or [ast.Pass()], orelse=[])

    def s_WhileStatNode(self, n):
        return ast.While(test=self.e(n.condition), body=self.block(n.body) or [ast.Pass()], orelse=self.block(n.else_clause))

    def s_IfStatNode(self, n):
        orelse = self.block(n.else_clause)
        for c in reversed(n.if_clauses):
            node = self.loc(ast.If(test=self.e(c.condition), body=self.block(c.body) or [ast.Pass()], orelse=orelse), c)
            orelse = [node]
        return orelse

    def s_ReturnStatNode(self, n):
        return ast.Return(value=self.e(n.value))

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_ExprStatNode(self, n):
        return ast.Expr(self.e(n.expr))

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.e(n.exc_type), cause=None)

    def s_AssertStatNode(self, n):
        return ast.Assert(test=self.e(n.condition), msg=None)

    def s_GILStatNode(self, n):
        return self.block(n.body)

    def s_CompilerDirectivesNode(self, n):
        return self.block(n.body)

    def s_FromCImportStatNode(self, n):
        return []
    s_CImportStatNode = s_FromCImportStatNode

    def s_FromImportStatNode(self, n):
        return []


def _store(x):
    if isinstance(x, (ast.Name, ast.Subscript, ast.Attribute)):
        x.ctx = ast.Store()
    elif isinstance(x, (ast.Tuple, ast.List)):
        x.ctx = ast.Store()
        for y in x.elts:
            _store(y)


def parse_file(path, module):
    src = open(path, encoding="utf-8").read()
    try:
        tree = parse_from_strings(module, src)
    except Exception as e:
        raise AnalysisError("cannot parse %s: %s" % (path, e))
    funcs = {}
    globs = {}

    def visit(n):
        t = type(n).__name__
        if t in ("StatListNode",):
            for s in n.stats:
                visit(s)
        elif t == "CompilerDirectivesNode":
            visit(n.body)
        elif t in ("DefNode", "CFuncDefNode"):
            c = Conv(path)
            params = []
            if t == "DefNode":
                name = str(n.name)
                args = n.args
            else:
                d = n.declarator
                while type(d).__name__ != "CFuncDeclaratorNode":
                    d = d.base
                name = str(c.dname(d.base))
                args = d.args
            for a in args:
                nm = c.dname(a.declarator)
                tp = c.ctype(a.base_type, a.declarator)
                if not nm:
                    nm = a.base_type.name
                    tp = Type("any", 0)
                params.append(Param(str(nm), tp, c.e(a.default) if a.default is not None else None))
            ret = c.ctype(n.base_type) if t == "CFuncDefNode" else None
            body = c.block(n.body)
            types = dict((p.name, p.type) for p in params)
            types.update((str(k), v) for k, v in c.types.items())
            body = [s for s in body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            for s in body:
                ast.fix_missing_locations(s)
            decs = []
            for dnode in (n.decorators or []) if hasattr(n, "decorators") else []:
                try:
                    decs.append(ast.unparse(c.e(dnode.decorator)))
                except Exception:
                    pass
            funcs[name] = Func(name, module, path, "cy", params, types, body, n.pos[1], decs,
                               extra={"ret": ret, "nogil": getattr(n, "nogil", False)})
        elif t == "CVarDefNode":
            c = Conv(path)
            for s in c.block(n):
                globs[s.targets[0].id] = s.value
        elif t == "SingleAssignmentNode" and type(n.rhs).__name__ != "ImportNode":
            c = Conv(path)
            s = c.s_SingleAssignmentNode(n)
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                globs[s.targets[0].id] = s.value
    visit(tree.body)
    return funcs, globs
