"""Common IR: every function of every language is a Func whose body is Python ast."""
import ast


class AnalysisError(Exception):
    """the analysis cannot run at all (missing anchor, unparsable file)"""


class Unsupported(Exception):
    """a construct outside the modelled fragment: obligation undecided"""


class Type:
    """scalar kind ('int','real','complex','bool','str','any') and array rank (0 scalar)"""
    __slots__ = ("kind", "rank", "extra")

    def __init__(self, kind="any", rank=0, **extra):
        self.kind, self.rank, self.extra = kind, rank, extra

    def __repr__(self):
        return "%s/%d%s" % (self.kind, self.rank, self.extra or "")


class Param:
    __slots__ = ("name", "type", "default", "kind", "intent")

    def __init__(self, name, type=None, default=None, kind="pos", intent=None):
        self.name, self.type, self.default, self.kind, self.intent = name, type, default, kind, intent


class Func:
    def __init__(self, name, module, file, lang, params, types, body, lineno=0, decorators=(), cls=None,
                 result=None, public=True, extra=None):
        self.name, self.module, self.file, self.lang = name, module, file, lang
        self.params, self.types, self.body, self.lineno = params, types, body, lineno
        self.decorators = list(decorators)
        self.cls = cls
        self.result = result        # Fortran function result variable
        self.public = public
        self.extra = extra or {}

    @property
    def qual(self):
        return (self.module + "." + (self.cls + "." if self.cls else "") + self.name)

    def __repr__(self):
        return "<Func %s>" % self.qual


def walk_stmts(body):
    for s in body:
        yield s
        for f in ("body", "orelse", "finalbody"):
            for x in walk_stmts(getattr(s, f, []) or []):
                yield x
        for h in getattr(s, "handlers", []) or []:
            for x in walk_stmts(h.body):
                yield x
