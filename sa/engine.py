from .gvn import *
from .gvn_expr import ExprMixin
from .gvn_loop import LoopMixin


class GVN(LoopMixin, ExprMixin, Interp):
    pass
