"""Abstract scenarios: symbolic arguments, construction, configuration and lifecycle calls.

A scenario never runs the analysed program.  It states which entry points are called, in which
order, on abstract arguments (matrices of symbolic shape with labelled contents), and hands each
call to the abstract interpreter.
"""
import ast

from .interp import Interp, Frame, Dead, AnalysisError
from .values import *
from .heap import *

MATRIX = 'cls:wai.ma.core.matrix._Matrix.Matrix'
NODE = ast.parse('0').body[0]
NODE.lineno = 0


class Node:
    """stand-in syntax node of a driver call; distinct positions give distinct contexts"""
    _fields = ()

    def __init__(self, n):
        self.lineno = -n
        self.col_offset = 0
        self.end_lineno = -n
        self.end_col_offset = 0


class Driver:
    def __init__(self, src='/repo/src', I=None):
        self.I = I or Interp(src)
        self.k = 0
        fr = Frame()
        fr.fid = 'mod:wai.ma'
        fr.fn = None
        fr.module = 'wai.ma'
        fr.cls = None
        fr.parent = None
        fr.selfatom = None
        fr.qual = '<driver>'
        fr.yields = None
        fr.callnode = None
        fr.node = None
        self.I.stack = [fr]
        self.reset()

    # -------------------------------------------------------------- state
    def reset(self):
        I = self.I
        I.ctx = 0
        I.handlers = [[]]
        I.listeners = []
        I.distinct = set()
        I.doubts = set()
        I.refine_fields = True
        I.name_slices = False
        I.sym_lo = {}
        I.sym_hi = {}
        I.opaque = {}
        I.row_mode = False
        I.steps = 0
        I.switches = []
        del I.stack[1:]
        self.k = 0

    def fresh(self):
        return self.I.base.copy()

    def node(self):
        self.k += 1
        return Node(self.k)

    # -------------------------------------------------------------- arguments
    def dim(self, name, lo=1, hi=INF):
        self.I.sym_lo[name] = lo
        if hi != INF:
            self.I.sym_hi[name] = hi
        return lin_sym(name)

    def nd(self, st, name, rows, cols, labels=None):
        """a labelled ndarray; its owner id is name"""
        lab = frozenset(labels if labels is not None else [name])
        dims = (rows, cols)
        return self.I.new_nd(st, self.node(), dims, lab, 'f', name='nd!' + name)

    def matrix(self, st, name, rows, cols, labels=None):
        v = self.nd(st, name, rows, cols, labels)
        m = self.I.call_value(V((('c', MATRIX),)), [v], {}, st, self.node())
        return m

    def num(self, kind, lo=-INF, hi=INF, label=None):
        return num(kind, lo, hi, labels=frozenset([label]) if label else EMPTY)

    # -------------------------------------------------------------- calls
    def run(self, fn):
        """evaluate fn(); returns (list of (value, state), list of (exception, state))"""
        I = self.I
        depth = len(I.stack)
        I.handlers.append([])
        ctx = I.ctx
        try:
            try:
                outs = fn()
            except Dead:
                outs = []
        finally:
            exc = I.handlers.pop()
            del I.stack[depth:]
            I.ctx = ctx
        return outs, exc

    def new(self, st, cls, *args, **kwargs):
        """instantiate; (value, state) or None when construction cannot complete"""
        n = self.node()
        outs, exc = self.run(lambda: self.I.call_multi(V((('c', self.cid(cls)),)), list(args), kwargs, st, n))
        return self.join(outs), exc

    def cid(self, cls):
        if cls.startswith('cls:'):
            return cls
        c = [k for k in self.I.classes if k.endswith('.' + cls)]
        if len(c) > 1:
            c = sorted(c, key=len)
        if not c:
            raise KeyError(cls)
        return c[0]

    def join(self, outs):
        if not outs:
            return None
        v = join_all([o[0] for o in outs])
        s = join_list([o[1] for o in outs])
        return v, s

    def method(self, st, obj, name, args=(), kwargs=None):
        n = self.node()

        def go():
            f = self.I.getattr(obj, name, st, n)
            return self.I.call_multi(f, list(args), dict(kwargs or {}), st, n)
        return self.run(go)

    def get(self, st, obj, name):
        n = self.node()
        return self.run(lambda: [(self.I.getattr(obj, name, st, n), st)])

    def set(self, st, obj, name, v):
        n = self.node()

        def go():
            self.I.setattr(obj, name, v, st, n)
            return [(NONE, st)]
        return self.run(go)

    def function(self, st, module, name, args=(), kwargs=None):
        n = self.node()

        def go():
            f = self.I.getattr(V((('m', module),)), name, st, n)
            return self.I.call_multi(f, list(args), dict(kwargs or {}), st, n)
        return self.run(go)

    def excnames(self, exc):
        out = {}
        for ev, s in exc:
            for c in self.I.exc_class_names(ev, s):
                out[c] = out.get(c, 0) + 1
        return out
