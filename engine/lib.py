"""Models of the builtins, numpy and the other libraries the analysed program uses.

Everything outside the analysed package is described here by its effect on storage (fresh result, view of
an argument, in-place write) and on dependences.  Calls without a model return an unknown value that
depends on all arguments and change nothing: unknown code never causes a report.
"""
import math
import operator

from .values import *
from .values import _norm_atoms
from .heap import *
from .npmodel import NpModel

NONDET = 'NONDET'

PYT = {'int': ('builtins.int', 'numbers.Number', 'numbers.Integral', 'numbers.Real'),
       'bool': ('builtins.bool', 'builtins.int', 'numbers.Number', 'numbers.Integral', 'numbers.Real'),
       'float': ('builtins.float', 'numbers.Number', 'numbers.Real'),
       'real': ('numpy.float64', 'builtins.float', 'numbers.Number', 'numbers.Real', 'numpy.floating', 'numpy.number',
                'numpy.generic', 'numpy.float_', 'numpy.double', 'numpy.inexact'),
       'complex': ('builtins.complex', 'numbers.Number', 'numpy.complexfloating', 'numpy.number', 'numpy.complex128'),
       'str': ('builtins.str',), 'bytes': ('builtins.bytes',), 'NoneType': ('builtins.NoneType',), 'ellipsis': ()}

EXC = {'Exception', 'BaseException'}
import builtins as _b
EXC = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}

REALT = ('numpy.float64', 'numpy.float_', 'numpy.double', 'numpy.float32', 'numpy.longdouble', 'numpy.float16',
         'numpy.float', 'numpy.float128')
INTT = ('numpy.int64', 'numpy.int32', 'numpy.int_', 'numpy.intp', 'numpy.int8', 'numpy.int16', 'numpy.uint8',
        'numpy.uint32', 'numpy.uint64', 'numpy.int')

UFUNC1 = set('''sqrt exp log log2 log10 log1p expm1 abs absolute fabs sin cos tan tanh sinh cosh arctan arcsin arccos
 arcsinh arccosh arctanh negative positive square reciprocal sign floor ceil rint round round_ around trunc fix conj
 conjugate angle nan_to_num degrees radians deg2rad rad2deg cbrt exp2 isnan isinf isfinite logical_not invert signbit
 sinc real_if_close isposinf isneginf spacing'''.split())
UFUNC2 = set('''add subtract multiply divide true_divide floor_divide power float_power mod remainder fmod maximum
 minimum fmax fmin hypot arctan2 copysign greater greater_equal less less_equal equal not_equal logical_and logical_or
 logical_xor bitwise_and bitwise_or isclose heaviside'''.split())
BOOLF = set('''isnan isinf isfinite logical_not greater greater_equal less less_equal equal not_equal logical_and
 logical_or logical_xor isclose signbit isposinf isneginf'''.split())
REDUCE = set('''sum mean std var median amax amin max min prod any all nansum nanmean nanstd nanvar nanmax nanmin
 nanmedian percentile quantile ptp average argmax argmin count_nonzero product nanargmax nanargmin alltrue sometrue
 nanpercentile nanquantile trapz'''.split())
CUM = set('cumsum cumprod diff gradient nancumsum convolve unwrap ediff1d'.split())
OPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
       'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow, 'BitAnd': operator.and_,
       'BitOr': operator.or_, 'BitXor': operator.xor, 'LShift': operator.lshift, 'RShift': operator.rshift}
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
          'Pow': 'pow', 'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift',
          'RShift': 'rshift'}
CMPD = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}


def index_values(idx):
    """the values an index expression is made of"""
    out = []
    for e in idx[1]:
        out.extend(x for x in e[1:] if x is not None)
    return out


def rows_any(s):
    """spec after the position along the aligned axis has been lost by contraction"""
    return '*' if isinstance(s, int) else ('?' if s == 'l' else s)


def rows_unk(s):
    return '?' if isinstance(s, int) or s == 'l' else s


def _na(s):
    return _norm_atoms(frozenset(s))


class Lib(NpModel):
    def __init__(self, I):
        self.I = I
        self.seen_ext = {}

    # ------------------------------------------------------------------ symbols
    def symbol(self, d):
        if d in ('numpy.inf', 'numpy.Inf', 'numpy.infty', 'math.inf', 'numpy.PINF', 'numpy.Infinity'):
            return const(math.inf)
        if d in ('numpy.NINF',):
            return const(-math.inf)
        if d in ('numpy.nan', 'numpy.NaN', 'math.nan', 'numpy.NAN'):
            return V((NAN_ATOM,))
        if d in ('numpy.pi', 'math.pi'):
            return const(math.pi)
        if d in ('numpy.e', 'math.e'):
            return const(math.e)
        if d == 'numpy.newaxis':
            return NONE
        if d in ('sys.maxsize',):
            return const(2 ** 63 - 1)
        if d.startswith('builtins.') and d[9:] in ('Ellipsis',):
            return const(Ellipsis)
        d = d.replace('numpy.matlib.', 'numpy.')
        return V((('x', d),))

    def is_exc_name(self, n):
        return n.replace('builtins.', '') in EXC

    def getattr_ext(self, d, name, st, node):
        if name == '__name__':
            return const(d.rsplit('.', 1)[-1])
        if name == '__doc__':
            return unknown('doc')
        return self.symbol(d + '.' + name)

    # ------------------------------------------------------------------ label helpers
    def nd_labels(self, oid, st):
        o = st.heap[oid]
        base = o.aux['base']
        if base == frozenset((oid,)):
            return o.aux.get('lab', EMPTY)
        out = set()
        view = o.aux.get('view')
        for b in base:
            bo = st.heap.get(b)
            if bo is None:
                continue
            lab = bo.aux.get('lab', EMPTY)
            if view is None or len(base) > 1 and view != ():
                lab = map_rows(lab, rows_unk)
            else:
                rank = len(bo.aux['dims']) if bo.aux.get('dims') is not None else None
                for op in view:
                    lab = map_rows(lab, lambda s, op=op: self.fwd(op, s))
            out |= lab
        return frozenset(out)

    @staticmethod
    def fwd(op, s):
        if not isinstance(s, int):
            if type(s) is tuple and s[0] == 'd' and (op[0] in ('idx', 'flip') or op[0] == 'sl' and op[2] != 'full'):
                return '?'
            return s
        k = op[0]
        if k == 'idx':
            if s == op[1]:
                return ('i', op[2]) if op[2] is not None else '?'
            return s - 1 if s > op[1] else s
        if k == 'sl':
            return s if s != op[1] or op[2] in ('full', 'prefix') else '?'
        if k == 'T':
            return {0: 1, 1: 0}.get(s, '?') if len(op) == 1 or op[1] == 2 else (0 if op[1] == 1 else '?')
        if k == 'new':
            return s + 1 if s >= op[1] else s
        if k == 'flip':
            return '*' if op[1] is None or s in op[1] else s
        return '?'

    @staticmethod
    def bwd(op, s):
        """labels of a value written through a view, in the coordinates before the view operation"""
        k = op[0]
        if k == 'idx':
            if isinstance(s, int):
                return s + 1 if s >= op[1] else s
            if type(s) is tuple and s[0] == 'i' and op[2] is not None and s[1] == op[2]:
                return op[1]
            return s
        if not isinstance(s, int):
            return s
        if k == 'sl':
            return s if s != op[1] or op[2] in ('full', 'prefix') else '?'
        if k == 'T':
            return {0: 1, 1: 0}.get(s, '?') if len(op) == 1 or op[1] == 2 else (0 if op[1] == 1 else '?')
        if k == 'new':
            return s - 1 if s > op[1] else ('?' if s == op[1] else s)
        if k == 'flip':
            return '*' if op[1] is None or s in op[1] else s
        return '?'

    @staticmethod
    def displaced(s, ops):
        """a value of row i written at another position counted from i"""
        if type(s) is tuple and s[0] == 'i' and s[1] is not None and s[1][1]:
            for op in ops:
                if op[0] == 'idx' and op[2] is not None:
                    d = lin_add(op[2], s[1], -1)
                    if d is not None and not d[1] and d[0] != 0:
                        return ('d', d[0])
        return s

    def content(self, v, st):
        """labels of a scalar or array value, in its own coordinates"""
        l = v.labels
        for a in v.atoms:
            if a[0] == 'o':
                o = st.heap[a[1]]
                if o.kind == 'nd':
                    l = l | self.nd_labels(a[1], st)
                else:
                    l = l | map_rows(self.deep_labels(V((a,)), st), rows_unk)
        return l

    def cond_labels(self, v, st):
        l = v.labels
        for a in v.atoms:
            if a[0] == 'o' and st.heap[a[1]].kind == 'nd':
                l = l | map_rows(self.nd_labels(a[1], st), rows_any)
            elif a[0] == 'o' and st.heap[a[1]].kind == 'ext':
                l = l | st.heap[a[1]].aux.get('lab', EMPTY)
        return l

    def deep_labels(self, v, st):
        l = set(v.labels)
        ids = reach(st, [v])
        for i in ids:
            o = st.heap.get(i)
            if o is None:
                continue
            for x in o.f.values():
                l |= x.labels
            for x in o.aux.get('items', ()):
                l |= x.labels
            for k in ('elem', 'length'):
                x = o.aux.get(k)
                if x is not None:
                    l |= x.labels
            m = o.aux.get('map')
            if m:
                for x in m.values():
                    l |= x.labels
            l |= o.aux.get('lab', EMPTY)
        return frozenset(l)

    def args_labels(self, args, kwargs, st):
        l = set()
        for v in list(args) + list(kwargs.values()):
            l |= self.deep_labels(v, st)
        return map_rows(frozenset(l), rows_unk)

    # ------------------------------------------------------------------ numbers
    def sym_min(self, lin):
        if lin is None:
            return -INF
        r = lin[0]
        for s, c in lin[1]:
            if c > 0:
                r += c * self.I.sym_lo.get(s, -INF)
            else:
                h = self.I.sym_hi.get(s, INF) if hasattr(self.I, 'sym_hi') else INF
                r += c * h
            if r == -INF or r != r:
                return -INF
        return r

    def dim_v(self, lin):
        if lin is None:
            return num('int', 0, INF)
        if not lin[1]:
            return const(lin[0])
        lo = self.sym_min(lin)
        lo = max(0, lo) if lo == lo else 0
        return num('int', lo, INF, lin, frozenset('#' + s for s, _ in lin[1] if not s.startswith('%')))

    def lin_of(self, v):
        a = v.single()
        if a is None:
            return None
        r = num_range(a)
        if r is None:
            return None
        if r[3] is not None:
            return r[3]
        if a[0] == 'k' and isinstance(a[2], float) and a[2] == int(a[2]) if abs(a[2] if isinstance(a[2], (int, float)) else INF) != INF else False:
            return lin_const(int(a[2]))
        return None

    def data_elem(self, dt, labels):
        if dt == 'i':
            return num('int', -INF, INF, None, labels)
        if dt == 'b':
            return V(BOOL.atoms, labels)
        return V((('n', 'real', -INF, INF, None), NAN_ATOM), labels)

    def arith(self, op, a, b):
        """atom x atom -> set of atoms"""
        if a[0] == 'nan' or b[0] == 'nan':
            o = b if a[0] == 'nan' else a
            if is_num_atom(o) or (o[0] == 'k' and o[1] == 'bool'):
                return {NAN_ATOM}
            return {('u', 'arith')}
        if a[0] == 'k' and b[0] == 'k':
            try:
                r = OPS[op](a[2], b[2])
            except KeyError:
                return {('u', 'arith')}
            except ZeroDivisionError:
                if 'real' in (a[1], b[1]):
                    return {('n', 'real', -INF, INF, None), NAN_ATOM}
                return set()
            except Exception:
                return set() if not ({a[1], b[1]} <= {'int', 'float', 'real', 'bool', 'complex'}) else {('n', 'real', -INF, INF, None)}
            if isinstance(r, complex):
                return {('n', 'complex', -INF, INF, None)}
            if isinstance(r, (int, float)) and not isinstance(r, bool):
                if r != r:
                    return {NAN_ATOM}
                t = 'real' if 'real' in (a[1], b[1]) else tname_of(r)
                return {('k', t, r)}
            return {('k', tname_of(r), r)}
        ra, rb = num_range(a), num_range(b)
        if ra is None or rb is None:
            ta = a[0] == 's' or (a[0] == 'k' and a[1] == 'str')
            tb = b[0] == 's' or (b[0] == 'k' and b[1] == 'str')
            if op == 'Add' and ta and tb:
                return {STR_ATOM}
            if op == 'Mod' and ta:
                return {STR_ATOM}
            if op == 'Mult' and (ta and rb or tb and ra):
                return {STR_ATOM}
            ba = a[0] == 'by' or (a[0] == 'k' and a[1] == 'bytes')
            bb = b[0] == 'by' or (b[0] == 'k' and b[1] == 'bytes')
            if op == 'Add' and ba and bb:
                return {BYTES_ATOM}
            if NONE_ATOM in (a, b) and (ra or rb or ta or tb or a == b):
                return set()
            if (ta or tb) and (ra or rb):
                return set()
            return {('u', 'arith')}
        t = wider(ra[0], rb[0])
        if t == 'bool':
            t = 'int'
        if op == 'Div' and t == 'int':
            t = 'float'
        lin = None
        lo, hi = -INF, INF
        try:
            if op in ('Add', 'Sub'):
                sg = 1 if op == 'Add' else -1
                if t == 'int':
                    lin = lin_add(ra[3], rb[3], sg)
                lo = ra[1] + (rb[1] if sg == 1 else -rb[2])
                hi = ra[2] + (rb[2] if sg == 1 else -rb[1])
                if t == 'int' and lin is not None:
                    lo = max(lo, self.sym_min(lin))
            elif op == 'Mult':
                if t == 'int' and ra[3] is not None and rb[3] is not None:
                    if not ra[3][1]:
                        lin = lin_scale(rb[3], ra[3][0])
                    elif not rb[3][1]:
                        lin = lin_scale(ra[3], rb[3][0])
                cs = []
                for x in (ra[1], ra[2]):
                    for y in (rb[1], rb[2]):
                        p = 0 if x == 0 or y == 0 else x * y
                        cs.append(p)
                lo, hi = min(cs), max(cs)
            elif op == 'Div':
                if rb[1] > 0 or rb[2] < 0:
                    cs = []
                    for x in (ra[1], ra[2]):
                        for y in (rb[1], rb[2]):
                            if abs(x) == INF and abs(y) == INF:
                                cs += [-INF, INF] if ra[1] < 0 else [0, INF]
                            elif abs(y) == INF:
                                cs.append(0.0)
                            else:
                                cs.append(x / y)
                    lo, hi = min(cs), max(cs)
            elif op == 'Mod':
                if rb[1] > 0:
                    lo, hi = 0, rb[2]
                    if t == 'int' and hi != INF:
                        hi -= 1
            elif op == 'FloorDiv':
                if ra[1] >= 0 and rb[1] > 0:
                    lo, hi = 0, ra[2]
            elif op == 'Pow':
                if ra[1] >= 0:
                    lo = 0
        except Exception:
            lo, hi = -INF, INF
        if lo != lo or hi != hi:
            lo, hi = -INF, INF
        if lo == hi and abs(lo) != INF and t != 'int':
            return {('k', t, float(lo))}
        if t == 'int' and lin is not None and not lin[1]:
            return {('k', 'int', lin[0])}
        return {('n', t, lo, hi, lin)}

    def binop(self, op, l, r, st, node):
        I = self.I
        lnd = [a for a in l.atoms if a[0] == 'o' and st.heap[a[1]].kind == 'nd']
        rnd = [a for a in r.atoms if a[0] == 'o' and st.heap[a[1]].kind == 'nd']
        if lnd or rnd:
            if op == 'MatMult':
                return self.matmul(l, r, st, node)
            return self.elementwise([l, r], st, node, name=op)
        res = set()
        labels = combine_rows(op_roles(op, [l.labels, r.labels], [l.const(), r.const()]))
        vals = []
        for a in l.atoms:
            for b in r.atoms:
                if a[0] == 'o' or b[0] == 'o':
                    v = self.obj_binop(op, a, b, st, node)
                    if v is not None:
                        vals.append(v)
                    continue
                if a[0] == 'u' or b[0] == 'u':
                    res.add(('u', 'arith'))
                    continue
                x = self.arith(op, a, b)
                if not x:
                    I.do_raise_named('TypeError', st, node, may=True)
                res |= x
        v = V(_na(res), labels) if res else None
        for w in vals:
            w = w.with_labels(labels)
            v = w if v is None else join(v, w)
        if v is None:
            I.raise_dead('TypeError', st, node)
        return v

    def obj_binop(self, op, a, b, st, node):
        I = self.I
        if op == 'Add':
            # text or a number and a stream never add up
            for x, y in ((a, b), (b, a)):
                if x[0] == 'o' and st.heap[x[1]].kind == 'ext' and st.heap[x[1]].cls in ('io.BytesIO', 'io.StringIO') and (
                        y[0] == 's' or num_range(y) is not None or y[0] == 'k'):
                    return None
        if a[0] == 'o':
            o = st.heap[a[1]]
            if o.kind == 'inst':
                c, fv = I.class_attr(st, o.cls, '__%s__' % DUNDER[op])
                if fv is not None:
                    return I.call_value(I.bind(fv, a, st, node), [V((b,))], {}, st, node)
            if o.kind in ('list', 'tuple'):
                if op == 'Add' and b[0] == 'o' and st.heap[b[1]].kind == o.kind:
                    p = st.heap[b[1]]
                    if 'items' in o.aux and 'items' in p.aux:
                        return I.new_list(st, node, o.aux['items'] + p.aux['items'], kind=o.kind)
                    la, lb = self.seq_len(o), self.seq_len(p)
                    return I.new_list(st, node, elem=join(self.seq_elem(o), self.seq_elem(p)),
                                      length=self.binop('Add', la, lb, st, node), kind=o.kind)
                if op == 'Mult':
                    return self.repeat(o, V((b,)), st, node)
                return unknown('seq op')
            if o.kind == 'set':
                return I.new_list(st, node, elem=join(self.seq_elem(o), self.iter_elem(V((b,)), st, node)),
                                  kind='set')
        if b[0] == 'o':
            o = st.heap[b[1]]
            if o.kind in ('list', 'tuple') and op == 'Mult':
                return self.repeat(o, V((a,)), st, node)
            if o.kind == 'inst':
                c, fv = I.class_attr(st, o.cls, '__r%s__' % DUNDER[op])
                if fv is not None:
                    return I.call_value(I.bind(fv, b, st, node), [V((a,))], {}, st, node)
        return unknown('op', self.args_labels([V((a,)), V((b,))], {}, st))

    def repeat(self, o, n, st, node):
        I = self.I
        c, k = n.const()
        if 'items' in o.aux and c and isinstance(k, int) and k * len(o.aux['items']) <= 40:
            return I.new_list(st, node, o.aux['items'] * max(k, 0), kind=o.kind)
        return I.new_list(st, node, elem=self.seq_elem(o), length=self.binop('Mult', self.seq_len(o), n, st, node),
                          kind=o.kind)

    def unop(self, op, v, st, node):
        I = self.I
        if any(a[0] == 'o' and st.heap[a[1]].kind == 'nd' for a in v.atoms):
            return self.elementwise([v], st, node, name=op)
        res = set()
        for a in v.atoms:
            r = num_range(a)
            if a[0] == 'nan':
                res.add(a)
            elif a[0] == 'k' and r is not None:
                x = -a[2] if op == 'USub' else (+a[2] if op == 'UAdd' else (~a[2] if isinstance(a[2], int) else a[2]))
                res.add(('k', 'int' if a[1] == 'bool' else a[1], x))
            elif r is not None:
                if op == 'USub':
                    res.add(('n', r[0], -r[2], -r[1], lin_scale(r[3], -1)))
                elif op == 'UAdd':
                    res.add(a)
                else:
                    res.add(('n', r[0], -INF, INF, None))
            elif a[0] == 'o' and st.heap[a[1]].kind == 'inst':
                nm = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
                c, fv = I.class_attr(st, st.heap[a[1]].cls, nm)
                if fv is not None:
                    res |= I.call_value(I.bind(fv, a, st, node), [], {}, st, node).atoms
                else:
                    res.add(('u', 'unop'))
            else:
                res.add(('u', 'unop'))
        return V(res, op_roles(op, [v.labels], [v.const()])[0])

    # ------------------------------------------------------------------ comparison
    def eq_atoms(self, a, b, op='Eq'):
        """True / False / None (unknown)"""
        ka, kb = a[0], b[0]
        if ka == 'u' or kb == 'u':
            return None
        if ka == 'k' and kb == 'k':
            if op == 'Is':
                if a[1] != b[1] and not (a[1] in NUMT and b[1] in NUMT):
                    return False
                if a[1] in ('NoneType', 'bool', 'ellipsis') and a[1] == b[1]:
                    return a[2] is b[2]
                return None if a[2] == b[2] else False
            try:
                return bool(a[2] == b[2])
            except Exception:
                return None
        if a == NONE_ATOM or b == NONE_ATOM:
            o = b if a == NONE_ATOM else a
            if o[0] == 'o':
                return False
            return False
        if ka == 'e' or kb == 'e':
            if ka == kb:
                return a == b
            return False
        if ka == 'nan' or kb == 'nan':
            if op == 'Is':
                return None
            return False
        if ka == 'o' and kb == 'o':
            if a[1] == b[1]:
                return True if op == 'Is' else None
            return False if op == 'Is' else None
        if ka == 'o' or kb == 'o':
            return False if op == 'Is' else None
        if ka == 'c' or kb == 'c':
            x = a if ka == 'x' else b if kb == 'x' else None
            return a == b if ka == kb else (None if x is not None and not x[1].startswith('builtins.') else False)
        ra, rb = num_range(a), num_range(b)
        if ra is not None and rb is not None:
            if ra[2] < rb[1] or rb[2] < ra[1]:
                return False
            if ra[3] is not None and rb[3] is not None:
                d = lin_add(ra[3], rb[3], -1)
                if not d[1]:
                    return d[0] == 0 if op == 'Eq' else (False if d[0] else None)
                if d in self.I.distinct or lin_scale(d, -1) in self.I.distinct:
                    return False
                if self.sym_min(d) > 0 or self.sym_min(lin_scale(d, -1)) > 0:
                    return False
            elif self.I.distinct:
                for r in (ra, rb):
                    if r[3] is not None:
                        self.I.doubts.update('#' + n for n, _ in r[3][1])
            return None
        if (ra is None) != (rb is None):
            return False
        if ka == 's' or kb == 's':
            o = b if ka == 's' else a
            if o[0] == 's' or (o[0] == 'k' and o[1] == 'str'):
                return None
            return False
        if ka == 'x' and kb == 'x':
            return True if a == b else None
        if ka == kb:
            return True if a == b and ka in ('fn', 'm') else None
        return None

    def eq_seq(self, a, b, st):
        """equality with sequences compared element by element"""
        if a[0] == 'o' and b[0] == 'o':
            o, p = st.heap[a[1]], st.heap[b[1]]
            if o.kind in ('list', 'tuple') and p.kind in ('list', 'tuple'):
                if o.kind != p.kind:
                    return False
                x, y = o.aux.get('items'), p.aux.get('items')
                if x is None or y is None:
                    return None
                if len(x) != len(y):
                    return False
                r = True
                for u, v in zip(x, y):
                    i, j = u.single(), v.single()
                    e = self.eq_seq(i, j, st) if i is not None and j is not None else None
                    if e is False:
                        return False
                    if e is None:
                        r = None
                return r
        return self.eq_atoms(a, b, 'Eq')

    def compare(self, op, l, r, st, node):
        if self.I.listeners:
            self.I.emit('compare', st, node, op=op, left=l, right=r)
        I = self.I
        if op in ('Is', 'IsNot'):
            t = f = False
            for a in l.atoms:
                for b in r.atoms:
                    e = self.eq_atoms(a, b, 'Is')
                    if e is True and a[0] == 'o' and st.heap[a[1]].multi:
                        e = None
                    t = t or e is not False
                    f = f or e is not True
            if op == 'IsNot':
                t, f = f, t
            labels = l.labels | r.labels
            return self.boolv(t, f, labels)
        if op in ('In', 'NotIn'):
            return self.contains(op, l, r, st, node)
        nds = [a for v in (l, r) for a in v.atoms if a[0] == 'o' and st.heap[a[1]].kind == 'nd']
        if nds:
            if op in ('Eq', 'NotEq') and (l.single() == NONE_ATOM or r.single() == NONE_ATOM):
                return self.boolv(op == 'NotEq', op == 'Eq', l.labels | r.labels)
            return self.elementwise([l, r], st, node, name=op, dt='b')
        labels = combine_rows([l.labels, r.labels])
        t = f = False
        for a in l.atoms:
            for b in r.atoms:
                if op in ('Eq', 'NotEq'):
                    e = None
                    if a[0] == 'o' and st.heap[a[1]].kind == 'inst':
                        c, fv = I.class_attr(st, st.heap[a[1]].cls, '__eq__')
                        if fv is not None:
                            s2 = st.copy()
                            try:
                                v = I.call_value(I.bind(fv, a, s2, node), [V((b,))], {}, s2, node)
                            except I.Dead:
                                continue
                            st.assign(s2)
                            labels = labels | v.labels
                            x, y = I.truth(v, st)
                            e = True if x and not y else False if y and not x else None
                        else:
                            e = self.eq_atoms(a, b, 'Is')
                    else:
                        e = self.eq_seq(a, b, st)
                        if a[0] == 'o' or b[0] == 'o':
                            labels = labels | self.args_labels([V((a,)), V((b,))], {}, st)
                    if op == 'NotEq' and e is not None:
                        e = not e
                    t = t or e is not False
                    f = f or e is not True
                else:
                    x, y = self.order(op, a, b, st, node)
                    t, f = t or x, f or y
        if not (t or f):
            I.raise_dead('TypeError', st, node)
        return self.boolv(t, f, labels)

    @staticmethod
    def boolv(t, f, labels=EMPTY):
        at = set()
        if t:
            at.add(TRUE_ATOM)
        if f:
            at.add(FALSE_ATOM)
        return V(at, labels)

    def order(self, op, a, b, st, node):
        """(may be true, may be false)"""
        if a[0] == 'nan' or b[0] == 'nan':
            return False, True
        ra, rb = num_range(a), num_range(b)
        if ra is None or rb is None:
            if a[0] == 'k' and b[0] == 'k' and a[1] == b[1]:
                try:
                    r = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](a[2], b[2])
                    return bool(r), not r
                except Exception:
                    return False, False
            if a == NONE_ATOM or b == NONE_ATOM:
                o = b if a == NONE_ATOM else a
                if o[0] in ('n', 'k', 's', 'nan'):
                    self.I.do_raise_named('TypeError', st, node, may=True)
                    return False, False
            return True, True
        if op in ('Gt', 'GtE'):
            ra, rb = rb, ra
            op = 'Lt' if op == 'Gt' else 'LtE'
        # ra op rb
        strict = op == 'Lt'
        t = ra[1] < rb[2] if strict else ra[1] <= rb[2]
        f = ra[2] >= rb[1] if strict else ra[2] > rb[1]
        if ra[3] is not None and rb[3] is not None:
            d = lin_add(rb[3], ra[3], -1)          # rb - ra
            lo = self.sym_min(d)
            hi = -self.sym_min(lin_scale(d, -1))
            if strict:
                if lo > 0:
                    f = False
                if hi <= 0:
                    t = False
            else:
                if lo >= 0:
                    f = False
                if hi < 0:
                    t = False
        return t, f

    def contains(self, op, l, r, st, node):
        t = f = False
        labels = l.labels | r.labels
        for b in r.atoms:
            if b[0] == 'o':
                o = st.heap[b[1]]
                labels = labels | map_rows(self.deep_labels(V((b,)), st), rows_any)
                if o.kind in ('list', 'tuple', 'set') and 'items' in o.aux:
                    items = o.aux['items']
                    for a in l.atoms:
                        yes, maybe = False, False
                        for x in items:
                            es = [self.eq_atoms(a, c, 'Eq') for c in x.atoms]
                            if es and all(e is True for e in es):
                                yes = True
                            elif any(e is not False for e in es):
                                maybe = True
                        if yes:
                            t = True
                        else:
                            f = True
                            t = t or maybe
                    continue
                if o.kind == 'dict' and o.aux.get('elem') is None:
                    for a in l.atoms:
                        k = self.dict_key(V((a,)))
                        if k is not None:
                            v = o.aux.get('map', {}).get(k)
                            if v is None:
                                f = True
                            elif UNDEF in v.atoms:
                                t = f = True
                            else:
                                t = True
                        else:
                            t = t or bool(o.aux.get('map'))
                            f = True
                    continue
                if o.kind == 'inst':
                    c, fv = self.I.class_attr(st, o.cls, '__contains__')
                    if fv is not None:
                        v = self.I.call_value(self.I.bind(fv, b, st, node), [l], {}, st, node)
                        x, y = self.I.truth(v, st)
                        t, f = t or x, f or y
                        continue
                t = f = True
            elif b[0] == 'k' and b[1] == 'str':
                for a in l.atoms:
                    if a[0] == 'k' and a[1] == 'str':
                        if a[2] in b[2]:
                            t = True
                        else:
                            f = True
                    else:
                        t = f = True
            elif b[0] == 'c' and self.I.is_enum(b[1]):
                for a in l.atoms:
                    if a[0] == 'e':
                        if a[1] == b[1]:
                            t = True
                        else:
                            f = True
                    else:
                        t = f = True
            else:
                t = f = True
        if op == 'NotIn':
            t, f = f, t
        return self.boolv(t, f, labels)

    # ------------------------------------------------------------------ types
    def isinstance_atom(self, a, cv, st):
        classes = []
        unk = False
        for c in cv.atoms:
            if c[0] == 'o' and st.heap[c[1]].kind == 'tuple' and 'items' in st.heap[c[1]].aux:
                for x in st.heap[c[1]].aux['items']:
                    classes.extend(x.atoms)
            else:
                classes.append(c)
        res = False
        for c in classes:
            r = self._isinst(a, c, st)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def _isinst(self, a, c, st):
        k = a[0]
        if k == 'u' or c[0] not in ('c', 'x'):
            return None
        if c[0] == 'c':
            if k == 'o':
                o = st.heap[a[1]]
                if o.kind in ('inst', 'exc'):
                    if o.cls and o.cls.startswith('cls:'):
                        return c[1] in self.I.mro(o.cls)
                    return False
                return None if o.kind in ('ext', 'opaque') and self.I.ext_bases(c[1]) and False else False
            if k == 'e':
                return c[1] in self.I.mro(a[1])
            if k == 'c':
                mt = self.I.metaclass(a[1])
                return mt == c[1] if mt else False
            return False
        n = c[1]
        if k in ('k', 'n', 'nan', 's', 'by'):
            t = {'s': 'str', 'by': 'bytes', 'nan': 'real'}.get(k) or a[1]
            if n in PYT.get(t, ()):
                return True
            if n in ('builtins.object',):
                return True
            if k == 'nan' and n in ('numpy.float64',):
                return None
            return False
        if k == 'o':
            o = st.heap[a[1]]
            if n in ('builtins.object',):
                return True
            if o.kind == 'nd':
                return n in ('numpy.ndarray',)
            if o.kind in ('list', 'tuple', 'set', 'dict'):
                if n == 'builtins.' + o.kind:
                    return True
                if n.startswith(('collections.abc.', 'typing.')):
                    return None
                return False
            if o.kind in ('inst', 'exc'):
                if o.cls and o.cls.startswith('cls:'):
                    eb = self.I.ext_bases(o.cls)
                    if n in eb:
                        return True
                    from .interp import PY_EXC
                    hc = PY_EXC.get(n.replace('builtins.', ''))
                    if hc is not None:
                        return any(PY_EXC.get(b.replace('builtins.', '')) and issubclass(
                            PY_EXC[b.replace('builtins.', '')], hc) for b in eb)
                    return None if self.I.opaque_class(o.cls) else False
                return None
            if o.kind == 'ext':
                return True if o.cls == n else None
            return None
        if k == 'e':
            return n.startswith('enum.')
        if k == 'c':
            return n == 'builtins.type'
        return None

    # ------------------------------------------------------------------ arrays
    def nd(self, v, st):
        return [a for a in v.atoms if a[0] == 'o' and st.heap[a[1]].kind == 'nd']

    def shape_of(self, v, st, node=None):
        """(dims, labels, dt) of an array-like value; dims None when unknown"""
        r = None
        for a in v.atoms:
            x = self._shape_atom(a, v.labels, st)
            if r is None:
                r = x
            else:
                d = r[0] if r[0] == x[0] else (tuple(p if p == q else None for p, q in zip(r[0], x[0]))
                                                if r[0] is not None and x[0] is not None and len(r[0]) == len(x[0]) else None)
                r = (d, r[1] | x[1], r[2] if r[2] == x[2] else 'f' if {r[2], x[2]} <= {'f', 'i'} else '?')
        return r if r is not None else (None, v.labels, '?')

    def _shape_atom(self, a, labels, st):
        if a[0] == 'n':
            return (), labels, 'i' if a[1] == 'int' else ('c' if a[1] == 'complex' else 'f')
        if a[0] == 'nan':
            return (), labels, 'f'
        if a[0] == 'k':
            return (), labels, {'int': 'i', 'bool': 'b', 'str': '?', 'complex': 'c'}.get(a[1], 'f')
        if a[0] == 'o':
            o = st.heap[a[1]]
            if o.kind == 'nd':
                return o.aux.get('dims'), labels | self.nd_labels(a[1], st), o.aux.get('dt', 'f')
            if o.kind in ('list', 'tuple'):
                if 'items' in o.aux:
                    items = o.aux['items']
                    ds, ls, dts = [], [], set()
                    for x in items:
                        d, l, t = self.shape_of(x, st)
                        ds.append(d)
                        ls.append(map_rows(l, lambda s: s + 1 if isinstance(s, int) else ('?' if s == 'l' or (
                            type(s) is tuple and s[0] == 'a') else s)))
                        dts.add(t)
                    lab = labels | (frozenset().union(*ls) if ls else EMPTY)
                    dt = dts.pop() if len(dts) == 1 else ('f' if dts and dts <= {'f', 'i', 'b'} else '?')
                    n = lin_const(len(items))
                    if not items:
                        return (n,), lab, 'f'
                    if any(d is None for d in ds) or any(len(d) != len(ds[0]) for d in ds):
                        return None, lab, dt
                    inner = tuple(p[0] if all(q == p[0] for q in p) else None for p in zip(*ds)) if ds[0] else ()
                    return (n,) + inner, lab, dt
                e = self.seq_elem(o)
                if not e.atoms:
                    return (self.lin_of(self.seq_len(o)),), labels, 'f'
                d, l, t = self.shape_of(e, st)
                l = map_rows(l, lambda s: 0 if s == 'l' else (s + 1 if isinstance(s, int) else s))
                n = self.lin_of(self.seq_len(o))
                return ((n,) + d if d is not None else None), labels | l, t
            if o.kind == 'iter':
                it = self.iterate(V((a,)), st, None)
                e = join_all(it.exact) if it.exact is not None else it.mk(st, None)
                d, l, t = self.shape_of(e, st)
                n = self.lin_of(it.length) if it.length is not None else None
                return ((n,) + d if d is not None else None), labels | map_rows(l, rows_unk), t
            return None, labels | map_rows(self.deep_labels(V((a,)), st), rows_unk), '?'
        return None, map_rows(labels, rows_unk) if a[0] == 'u' else labels, '?'

    def unequal(self, a, b):
        """the two sizes differ for every value of the symbols (scenarios with distinct sizes only)"""
        if not self.I.distinct or a is None or b is None:
            return False
        d = lin_add(a, b, -1)
        if not d[1]:
            return d[0] != 0
        m = lin_scale(d, -1)
        return d in self.I.distinct or m in self.I.distinct or self.sym_min(d) > 0 or self.sym_min(m) > 0

    def doubt(self, *labs):
        """the quantities with these labels met a size the analysis does not know"""
        if self.I.distinct:
            for l in labs:
                for x in l:
                    r = split_role(x)
                    n = r[0] if r else (x[0] if type(x) is tuple else x)
                    self.I.doubts.add(role_base(n) if type(n) is str else n)

    def check_broadcast(self, shapes, st, node, labs=()):
        if not self.I.distinct:
            return
        if any(d is None for d in shapes):
            if len(shapes) > 1:
                self.doubt(*labs)
            return
        R = max([len(d) for d in shapes] or [0])
        for i in range(1, R + 1):
            xs = [d[-i] for d in shapes if len(d) >= i]
            if None in xs and any(x is None or x != lin_const(1) for x in xs[:xs.index(None)] + xs[xs.index(None) + 1:]):
                self.doubt(*labs)
            xs = [x for x in xs if x is not None]
            for j, x in enumerate(xs):
                for y in xs[:j]:
                    if self.unequal(x, y) and self.sym_min(x) > 1 and self.sym_min(y) > 1:
                        self.I.raise_dead('ValueError', st, node)

    def broadcast(self, shapes):
        if any(d is None for d in shapes):
            return None
        R = max([len(d) for d in shapes] or [0])
        out = []
        one = lin_const(1)
        for i in range(R):
            cur = one
            for d in shapes:
                j = i - (R - len(d))
                if j < 0:
                    continue
                x = d[j]
                if x == one:
                    continue
                if cur == one:
                    cur = x
                elif cur is None or x is None:
                    cur = cur if x is None else x
                elif cur != x:
                    cur = cur
            out.append(cur)
        return tuple(out)

    def align(self, dims, labels, R):
        """shift row specs of an operand to a result of rank R"""
        if dims is None or R is None:
            return map_rows(labels, rows_unk) if dims is None and R is not None else labels
        k = R - len(dims)
        if k == 0:
            return labels
        return map_rows(labels, lambda s: s + k if isinstance(s, int) else s)

    def result(self, dims, labels, dt, st, node, suffix='', scalar=True):
        if dims == () and scalar:
            return self.data_elem(dt, labels)
        return self.I.new_nd(st, node, dims, labels, dt, suffix)

    def elementwise(self, vals, st, node, name='', dt=None, out=None, suffix='', where=None):
        info = [self.shape_of(v, st) for v in vals]
        self.check_broadcast([i[0] for i in info], st, node, [i[1] for i in info])
        dims = self.broadcast([i[0] for i in info])
        R = len(dims) if dims is not None else None
        if R is None:
            ranks = {len(i[0]) for i in info if i[0] is not None and i[0] != ()}
            R = None
        labs = op_roles(name, [self.align(i[0], i[1], R) for i in info], [v.const() for v in vals],
                        whole=all(i[0] != () for i in info))
        if R is None:
            labels = frozenset().union(*labs)
            if len([1 for l in labs if any(type(x) is tuple for x in l)]) > 1:
                labels = map_rows(labels, lambda s: s if s == '*' else ('?' if isinstance(s, int) else s)) \
                    if len({frozenset(x for x in l if type(x) is tuple) for l in labs}) > 2 else combine_rows(labs)
        else:
            labels = combine_rows(labs)
        ts = {i[2] for i in info}
        if dt is None:
            dt = 'c' if 'c' in ts else ('?' if '?' in ts else ('i' if ts <= {'i', 'b'} and name in (
                'Add', 'Sub', 'Mult', 'FloorDiv', 'Mod', 'add', 'subtract', 'multiply', 'USub', 'abs', 'absolute') else 'f'))
        if out is not None:
            res = self.I.new_nd(st, node, dims, labels, dt, suffix + 'tmp')
            for a in self.nd(out, st):
                self.write_nd(a, (), res, st, node, how='out= argument')
            return out
        return self.result(dims, labels, dt, st, node, suffix)

    def matmul(self, l, r, st, node, suffix=''):
        (d1, l1, t1), (d2, l2, t2) = self.shape_of(l, st), self.shape_of(r, st)
        if d1 == () or d2 == ():
            return self.elementwise([l, r], st, node, name='Mult')
        l1, l2 = op_roles('MatMult', [l1, l2], [(False, None)] * 2)
        if d1 is None or d2 is None:
            self.doubt(l1, l2)
            return self.I.new_nd(st, node, None, map_rows(l1, rows_unk) | map_rows(l2, rows_unk), 'f', suffix)
        # contracted axes: last of the first, first (or second last) of the second
        c1 = len(d1) - 1
        c2 = 0 if len(d2) <= 2 else len(d2) - 2
        if len(d2) > 2:
            return self.I.new_nd(st, node, None, map_rows(l1, rows_unk) | map_rows(l2, rows_unk), 'f', suffix)
        a = map_rows(l1, lambda s: '*' if s == c1 else ('?' if s == 'l' else s))
        off = len(d1) - 1
        b = map_rows(l2, lambda s: '*' if s == c2 else (off + s - 1 if isinstance(s, int) else ('?' if s == 'l' else s)))
        if d1[c1] is None or d2[c2] is None:
            self.doubt(l1, l2)
        if self.unequal(d1[c1], d2[c2]):
            self.I.raise_dead('ValueError', st, node)
        dims = d1[:-1] + d2[1:]
        dt = 'c' if 'c' in (t1, t2) else 'f'
        self.I.emit('matmul', st, node, left=d1, right=d2)
        return self.result(dims, combine_rows([a, b]), dt, st, node, suffix)

    def reduce(self, v, axis, keep, st, node, dt=None, suffix='', out=None, name=''):
        if self.I.listeners:
            self.I.emit('reduce', st, node, name=name, value=v)
        d, l, t = self.shape_of(v, st)
        l = op_roles(name, [l], [(False, None)])[0]
        c, ax = axis.const() if axis is not None else (True, None)
        dt = dt or ('b' if name in ('any', 'all') else 'i' if name.startswith('arg') or name == 'count_nonzero' else t if t != 'b' else 'i')
        if c and isinstance(ax, bool):
            ax = int(ax)
        if c and ax is None:
            lab = map_rows(l, rows_any)
            if keep and d is not None:
                return self.I.new_nd(st, node, tuple(lin_const(1) for _ in d), lab, dt, suffix)
            res = self.data_elem(dt, lab)
        elif c and isinstance(ax, int) and d is not None and -len(d) <= ax < len(d):
            ax %= len(d)
            lab = map_rows(l, lambda s: ('*' if s == ax else (s - 1 if s > ax and not keep else s)) if isinstance(s, int)
                           else ('?' if s == 'l' else s))
            dims = d[:ax] + ((lin_const(1),) if keep else ()) + d[ax + 1:]
            res = self.result(dims, lab, dt, st, node, suffix)
        elif c and isinstance(ax, int) and d is not None:
            self.I.raise_dead('numpy.AxisError', st, node)
        else:
            res = self.I.new_nd(st, node, None, map_rows(l, rows_unk), dt, suffix)
        if out is not None and self.nd(out, st):
            for a in self.nd(out, st):
                self.write_nd(a, (), res, st, node, how='out= argument')
            return out
        return res

    def view_of(self, v, op, newdims, st, node, suffix='', extra=EMPTY, dt=None):
        """a view of every array in v; other atoms become fresh arrays"""
        I = self.I
        out = None
        for i, a in enumerate(sorted(self.nd(v, st))):
            o = st.heap[a[1]]
            ops = op if isinstance(op, (list, tuple)) and op and isinstance(op[0], tuple) else ((op,) if op else ())
            vw = o.aux.get('view')
            aux = {'base': o.aux['base'], 'dims': newdims(o.aux.get('dims')), 'dt': dt or o.aux.get('dt', 'f'),
                   'view': (vw + tuple(ops)) if vw is not None else None, 'lab': EMPTY}
            if o.aux.get('seq') is not None and all(x[0] in ('new', 'T') or (x[0] == 'sl' and x[2] == 'full') for x in ops):
                aux['seq'] = o.aux['seq']
            r = I.alloc(st, node, HObj('nd', None, {}, aux), suffix + ('v%d' % i))
            out = r if out is None else join(out, r)
        rest = [a for a in v.atoms if not (a[0] == 'o' and st.heap[a[1]].kind == 'nd')]
        if rest:
            d, l, t = self.shape_of(V(rest, v.labels), st)
            lab = l
            ops = op if isinstance(op, (list, tuple)) and op and isinstance(op[0], tuple) else ((op,) if op else ())
            for x in ops:
                lab = map_rows(lab, lambda s, x=x: self.fwd(x, s))
            if any(a[0] == 'u' for a in rest) and len(rest) == 1:
                r = unknown('view', lab)
            else:
                r = I.new_nd(st, node, newdims(d), lab, t, suffix)
            out = r if out is None else join(out, r)
        return (out if out is not None else unknown('view')).with_labels(v.labels | extra)

    def index_plan(self, dims, idx, st):
        """(ops, newdims, advanced, idxlabels); ops None when the index is not understood"""
        entries = list(idx[1])
        n_real = sum(1 for e in entries if e[0] in ('v', 's'))
        rank = len(dims) if dims is not None else None
        ell = [i for i, e in enumerate(entries) if e[0] == 'e']
        lab = EMPTY
        for e in entries:
            if e[0] == 'v':
                lab = lab | map_rows(self.content(e[1], st), rows_unk)
            elif e[0] == 's':
                for x in e[1:]:
                    if x is not None:
                        lab = lab | map_rows(x.labels, rows_unk)
        lab = frozenset(l for l in lab if not (isinstance(l, str) and l.startswith('#')))
        if rank is None:
            allint = all(e[0] == 'v' and all(num_range(a) is not None for a in e[1].atoms) for e in entries)
            return None, None, (False if allint or all(e[0] in 's' for e in entries) else None), lab
        if ell:
            i = ell[0]
            entries = entries[:i] + [('s', None, None, None)] * max(0, rank - n_real) + entries[i + 1:]
        else:
            entries = entries + [('s', None, None, None)] * max(0, rank - n_real)
        ops = []
        nd = []
        adv = []
        src = 0
        out_axis = 0
        for e in entries:
            if e[0] == 'n':
                ops.append(('new', out_axis))
                nd.append(lin_const(1))
                out_axis += 1
                continue
            if src >= rank:
                return 'bad', None, False, lab
            d = dims[src]
            if e[0] == 's':
                lo, hi, step = e[1], e[2], e[3]
                lz = lo is None or lo.single() == NONE_ATOM or lo.const() == (True, 0)
                hz = hi is None or hi.single() == NONE_ATOM
                so = step is None or step.single() == NONE_ATOM or step.const() == (True, 1)
                if not hz and so and d is not None:
                    hl = self.lin_of(hi)
                    if hl is not None and hl == d:
                        hz = True
                if lz and hz and so:
                    mode, ndim = 'full', d
                elif lz and so:
                    hl = self.lin_of(hi)
                    mode = 'prefix'
                    neg = hl is not None and not hl[1] and hl[0] < 0
                    if neg:
                        ndim = lin_add(d, hl) if d is not None else None
                    else:
                        ndim = None
                        if hl is not None and d is not None:
                            diff = lin_add(d, hl, -1)
                            if not diff[1]:
                                ndim = hl if diff[0] >= 0 else d
                            elif self.I.name_slices:
                                ndim = lin_sym('min(%s,%s)' % (lin_str(hl), lin_str(d)))
                elif step is not None and step.const() == (True, -1) and lz and hz:
                    ops.append(('flip', (out_axis,)))
                    nd.append(d)
                    src += 1
                    out_axis += 1
                    continue
                else:
                    mode = 'other'
                    ndim = None
                    if so and hz and lo is not None and d is not None:
                        ll = self.lin_of(lo)
                        if ll is not None and self.sym_min(ll) >= 0:
                            ndim = lin_add(d, ll, -1)
                if mode != 'full':
                    ops.append(('sl', out_axis, mode))
                nd.append(ndim)
                src += 1
                out_axis += 1
                continue
            v = e[1]
            if all(num_range(a) is not None and num_range(a)[0] in ('int', 'bool') and not (a[0] == 'k' and a[1] == 'bool')
                   for a in v.atoms) and v.atoms:
                lin = self.lin_of(v)
                if lin is not None and not lin[1] and lin[0] < 0:
                    lin = lin_add(d, lin) if d is not None else None
                if lin is not None and (self.sym_min(lin) <= -1 and not lin[1] or
                                        d is not None and self.sym_min(lin_add(lin, d, -1)) >= 0):
                    return 'bad', None, False, lab      # certainly out of range
                ops.append(('idx', out_axis, lin))
                src += 1
                continue
            adv.append((src, out_axis, v))
            ops.append(('adv', out_axis, v))
            nd.append('adv')
            src += 1
            out_axis += 1
        if adv:
            return ops, nd, True, lab
        return ops, tuple(nd), False, lab

    def getitem(self, v, idx, st, node):
        if self.I.listeners:
            self.I.emit('index', st, node, args=index_values(idx), kwargs={})
        I = self.I
        out = None
        dead = False
        for i, a in enumerate(sorted(v.atoms, key=repr)):
            try:
                r = self.getitem_atom(a, idx, st, node, 'g%d' % i)
            except I.Dead:
                if len(v.atoms) == 1:
                    raise
                dead = True
                continue
            if r is not None:
                out = r if out is None else join(out, r)
        if out is None:
            if dead:
                raise I.Dead()
            I.raise_dead('TypeError', st, node)
        return out.with_labels(v.labels)

    def getitem_atom(self, a, idx, st, node, sfx):
        I = self.I
        if a[0] == 'x':
            return V((a,))
        if a[0] in ('c',):
            if I.is_enum(a[1]):
                e = idx[1][0]
                if e[0] == 'v':
                    c, k = e[1].const()
                    if c and k in st.heap[a[1]].aux.get('members', {}):
                        return V((('e', a[1], k),))
                return V([('e', a[1], n) for n in st.heap[a[1]].aux.get('members', {})])
            return V((a,))
        if a[0] == 'k' and a[1] == 'str' or a[0] == 's':
            e = idx[1][0]
            if a[0] == 'k' and e[0] == 'v' and e[1].const()[0]:
                try:
                    return const(a[2][e[1].const()[1]])
                except Exception:
                    return None
            return STR
        if a[0] == 'by' or a[0] == 'k' and a[1] == 'bytes':
            return V((BYTES_ATOM,)) if idx[1][0][0] == 's' else num('int', 0, 255)
        if a[0] == 'u':
            l = EMPTY
            for e in idx[1]:
                if e[0] == 'v':
                    l = l | self.args_labels([e[1]], {}, st)
            return unknown('item', l)
        if a[0] != 'o':
            return None
        o = st.heap[a[1]]
        if o.kind == 'nd':
            return self.nd_getitem(a, idx, st, node, sfx)
        if o.kind in ('list', 'tuple'):
            e = idx[1][0] if idx[0] == 'one' else ('v', unknown('idx'))
            if e[0] == 's':
                return self.seq_slice(o, e, st, node, sfx)
            if e[0] != 'v':
                return unknown('item')
            lab = e[1].labels
            if 'items' in o.aux:
                items = o.aux['items']
                res = None
                for x in e[1].atoms:
                    if x[0] == 'k' and isinstance(x[2], int):
                        if -len(items) <= x[2] < len(items):
                            res = join(res, items[x[2]])
                        else:
                            I.do_raise_named('IndexError', st, node, may=True)
                    elif items:
                        res = join(res, join_all(items))
                if res is None:
                    I.raise_dead('IndexError', st, node, certain=False)
                return res.with_labels(lab)
            el = self.seq_elem(o)
            if not el.atoms:
                I.raise_dead('IndexError', st, node, certain=False)
            lin = self.lin_of(e[1])
            if any(type(l) is tuple and l[1] == 'l' for l in el.labels):
                el = V(el.atoms, map_rows(el.labels, lambda s: (('i', lin) if lin is not None else '?') if s == 'l' else s))
            if o.aux.get('seq') is not None and lin is not None:
                el = V((('n', 'int', -INF, INF, lin_add(o.aux['seq'], lin)),), el.labels)
            return el.with_labels(frozenset(x for x in lab if not (isinstance(x, str) and x.startswith('#'))))
        if o.kind == 'dict':
            e = idx[1][0]
            kv = e[1] if e[0] == 'v' else NONE
            if idx[0] == 'tuple':
                kv = idx[2] if len(idx) > 2 else unknown('key')
            return self.dict_get(o, kv, None, st, node)
        if o.kind == 'inst':
            c, fv = I.class_attr(st, o.cls, '__getitem__')
            if fv is not None:
                e = idx[1][0]
                arg = e[1] if idx[0] == 'one' and e[0] == 'v' else unknown('index')
                return I.call_value(I.bind(fv, a, st, node), [arg], {}, st, node)
            if I.opaque_class(o.cls):
                return unknown('item')
            return None
        return unknown('item', map_rows(self.deep_labels(V((a,)), st), rows_unk))

    def nd_getitem(self, a, idx, st, node, sfx):
        I = self.I
        o = st.heap[a[1]]
        dims = o.aux.get('dims')
        ops, nd, adv, lab = self.index_plan(dims, idx, st)
        if ops == 'bad':
            I.raise_dead('IndexError', st, node)
        src = self.nd_labels(a[1], st)
        if ops is None:
            if adv is False:
                r = self.view_of(V((a,)), ('u',), lambda d: None, st, node, sfx)
                return r.with_labels(lab)
            return I.new_nd(st, node, None, map_rows(src, rows_unk) | lab, o.aux.get('dt', 'f'), sfx)
        if adv:
            return self.adv_get(a, ops, nd, src, lab, st, node, sfx)
        if nd == ():
            l = src
            for op in ops:
                l = map_rows(l, lambda s, op=op: self.fwd(op, s))
            seq = o.aux.get('seq')
            r = self.data_elem(o.aux.get('dt', 'f'), l | lab)
            if seq is not None and len(ops) == 1 and ops[0][2] is not None:
                r = V((('n', 'int', -INF, INF, lin_add(seq, ops[0][2])),), r.labels)
            return r
        return self.view_of(V((a,)), list(ops) if ops else (), lambda d: nd, st, node, sfx).with_labels(lab)

    def adv_get(self, a, ops, nd, src, lab, st, node, sfx):
        I = self.I
        o = st.heap[a[1]]
        advs = [op for op in ops if op[0] == 'adv']
        infos = [self.shape_of(op[2], st) for op in advs]
        bools = any(i[2] == 'b' for i in infos)
        simple = all(op[0] in ('adv', 'sl') for op in ops) and not bools and all(i[0] is not None for i in infos)
        if not simple:
            return I.new_nd(st, node, None, map_rows(src, rows_unk) | lab, o.aux.get('dt', 'f'), sfx)
        R = max(len(i[0]) for i in infos)
        bd = self.broadcast([i[0] for i in infos])
        # result: adv dims in place of the (adjacent) advanced axes
        axes = [op[1] for op in advs]
        if axes != list(range(axes[0], axes[0] + len(axes))):
            return I.new_nd(st, node, None, map_rows(src, rows_unk) | lab, o.aux.get('dt', 'f'), sfx)
        first = axes[0]
        newdims = []
        for i, x in enumerate(nd):
            if x == 'adv':
                if i == first:
                    newdims.extend(bd)
            else:
                newdims.append(x)
        amap = {}
        one = lin_const(1)
        for op, inf in zip(advs, infos):
            d = inf[0]
            pos = [j for j, x in enumerate(d) if x != one]
            iseq = self.seq_of(op[2], st)
            if len(pos) == 1 and iseq is not None and iseq == lin_const(0):
                amap[op[1]] = first + R - len(d) + pos[0]
            elif len(d) == 1 and iseq is not None and iseq == lin_const(0):
                amap[op[1]] = first + R - 1
            elif all(self._is_one(x) for x in d):
                amap[op[1]] = ('i', self.const_index(op[2], st))
            else:
                amap[op[1]] = '?'
        sl = {op[1]: op[2] for op in ops if op[0] == 'sl'}

        def m(s):
            if not isinstance(s, int):
                return '?' if s == 'l' else s
            if s in amap:
                t = amap[s]
                if type(t) is tuple:
                    return t if t[1] is not None else '?'
                return t
            if s in sl and sl[s] not in ('full', 'prefix'):
                return '?'
            if s > axes[-1]:
                return s - len(axes) + R
            return s
        return I.new_nd(st, node, tuple(newdims), map_rows(src, m) | lab, o.aux.get('dt', 'f'), sfx)

    @staticmethod
    def _is_one(x):
        return x == (1, ())

    def seq_of(self, v, st):
        a = v.single()
        if a is not None and a[0] == 'o':
            o = st.heap[a[1]]
            if o.aux.get('seq') is not None:
                return o.aux['seq']
            its = o.aux.get('items')
            if its is not None:
                cs = [x.const() for x in its]
                if cs and all(c[0] and isinstance(c[1], int) for c in cs) and all(
                        cs[i][1] == cs[0][1] + i for i in range(len(cs))):
                    return lin_const(cs[0][1])
        return None

    def const_index(self, v, st):
        a = v.single()
        if a is not None and a[0] == 'o':
            its = st.heap[a[1]].aux.get('items')
            if its is not None and len(its) == 1:
                return self.lin_of(its[0])
            return st.heap[a[1]].aux.get('seq')
        return None

    def setitem(self, v, idx, val, st, node):
        if self.I.listeners:
            self.I.emit('index', st, node, args=index_values(idx), kwargs={})
        I = self.I
        done = False
        for a in sorted(v.atoms, key=repr):
            if a[0] == 'u' or a[0] == 'x':
                done = True
                continue
            if a[0] != 'o':
                I.do_raise_named('TypeError', st, node, may=True)
                continue
            done = True
            o = st.heap[a[1]]
            weak = len(v.atoms) > 1
            if o.kind == 'nd':
                ops, nd, adv, lab = self.index_plan(o.aux.get('dims'), idx, st)
                if ops == 'bad':
                    I.do_raise_named('IndexError', st, node, may=weak)
                    if not weak:
                        raise I.Dead()
                    continue
                if ops is None or adv:
                    if adv and ops is not None and all(op[0] in ('adv', 'sl', 'idx') for op in ops):
                        ops2 = tuple(('u',) if op[0] == 'adv' else op for op in ops)
                        # an advanced index over columns keeps row alignment
                        if all(op[1] != 0 for op in ops if op[0] == 'adv') and all(op[0] != 'idx' for op in ops):
                            ops2 = (('sl', 1, 'prefix'),)
                        else:
                            ops2 = (('u',),)
                    else:
                        ops2 = (('u',),)
                else:
                    ops2 = tuple(ops) or (('sl', 99, 'full'),)
                full = ops == [] and not adv
                self.write_nd(a, ops2, val, st, node, how='element assignment', extra=lab, strong=full and not weak,
                              vdims=nd if not adv else None)
            elif o.kind == 'list':
                e = idx[1][0]
                I.emit('write', st, node, oid=a[1], how='list element assignment', value=val)
                w = val.with_labels(st.pc)
                c, k = e[1].const() if e[0] == 'v' else (False, None)
                if 'items' in o.aux:
                    items = list(o.aux['items'])
                    if c and isinstance(k, int) and -len(items) <= k < len(items):
                        items[k] = w if not (o.multi or weak) else join(items[k], w)
                    elif e[0] == 'v':
                        items = [join(x, w) for x in items]
                    else:
                        st.heap[a[1]] = HObj('list', None, o.f, {'elem': join(join_all(items), self.iter_elem(w, st, node)),
                                                                 'length': num('int', 0)}, o.multi)
                        continue
                    st.heap[a[1]] = o.seta(items=tuple(items))
                else:
                    if e[0] == 'v':
                        lin = self.lin_of(e[1])
                        if w.idx and lin is not None:
                            w = V(w.atoms, frozenset((l[0], 'l') if type(l) is tuple and type(l[1]) is tuple and l[1][0] == 'i'
                                                     and l[1][1] == lin else l for l in w.labels))
                    else:
                        w = self.iter_elem(w, st, node)
                    st.heap[a[1]] = o.seta(elem=join(self.seq_elem(o), w), seq=None)
            elif o.kind == 'dict':
                I.emit('write', st, node, oid=a[1], how='dict item assignment', value=val)
                e = idx[1][0]
                kv = e[1] if e[0] == 'v' and idx[0] == 'one' else (idx[2] if len(idx) > 2 else unknown('key'))
                k = self.dict_key(kv)
                w = val.with_labels(st.pc)
                if k is not None:
                    m = dict(o.aux.get('map') or {})
                    m[k] = w if not (o.multi or weak) or k not in m else join(m[k], w)
                    st.heap[a[1]] = o.seta(map=m)
                    self.sync_vars(a, o, st, node)
                else:
                    st.heap[a[1]] = o.seta(elem=join(o.aux.get('elem'), w))
            elif o.kind == 'inst':
                c, fv = I.class_attr(st, o.cls, '__setitem__')
                if fv is not None:
                    e = idx[1][0]
                    arg = e[1] if idx[0] == 'one' and e[0] == 'v' else unknown('index')
                    I.call_value(I.bind(fv, a, st, node), [arg, val], {}, st, node)
            elif o.kind in ('ext', 'opaque'):
                I.emit('write', st, node, oid=a[1], how='item assignment', value=val)
        if not done:
            I.raise_dead('TypeError', st, node)

    def delitem(self, v, idx, st, node):
        I = self.I
        for a in v.atoms:
            if a[0] != 'o':
                continue
            o = st.heap[a[1]]
            if o.kind in ('list', 'dict'):
                I.emit('write', st, node, oid=a[1], how='item deletion', value=NONE)
                if o.kind == 'list':
                    st.heap[a[1]] = HObj('list', None, o.f, {'elem': self.seq_elem(o), 'length': num('int', 0)}, o.multi)
                else:
                    m = {k: V(x.atoms | {UNDEF}, x.labels) for k, x in (o.aux.get('map') or {}).items()}
                    st.heap[a[1]] = o.seta(map=m)
                    self.sync_vars(a, o, st, node)

    def sync_vars(self, a, before, st, node):
        """a write to vars(x) / x.__dict__ is a write to the attributes of x"""
        of = before.aux.get('of')
        if of is None or of not in st.heap:
            return
        old = before.aux.get('map') or {}
        new = st.heap[a[1]].aux.get('map') or {}
        for k in list(old) + [k for k in new if k not in old]:
            if old.get(k) == new.get(k):
                continue
            n = self.key_value(k).const()[1]
            if isinstance(n, str):
                self.I.raw_setattr(('o', of), n, new.get(k, UNDEF_V), st, node)

    def write_nd(self, a, ops, val, st, node, how, extra=EMPTY, strong=None, vdims=None):
        """store into (a view of) an array"""
        I = self.I
        o = st.heap[a[1]]
        bases = o.aux['base']
        view = o.aux.get('view')
        d, l, t = self.shape_of(val, st)
        # bring the labels of the value to the coordinates of the target selection
        if vdims is not None and d is not None and len(d) < len(vdims):
            l = self.align(d, l, len(vdims))
        elif d is not None and vdims is not None and len(d) > len(vdims):
            l = map_rows(l, rows_unk)
        elif not ops and d is not None and o.aux.get('dims') is not None and len(d) < len(o.aux['dims']):
            l = self.align(d, l, len(o.aux['dims']))
        elif d is None:
            l = map_rows(l, rows_unk)
        l = l | extra | st.pc
        if view is None:
            l = map_rows(l, rows_unk)
            allops = ()
        else:
            allops = tuple(view) + tuple(ops)
        for op in reversed(allops):
            l = map_rows(l, lambda s, op=op: self.bwd(op, s))
        if any(op[0] == 'u' for op in allops):
            l = map_rows(l, lambda s: '?' if type(s) is tuple else s)
        l = map_rows(l, lambda s: self.displaced(s, allops))
        for b in bases:
            bo = st.heap.get(b)
            if bo is None:
                continue
            I.emit('write', st, node, oid=b, how=how, via=a[1], value=val)
            bo = st.heap[b]
            st_ok = (strong if strong is not None else not ops) and len(bases) == 1 and not bo.multi and view == ()
            lab = l if st_ok else bo.aux.get('lab', EMPTY) | l
            aux = dict(bo.aux)
            aux['lab'] = frozenset(lab)
            aux['seq'] = None
            if t == 'c' and bo.aux.get('dt') == 'f':
                pass
            st.heap[b] = HObj(bo.kind, bo.cls, bo.f, aux, bo.multi)

    def nd_setattr(self, a, name, v, st, node):
        if name == 'shape':
            o = st.heap[a[1]]
            self.I.emit('write', st, node, oid=a[1], how='shape assignment', value=v)
            st.heap[a[1]] = o.seta(dims=None)
        elif name in ('real', 'imag', 'flat'):
            self.write_nd(a, (('u',),), v, st, node, how='assignment to .' + name)

    # ------------------------------------------------------------------ python sequences
    def seq_elem(self, o):
        if 'items' in o.aux:
            return join_all(o.aux['items'])
        e = o.aux.get('elem')
        return e if e is not None else BOTTOM

    def seq_len(self, o):
        if 'items' in o.aux:
            n = len(o.aux['items'])
            if o.kind == 'set' and n > 1:
                return num('int', 1, n)
            return const(n)
        l = o.aux.get('length')
        return l if l is not None else num('int', 0)

    def seq_slice(self, o, e, st, node, sfx):
        I = self.I
        lo, hi, step = e[1], e[2], e[3]
        cl = [(True, None) if x is None else x.const() for x in (lo, hi, step)]
        if 'items' in o.aux and all(c[0] for c in cl):
            try:
                return I.new_list(st, node, o.aux['items'][slice(*[c[1] for c in cl])], kind=o.kind, suffix=sfx)
            except Exception:
                pass
        length = num('int', 0)
        if lo is not None and hi is None and step is None:
            n = self.seq_len(o)
            lin, k = self.lin_of(n), self.lin_of(lo)
            if lin is not None and k is not None:
                length = num('int', 0, INF, lin_add(lin, k, -1), n.labels)
        el = self.seq_elem(o)
        if lo is not None or step is not None:
            el = V(el.atoms, map_rows(el.labels, lambda s: '?' if s == 'l' else s))
        return I.new_list(st, node, elem=el, length=length, kind=o.kind, suffix=sfx)

    def dict_key(self, v):
        a = v.single()
        if a is None:
            return None
        if a[0] == 'k' and a[1] == 'str':
            return a[2]
        if a[0] in ('k', 'e', 'c', 'x', 'fn'):
            return a
        return None

    def key_value(self, k):
        return const(k) if isinstance(k, str) else V((k,))

    def dict_get(self, o, kv, default, st, node):
        I = self.I
        res = None
        m = o.aux.get('map') or {}
        for a in kv.atoms:
            k = self.dict_key(V((a,)))
            if k is not None and k in m:
                v = m[k]
                if UNDEF in v.atoms:
                    rest = V(v.atoms - {UNDEF}, v.labels)
                    if rest.atoms:
                        res = join(res, rest)
                    if default is not None:
                        res = join(res, default)
                    else:
                        I.do_raise_named('KeyError', st, node, may=True)
                else:
                    res = join(res, v)
            elif k is not None and o.aux.get('elem') is None:
                if default is not None:
                    res = join(res, default)
                else:
                    I.do_raise_named('KeyError', st, node, may=True)
            else:
                for v in m.values():
                    res = join(res, V(v.atoms - {UNDEF}, v.labels))
                if o.aux.get('elem') is not None:
                    res = join(res, o.aux['elem'])
                if default is not None:
                    res = join(res, default)
        if res is None:
            I.raise_dead('KeyError', st, node)
        return res.with_labels(kv.labels)

    def iter_elem(self, v, st, node):
        it = self.iterate(v, st, node)
        if it.exact is not None:
            return join_all(it.exact)
        return it.mk(st, None)

    # ------------------------------------------------------------------ iteration
    def It(self, **kw):
        from .interp import It
        return It(**kw)

    def iterate(self, v, st, node):
        its = [self.iterate_atom(a, st, node) for a in sorted(v.atoms, key=repr) if a != NONE_ATOM or len(v.atoms) == 1]
        its = [i for i in its if i is not None]
        if not its:
            self.I.raise_dead('TypeError', st, node)
        lab = v.labels
        if len(its) == 1:
            it = its[0]
            if lab:
                lab2 = frozenset(l for l in lab if not (isinstance(l, str) and l.startswith('#')))
                if it.exact is not None:
                    it.exact = [e.with_labels(lab2) for e in it.exact]
                mk0 = it.mk
                if mk0 is not None:
                    it.mk = lambda s, lin: mk0(s, lin).with_labels(lab2)
            return it

        def mk(s, lin):
            return join_all([join_all(i.exact) if i.exact is not None else i.mk(s, lin) for i in its]).with_labels(lab)
        lo = min(len(i.exact) if i.exact is not None else i.lo for i in its)
        return self.It(mk=mk, lo=lo, length=None)

    def exact_it(self, items):
        items = list(items)
        return self.It(exact=items, mk=lambda s, lin: join_all(items), lo=len(items), length=const(len(items)))

    def iterate_atom(self, a, st, node):
        I = self.I
        if a[0] == 'k' and a[1] == 'str':
            if len(a[2]) <= 8:
                return self.exact_it([const(c) for c in a[2]])
            return self.It(mk=lambda s, lin: STR, lo=1, length=const(len(a[2])))
        if a[0] == 's':
            return self.It(mk=lambda s, lin: STR, lo=0, length=num('int', 0))
        if a[0] == 'by':
            return self.It(mk=lambda s, lin: num('int', 0, 255), lo=0, length=num('int', 0))
        if a[0] == 'c' and I.is_enum(a[1]):
            return self.exact_it([V((('e', a[1], n),)) for n in st.heap[a[1]].aux.get('members', {})])
        if a[0] in ('u', 'x', 'xm'):
            return self.It(mk=lambda s, lin: unknown('elem'), lo=0, length=num('int', 0))
        if a[0] != 'o':
            return None
        o = st.heap[a[1]]
        if o.kind in ('list', 'tuple', 'set'):
            if 'items' in o.aux:
                return self.exact_it(o.aux['items'])
            oid = a[1]

            def mk(s, lin):
                o2 = s.heap.get(oid, o)
                e = self.seq_elem(o2)
                if o2.aux.get('seq') is not None and lin is not None:
                    e = V((('n', 'int', -INF, INF, lin_add(o2.aux['seq'], lin)),), e.labels)
                if any(type(l) is tuple and l[1] == 'l' for l in e.labels):
                    e = V(e.atoms, map_rows(e.labels, lambda sp: (('i', lin) if lin is not None else '?') if sp == 'l' else sp))
                return e
            n = self.seq_len(o)
            r = [num_range(x) for x in n.atoms if num_range(x)]
            lo = min([x[1] for x in r] or [0])
            return self.It(mk=mk, lo=lo, length=n)
        if o.kind == 'dict':
            m = o.aux.get('map') or {}
            if o.aux.get('elem') is None and not any(UNDEF in v.atoms for v in m.values()):
                return self.exact_it([self.key_value(k) for k in m])
            return self.It(mk=lambda s, lin: unknown('key'), lo=0, length=num('int', 0))
        if o.kind == 'nd':
            d = o.aux.get('dims')
            n = self.dim_v(d[0]) if d else num('int', 0)
            if d == ():
                return None
            if d and d[0] is not None and not d[0][1] and d[0][0] <= 8:
                return self.exact_it([self.nd_getitem(a, ('one', [('v', const(i))]), st, node, 'it%d' % i)
                                      for i in range(d[0][0])])
            lo = self.sym_min(d[0]) if d and d[0] is not None else 0

            def mk(s, lin):
                iv = num('int', 0, INF, lin) if lin is not None else num('int', 0)
                return self.nd_getitem(a, ('one', [('v', iv)]), s, node, 'it')
            return self.It(mk=mk, lo=lo, length=n)
        if o.kind == 'iter':
            return self.iterate_iter(a, o, st, node)
        if o.kind == 'inst':
            c, fv = I.class_attr(st, o.cls, '__iter__')
            if fv is not None:
                r = I.call_value(I.bind(fv, a, st, node), [], {}, st, node)
                if r.single() is not None and r.single() != a:
                    return self.iterate(r, st, node)
            c, fv = I.class_attr(st, o.cls, '__getitem__')
            if fv is None and c is None and not I.opaque_class(o.cls):
                c2, f2 = I.class_attr(st, o.cls, '__iter__')
                if f2 is None:
                    return None
            return self.It(mk=lambda s, lin: unknown('elem'), lo=0, length=num('int', 0))
        if o.kind == 'ext' and o.cls in ('file',):
            lab = o.aux.get('lab', EMPTY)
            return self.It(mk=lambda s, lin: V((STR_ATOM,), lab), lo=0, length=num('int', 0))
        return self.It(mk=lambda s, lin: unknown('elem', o.aux.get('lab', EMPTY)), lo=0, length=num('int', 0))

    def iterate_iter(self, a, o, st, node):
        k = o.cls
        args = o.aux.get('args', ())
        if k == 'range':
            start, stop, step = args
            cs = [x.const() for x in (start, stop, step)]
            if all(c[0] for c in cs) and all(isinstance(c[1], int) for c in cs) and cs[2][1] != 0:
                r = range(*[c[1] for c in cs])
                if len(r) <= 8:
                    it = self.exact_it([const(i) for i in r])
                    return it
            sl, el, kl = self.lin_of(start), self.lin_of(stop), self.lin_of(step)
            lab = start.labels | step.labels
            lab = frozenset(l for l in lab if not (isinstance(l, str) and l.startswith('#')))
            srs = [num_range(x) for x in start.atoms]
            ers = [num_range(x) for x in stop.atoms]
            krs = [num_range(x) for x in step.atoms]
            if all(srs) and all(ers) and all(krs) and srs and ers and krs:
                smin, smax = min(x[1] for x in srs), max(x[2] for x in srs)
                emin, emax = min(x[1] for x in ers), max(x[2] for x in ers)
                up = min(x[1] for x in krs) > 0
                down = max(x[2] for x in krs) < 0
                if up:
                    lo, hi = smin, emax - 1
                elif down:
                    lo, hi = emin + 1, smax
                else:
                    lo, hi = -INF, INF
            else:
                smin = emin = -INF
                smax = emax = INF
                lo, hi, up = -INF, INF, False
            stepc = kl[0] if kl is not None and not kl[1] else None

            def mk(s, lin):
                l = None
                if lin is not None and sl is not None and stepc is not None:
                    l = lin_add(sl, lin_scale(lin, stepc))
                l2 = lo
                if l is not None:
                    l2 = max(l2, self.sym_min(l))
                h2 = hi
                return V((('n', 'int', l2, max(h2, l2), l),), lab)
            n = None
            atleast = 0
            if sl is not None and el is not None and stepc == 1:
                d = lin_add(el, sl, -1)
                n = num('int', 0, INF, d, frozenset('#' + x for x, _ in d[1] if not x.startswith('%')))
                if self.sym_min(d) >= 1:
                    atleast = 1
            elif up and stepc == 1 and emin - smax >= 1:
                atleast = 1
            return self.It(mk=mk, lo=atleast, length=n if n is not None else num('int', 0), rng=None)
        if k == 'zip':
            its = [self.iterate(x, st, node) for x in args]
            if its and all(i.exact is not None for i in its):
                n = min(len(i.exact) for i in its)
                return self.exact_it([self.I.new_tuple(st, node, [i.exact[j] for i in its], 'z%d' % j) for j in range(n)])

            def mk(s, lin):
                return self.I.new_tuple(s, node, [join_all(i.exact) if i.exact is not None else i.mk(s, lin) for i in its], 'z')
            lens = [i.length for i in its if i.length is not None]
            return self.It(mk=mk, lo=min([i.lo for i in its] or [0]), length=lens[0] if len(lens) == len(its) and all(
                x == lens[0] for x in lens) else num('int', 0))
        if k == 'enumerate':
            it = self.iterate(args[0], st, node)
            start = args[1] if len(args) > 1 else const(0)
            if it.exact is not None:
                c, s0 = start.const()
                if c:
                    return self.exact_it([self.I.new_tuple(st, node, [const(s0 + j), e], 'e%d' % j)
                                          for j, e in enumerate(it.exact)])

            def mk(s, lin):
                iv = num('int', 0)
                sl = self.lin_of(start)
                if lin is not None and sl is not None:
                    iv = num('int', max(0, sl[0] if not sl[1] else 0), INF, lin_add(sl, lin))
                e = join_all(it.exact) if it.exact is not None else it.mk(s, lin)
                return self.I.new_tuple(s, node, [iv, e], 'e')
            return self.It(mk=mk, lo=it.lo, length=it.length)
        if k == 'reversed':
            it = self.iterate(args[0], st, node)
            if it.exact is not None:
                return self.exact_it(list(reversed(it.exact)))
            ln = self.lin_of(it.length) if it.length is not None else None

            def mk(s, lin):
                if lin is not None and ln is not None:
                    l = lin_add(lin_add(ln, lin_const(1), -1), lin, -1)
                    v = it.mk(s, l)
                    return v
                return it.mk(s, None)
            return self.It(mk=mk, lo=it.lo, length=it.length)
        if k in ('map', 'filter'):
            f, srcs = args[0], args[1:]
            its = [self.iterate(x, st, node) for x in srcs]

            def mk(s, lin):
                es = [join_all(i.exact) if i.exact is not None else i.mk(s, lin) for i in its]
                if k == 'filter':
                    return es[0]
                return self.I.call_value(f, es, {}, s, node)
            if k == 'map' and all(i.exact is not None for i in its) and its:
                n = min(len(i.exact) for i in its)
                if n <= 8:
                    return self.exact_it([self.I.call_value(f, [i.exact[j] for i in its], {}, st, node) for j in range(n)])
            return self.It(mk=mk, lo=min([i.lo for i in its] or [0]) if k == 'map' else 0,
                           length=its[0].length if k == 'map' and len(its) == 1 else num('int', 0))
        if k in ('dictitems', 'dictvalues', 'dictkeys'):
            do = st.heap[args[0].single()[1]] if args[0].single() and args[0].single()[0] == 'o' else None
            if do is not None:
                m = do.aux.get('map') or {}
                if do.aux.get('elem') is None and not any(UNDEF in v.atoms for v in m.values()):
                    if k == 'dictkeys':
                        return self.exact_it([self.key_value(x) for x in m])
                    if k == 'dictvalues':
                        return self.exact_it(list(m.values()))
                    return self.exact_it([self.I.new_tuple(st, node, [self.key_value(x), y], 'd%d' % j)
                                          for j, (x, y) in enumerate(m.items())])
                allv = join_all(list(m.values()) + ([do.aux['elem']] if do.aux.get('elem') is not None else []))
                allv = V(allv.atoms - {UNDEF}, allv.labels)

                def mk(s, lin):
                    if k == 'dictvalues':
                        return allv
                    if k == 'dictkeys':
                        return unknown('key')
                    return self.I.new_tuple(s, node, [unknown('key'), allv], 'd')
                return self.It(mk=mk, lo=0, length=num('int', 0))
        return self.It(mk=lambda s, lin: unknown('elem', o.aux.get('lab', EMPTY)), lo=0, length=num('int', 0))

    def mk_iter(self, kind, args, st, node):
        return self.I.alloc(st, node, HObj('iter', kind, {('a%d' % i): v for i, v in enumerate(args)},
                                           {'args': tuple(args)}), ':' + kind)

    def unpack(self, v, n, star, st, node):
        I = self.I
        cols = [None] * n
        ok = False
        for a in sorted(v.atoms, key=repr):
            if a[0] == 'o' and st.heap[a[1]].kind in ('list', 'tuple') and 'items' in st.heap[a[1]].aux:
                items = list(st.heap[a[1]].aux['items'])
                if star is None:
                    if len(items) != n:
                        I.do_raise_named('ValueError', st, node, may=True)
                        continue
                    ok = True
                    for i in range(n):
                        cols[i] = join(cols[i], items[i].with_labels(v.labels))
                else:
                    if len(items) < n - 1:
                        continue
                    ok = True
                    k = len(items) - (n - 1)
                    parts = items[:star] + [I.new_list(st, node, items[star:star + k], suffix='*u')] + items[star + k:]
                    for i in range(n):
                        cols[i] = join(cols[i], parts[i])
                continue
            if a == NONE_ATOM or a[0] == 'n':
                I.do_raise_named('TypeError', st, node, may=True)
                continue
            it = self.iterate(V((a,), v.labels), st, node)
            ok = True
            if it.exact is not None and star is None:
                if len(it.exact) != n:
                    I.do_raise_named('ValueError', st, node, may=True)
                    continue
                for i in range(n):
                    cols[i] = join(cols[i], it.exact[i])
            else:
                for i in range(n):
                    cols[i] = join(cols[i], it.mk(st, lin_const(i) if star is None else None) if it.exact is None else join_all(it.exact))
        if not ok or any(c is None for c in cols):
            raise I.Dead()
        return cols

    # ------------------------------------------------------------------ attributes of library objects
    def getattr_obj(self, a, o, name, st, node):
        I = self.I
        if o.kind == 'nd':
            d = o.aux.get('dims')
            if name == 'shape':
                if d is None:
                    return I.new_list(st, node, elem=num('int', 0), length=num('int', 0), kind='tuple', suffix='shape')
                return I.new_tuple(st, node, [self.dim_v(x) for x in d], 'shape')
            if name == 'ndim':
                return const(len(d)) if d is not None else num('int', 0)
            if name == 'size':
                if d is None:
                    return num('int', 0)
                r = const(1)
                for x in d:
                    r = self.binop('Mult', r, self.dim_v(x), st, node)
                return r
            if name == 'T':
                return self.view_of(V((a,)), ('T', len(d)) if d is not None else ('u',),
                                    lambda x: x[::-1] if x is not None else None, st, node, 'T')
            if name in ('real', 'imag'):
                return self.view_of(V((a,)), (), lambda x: x, st, node, name, dt='f')
            if name == 'flat':
                return self.view_of(V((a,)), ('u',), lambda x: (None,), st, node, name)
            if name in ('dtype', 'nbytes', 'itemsize', 'flags', 'strides'):
                return unknown(name)
            if name == 'base':
                return unknown(name)
            if name == '__class__':
                return V((('x', 'numpy.ndarray'),))
            if name.startswith('__') and name not in ('__len__',):
                return V((('xm', name, a),))
            return V((('xm', name, a),))
        if name == '__class__':
            return V((I.type_atom(a, st),))
        if o.kind == 'exc':
            if name == 'args':
                return unknown('args')
            return V((('xm', name, a),))
        if o.kind == 'slice':
            return o.f.get(name, NONE)
        if o.kind == 'ext':
            if o.cls and o.cls.startswith('sklearn.') and name.endswith('_') and not name.startswith('_'):
                return unknown('fitted', o.aux.get('lab', EMPTY) | (frozenset(['F:' + name]) if I.tag_ext else EMPTY))
            if name in o.f:
                return o.f[name]
            if o.cls == 'numpy.finfo':
                return {'max': const(1.7976931348623157e308, tname='real'), 'min': const(-1.7976931348623157e308, tname='real'),
                        'eps': const(2.220446049250313e-16, tname='real'), 'tiny': const(2.2250738585072014e-308, tname='real')}.get(name, unknown('finfo'))
            return V((('xm', name, a),))
        return V((('xm', name, a),))

    def getattr_value(self, a, name, st, node):
        if a[0] == 'u':
            return unknown('attr')
        if a == NONE_ATOM:
            if name == '__class__':
                return V((('x', 'builtins.NoneType'),))
            return None
        if a[0] in ('n', 'nan') or (a[0] == 'k' and a[1] in ('int', 'float', 'real', 'bool', 'complex')):
            t = 'real' if a[0] == 'nan' else a[1]
            if name == '__class__':
                return V((self.I.type_atom(a, st),))
            if name in ('real',):
                return V((a,))
            if name == 'imag':
                return const(0.0)
            if t == 'real':
                if name == 'ndim':
                    return const(0)
                if name == 'shape':
                    return self.I.new_tuple(st, node, [], 'shape')
                if name == 'size':
                    return const(1)
                if name == 'dtype':
                    return unknown('dtype')
                return V((('xm', name, a),))
            if name in ('is_integer', 'bit_length', 'to_bytes', 'conjugate', 'as_integer_ratio', 'hex', '__abs__',
                        '__index__', '__str__', '__eq__', '__hash__', '__float__', '__int__', '__lt__', '__gt__'):
                return V((('xm', name, a),))
            return None
        if a[0] in ('s', 'by') or a[0] == 'k':
            if name == '__class__':
                return V((self.I.type_atom(a, st),))
            return V((('xm', name, a),))
        return V((('xm', name, a),))

    # ------------------------------------------------------------------ library calls
    def call(self, d, args, kwargs, st, node):
        I = self.I
        self.seen_ext[d] = self.seen_ext.get(d, 0) + 1
        I.emit('extcall', st, node, name=d, args=args, kwargs=kwargs)
        if d.startswith('builtins.'):
            f = getattr(self, 'b_' + d[9:].replace('.', '_'), None)
            if f is not None:
                return f(args, kwargs, st, node)
            if d[9:] in EXC:
                return I.alloc(st, node, HObj('exc', 'x:' + d[9:], {}, {'args': tuple(args)}), ':' + d[9:])
            return unknown(d, self.args_labels(args, kwargs, st))
        if d.startswith('numpy.'):
            r = self.np_call(d[6:], args, kwargs, st, node)
            if r is not None:
                return r
        elif d.startswith('math.'):
            return self.math_call(d[5:], args, kwargs, st, node)
        elif d.startswith('wai.common.'):
            r = self.wai_call(d[11:], args, kwargs, st, node)
            if r is not None:
                return r
        elif d.startswith('enum.auto'):
            return I.alloc(st, node, HObj('ext', 'enum.auto', {}, {}))
        elif d == 'functools.partial':
            v = I.alloc(st, node, HObj('partial', None, {'fn': args[0]}, {'args': tuple(args[1:]), 'kw': dict(kwargs)}))
            return V((('partial', v.single()[1]),))
        elif d == 'functools.reduce':
            it = self.iterate(args[1], st, node)
            acc = args[2] if len(args) > 2 else None
            items = it.exact
            if items is not None and len(items) <= 8:
                for e in items:
                    acc = e if acc is None else I.call_value(args[0], [acc, e], {}, st, node)
                return acc if acc is not None else unknown('reduce')
            e = it.mk(st, None)
            cur = join(acc, e)
            for _ in range(3):
                cur = join(cur, I.call_value(args[0], [cur, e], {}, st, node))
            return cur
        elif d in ('io.BytesIO', 'io.StringIO'):
            lab = self.args_labels(args, kwargs, st)
            return I.alloc(st, node, HObj('ext', d, {}, {'lab': lab}))
        elif d.startswith('struct.pack'):
            return V((BYTES_ATOM,), self.args_labels(args, kwargs, st))
        elif d.startswith('sklearn.'):
            if d.endswith('.QuantileTransformer') and NONE_ATOM in kwargs.get('random_state', NONE).atoms:
                I.emit('nondet', st, node, name=d, write=False)
            return I.alloc(st, node, HObj('ext', d, {}, {'lab': self.args_labels(args, kwargs, st),
                                                         'params': tuple(sorted(kwargs.items()))}))
        elif d.startswith(('copy.copy', 'copy.deepcopy')):
            return self.copy_value(args[0], st, node, d.endswith('deepcopy'))
        elif d.startswith(('random.', 'secrets.', 'uuid.')) or d in ('time.time', 'time.time_ns', 'time.perf_counter',
                                                                       'os.urandom', 'os.getpid', 'time.monotonic'):
            I.emit('nondet', st, node, name=d, write=d.endswith(('.seed', '.setstate')) and d.startswith('random.'))
            if d == 'random.Random' and args:
                return I.alloc(st, node, HObj('ext', 'random.Random', {}, {'lab': self.args_labels(args, kwargs, st)}))
            return V((('u', d),), self.args_labels(args, kwargs, st) | {NONDET})
        elif d.startswith('operator.'):
            n = d[9:].strip('_')
            m = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'floordiv': 'FloorDiv', 'mod': 'Mod',
                 'pow': 'Pow', 'matmul': 'MatMult'}.get(n)
            if m and len(args) == 2:
                return self.binop(m, args[0], args[1], st, node)
            c = {'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq'}.get(n)
            if c and len(args) == 2:
                return self.compare(c, args[0], args[1], st, node)
        elif d.startswith(('traceback.', 'logging.', 'warnings.')):
            return NONE
        elif d in ('os.path.dirname', 'os.path.basename', 'os.path.exists', 'os.path.isdir', 'os.path.isfile', 'os.makedirs',
                   'os.mkdir') and args and args[0].const()[0] and isinstance(args[0].const()[1], str) and (
                d in ('os.path.dirname', 'os.path.basename') or args[0].const()[1] == ''):
            # decided by the text of the path alone
            import posixpath
            c = args[0].const()[1]
            n = d.rsplit('.', 1)[1]
            if n in ('dirname', 'basename'):
                return const(getattr(posixpath, n)(c), args[0].labels)
            if n in ('makedirs', 'mkdir'):
                I.do_raise_named('FileNotFoundError', st, node)
                raise I.Dead()
            return const(False)
        elif d.startswith('os.path.') or d in ('os.makedirs', 'os.mkdir'):
            return V((STR_ATOM,), self.args_labels(args, kwargs, st)) if d.rsplit('.', 1)[1] in (
                'join', 'dirname', 'basename', 'abspath', 'normpath', 'realpath', 'expanduser') else (
                V(BOOL.atoms) if d.rsplit('.', 1)[1] in ('exists', 'isdir', 'isfile') else NONE)
        elif d.startswith('sys.stderr.') or d.startswith('sys.stdout.'):
            return NONE
        elif d == 'itertools.product' and not kwargs:
            its = [self.iterate(x, st, node) for x in args]

            elem = I.new_tuple(st, node, [join_all(i.exact) if i.exact is not None else i.mk(st, None) for i in its], 'p')
            return I.new_list(st, node, elem=elem, length=num('int', 0), suffix='prod')
        elif d == 'itertools.chain':
            return I.new_list(st, node, elem=join_all([self.iter_elem(x, st, node) for x in args]), length=num('int', 0))
        elif d == 'itertools.repeat':
            return I.new_list(st, node, elem=args[0], length=args[1] if len(args) > 1 else num('int', 0))
        if d not in I.unknown_ext:
            I.unknown_ext[d] = I.where(node)
        lab = self.args_labels(args, kwargs, st)
        # an unknown library function may hand back (a view of) an argument or store into it: nothing is claimed
        return unknown('ext:' + d, lab)

    def copy_value(self, v, st, node, deep):
        I = self.I
        out = set()
        for i, a in enumerate(sorted(v.atoms, key=repr)):
            if a[0] == 'o':
                out |= self._copy_obj(a, st, node, deep, 'c%d' % i, {}).atoms
            else:
                out.add(a)
        return V(out, v.labels)

    def _copy_obj(self, a, st, node, deep, sfx, memo):
        I = self.I
        if a[1] in memo:
            return memo[a[1]]
        o = st.heap[a[1]]
        if o.kind == 'nd':
            r = I.new_nd(st, node, o.aux.get('dims'), self.nd_labels(a[1], st), o.aux.get('dt', 'f'), sfx)
            memo[a[1]] = r
            return r
        if o.kind not in ('inst', 'list', 'tuple', 'set', 'dict', 'ext'):
            return V((a,))
        r = I.alloc(st, node, HObj(o.kind, o.cls, {}, {}), sfx)
        rid = r.single()[1]
        memo[a[1]] = r
        if not deep:
            st.heap[rid] = HObj(o.kind, o.cls, dict(o.f), dict(o.aux), st.heap[rid].multi)
            return r
        cnt = [0]

        def cp(v):
            at = set()
            for x in v.atoms:
                if x[0] == 'o':
                    cnt[0] += 1
                    at |= self._copy_obj(x, st, node, True, '%s.%d' % (sfx, cnt[0]), memo).atoms
                elif x[0] == 'bm' and x[2][0] == 'o' and x[2][1] in memo:
                    at.add(('bm', x[1], memo[x[2][1]].single()))
                else:
                    at.add(x)
            return V(at, v.labels)
        f = {n: cp(v) for n, v in sorted(o.f.items())}
        aux = dict(o.aux)
        if 'items' in aux:
            aux['items'] = tuple(cp(v) for v in aux['items'])
        if aux.get('elem') is not None:
            aux['elem'] = cp(aux['elem'])
        if aux.get('map'):
            aux['map'] = {k: cp(v) for k, v in aux['map'].items()}
        st.heap[rid] = HObj(o.kind, o.cls, f, aux, st.heap[rid].multi)
        return r

    def math_call(self, n, args, kwargs, st, node):
        v = args[0] if args else NONE
        lab = frozenset().union(*[self.cond_labels(a, st) for a in args]) if args else EMPTY
        lab = op_roles(n if len(args) == 1 else 'f', [lab], [(False, None)])[0]
        if n in ('isnan', 'isinf', 'isfinite'):
            return self.isnan(v, n, st, node)
        c = [a.const() for a in args]
        if all(x[0] for x in c):
            try:
                r = getattr(math, n)(*[x[1] for x in c])
                return const(r, lab)
            except Exception:
                pass
        if n in ('floor', 'ceil', 'trunc', 'gcd', 'factorial', 'comb'):
            return num('int', -INF, INF, None, lab)
        if n in ('sqrt', 'exp', 'fabs', 'hypot'):
            return num('float', 0, INF, None, lab)
        if n in ('isclose',):
            return V(BOOL.atoms, lab)
        return num('float', -INF, INF, None, lab)

    def isnan(self, v, n, st, node):
        if self.nd(v, st):
            return self.elementwise([v], st, node, name=n, dt='b')
        t = f = False
        for a in v.atoms:
            if a[0] == 'nan':
                if n == 'isnan':
                    t = True
                else:
                    f = True
            elif a[0] == 'k' and isinstance(a[2], (int, float)):
                r = getattr(math, n)(a[2])
                t, f = t or r, f or not r
            elif a[0] == 'n':
                if n == 'isnan':
                    f = True
                elif a[1] == 'int':
                    if n == 'isfinite':
                        t = True
                    else:
                        f = True
                elif -INF < a[2] and a[3] < INF:
                    if n == 'isfinite':
                        t = True
                    else:
                        f = True
                else:
                    t = f = True
            else:
                t = f = True
        return self.boolv(t, f, v.labels)

    def wai_call(self, n, args, kwargs, st, node):
        I = self.I
        if n.endswith('switch'):
            return I.alloc(st, node, HObj('ext', 'wai.common.switch', {'value': args[0], 'matched': FALSE}, {}))
        if not I.switches:
            return None
        sw = I.switches[-1]
        o = st.heap[sw]
        matched = o.f['matched']
        if n.endswith('case'):
            outs = []
            t, f = I.truth(matched, st)
            if t:
                s1 = st.copy()
                s1.heap[sw] = o.setf('matched', TRUE)
                outs.append((TRUE, s1))
            if f:
                val = o.f['value']
                yes, no = set(), set()
                items = []
                for x in args:
                    items.append(x)
                for a in val.atoms:
                    es = [self.eq_atoms(a, b, 'Eq') for x in items for b in x.atoms]
                    if any(e is True for e in es):
                        yes.add(a)
                    elif any(e is None for e in es):
                        ks = [b for x in items for b in x.atoms if b[0] in ('k', 'e')]
                        if a[0] in ('s', 'u') and ks:
                            yes |= set(ks)
                        else:
                            yes.add(a)
                        no.add(a)
                    else:
                        no.add(a)
                if yes:
                    s1 = st.copy()
                    s1.heap[sw] = o.setf('matched', TRUE).setf('value', V(yes, val.labels))
                    outs.append((TRUE.with_labels(val.labels), s1))
                if no:
                    s1 = st.copy()
                    s1.heap[sw] = o.setf('matched', FALSE).setf('value', V(no, val.labels))
                    outs.append((FALSE.with_labels(val.labels), s1))
            return outs
        if n.endswith('default'):
            s1 = st.copy()
            s1.heap[sw] = o.setf('matched', TRUE)
            return [(TRUE, s1)]
        if n.endswith('break_'):
            ev = I.alloc(st, node, HObj('exc', 'x:wai.common.BreakSwitch', {}, {}), ':brk')
            I.handlers[-1].append((ev, st.copy()))
            raise I.Dead()
        return None

    # ------------------------------------------------------------------ builtins
    def b_len(self, args, kwargs, st, node):
        I = self.I
        out = None
        for a in args[0].atoms:
            r = None
            if a[0] == 'o':
                o = st.heap[a[1]]
                if o.kind in ('list', 'tuple', 'set'):
                    r = self.seq_len(o)
                elif o.kind == 'dict':
                    r = const(len(o.aux.get('map') or {})) if o.aux.get('elem') is None and not any(
                        UNDEF in v.atoms for v in (o.aux.get('map') or {}).values()) else num('int', 0)
                elif o.kind == 'nd':
                    d = o.aux.get('dims')
                    r = self.dim_v(d[0]) if d else num('int', 0)
                elif o.kind == 'inst':
                    c, fv = I.class_attr(st, o.cls, '__len__')
                    if fv is not None:
                        r = I.call_value(I.bind(fv, a, st, node), [], {}, st, node)
                elif o.kind == 'iter':
                    it = self.iterate(V((a,)), st, node)
                    r = it.length
            elif a[0] == 'k' and a[1] in ('str', 'bytes'):
                r = const(len(a[2]))
            elif a[0] == 'c' and I.is_enum(a[1]):
                r = const(len(st.heap[a[1]].aux.get('members', {})))
            elif a == NONE_ATOM or a[0] == 'n':
                I.do_raise_named('TypeError', st, node, may=True)
                continue
            out = join(out, r if r is not None else num('int', 0))
        if out is None:
            raise I.Dead()
        return out.with_labels(args[0].labels)

    def b_range(self, args, kwargs, st, node):
        if len(args) == 1:
            t = (const(0), args[0], const(1))
        elif len(args) == 2:
            t = (args[0], args[1], const(1))
        elif len(args) == 3:
            t = tuple(args)
        else:
            return unknown('range')
        for x in t:
            if x.single() is not None and (x.single()[0] == 'nan' or (num_range(x.single()) and num_range(x.single())[0] in ('float', 'real'))):
                self.I.raise_dead('TypeError', st, node)
        return self.mk_iter('range', list(t), st, node)

    def b_zip(self, args, kwargs, st, node):
        return self.mk_iter('zip', args, st, node)

    def b_enumerate(self, args, kwargs, st, node):
        a = list(args)
        if 'start' in kwargs:
            a.append(kwargs['start'])
        return self.mk_iter('enumerate', a, st, node)

    def b_reversed(self, args, kwargs, st, node):
        return self.mk_iter('reversed', args, st, node)

    def b_map(self, args, kwargs, st, node):
        # evaluated at once: the effects of the mapped function happen
        it = self.mk_iter('map', args, st, node)
        return self.b_list([it], {}, st, node)

    def b_filter(self, args, kwargs, st, node):
        it = self.iterate(args[1], st, node)
        e = join_all(it.exact) if it.exact is not None else it.mk(st, None)
        if args[0].single() != NONE_ATOM and e.atoms:
            self.I.call_value(args[0], [e], {}, st, node)
        return self.I.new_list(st, node, elem=e, length=num('int', 0), suffix='filter')

    def b_iter(self, args, kwargs, st, node):
        return args[0]

    def b_next(self, args, kwargs, st, node):
        e = self.iter_elem(args[0], st, node)
        return join(e, args[1]) if len(args) > 1 else (e if e.atoms else unknown('next'))

    def _listlike(self, args, st, node, kind):
        I = self.I
        if not args:
            return I.new_list(st, node, [], kind=kind)
        out = None
        src = args[0]
        it = self.iterate(src, st, node)
        if it.exact is not None and len(it.exact) <= 40:
            return I.new_list(st, node, it.exact, kind=kind, labels=src.labels)
        a = src.single()
        sym = lin_sym('%list')
        e = it.mk(st, None) if it.exact is None else join_all(it.exact)
        seq = None
        if a is not None and a[0] == 'o':
            o = st.heap[a[1]]
            if o.kind == 'iter' and o.cls == 'range' and o.aux['args'][2].const() == (True, 1):
                seq = self.lin_of(o.aux['args'][0])
            elif o.kind in ('list', 'tuple'):
                e = self.seq_elem(o)
                seq = o.aux.get('seq')
            elif o.kind == 'nd':
                e = V(e.atoms, map_rows(e.labels, lambda s: s))
                e = self._list_rows(e, a, st)
        r = I.new_list(st, node, elem=e, length=it.length if it.length is not None and kind != 'set' else num('int', 0),
                       kind=kind, labels=src.labels)
        if seq is not None:
            oid = r.single()[1]
            st.heap[oid] = st.heap[oid].seta(seq=seq)
        return r

    def _list_rows(self, e, a, st):
        lab = self.nd_labels(a[1], st)
        if any(type(l) is tuple and l[1] == 0 for l in lab) and not self.nd(e, st):
            return V(e.atoms, map_rows(e.labels, lambda s: 'l' if s == '?' else s))
        return e

    def b_list(self, args, kwargs, st, node):
        return self._listlike(args, st, node, 'list')

    def b_tuple(self, args, kwargs, st, node):
        return self._listlike(args, st, node, 'tuple')

    def b_set(self, args, kwargs, st, node):
        return self._listlike(args, st, node, 'set')

    b_frozenset = b_set

    def b_sorted(self, args, kwargs, st, node):
        I = self.I
        it = self.iterate(args[0], st, node)
        e = join_all(it.exact) if it.exact is not None else it.mk(st, None)
        if 'key' in kwargs and e.atoms and kwargs['key'].single() != NONE_ATOM:
            k = I.call_value(kwargs['key'], [e], {}, st, node)
            e = e.with_labels(map_rows(k.labels, rows_any))
        e = V(e.atoms, map_rows(e.labels, lambda s: '*' if s == 'l' or (type(s) is tuple) else s))
        if it.exact is not None:
            return I.new_list(st, node, [e] * len(it.exact), suffix='sorted')
        return I.new_list(st, node, elem=e, length=it.length, suffix='sorted')

    def b_dict(self, args, kwargs, st, node):
        m = {}
        elem = None
        if args:
            a = args[0].single()
            if a is not None and a[0] == 'o' and st.heap[a[1]].kind == 'dict':
                m.update(st.heap[a[1]].aux.get('map') or {})
                elem = st.heap[a[1]].aux.get('elem')
            else:
                elem = unknown('dict')
        m.update(kwargs)
        aux = {'map': m}
        if elem is not None:
            aux['elem'] = elem
        return self.I.alloc(st, node, HObj('dict', None, {}, aux))

    def b_sum(self, args, kwargs, st, node):
        start = args[1] if len(args) > 1 else kwargs.get('start', const(0))
        if self.nd(args[0], st):
            d = self.shape_of(args[0], st)[0]
            if d is not None and len(d) >= 1:
                return self.reduce(args[0], const(0), False, st, node, name='sum')
        it = self.iterate(args[0], st, node)
        if it.exact is not None and len(it.exact) <= 8:
            acc = start
            for i, e in enumerate(it.exact):
                acc = self.binop('Add', acc, e, st, node)
            return acc.with_labels(args[0].labels)
        e = join_all(it.exact) if it.exact is not None else it.mk(st, None)
        e = V(e.atoms, map_rows(e.labels, lambda s: '*' if s == 'l' or s == '?' and False or type(s) is tuple else s))
        lab = map_rows(self.content(e, st), lambda s: s)
        if self.nd(e, st):
            return self.elementwise([start, e], st, node, name='Add', suffix='sum')
        lo, hi = -INF, INF
        rs = [num_range(a) for a in e.atoms]
        if rs and all(rs) and min(r[1] for r in rs) >= 0:
            lo = 0
        t = 'real' if any(a[0] in ('n', 'k') and a[1] == 'real' for a in e.atoms | start.atoms) else (
            'int' if all(r and r[0] in ('int', 'bool') for r in rs) and rs else 'float')
        res = {('n', t, lo, hi, None)}
        if any(a[0] == 'nan' for a in e.atoms):
            res.add(NAN_ATOM)
        if any(a[0] == 'u' for a in e.atoms):
            res = {('u', 'sum')}
        return V(res, lab | start.labels | args[0].labels)

    def _minmax(self, args, kwargs, st, node, which):
        I = self.I
        if len(args) == 1:
            if self.nd(args[0], st):
                return self.reduce(args[0], None, False, st, node, name=which)
            it = self.iterate(args[0], st, node)
            vals = it.exact if it.exact is not None else [it.mk(st, None)]
            if it.exact is None:
                vals = [V(v.atoms, map_rows(v.labels, lambda s: '*' if s == 'l' else s)) for v in vals]
            if 'key' in kwargs:
                for v in vals:
                    I.call_value(kwargs['key'], [v], {}, st, node)
            if 'default' in kwargs:
                vals = list(vals) + [kwargs['default']]
            single = False
        else:
            vals = args
            single = True
        if not vals:
            I.raise_dead('ValueError', st, node)
        lab = combine_rows([v.labels for v in vals]) if len(vals) > 1 else vals[0].labels
        cs = [v.const() for v in vals]
        if all(c[0] for c in cs) and 'key' not in kwargs:
            try:
                r = (min if which == 'min' else max)(c[1] for c in cs)
                return const(r, lab)
            except Exception:
                pass
        if single and len(vals) == 2 and 'key' not in kwargs:
            l1, l2 = self.lin_of(vals[0]), self.lin_of(vals[1])
            if l1 is not None and l2 is not None:
                d = lin_add(l1, l2, -1)
                if self.sym_min(d) >= 0:
                    return vals[1 if which == 'min' else 0].with_labels(lab)
                if self.sym_min(lin_scale(d, -1)) >= 0:
                    return vals[0 if which == 'min' else 1].with_labels(lab)
        rs = [[num_range(a) for a in v.atoms] for v in vals]
        if single and all(r and all(r) for r in rs):
            los = [min(x[1] for x in r) for r in rs]
            his = [max(x[2] for x in r) for r in rs]
            t = 'int' if all(x[0] in ('int', 'bool') for r in rs for x in r) else 'real'
            if which == 'min':
                return V((('n', t, min(los), min(his), None),), lab)
            return V((('n', t, max(los), max(his), None),), lab)
        return V(join_all(vals).atoms, lab)

    def b_min(self, args, kwargs, st, node):
        return self._minmax(args, kwargs, st, node, 'min')

    def b_max(self, args, kwargs, st, node):
        return self._minmax(args, kwargs, st, node, 'max')

    def b_abs(self, args, kwargs, st, node):
        v = args[0]
        if self.nd(v, st):
            return self.elementwise([v], st, node, name='abs')
        res = set()
        for a in v.atoms:
            r = num_range(a)
            if a[0] == 'nan':
                res.add(a)
            elif a[0] == 'k' and r is not None:
                res.add(('k', a[1] if a[1] != 'bool' else 'int', abs(a[2])))
            elif r is not None:
                lo = 0 if r[1] <= 0 <= r[2] else min(abs(r[1]), abs(r[2]))
                res.add(('n', r[0], lo, max(abs(r[1]), abs(r[2])), r[3] if r[1] >= 0 else None))
            else:
                res.add(('u', 'abs'))
        return V(res, v.labels)

    def b_pow(self, args, kwargs, st, node):
        return self.binop('Pow', args[0], args[1], st, node)

    def b_divmod(self, args, kwargs, st, node):
        return self.I.new_tuple(st, node, [self.binop('FloorDiv', args[0], args[1], st, node),
                                           self.binop('Mod', args[0], args[1], st, node)])

    def b_round(self, args, kwargs, st, node):
        if len(args) == 1 and 'ndigits' not in kwargs:
            return self.b_int(args, kwargs, st, node)
        if self.nd(args[0], st):
            return self.elementwise([args[0]], st, node)
        return V([a if a[0] in ('nan', 'u') else ('n', a[1] if a[0] in 'nk' else 'real', -INF, INF, None) for a in args[0].atoms], args[0].labels)

    def b_int(self, args, kwargs, st, node):
        if not args:
            return const(0)
        res = set()
        for a in args[0].atoms:
            if a[0] == 'k' and a[1] in ('int', 'float', 'real', 'bool', 'str'):
                try:
                    res.add(('k', 'int', int(a[2])))
                except Exception:
                    self.I.do_raise_named('ValueError', st, node, may=True)
            elif a[0] == 'n':
                res.add(('n', 'int', math.floor(a[2]) if abs(a[2]) != INF else a[2], math.ceil(a[3]) if abs(a[3]) != INF else a[3],
                         a[4] if a[1] == 'int' else None))
            elif a == NONE_ATOM:
                self.I.do_raise_named('TypeError', st, node, may=True)
            else:
                if a[0] == 's':
                    self.I.do_raise_named('ValueError', st, node, may=True)
                res.add(('n', 'int', -INF, INF, None))
        if not res:
            raise self.I.Dead()
        return V(_na(res), self.cond_labels(args[0], st))

    def to_float(self, args, st, node, t):
        if not args:
            return const(0.0, tname=t)
        v = args[0]
        if self.nd(v, st):
            d = self.shape_of(v, st)
            if d[0] and t == 'real' and len(d[0]) > 0:
                return self.I.new_nd(st, node, d[0], d[1], 'f')
            return V((('n', t, -INF, INF, None), NAN_ATOM), map_rows(d[1], rows_any))
        res = set()
        for a in v.atoms:
            if a[0] == 'k':
                try:
                    x = float(a[2])
                    res.add(NAN_ATOM if x != x else ('k', t, x))
                except Exception:
                    self.I.do_raise_named('ValueError' if a[1] == 'str' else 'TypeError', st, node, may=True)
            elif a[0] == 'n':
                res.add(('n', t, a[2], a[3], None))
            elif a[0] == 'nan':
                res.add(a)
            else:
                if a[0] == 's':
                    self.I.do_raise_named('ValueError', st, node, may=True)
                if a[0] == 'o' and st.heap[a[1]].kind in ('list', 'tuple'):
                    d, l, dt = self.shape_of(V((a,), v.labels), st)
                    return self.I.new_nd(st, node, d, l, 'f')
                res.add(('n', t, -INF, INF, None))
                res.add(NAN_ATOM)
        if not res:
            raise self.I.Dead()
        return V(_na(res), v.labels)

    def b_float(self, args, kwargs, st, node):
        return self.to_float(args, st, node, 'float')

    def b_bool(self, args, kwargs, st, node):
        if not args:
            return FALSE
        t, f = self.I.truth(args[0], st)
        return self.boolv(t, f, self.cond_labels(args[0], st))

    def b_complex(self, args, kwargs, st, node):
        return num('complex', -INF, INF, None, self.args_labels(args, kwargs, st))

    def b_str(self, args, kwargs, st, node):
        if not args:
            return const('')
        v = args[0]
        c, k = v.const()
        if c and isinstance(k, (str, int, bool)) or c and k is None:
            return const(str(k), v.labels)
        for a in v.atoms:
            if a[0] == 'o' and st.heap[a[1]].kind == 'inst':
                c, fv = self.I.class_attr(st, st.heap[a[1]].cls, '__str__')
                if fv is not None:
                    r = self.I.call_value(self.I.bind(fv, a, st, node), [], {}, st, node)
                    return V((STR_ATOM,), r.labels | v.labels)
        return V((STR_ATOM,), map_rows(self.deep_labels(v, st), rows_unk))

    b_repr = b_format = b_ascii = b_str

    def b_bytes(self, args, kwargs, st, node):
        return V((BYTES_ATOM,), self.args_labels(args, kwargs, st))

    b_bytearray = b_bytes

    def b_chr(self, args, kwargs, st, node):
        return STR

    b_hex = b_bin = b_oct = b_chr

    def b_ord(self, args, kwargs, st, node):
        return num('int', 0)

    def b_isinstance(self, args, kwargs, st, node):
        t = f = False
        for a in args[0].atoms:
            r = self.isinstance_atom(a, args[1], st)
            t = t or r is not False
            f = f or r is not True
        return self.boolv(t, f, EMPTY)

    def b_issubclass(self, args, kwargs, st, node):
        a, b = args[0].single(), args[1].single()
        if a and b and a[0] == 'c' and b[0] == 'c':
            r = b[1] in self.I.mro(a[1])
            return self.boolv(r, not r)
        return V(BOOL.atoms)

    def b_callable(self, args, kwargs, st, node):
        a = args[0].single()
        if a is not None and a[0] in ('fn', 'bm', 'c', 'x', 'xm', 'partial'):
            return TRUE
        if a is not None and a[0] in ('k', 'n', 'nan', 's'):
            return FALSE
        return V(BOOL.atoms)

    def b_hasattr(self, args, kwargs, st, node):
        c, n = args[1].const()
        if not c:
            return V(BOOL.atoms)
        t = f = False
        for a in args[0].atoms:
            s2 = st.copy()
            self.I.handlers.append([])
            try:
                r = self.I.getattr_atom(a, n, s2, node, True)
                may_undef = bool(self.I.handlers[-1])
            except self.I.Dead:
                r = None
                may_undef = True
            finally:
                self.I.handlers.pop()
            if r is None:
                f = True
            elif r.has_unknown() and a[0] in ('u', 'x', 'xm'):
                t = f = True
            else:
                t = True
                f = f or may_undef
        return self.boolv(t, f)

    def b_getattr(self, args, kwargs, st, node):
        c, n = args[1].const()
        if not c:
            names = [a for a in args[1].atoms if a[0] == 'k']
            if len(names) == len(args[1].atoms) and names:
                return join_all([self.I.getattr(args[0], x[2], st, node, args[2] if len(args) > 2 else None) for x in sorted(names)])
            return unknown('getattr', self.args_labels(args[:1], {}, st))
        return self.I.getattr(args[0], n, st, node, args[2] if len(args) > 2 else None)

    def b_setattr(self, args, kwargs, st, node):
        c, n = args[1].const()
        if c:
            self.I.setattr(args[0], n, args[2], st, node)
        else:
            names = [a for a in args[1].atoms if a[0] == 'k']
            for x in sorted(names):
                s2 = st.copy()
                try:
                    self.I.setattr(args[0], x[2], args[2], s2, node)
                    st.assign(join_states(st, s2))
                except self.I.Dead:
                    pass
            if len(names) != len(args[1].atoms):
                for a in args[0].atoms:
                    if a[0] == 'o':
                        self.I.emit('setattr_unknown', st, node, oid=a[1])
        return NONE

    def b_delattr(self, args, kwargs, st, node):
        return NONE

    def b_type(self, args, kwargs, st, node):
        if len(args) == 1:
            return V([self.I.type_atom(a, st) for a in args[0].atoms])
        return unknown('type')

    def b_id(self, args, kwargs, st, node):
        return num('int', 0, INF, None, frozenset((NONDET,)))

    def b_hash(self, args, kwargs, st, node):
        a = args[0].single()
        if a is not None and a[0] == 'o' and st.heap[a[1]].kind == 'inst':
            c, fv = self.I.class_attr(st, st.heap[a[1]].cls, '__hash__')
            if fv is not None:
                return self.I.call_value(self.I.bind(fv, a, st, node), [], {}, st, node)
        lab = frozenset(self.args_labels(args, {}, st))
        if any(a[0] != 'n' and not (a[0] == 'k' and a[1] not in ('str', 'bytes')) for a in args[0].atoms):
            lab = lab | {NONDET}    # object identity or randomised string hash
        return num('int', -INF, INF, None, lab)

    def b_print(self, args, kwargs, st, node):
        return NONE

    def b_open(self, args, kwargs, st, node):
        self.I.emit('open', st, node, args=args, kwargs=kwargs)
        m = args[1] if len(args) > 1 else kwargs.get('mode', const('r'))
        return self.I.alloc(st, node, HObj('ext', 'file', {'mode': m}, {'lab': self.args_labels(args, kwargs, st)}))

    def _anyall(self, args, st, node, isany):
        v = args[0]
        if self.nd(v, st):
            return self.reduce(v, None, False, st, node, name='any', dt='b')
        it = self.iterate(v, st, node)
        if it.exact is not None:
            t = f = False
            lab = v.labels
            alw = False
            may = False
            for e in it.exact:
                x, y = self.I.truth(e, st)
                lab = lab | e.labels
                if isany:
                    alw = alw or (x and not y)
                    may = may or x
                else:
                    alw = alw or (y and not x)
                    may = may or y
            if isany:
                return self.boolv(may, not alw, lab)
            return self.boolv(not alw, may, lab)
        e = it.mk(st, None)
        x, y = self.I.truth(e, st)
        lab = v.labels | map_rows(self.content(e, st), lambda s: '*' if s == 'l' or isinstance(s, int) else s)
        lo = it.lo
        if isany:
            return self.boolv(x, y or lo < 1, lab)
        return self.boolv(x or lo < 1, y, lab)

    def b_any(self, args, kwargs, st, node):
        return self._anyall(args, st, node, True)

    def b_all(self, args, kwargs, st, node):
        return self._anyall(args, st, node, False)

    def b_slice(self, args, kwargs, st, node):
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        f = {}
        for n, v in zip(('start', 'stop', 'step'), a):
            f[n] = v
        return self.I.alloc(st, node, HObj('slice', None, f, {}))

    def b_object(self, args, kwargs, st, node):
        return self.I.alloc(st, node, HObj('ext', 'object', {}, {}))

    def b_vars(self, args, kwargs, st, node):
        a = args[0].single() if args else None
        if a is not None and a[0] == 'o':
            return self.I.getattr_inst(a, '__dict__', st, node)
        return unknown('vars')

    def b_super(self, args, kwargs, st, node):
        return unknown('super')

    def b_object___setattr__(self, args, kwargs, st, node):
        c, n = args[1].const()
        for a in args[0].atoms:
            if a[0] == 'o' and c:
                self.I.raw_setattr(a, n, args[2], st, node)
        return NONE

    def b_object___getattribute__(self, args, kwargs, st, node):
        c, n = args[1].const()
        a = args[0].single()
        if c and a is not None and a[0] == 'o':
            r = self.I.getattr_inst(a, n, st, node)
            if r is None:
                self.I.raise_dead('AttributeError', st, node)
            return r
        return unknown('attr')

    def b_object___init__(self, args, kwargs, st, node):
        return NONE
