"""Models of numpy functions and of the methods of arrays, containers, strings and library objects."""
from .values import *
from .values import _norm_atoms
from .heap import *

NONDET = 'NONDET'


def _r_any(s):
    return '*' if isinstance(s, int) else ('?' if s == 'l' else s)


def _r_unk(s):
    return '?' if isinstance(s, int) or s == 'l' else s


def _pick(args, kwargs, i, name, default=None):
    if name in kwargs:
        return kwargs[name]
    return args[i] if len(args) > i else default


FILE_LIKE = ('file', 'io.BytesIO', 'io.StringIO')


class NpModel:
    # ------------------------------------------------------------------ small helpers
    def dims_from(self, v, st):
        """dims of a shape argument"""
        if v is None:
            return None
        a = v.single()
        if a is not None and num_range(a) is not None:
            return (self.lin_of(v),)
        if a is not None and a[0] == 'o':
            o = st.heap[a[1]]
            if o.kind in ('list', 'tuple') and 'items' in o.aux:
                return tuple(self.lin_of(x) for x in o.aux['items'])
        return None

    def fresh(self, v, st, node, fn=lambda s: s, dims='same', dt=None, suffix='', extra=EMPTY):
        d, l, t = self.shape_of(v, st)
        seq = self.seq_of(v, st) if dims == 'same' and d is not None and len(d) == 1 else None
        r = self.I.new_nd(st, node, d if dims == 'same' else dims, map_rows(l, fn) | extra, dt or t, suffix)
        if seq is not None:
            oid = r.single()[1]
            st.heap[oid] = st.heap[oid].seta(seq=seq)
        return r

    def axis_of(self, v, default):
        if v is None:
            return True, default
        return v.const()

    def write_out(self, out, res, st, node):
        if out is None:
            return res
        done = False
        for t in ([out] if self.nd(out, st) else
                  [x for a in out.atoms if a[0] == 'o' and 'items' in st.heap[a[1]].aux for x in st.heap[a[1]].aux['items']]):
            for a in self.nd(t, st):
                self.write_nd(a, (), res, st, node, how='out= argument')
                done = True
        return out if done else res

    # ------------------------------------------------------------------ numpy functions
    def np_call(self, n, args, kwargs, st, node):
        from .lib import UFUNC1, UFUNC2, BOOLF, REDUCE, CUM, REALT, INTT
        I = self.I
        out = kwargs.get('out')
        if out is not None and out.single() == NONE_ATOM:
            out = None
        a0 = args[0] if args else None
        base, _, meth = n.partition('.')
        if base in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'maximum', 'minimum', 'logical_or',
                    'logical_and', 'power') and meth:
            if meth == 'reduce':
                return self.reduce(a0, _pick(args, kwargs, 1, 'axis', const(0)), self.kd(kwargs, st), st, node, out=out, name=base)
            if meth == 'accumulate':
                return self.scan(a0, _pick(args, kwargs, 1, 'axis', const(0)), st, node)
            if meth == 'outer':
                return self.outer(args, st, node)
            if meth == 'at':
                for a in self.nd(a0, st):
                    v = args[2] if len(args) > 2 else NONE
                    idx = ('one', [I.entry_of_value(args[1], st)])
                    cur = self.getitem(V((a,)), idx, st, node)
                    self.setitem(V((a,)), idx, self.np_call(base, [cur, v], {}, st, node), st, node)
                return NONE
        if n in UFUNC1 or n in UFUNC2 and len(args) >= 2 or n == 'ma.sqrt':
            if n in ('isnan', 'isinf', 'isfinite') and not self.nd(a0, st) and out is None and not any(
                    a[0] == 'o' for a in a0.atoms):
                return self.isnan(a0, n, st, node)
            k = 1 if n in UFUNC1 or n == 'ma.sqrt' else 2
            if out is None and len(args) > k and n not in ('round', 'around', 'round_', 'nan_to_num', 'isclose', 'angle'):
                out = args[k] if args[k].single() != NONE_ATOM else None
            if n == 'nan_to_num' and kwargs.get('copy') is not None and kwargs['copy'].const() == (True, False):
                for a in self.nd(a0, st):
                    self.write_nd(a, (), a0, st, node, how='nan_to_num(copy=False)')
                return a0
            dt = 'b' if n in BOOLF else ('f' if n in ('angle', 'abs', 'absolute', 'real') else None)
            ops = list(args[:k])
            vals = ops + ([kwargs['where']] if 'where' in kwargs else [])
            if not any(self.nd(v, st) or any(a[0] == 'o' for a in v.atoms) for v in vals) and out is None:
                if n in ('abs', 'absolute', 'fabs'):
                    return self.b_abs(ops, {}, st, node)
                if n in UFUNC2 and n not in BOOLF:
                    m = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div'}.get(n)
                    if m:
                        return self.binop(m, ops[0], ops[1], st, node)
                    if n in ('maximum', 'minimum'):
                        return self._minmax(ops, {}, st, node, n[:3])
                lab = combine_rows(op_roles(n, [v.labels for v in vals], [v.const() for v in vals]))
                if n in BOOLF:
                    return V(BOOL.atoms, lab)
                lo = 0 if n in ('sqrt', 'exp', 'square', 'exp2') else -INF
                return V((('n', 'real', lo, INF, None), NAN_ATOM), lab)
            if 'where' in kwargs and out is not None:
                vals = vals + [out]
            return self.elementwise(vals, st, node, name=n, dt=dt, out=out)
        if n in REDUCE:
            ax = kwargs.get('axis')
            if ax is None:
                pos = {'percentile': 2, 'quantile': 2, 'nanpercentile': 2, 'nanquantile': 2}.get(n, 1)
                ax = args[pos] if len(args) > pos else None
            if n in ('average',) and 'weights' in kwargs:
                a0 = self.elementwise([a0, kwargs['weights']], st, node, name='Mult', suffix='w')
            if n in ('argmax', 'argmin', 'nanargmax', 'nanargmin'):
                return self.reduce(a0, ax, self.kd(kwargs, st), st, node, name=n, dt='i')
            if out is None and len(args) > 3 and n in ('sum', 'mean', 'std', 'var', 'prod'):
                out = args[3] if args[3].single() != NONE_ATOM else None
            r = self.reduce(a0, ax, self.kd(kwargs, st), st, node, out=out, name=n,
                            dt='f' if n in ('mean', 'std', 'var', 'median', 'nanmean', 'nanstd', 'average', 'percentile', 'quantile') else None)
            ex = EMPTY
            for k, v in list(kwargs.items()):
                if k not in ('axis', 'keepdims', 'out', 'weights'):
                    ex = ex | v.labels
            if kwargs.get('overwrite_input') is not None and kwargs['overwrite_input'].const() == (True, True):
                for a in self.nd(a0, st):
                    self.write_nd(a, (), a0, st, node, how='overwrite_input')
            return r.with_labels(ex)
        if n in CUM:
            return self.scan(a0, _pick(args, kwargs, 2 if n == 'diff' else 1, 'axis', None), st, node, keep=n.startswith('cum') or n.startswith('nan'))
        # ---- constructors
        if n in ('zeros', 'ones', 'empty', 'full', 'matlib.zeros', 'ndarray'):
            shp = _pick(args, kwargs, 0, 'shape')
            lab = EMPTY
            if n == 'full':
                fv = _pick(args, kwargs, 1, 'fill_value', NONE)
                lab = self.content(fv, st)
                lab = map_rows(lab, _r_unk)
            if n == 'empty':
                pass
            dt = 'f'
            dv = kwargs.get('dtype') or (args[1] if n != 'full' and len(args) > 1 else None)
            if dv is not None:
                dt = self.dt_of(dv)
            r = I.new_nd(st, node, self.dims_from(shp, st), lab, dt)
            return r
        if n in ('eye', 'identity'):
            r = self.lin_of(_pick(args, kwargs, 0, 'N', NONE))
            m = _pick(args, kwargs, 1, 'M')
            c = r if m is None or m.single() == NONE_ATOM or n == 'identity' else self.lin_of(m)
            return I.new_nd(st, node, (r, c), EMPTY)
        if n in ('arange', 'linspace', 'logspace'):
            lab = frozenset().union(*[v.labels for v in args]) if args else EMPTY
            lab = frozenset(x for x in lab if not (isinstance(x, str) and x.startswith('#')))
            dims = (None,)
            seq = None
            if n == 'arange' and len(args) == 1 and not kwargs.get('step'):
                dims, seq = (self.lin_of(args[0]),), lin_const(0)
            elif n == 'arange' and len(args) == 2:
                l0, l1 = self.lin_of(args[0]), self.lin_of(args[1])
                if l0 is not None and l1 is not None:
                    dims, seq = (lin_add(l1, l0, -1),), l0
            elif n == 'linspace':
                dims = (self.lin_of(_pick(args, kwargs, 2, 'num', const(50))),)
            allint = n == 'arange' and all(num_range(a) and num_range(a)[0] == 'int' for v in args for a in v.atoms)
            r = I.new_nd(st, node, dims, lab, 'i' if allint else 'f')
            if seq is not None and allint:
                oid = r.single()[1]
                st.heap[oid] = st.heap[oid].seta(seq=seq)
            return r
        if n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
            d, l, t = self.shape_of(a0, st)
            lab = EMPTY
            if n == 'full_like':
                lab = map_rows(self.content(args[1], st), _r_unk)
            dv = kwargs.get('dtype')
            return I.new_nd(st, node, d, lab, self.dt_of(dv) if dv is not None else t)
        if n in ('array', 'copy', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray', 'atleast_1d', 'atleast_2d',
                 'require', 'asmatrix', 'matrix', 'asarray_chkfinite', 'asfortranarray', 'squeeze', 'ravel'):
            dv = kwargs.get('dtype') or (args[1] if n in ('array', 'asarray') and len(args) > 1 else None)
            dt = self.dt_of(dv) if dv is not None else None
            cp = kwargs.get('copy')
            view = n not in ('array', 'copy', 'matrix') or (cp is not None and cp.const()[0] and not cp.const()[1])
            if n == 'array' and not (cp is not None and cp.const() == (True, False)):
                view = False
            if n in ('squeeze', 'ravel'):
                return self.call_method(n, None, args, kwargs, st, node, target=a0)
            if view:
                if n == 'atleast_2d':
                    return self.view_of(a0, ('u',), lambda d: d if d is not None and len(d) >= 2 else (
                        (lin_const(1),) + d if d is not None and len(d) == 1 else None), st, node) if not self.rank2(a0, st) else a0
                if n == 'atleast_1d':
                    return a0 if self.nd(a0, st) else self.fresh(a0, st, node)
                nds = self.nd(a0, st)
                if nds and len(nds) == len(a0.atoms):
                    return a0
                rest = V([a for a in a0.atoms if a not in nds], a0.labels)
                if any(a[0] == 'u' for a in rest.atoms):
                    return join(V(nds, a0.labels), unknown('arr', rest.labels)) if nds else unknown('arr', rest.labels)
                f = self.fresh(rest, st, node, dt=dt)
                return join(V(nds, a0.labels), f) if nds else f
            return self.fresh(a0, st, node, dt=dt, extra=EMPTY)
        # ---- joining
        if n in ('concatenate', 'vstack', 'hstack', 'stack', 'append', 'column_stack', 'row_stack', 'block', 'r_', 'c_', 'dstack'):
            r = self.joining(n, args, kwargs, st, node)
            return self.write_out(out, r, st, node)
        if n in ('dot', 'matmul', 'inner', 'vdot', 'linalg.multi_dot', 'einsum', 'tensordot', 'kron', 'cross', 'cov', 'corrcoef'):
            if n in ('dot', 'matmul'):
                r = self.matmul(args[0], args[1], st, node)
                return self.write_out(out if out is not None else (args[2] if len(args) > 2 else None), r, st, node)
            if n == 'linalg.multi_dot':
                it = self.iterate(a0, st, node)
                if it.exact:
                    r = it.exact[0]
                    for i, e in enumerate(it.exact[1:]):
                        r = self.matmul(r, e, st, node, 'md%d' % i)
                    return r
            lab = frozenset().union(*[map_rows(self.shape_of(v, st)[1], lambda s: '?' if isinstance(s, int) else s) for v in args
                                      if not (v.single() and v.single()[0] == 'k')]) if args else EMPTY
            if n == 'vdot':
                return self.data_elem('f', map_rows(lab, lambda s: '*' if s == '?' else s))
            return I.new_nd(st, node, None, lab)
        if n == 'outer':
            return self.outer(args, st, node)
        if n in ('where', 'clip', 'select', 'fmin', 'interp', 'piecewise', 'round', 'minimum', 'maximum'):
            if n == 'where' and len(args) == 1:
                return I.new_tuple(st, node, [I.new_nd(st, node, (None,), map_rows(self.shape_of(a0, st)[1], lambda s: '*' if isinstance(s, int) else s), 'i', 'w')])
            vals = [v for v in args if v.single() != NONE_ATOM] + [v for k, v in kwargs.items() if k in ('min', 'max', 'a_min', 'a_max') and v.single() != NONE_ATOM]
            if n == 'clip' and len(args) > 3:
                out = args[3]
                vals = [v for v in vals if v is not args[3]]
            return self.elementwise(vals, st, node, name=n, out=out)
        # ---- ordering / permutation
        if n in ('sort', 'argsort', 'partition', 'argpartition', 'unique', 'flip', 'fliplr', 'flipud', 'roll', 'rot90', 'tile',
                 'repeat', 'take', 'delete', 'insert', 'searchsorted', 'digitize', 'nonzero', 'flatnonzero', 'argwhere',
                 'histogram', 'bincount', 'lexsort', 'setdiff1d', 'union1d', 'intersect1d', 'in1d', 'isin', 'trim_zeros', 'pad', 'compress', 'extract'):
            return self.ordering(n, args, kwargs, st, node)
        # ---- shape views
        if n in ('transpose', 'reshape', 'swapaxes', 'expand_dims', 'moveaxis', 'real', 'imag', 'diagonal', 'broadcast_to',
                 'rollaxis'):
            return self.call_method(n, None, args, kwargs, st, node, target=a0)
        if n in ('diag', 'trace', 'triu', 'tril', 'diagflat'):
            d, l, t = self.shape_of(a0, st)
            if n == 'trace':
                return self.data_elem(t, map_rows(l, _r_any))
            if n == 'diag' and d is not None and len(d) == 2:
                return self.view_of(a0, ('u',), lambda x: (x[0] if x is not None else None,), st, node)
            if n == 'diag' and d is not None and len(d) == 1:
                return I.new_nd(st, node, (d[0], d[0]), l, t)
            return I.new_nd(st, node, d if n in ('triu', 'tril') else None, l if n in ('triu', 'tril') else map_rows(l, _r_unk), t)
        if n == 'fill_diagonal':
            for a in self.nd(a0, st):
                self.write_nd(a, (('u',),), args[1], st, node, how='fill_diagonal')
            return NONE
        if n in ('copyto', 'put', 'place', 'putmask', 'put_along_axis'):
            for a in self.nd(a0, st):
                self.write_nd(a, () if n == 'copyto' and len(args) == 2 and not kwargs else (('u',),), args[-1], st, node, how=n, strong=False)
            return NONE
        # ---- linear algebra
        if n.startswith('linalg.') or n.startswith('matlib.linalg.'):
            return self.blur(self.linalg(n.rsplit('.', 1)[1], args, kwargs, st, node), st)
        if n.startswith('fft.'):
            f = n[4:]
            d, l, t = self.shape_of(a0, st)
            if f in ('fft', 'ifft', 'rfft', 'irfft', 'hfft', 'ihfft'):
                c, ax = self.axis_of(_pick(args, kwargs, 2, 'axis'), -1)
                if d is None or not c or not isinstance(ax, int):
                    return I.new_nd(st, node, d, map_rows(l, _r_unk), 'c')
                ax %= max(1, len(d))
                nn = _pick(args, kwargs, 1, 'n')
                dims = list(d)
                if nn is not None and nn.single() != NONE_ATOM:
                    dims[ax] = self.lin_of(nn)
                elif f in ('rfft', 'irfft'):
                    dims[ax] = None
                return I.new_nd(st, node, tuple(dims), map_rows(l, lambda s: '*' if s == ax else s), 'f' if f == 'irfft' else 'c')
            if f in ('fftshift', 'ifftshift'):
                axv = _pick(args, kwargs, 1, 'axes')
                if axv is None or axv.single() == NONE_ATOM:
                    axes = None
                else:
                    c, ax = axv.const()
                    if c and isinstance(ax, int):
                        axes = {ax % len(d)} if d else set()
                    else:
                        it = self.iterate(axv, st, node) if axv.single() and axv.single()[0] == 'o' else None
                        axes = {x.const()[1] % len(d) for x in it.exact} if it is not None and it.exact is not None and d and all(
                            x.const()[0] for x in it.exact) else 'u'
                return I.new_nd(st, node, d, map_rows(l, lambda s: ('?' if axes == 'u' else '*' if axes is None or s in axes else s)
                                                      if isinstance(s, int) else s), t)
            if f.endswith('freq'):
                return I.new_nd(st, node, (self.lin_of(a0),), EMPTY)
            return I.new_nd(st, node, None, map_rows(l, _r_unk), 'c')
        # ---- random
        if n.startswith('random.') or n in ('matlib.rand', 'matlib.randn', 'rand', 'randn'):
            f = n.rsplit('.', 1)[-1]
            if f in ('RandomState', 'default_rng', 'Generator', 'SeedSequence', 'PCG64', 'MT19937'):
                seed = _pick(args, kwargs, 0, 'seed')
                lab = self.args_labels(args, kwargs, st)
                unseeded = seed is None or NONE_ATOM in seed.atoms
                if unseeded:
                    lab = lab | {NONDET}
                    I.emit('nondet', st, node, name='numpy.' + n, write=False)
                return I.alloc(st, node, HObj('ext', 'numpy.random.RandomState', {}, {'lab': lab}))
            if f == 'seed' or f == 'set_state':
                I.emit('nondet', st, node, name='numpy.' + n, write=True)
                return NONE
            I.emit('nondet', st, node, name='numpy.' + n, write=False)
            if f == 'shuffle':
                for a in self.nd(a0, st):
                    self.write_nd(a, (('u',),), V(REAL.atoms, frozenset((NONDET,))), st, node, how='random.shuffle')
                return NONE
            lab = self.args_labels(args, kwargs, st) | {NONDET}
            return self.rand_result(f, args, kwargs, lab, st, node)
        if n in ('finfo', 'iinfo'):
            return I.alloc(st, node, HObj('ext', 'numpy.finfo', {}, {}))
        if 'numpy.' + n in REALT:
            return self.to_float(args, st, node, 'real')
        if 'numpy.' + n in INTT:
            if args and self.nd(a0, st):
                return self.fresh(a0, st, node, dt='i')
            return self.b_int(args, kwargs, st, node)
        if n in ('bool_', 'bool'):
            return self.b_bool(args, kwargs, st, node)
        if n in ('complex128', 'complex64', 'complex_'):
            return num('complex', -INF, INF, None, self.args_labels(args, kwargs, st))
        if n.startswith('format_float') or n in ('array2string', 'array_str', 'array_repr', 'base_repr', 'binary_repr'):
            return V((STR_ATOM,), self.args_labels(args, kwargs, st))
        if n == 'isscalar':
            t = f = False
            for a in a0.atoms:
                if a[0] in ('k', 'n', 'nan', 's') and a != NONE_ATOM:
                    t = True
                elif a[0] == 'u':
                    t = f = True
                else:
                    f = True
            return self.boolv(t, f)
        if n in ('shape', 'ndim', 'size'):
            if self.nd(a0, st) and len(self.nd(a0, st)) == len(a0.atoms):
                return I.getattr(a0, n, st, node)
            d = self.shape_of(a0, st)[0]
            if n == 'ndim':
                return const(len(d)) if d is not None else num('int', 0)
            if n == 'shape':
                return I.new_tuple(st, node, [self.dim_v(x) for x in d]) if d is not None else unknown('shape')
            return num('int', 0)
        if n in ('array_equal', 'allclose', 'may_share_memory', 'shares_memory', 'iscomplexobj', 'isrealobj', 'array_equiv', 'can_cast'):
            return V(BOOL.atoms, map_rows(self.args_labels(args, kwargs, st), lambda s: '*' if s == '?' else s))
        if n in ('iscomplex', 'isreal'):
            return self.elementwise([a0], st, node, name=n, dt='b')
        if n in ('apply_along_axis',):
            arr = args[2]
            d, l, t = self.shape_of(arr, st)
            c, ax = args[1].const()
            if d is not None and len(d) == 2 and c and ax in (0, 1, -1):
                ax %= 2
                sub = map_rows(l, lambda s: (0 if s == ax else ('i', lin_sym('%apply'))) if isinstance(s, int) else s)
                x = I.new_nd(st, node, (d[ax],), sub, t, 'ap')
                r = I.call_value(args[0], [x] + list(args[3:]), {k: v for k, v in kwargs.items()}, st, node)
                return I.new_nd(st, node, None, map_rows(self.content(r, st), lambda s: '?' if isinstance(s, int) else s), t, 'apr')
            return I.new_nd(st, node, None, map_rows(l, _r_unk))
        if n in ('vectorize', 'frompyfunc'):
            v = I.alloc(st, node, HObj('ext', 'numpy.vectorize', {'fn': args[0]}, {}))
            return v
        if n in ('errstate', 'seterr', 'set_printoptions', 'printoptions', 'seterrcall'):
            if n in ('seterr', 'set_printoptions', 'seterrcall'):
                I.emit('globalset', st, node, name='numpy.' + n)
            return I.alloc(st, node, HObj('ext', 'numpy.' + n, {}, {}))
        if n in ('loadtxt', 'genfromtxt', 'load', 'fromstring', 'frombuffer', 'fromfile'):
            return I.new_nd(st, node, None, self.args_labels(args, kwargs, st))
        if n in ('savetxt', 'save'):
            return NONE
        if n in ('meshgrid', 'ix_', 'indices', 'ogrid', 'mgrid', 'broadcast_arrays'):
            lab = map_rows(self.args_labels(args, kwargs, st), _r_unk)
            return I.new_list(st, node, elem=I.new_nd(st, node, None, lab, suffix='e'), length=num('int', 0))
        if n in ('split', 'array_split', 'vsplit', 'hsplit'):
            e = self.view_of(a0, ('u',), lambda d: None, st, node, 'sp')
            return I.new_list(st, node, elem=e, length=num('int', 0))
        if n in ('nditer', 'ndenumerate', 'ndindex'):
            return unknown(n, self.args_labels(args, kwargs, st))
        return None

    def rank2(self, v, st):
        ds = [st.heap[a[1]].aux.get('dims') for a in self.nd(v, st)]
        return bool(ds) and len(ds) == len(v.atoms) and all(d is not None and len(d) >= 2 for d in ds)

    def kd(self, kwargs, st):
        k = kwargs.get('keepdims')
        return k is not None and k.const() == (True, True)

    def dt_of(self, v):
        a = v.single()
        if a is not None and a[0] == 'x':
            n = a[1].rsplit('.', 1)[-1]
            if n.startswith(('int', 'uint')):
                return 'i'
            if n.startswith('bool'):
                return 'b'
            if n.startswith('complex'):
                return 'c'
            if n.startswith(('float', 'double')):
                return 'f'
        if a is not None and a[0] == 'k' and isinstance(a[2], str):
            return {'i': 'i', 'f': 'f', 'b': 'b', 'c': 'c', 'd': 'f'}.get(a[2][:1], '?')
        return '?'

    def scan(self, v, axis, st, node, keep=False):
        d, l, t = self.shape_of(v, st)
        c, ax = self.axis_of(axis, None)
        if d is not None and len(d) == 1:
            c, ax = True, 0
        if c and isinstance(ax, int) and d is not None and -len(d) <= ax < len(d):
            ax %= len(d)
            dims = d if keep else tuple(None if i == ax else x for i, x in enumerate(d))
            return self.I.new_nd(st, node, dims, map_rows(l, lambda s: '*' if s == ax else s), t)
        return self.I.new_nd(st, node, None, map_rows(l, lambda s: '?' if isinstance(s, int) else s), t)

    def outer(self, args, st, node):
        (d1, l1, _), (d2, l2, _) = self.shape_of(args[0], st), self.shape_of(args[1], st)
        if d1 is not None and d2 is not None and len(d1) == 1 and len(d2) == 1:
            return self.I.new_nd(st, node, (d1[0], d2[0]), combine_rows([l1, map_rows(l2, lambda s: 1 if s == 0 else s)]))
        return self.I.new_nd(st, node, None, map_rows(l1, _r_unk) | map_rows(l2, _r_unk))

    def rand_result(self, f, args, kwargs, lab, st, node):
        size = kwargs.get('size')
        if f in ('rand', 'randn'):
            if not args:
                return num('float', -INF, INF, None, lab)
            return self.I.new_nd(st, node, tuple(self.lin_of(a) for a in args), lab)
        pos = {'normal': 2, 'uniform': 2, 'random': 0, 'random_sample': 0, 'standard_normal': 0, 'randint': 2, 'integers': 2,
               'permutation': None, 'choice': 1}.get(f, 2)
        if size is None and pos is not None and len(args) > pos:
            size = args[pos]
        if f in ('permutation', 'choice'):
            return self.I.new_nd(st, node, None, lab, 'i')
        if size is None or size.single() == NONE_ATOM:
            return num('int' if f in ('randint', 'integers') else 'float', -INF, INF, None, lab)
        return self.I.new_nd(st, node, self.dims_from(size, st), lab, 'i' if f in ('randint', 'integers') else 'f')

    def joining(self, n, args, kwargs, st, node):
        I = self.I
        if n == 'append':
            parts, axv = [args[0], args[1]], _pick(args, kwargs, 2, 'axis')
            if axv is None or axv.single() == NONE_ATOM:
                infos = [self.shape_of(p, st) for p in parts]
                lab = frozenset().union(*[map_rows(i[1], _r_unk) for i in infos])
                return I.new_nd(st, node, (None,), lab)
        else:
            it = self.iterate(args[0], st, node)
            axv = _pick(args, kwargs, 1, 'axis')
            if it.exact is not None:
                parts = it.exact
            else:
                e = it.mk(st, None)
                # element labels in terms of the position in the sequence
                src = args[0].single()
                raw = e
                if src is not None and src[0] == 'o' and st.heap[src[1]].kind in ('list', 'tuple'):
                    raw = self.seq_elem(st.heap[src[1]])
                d, l, t = self.shape_of(raw, st)
                if not raw.atoms:
                    return I.new_nd(st, node, None, EMPTY)
                nlen = self.lin_of(it.length) if it.length is not None else None
                ax = {'vstack': 0, 'row_stack': 0, 'hstack': 1, 'column_stack': 1}.get(n)
                if ax is None:
                    c, ax = self.axis_of(axv, 0)
                    if not c:
                        ax = None
                if n == 'stack' and isinstance(ax, int) and d is not None:
                    ax %= len(d) + 1
                    dims = d[:ax] + (nlen,) + d[ax:]
                    return I.new_nd(st, node, dims, map_rows(l, lambda s: ax if s == 'l' else (
                        (s + 1 if s >= ax else s) if isinstance(s, int) else s)), t)
                if n in ('vstack', 'row_stack') and d is not None and len(d) == 1:
                    return I.new_nd(st, node, (nlen, d[0]), map_rows(l, lambda s: 0 if s == 'l' else (s + 1 if isinstance(s, int) else s)), t)
                if n == 'column_stack' and d is not None and len(d) == 1:
                    return I.new_nd(st, node, (d[0], nlen), map_rows(l, lambda s: 1 if s == 'l' else s), t)
                if isinstance(ax, int) and d is not None and len(d) > ax and len(d) >= 1:
                    if len(d) == 1:
                        ax = 0
                    ax %= len(d)
                    one = d[ax] == lin_const(1)
                    dims = tuple((nlen if one else None) if i == ax else x for i, x in enumerate(d))
                    return I.new_nd(st, node, dims, map_rows(l, lambda s: (ax if one else '?') if s == 'l' else ('?' if s == ax else s)), t)
                return I.new_nd(st, node, None, map_rows(l, _r_unk), t)
        infos = [self.shape_of(p, st) for p in parts]
        ts = {i[2] for i in infos}
        t = ts.pop() if len(ts) == 1 else ('c' if 'c' in ts else 'f' if ts <= {'f', 'i', 'b'} else '?')
        ranks = {len(i[0]) if i[0] is not None else None for i in infos}
        if len(ranks) != 1 or None in ranks:
            lab = frozenset().union(*[map_rows(i[1], _r_unk) for i in infos]) if infos else EMPTY
            return I.new_nd(st, node, None, lab, t)
        R = ranks.pop()
        ax = {'vstack': 0, 'row_stack': 0, 'hstack': 1 if R > 1 else 0, 'column_stack': 1}.get(n)
        if ax is None:
            c, ax = self.axis_of(axv, 0)
            if not (c and isinstance(ax, int)):
                return I.new_nd(st, node, None, frozenset().union(*[map_rows(i[1], _r_unk) for i in infos]), t)
        newaxis = n == 'stack' or (n == 'vstack' and R == 1) or (n == 'column_stack' and R == 1)
        if newaxis:
            ax %= R + 1
            dims = list(infos[0][0])
            for i in infos[1:]:
                dims = [p if p == q else (p if q is None else q if p is None else p) for p, q in zip(dims, i[0])]
            dims = tuple(dims[:ax]) + (lin_const(len(parts)),) + tuple(dims[ax:])
            lab = frozenset().union(*[map_rows(i[1], lambda s: (s + 1 if s >= ax else s) if isinstance(s, int) else ('?' if s == 'l' or type(s) is tuple else s)) for i in infos])
            return I.new_nd(st, node, dims, lab, t)
        if R == 0:
            return I.new_nd(st, node, None, frozenset().union(*[i[1] for i in infos]), t)
        ax %= R
        dims = []
        for k in range(R):
            col = [i[0][k] for i in infos]
            if k == ax:
                tot = lin_const(0)
                for c in col:
                    tot = lin_add(tot, c)
                dims.append(tot)
            else:
                known = [c for c in col if c is not None]
                if len(known) < len(col):
                    self.doubt(*[i[1] for i in infos])
                if any(self.unequal(known[0], c) for c in known[1:]):
                    I.raise_dead('ValueError', st, node)
                dims.append(known[0] if known and all(c == known[0] for c in known) else None)
        first = True
        labs = []
        for i in infos:
            labs.append(map_rows(i[1], lambda s: ('?' if s == ax and not (first and len(infos) == 1) else s)))
            first = False
        return I.new_nd(st, node, tuple(dims), frozenset().union(*labs), t)

    def ordering(self, n, args, kwargs, st, node):
        I = self.I
        a0 = args[0]
        d, l, t = self.shape_of(a0, st)
        if n in ('fliplr', 'flipud', 'flip'):
            ax = {'fliplr': 1, 'flipud': 0}.get(n)
            if n == 'flip':
                c, ax = self.axis_of(_pick(args, kwargs, 1, 'axis'), None)
                if not c:
                    return self.view_of(a0, ('u',), lambda x: x, st, node)
            if ax is None:
                return self.view_of(a0, ('flip', None), lambda x: x, st, node)
            if isinstance(ax, int):
                R = len(d) if d is not None else 2
                return self.view_of(a0, ('flip', (ax % R,)), lambda x: x, st, node)
            return self.view_of(a0, ('u',), lambda x: x, st, node)
        if n in ('sort', 'argsort', 'partition', 'argpartition', 'roll'):
            pos = {'roll': 2, 'partition': 2, 'argpartition': 2}.get(n, 1)
            c, ax = self.axis_of(_pick(args, kwargs, pos, 'axis'), None if n == 'roll' else -1)
            ex = args[1].labels if n == 'roll' and len(args) > 1 else EMPTY
            dt = 'i' if n.startswith('arg') else t
            if c and ax is None:
                return I.new_nd(st, node, d if n == 'roll' else (None,), map_rows(l, _r_any) | ex, dt)
            if c and isinstance(ax, int) and d is not None and d:
                ax %= len(d)
                return I.new_nd(st, node, d, map_rows(l, lambda s: '*' if s == ax else s) | ex, dt)
            return I.new_nd(st, node, d, map_rows(l, _r_unk) | ex, dt)
        lab = map_rows(l, _r_unk)
        for v in list(args[1:]) + list(kwargs.values()):
            lab = lab | map_rows(self.content(v, st), _r_unk)
        if n == 'take':
            axv = _pick(args, kwargs, 2, 'axis')
            if axv is not None and axv.const()[0] and isinstance(axv.const()[1], int) and d is not None:
                ax = axv.const()[1] % len(d)
                full = [('s', None, None, None)] * ax + [('v', args[1])]
                return self.getitem(a0, ('tuple', full), st, node)
        if n == 'unique' and any(k.startswith('return') for k in kwargs):
            return I.new_list(st, node, elem=I.new_nd(st, node, (None,), lab, 'i', 'u'), length=num('int', 2, 4), kind='tuple')
        if n in ('nonzero',):
            return I.new_list(st, node, elem=I.new_nd(st, node, (None,), lab, 'i', 'u'), length=num('int', 1), kind='tuple')
        if n in ('digitize', 'isin', 'in1d', 'searchsorted'):
            src = args[1] if n == 'searchsorted' else a0
            dd, ll, _ = self.shape_of(src, st)
            oth = args[0] if n == 'searchsorted' else args[1]
            if dd == ():
                return num('int', 0, INF, None, ll | map_rows(self.content(oth, st), _r_any))
            return I.new_nd(st, node, dd, ll | map_rows(self.content(oth, st), _r_any), 'i' if n in ('digitize', 'searchsorted') else 'b')
        if n in ('delete', 'insert'):
            c, ax = self.axis_of(kwargs.get('axis', args[2] if n == 'delete' and len(args) > 2 else (args[3] if len(args) > 3 else None)), None)
            if c and isinstance(ax, int) and d is not None:
                ax %= len(d)
                return I.new_nd(st, node, tuple(None if i == ax else x for i, x in enumerate(d)),
                                map_rows(l, lambda s: '?' if s == ax else s), t)
        if n == 'histogram':
            return unknown(n, lab)
        if n in ('tile', 'repeat', 'rot90', 'pad'):
            return I.new_nd(st, node, None, lab, t)
        return I.new_nd(st, node, (None,) if n not in ('take', 'compress') else None, lab, 'i' if n not in ('unique', 'take', 'trim_zeros', 'compress', 'extract') else t)

    def blur(self, v, st):
        """forget the roles of tracked labels in a fresh result"""
        v = V(v.atoms, map_roles(v.labels, lambda r: '??'))
        for a in v.atoms:
            o = st.heap.get(a[1]) if a[0] == 'o' else None
            if o is None:
                continue
            if o.kind == 'nd':
                l = o.aux.get('lab') or EMPTY
                l2 = map_roles(l, lambda r: '??')
                if l2 is not l:
                    st.heap[a[1]] = o.seta(lab=l2)
            elif o.kind == 'tuple':
                for x in o.aux.get('items', ()):
                    self.blur(x, st)
        return v

    def linalg(self, f, args, kwargs, st, node):
        I = self.I
        a0 = args[0]
        d, l, t = self.shape_of(a0, st)
        star = map_rows(l, _r_any)
        rows = d[0] if d is not None and len(d) == 2 else None
        cols = d[1] if d is not None and len(d) == 2 else None
        if f == 'norm':
            axv = _pick(args, kwargs, 2, 'axis')
            keep = self.kd(kwargs, st)
            r = self.reduce(a0, axv if axv is not None else NONE, keep, st, node, dt='f', name='norm')
            o = _pick(args, kwargs, 1, 'ord')
            return r.with_labels(o.labels) if o is not None else r
        if f == 'svd':
            cu = _pick(args, kwargs, 2, 'compute_uv')
            fm = _pick(args, kwargs, 1, 'full_matrices')
            if cu is not None and cu.const() == (True, False):
                return I.new_nd(st, node, (None,), star)
            full = fm is None or fm.const() == (True, True)
            k = None
            if rows is not None and cols is not None:
                dif = lin_add(rows, cols, -1)
                if not dif[1]:
                    k = cols if dif[0] >= 0 else rows
            return I.new_tuple(st, node, [I.new_nd(st, node, (rows, rows if full else k), star, 'f', 'U'),
                                          I.new_nd(st, node, (k,), star, 'f', 'S'),
                                          I.new_nd(st, node, (cols if full else k, cols), star, 'f', 'V')])
        if f in ('eig', 'eigh', 'eigvals', 'eigvalsh', 'inv', 'det', 'slogdet', 'cholesky', 'matrix_power', 'solve') and \
                self.unequal(rows, cols):
            I.raise_dead('numpy.linalg.LinAlgError', st, node)
        if f in ('eig', 'eigh'):
            dt = 'c' if f == 'eig' else 'f'
            return I.new_tuple(st, node, [I.new_nd(st, node, (rows,), star, dt, 'w'), I.new_nd(st, node, (rows, cols), star, dt, 'v')])
        if f in ('eigvals', 'eigvalsh'):
            return I.new_nd(st, node, (rows,), star, 'c')
        if f in ('inv', 'pinv', 'cholesky', 'matrix_power', 'sqrtm'):
            return I.new_nd(st, node, (cols, rows), star)
        if f in ('solve', 'lstsq'):
            d2, l2, _ = self.shape_of(args[1], st)
            lab = star | map_rows(l2, lambda s: '*' if s == 0 else s)
            if f == 'solve':
                return I.new_nd(st, node, d2, lab)
            x = I.new_nd(st, node, ((cols,) + d2[1:]) if d2 is not None else None, lab, 'f', 'x')
            return I.new_tuple(st, node, [x, I.new_nd(st, node, (None,), lab, 'f', 'r'), num('int', 0, INF, None, star),
                                          I.new_nd(st, node, (None,), star, 'f', 's')])
        if f == 'qr':
            return I.new_tuple(st, node, [I.new_nd(st, node, (rows, None), star, 'f', 'q'), I.new_nd(st, node, (None, cols), star, 'f', 'r')])
        if f in ('det', 'cond', 'slogdet'):
            return self.data_elem('f', star)
        if f == 'matrix_rank':
            return num('int', 0, INF, None, star)
        return unknown('linalg.' + f, star)

    # ------------------------------------------------------------------ methods
    def call_method(self, name, sa, args, kwargs, st, node, target=None):
        I = self.I
        if sa is not None and sa[0] == 'c':
            if name == 'type.__call__':
                return I.instantiate(sa[1], args, kwargs, st, node, raw=True)
            if name in ('type.__init__', 'type.__new__', 'object.__init__', 'object.__init_subclass__'):
                return NONE
            if name == 'object.__new__':
                return I.alloc(st, node, HObj('inst', sa[1], {}), ':new')
            return unknown(name)
        if sa is not None and sa[0] == 'x':
            return self.call(sa[1] + '.' + name, args, kwargs, st, node)
        if name.startswith('object.'):
            n = name[7:]
            if n == '__setattr__':
                c, k = args[0].const()
                if c and sa[0] == 'o':
                    I.object_setattr(sa, k, args[1], st, node)
                elif sa[0] == 'o':
                    ks = [a for a in args[0].atoms if a[0] == 'k']
                    for a in sorted(ks):
                        s2 = st.copy()
                        try:
                            I.object_setattr(sa, a[2], args[1], s2, node)
                            st.assign(join_states(st, s2))
                        except I.Dead:
                            pass
                    if len(ks) != len(args[0].atoms):
                        I.emit('setattr_unknown', st, node, oid=sa[1])
                return NONE
            if n == '__getattribute__':
                c, k = args[0].const()
                if c and sa[0] == 'o':
                    r = I.getattr_inst(sa, k, st, node)
                    if r is None:
                        I.raise_dead('AttributeError', st, node)
                    return r
                return unknown('attr')
            if n in ('__init__', '__init_subclass__'):
                if n == '__init__' and sa[0] == 'o' and st.heap[sa[1]].kind == 'exc':
                    st.heap[sa[1]] = st.heap[sa[1]].seta(args=tuple(args))
                return NONE
            if n in ('__str__', '__repr__', '__format__'):
                return STR
            if n in ('__eq__', '__ne__'):
                return V(BOOL.atoms)
            if n == '__hash__':
                return num('int', labels=frozenset((NONDET,)))
            if n == '__delattr__':
                return NONE
            if sa[0] == 'o' and st.heap[sa[1]].kind == 'inst':
                I.raise_dead('AttributeError', st, node)
            return unknown(name)
        tv = target if target is not None else V((sa,))
        if target is not None:
            nds = self.nd(target, st)
            if nds and len(nds) == len(target.atoms):
                if len(nds) == 1:
                    return self._wl(self.nd_method(name, nds[0], args[1:], kwargs, st, node, ''), target.labels)
                out = None
                for i, a in enumerate(sorted(nds)):
                    out = join(out, self.nd_method(name, a, args[1:], kwargs, st, node, 'm%d' % i))
                return out.with_labels(target.labels)
            if any(a[0] == 'o' for a in target.atoms):
                f = self.fresh(target, st, node, suffix='tm')
                return self.nd_method(name, f.single(), args[1:], kwargs, st, node, '')
            if name in ('real',):
                return V([a if a[0] != 'n' or a[1] != 'complex' else ('n', 'real', -INF, INF, None) for a in target.atoms], target.labels)
            return unknown(name, self.args_labels(args, kwargs, st))
        if sa[0] == 'o':
            o = st.heap[sa[1]]
            if o.kind == 'nd':
                return self.nd_method(name, sa, args, kwargs, st, node, '')
            if o.kind == 'list':
                return self.list_method(name, sa, o, args, kwargs, st, node)
            if o.kind == 'tuple':
                if name == 'index':
                    return num('int', 0)
                if name == 'count':
                    return num('int', 0)
                return unknown('tuple.' + name)
            if o.kind == 'dict':
                return self.dict_method(name, sa, o, args, kwargs, st, node)
            if o.kind == 'set':
                return self.set_method(name, sa, o, args, kwargs, st, node)
            if o.kind == 'ext':
                return self.ext_method(name, sa, o, args, kwargs, st, node)
            if o.kind == 'descr':
                if name == 'setter':
                    return NONE
                return unknown('descr')
            if o.kind in ('iter', 'opaque'):
                return unknown(name, self.deep_labels(V((sa,)), st))
            return unknown(name, I.deep([V((sa,))] + list(args), kwargs, st))
        if sa[0] in ('s', 'by') or (sa[0] == 'k' and sa[1] in ('str', 'bytes')):
            return self.str_method(name, sa, args, kwargs, st, node)
        if num_range(sa) is not None or sa[0] == 'nan':
            if name in ('item', 'copy', 'conjugate', 'real', '__float__', 'flatten', 'round', 'squeeze', 'astype', 'tolist', '__abs__'):
                return V((sa,))
            if name in ('sum', 'mean', 'max', 'min', 'dot'):
                return V((sa,))
            if name == 'to_bytes':
                I.emit('to_bytes', st, node, value=V((sa,)), args=args, kwargs=kwargs)
                return V((BYTES_ATOM,))
            if name in ('bit_length',):
                lo, hi = num_range(sa)[1:3] if num_range(sa) is not None else (-INF, INF)
                if -INF < lo and hi < INF:
                    a, b = int(lo).bit_length(), int(hi).bit_length()
                    if lo <= 0 <= hi:
                        return num('int', 0, max(a, b))
                    return const(a) if a == b else num('int', min(a, b), max(a, b))
                return num('int', 0)
            if name in ('is_integer', 'any', 'all'):
                return V(BOOL.atoms)
            if name in ('__str__', 'hex'):
                return STR
            return unknown(name)
        return unknown(name, I.deep(list(args), kwargs, st))

    @staticmethod
    def _wl(r, labels):
        return r.with_labels(labels) if isinstance(r, V) else r

    def nd_method(self, n, a, args, kwargs, st, node, sfx):
        from .lib import REDUCE
        I = self.I
        v = V((a,))
        o = st.heap[a[1]]
        d = o.aux.get('dims')
        t = o.aux.get('dt', 'f')
        l = self.nd_labels(a[1], st)
        if n in ('sum', 'mean', 'std', 'var', 'max', 'min', 'prod', 'any', 'all', 'argmax', 'argmin', 'ptp'):
            out = kwargs.get('out')
            return self.reduce(v, _pick(args, kwargs, 0, 'axis'), self.kd(kwargs, st), st, node, name=n, suffix=sfx, out=out)
        if n in ('cumsum', 'cumprod'):
            return self.scan(v, _pick(args, kwargs, 0, 'axis'), st, node, keep=True)
        if n in ('copy', '__copy__', '__deepcopy__', 'flatten', 'astype', 'round', 'clip', 'conj', 'conjugate', 'byteswap'):
            if n == 'clip' or n == 'round':
                return self.elementwise([v] + [x for x in args if n == 'clip' and x.single() != NONE_ATOM], st, node, name=n, suffix=sfx, out=kwargs.get('out'))
            if n == 'astype':
                c = kwargs.get('copy')
                if c is not None and c.const() == (True, False):
                    return join(v, I.new_nd(st, node, d, l, self.dt_of(args[0]) if args else t, sfx))
                return I.new_nd(st, node, d, l, self.dt_of(args[0]) if args else t, sfx)
            if n == 'flatten':
                if d is not None and len(d) == 1:
                    return I.new_nd(st, node, d, l, t, sfx)
                one = lin_const(1)
                if d is not None and len(d) == 2 and (d[0] == one or d[1] == one):
                    k = 0 if d[1] == one else 1
                    return I.new_nd(st, node, (d[k],), map_rows(l, lambda s: (0 if s == k else ('i', lin_const(0))) if isinstance(s, int) else s), t, sfx)
                return I.new_nd(st, node, (None,), map_rows(l, _r_unk), t, sfx)
            r = I.new_nd(st, node, d, l, t, sfx)
            if o.aux.get('seq') is not None:
                oid = r.single()[1]
                st.heap[oid] = st.heap[oid].seta(seq=o.aux['seq'])
            return r
        if n in ('transpose', 'swapaxes', 'moveaxis', 'rollaxis'):
            R = len(d) if d is not None else None
            if n == 'swapaxes' and R == 2 and len(args) == 2 and all(x.const()[0] for x in args) and args[0].const()[1] % 2 != args[1].const()[1] % 2:
                return self.view_of(v, ('T', 2), lambda x: x[::-1], st, node, sfx)
            if n == 'transpose' and (not args or (len(args) == 1 and args[0].single() == NONE_ATOM)) and not kwargs:
                return self.view_of(v, ('T', R) if R is not None else ('u',), lambda x: x[::-1] if x is not None else None, st, node, sfx)
            if n == 'transpose' and R == 2:
                vals = [x.const() for x in args]
                if len(args) == 1:
                    it = self.iterate(args[0], st, node)
                    vals = [x.const() for x in it.exact] if it.exact is not None else []
                if vals == [(True, 1), (True, 0)]:
                    return self.view_of(v, ('T', 2), lambda x: x[::-1], st, node, sfx)
                if vals == [(True, 0), (True, 1)]:
                    return self.view_of(v, (), lambda x: x, st, node, sfx)
            return self.view_of(v, ('u',), lambda x: None, st, node, sfx)
        if n == 'reshape':
            shp = [x for x in args]
            if len(args) == 1 and args[0].single() is not None and args[0].single()[0] == 'o':
                it = self.iterate(args[0], st, node)
                shp = list(it.exact) if it.exact is not None else None
            if not args and 'newshape' in kwargs:
                it = self.iterate(kwargs['newshape'], st, node)
                shp = list(it.exact) if it.exact is not None else None
            if shp is None:
                return self.view_of(v, ('u',), lambda x: None, st, node, sfx)
            lins = [self.lin_of(x) for x in shp]
            one = lin_const(1)
            m1 = [i for i, x in enumerate(lins) if x == lin_const(-1)]
            ops = None
            nd = tuple(None if i in m1 else x for i, x in enumerate(lins))
            if d is not None and len(d) == 1 and len(lins) == 2:
                # vector to a column or a row
                other = [i for i, x in enumerate(lins) if x == one]
                if len(other) == 1:
                    k = 1 - other[0]
                    if lins[k] == d[0] or k in m1 or lins[k] is None:
                        ops = ('new', other[0])
                        nd = tuple(d[0] if i == k else one for i in range(2))
            elif d is not None and len(d) == 2 and len(lins) == 1 and (lins[0] == lin_const(-1) or True):
                if d[1] == one:
                    ops, nd = ('idx', 1, lin_const(0)), (d[0],)
                elif d[0] == one:
                    ops, nd = ('idx', 0, lin_const(0)), (d[1],)
            elif d is not None and len(d) == len(lins):
                nd2 = list(nd)
                for i in m1:
                    others = all(lins[j] == d[j] for j in range(len(d)) if j != i)
                    nd2[i] = d[i] if others else None
                nd = tuple(nd2)
                if nd == d:
                    return self.view_of(v, (), lambda x: x, st, node, sfx)
            if ops is None:
                return self.view_of(v, ('u',), lambda x: nd, st, node, sfx)
            return self.view_of(v, ops, lambda x: nd, st, node, sfx)
        if n in ('ravel', 'squeeze', 'view', 'diagonal', 'expand_dims', 'broadcast_to', '__getitem__'):
            one = lin_const(1)
            if n == 'ravel' and d is not None and len(d) == 1:
                return self.view_of(v, (), lambda x: x, st, node, sfx)
            if n in ('ravel', 'squeeze') and d is not None and len(d) == 2 and (d[0] == one or d[1] == one):
                k = 1 if d[1] == one else 0
                return self.view_of(v, ('idx', k, lin_const(0)), lambda x: (x[1 - k],), st, node, sfx)
            if n == 'squeeze' and d is not None and one not in d and None not in d:
                return self.view_of(v, (), lambda x: x, st, node, sfx)
            if n == 'view' and not args:
                return self.view_of(v, (), lambda x: x, st, node, sfx)
            if n == 'expand_dims':
                c, ax = self.axis_of(_pick(args, kwargs, 0, 'axis'), 0)
                if c and isinstance(ax, int) and d is not None:
                    ax %= len(d) + 1
                    return self.view_of(v, ('new', ax), lambda x: x[:ax] + (one,) + x[ax:], st, node, sfx)
            if n == '__getitem__':
                return self.getitem(v, ('one', [I.entry_of_value(args[0], st)]), st, node)
            return self.view_of(v, ('u',), lambda x: (None,) if n == 'ravel' else None, st, node, sfx)
        if n in ('real', 'imag'):
            return self.view_of(v, (), lambda x: x, st, node, sfx + n, dt='f')
        if n == 'dot':
            r = self.matmul(v, args[0], st, node, sfx)
            return self.write_out(kwargs.get('out'), r, st, node)
        if n == 'fill':
            self.write_nd(a, (), args[0], st, node, how='.fill()')
            return NONE
        if n in ('sort', 'partition'):
            c, ax = self.axis_of(_pick(args, kwargs, 0 if n == 'sort' else 1, 'axis'), -1)
            R = len(d) if d is not None else None
            lab = map_rows(l, (lambda s: '*' if s == ax % R else s) if c and R and isinstance(ax, int) else _r_unk)
            tmp = I.new_nd(st, node, d, lab, t, sfx + 'srt')
            self.write_nd(a, (), tmp, st, node, how='in-place .%s()' % n)
            return NONE
        if n in ('put', 'itemset', '__setitem__', 'resize', 'setfield', 'partition'):
            if n == '__setitem__':
                self.setitem(v, ('one', [I.entry_of_value(args[0], st)]), args[1], st, node)
            else:
                self.write_nd(a, (('u',),), args[-1] if args else NONE, st, node, how='.%s()' % n)
            return NONE
        if n in ('argsort', 'take', 'repeat', 'nonzero', 'searchsorted', 'argpartition', 'compress'):
            return self.ordering(n, [v] + list(args), kwargs, st, node)
        if n == 'trace':
            return self.data_elem(t, map_rows(l, _r_any))
        if n == 'item':
            if len(args) == 2:
                return self.getitem(v, ('tuple', [('v', args[0]), ('v', args[1])]), st, node)
            return self.data_elem(t, map_rows(l, _r_unk))
        if n in ('tolist',):
            if d is not None and len(d) == 1:
                return I.new_list(st, node, elem=self.data_elem(t, map_rows(l, lambda s: 'l' if s == 0 else s)), length=self.dim_v(d[0]))
            if d is not None and len(d) == 2:
                inner = I.new_list(st, node, elem=self.data_elem(t, map_rows(l, lambda s: '?' if isinstance(s, int) else s)), length=self.dim_v(d[1]), suffix='in')
                return I.new_list(st, node, elem=inner, length=self.dim_v(d[0]))
            return unknown('tolist', map_rows(l, _r_unk))
        if n in ('tobytes', 'tostring'):
            return V((BYTES_ATOM,), map_rows(l, _r_unk))
        if n in ('__str__', '__repr__'):
            return V((STR_ATOM,), map_rows(l, _r_unk))
        if n == '__len__':
            return self.b_len([v], {}, st, node)
        m = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__truediv__': 'Div', '__pow__': 'Pow', '__matmul__': 'MatMult'}.get(n)
        if m:
            return self.binop(m, v, args[0], st, node)
        if n in ('__iadd__', '__isub__', '__imul__', '__itruediv__'):
            r = self.elementwise([v, args[0]], st, node, name={'__iadd__': 'Add', '__isub__': 'Sub', '__imul__': 'Mult'}.get(n, 'Div'))
            self.write_nd(a, (), r, st, node, how='in-place operator')
            return v
        return unknown('nd.' + n, I.deep([v] + list(args), kwargs, st))

    def list_method(self, n, a, o, args, kwargs, st, node):
        I = self.I
        oid = a[1]

        def put(**aux):
            base = {k: x for k, x in o.aux.items() if k not in ('items', 'elem', 'length', 'seq')}
            base.update(aux)
            st.heap[oid] = HObj(o.kind, o.cls, o.f, base, o.multi)

        def plus(v, k):
            ln = self.seq_len(o)
            return self.binop('Add', ln, k, st, node)
        if n in ('append', 'insert', 'extend', 'pop', 'remove', 'sort', 'reverse', 'clear', '__setitem__', '__iadd__'):
            I.emit('write', st, node, oid=oid, how='list.%s()' % n, value=args[-1] if args else NONE)
        if n == 'append':
            w = args[0].with_labels(st.pc)
            if 'items' in o.aux and not o.multi and len(o.aux['items']) < 40:
                put(items=o.aux['items'] + (w,))
            else:
                put(elem=join(self.seq_elem(o), I.to_l(w) if hasattr(I, 'to_l') else w), length=self.grow(o, st, node))
            return NONE
        if n == 'insert':
            w = args[1].with_labels(st.pc)
            c, k = args[0].const()
            if 'items' in o.aux and not o.multi and c and isinstance(k, int):
                items = list(o.aux['items'])
                items.insert(k, w)
                put(items=tuple(items))
            else:
                w = V(w.atoms, map_rows(w.labels, lambda s: '?' if s == 'l' or type(s) is tuple else s))
                put(elem=join(V(self.seq_elem(o).atoms, map_rows(self.seq_elem(o).labels, lambda s: '?' if s == 'l' else s)), w), length=self.grow(o, st, node))
            return NONE
        if n in ('extend', '__iadd__'):
            it = self.iterate(args[0], st, node)
            if 'items' in o.aux and it.exact is not None and not o.multi:
                put(items=o.aux['items'] + tuple(x.with_labels(st.pc) for x in it.exact))
            else:
                e = join_all(it.exact) if it.exact is not None else it.mk(st, None)
                put(elem=join(self.seq_elem(o), e.with_labels(st.pc)), length=num('int', 0))
            return NONE
        if n == 'pop':
            if 'items' in o.aux and not o.multi:
                items = list(o.aux['items'])
                c, k = args[0].const() if args else (True, -1)
                if c and isinstance(k, int) and -len(items) <= k < len(items):
                    v = items.pop(k)
                    put(items=tuple(items))
                    return v
                if not items:
                    I.raise_dead('IndexError', st, node)
            e = self.seq_elem(o)
            if not e.atoms:
                I.raise_dead('IndexError', st, node)
            put(elem=e, length=num('int', 0))
            return V(e.atoms, map_rows(e.labels, lambda s: '?' if s == 'l' else s))
        if n in ('remove', 'clear'):
            if n == 'clear':
                put(items=())
            else:
                put(elem=self.seq_elem(o), length=num('int', 0))
            return NONE
        if n in ('sort', 'reverse'):
            if 'key' in kwargs and self.seq_elem(o).atoms:
                I.call_value(kwargs['key'], [self.seq_elem(o)], {}, st, node)
            if n == 'reverse' and 'items' in o.aux:
                put(items=tuple(reversed(o.aux['items'])))
            else:
                e = self.seq_elem(o)
                e = V(e.atoms, map_rows(e.labels, lambda s: '*' if s == 'l' else s))
                if 'items' in o.aux:
                    put(items=tuple([e] * len(o.aux['items'])))
                else:
                    put(elem=e, length=self.seq_len(o))
            return NONE
        if n in ('index', 'count'):
            lab = map_rows(self.deep_labels(V((a,)), st) | args[0].labels, lambda s: '*' if s == 'l' else s)
            return num('int', 0, INF, None, lab)
        if n == 'copy':
            r = I.alloc(st, node, HObj('list', None, {}, dict(o.aux)))
            return r
        if n == '__len__':
            return self.seq_len(o)
        return unknown('list.' + n, I.deep([V((a,))] + list(args), kwargs, st))

    def grow(self, o, st, node):
        ln = self.seq_len(o)
        r = [num_range(x) for x in ln.atoms if num_range(x)]
        lo = min([x[1] for x in r] or [0])
        return num('int', lo, INF)

    def dict_method(self, n, a, o, args, kwargs, st, node):
        r = self.dict_method0(n, a, o, args, kwargs, st, node)
        if 'of' in o.aux and n in ('setdefault', 'update', 'pop', 'clear', 'popitem'):
            self.sync_vars(a, o, st, node)
        return r

    def dict_method0(self, n, a, o, args, kwargs, st, node):
        I = self.I
        if n == 'get':
            return self.dict_get(o, args[0], args[1] if len(args) > 1 else NONE, st, node)
        if n in ('items', 'keys', 'values'):
            return self.mk_iter('dict' + n, [V((a,))], st, node)
        if n == 'copy':
            return I.alloc(st, node, HObj('dict', None, {}, {k: x for k, x in o.aux.items() if k != 'of'}))
        if n in ('setdefault', 'update', 'pop', 'clear', 'popitem'):
            I.emit('write', st, node, oid=a[1], how='dict.%s()' % n, value=args[-1] if args else NONE)
            if n == 'setdefault':
                k = self.dict_key(args[0])
                d = args[1] if len(args) > 1 else NONE
                m = dict(o.aux.get('map') or {})
                if k is not None:
                    cur = m.get(k)
                    if cur is None and o.aux.get('elem') is None:
                        m[k] = d
                    elif cur is not None and UNDEF in cur.atoms or o.aux.get('elem') is not None:
                        m[k] = join(V((cur.atoms - {UNDEF}) if cur is not None else frozenset(), cur.labels if cur is not None else EMPTY), d)
                        if o.aux.get('elem') is not None:
                            m[k] = join(m[k], o.aux['elem'])
                    st.heap[a[1]] = o.seta(map=m)
                    return m[k]
                st.heap[a[1]] = o.seta(elem=join(o.aux.get('elem'), d))
                return st.heap[a[1]].aux['elem']
            if n == 'update':
                m = dict(o.aux.get('map') or {})
                elem = o.aux.get('elem')
                for v in args:
                    b = v.single()
                    if b is not None and b[0] == 'o' and st.heap[b[1]].kind == 'dict':
                        m.update(st.heap[b[1]].aux.get('map') or {})
                        e = st.heap[b[1]].aux.get('elem')
                        elem = join(elem, e) if e is not None else elem
                    else:
                        elem = join(elem, unknown('dict'))
                m.update(kwargs)
                aux = dict(o.aux)
                aux['map'] = m
                if elem is not None:
                    aux['elem'] = elem
                st.heap[a[1]] = HObj('dict', None, o.f, aux, o.multi)
                return NONE
            if n == 'clear':
                st.heap[a[1]] = HObj('dict', None, o.f, {'map': {}}, o.multi)
                return NONE
            if n == 'pop':
                r = self.dict_get(o, args[0], args[1] if len(args) > 1 else None, st, node)
                k = self.dict_key(args[0])
                m = dict(o.aux.get('map') or {})
                if k is not None and k in m:
                    if o.multi:
                        m[k] = V(m[k].atoms | {UNDEF}, m[k].labels)
                    else:
                        del m[k]
                    st.heap[a[1]] = o.seta(map=m)
                return r
            return unknown('dict.' + n)
        return unknown('dict.' + n, I.deep([V((a,))] + list(args), kwargs, st))

    def set_method(self, n, a, o, args, kwargs, st, node):
        I = self.I
        if n in ('add', 'discard', 'remove', 'update', 'clear', 'pop'):
            I.emit('write', st, node, oid=a[1], how='set.%s()' % n, value=args[-1] if args else NONE)
            if n == 'add':
                if 'items' in o.aux and not o.multi:
                    if args[0] not in o.aux['items']:
                        st.heap[a[1]] = o.seta(items=o.aux['items'] + (args[0],))
                else:
                    st.heap[a[1]] = HObj('set', None, o.f, {'elem': join(self.seq_elem(o), args[0]), 'length': num('int', 0)}, o.multi)
            elif n == 'update':
                st.heap[a[1]] = HObj('set', None, o.f, {'elem': join(self.seq_elem(o), self.iter_elem(args[0], st, node)), 'length': num('int', 0)}, o.multi)
            elif n != 'pop':
                st.heap[a[1]] = HObj('set', None, o.f, {'elem': self.seq_elem(o), 'length': num('int', 0)}, o.multi)
            else:
                return self.seq_elem(o)
            return NONE
        if n in ('union', 'intersection', 'difference', 'copy', 'symmetric_difference'):
            e = self.seq_elem(o)
            for x in args:
                e = join(e, self.iter_elem(x, st, node))
            return I.new_list(st, node, elem=e, kind='set')
        if n.startswith('is'):
            return V(BOOL.atoms)
        return unknown('set.' + n)

    def ext_method(self, n, a, o, args, kwargs, st, node):
        I = self.I
        oid = a[1]
        lab = o.aux.get('lab', EMPTY)
        if o.cls in FILE_LIKE:
            if n in ('write', 'writelines'):
                I.emit('streamwrite', st, node, oid=oid, value=args[0], how=n)
                st.heap[oid] = o.seta(lab=lab | self.args_labels(args, kwargs, st))
                return num('int', 0) if n == 'write' else NONE
            if n in ('read', 'getvalue', 'getbuffer', 'readline'):
                I.emit('streamread', st, node, oid=oid, how=n)
                text = o.cls == 'io.StringIO' or (o.cls == 'file' and not self._binary(o))
                return V((STR_ATOM if text else BYTES_ATOM,), lab)
            if n == 'readlines':
                return I.new_list(st, node, elem=V((STR_ATOM,), lab), length=num('int', 0))
            if n in ('close', 'flush'):
                I.emit('streamclose' if n == 'close' else 'streamflush', st, node, oid=oid)
                return NONE
            if n in ('seek', 'tell', 'truncate'):
                I.emit('streamseek', st, node, oid=oid, how=n)
                return num('int', 0)
            if n == '__enter__':
                return V((a,))
            if n == '__exit__':
                I.emit('streamclose', st, node, oid=oid)
                return NONE
            return unknown('file.' + n)
        if o.cls and o.cls.startswith('sklearn.'):
            I.emit('extcallm', st, node, oid=oid, name=n, cls=o.cls, args=args)
            al = self.args_labels(args, kwargs, st)
            if n == 'fit' and args and o.cls.startswith('sklearn.preprocessing.'):
                # statistics of each column on its own
                l = map_rows(self.shape_of(args[0], st)[1], lambda s: 1 if s == 1 else '*')
                st.heap[oid] = o.seta(lab=self._ctor_lab(o) | l, fitted=True)
                return V((a,))
            if n in ('fit', 'partial_fit', 'set_params'):
                st.heap[oid] = o.seta(lab=(lab if n == 'partial_fit' else self._ctor_lab(o)) | map_rows(al, lambda s: '*' if s == '?' else s), fitted=True)
                return V((a,))
            if n in ('fit_transform', 'fit_predict'):
                d, l, t = self.shape_of(args[0], st)
                nl = self._ctor_lab(o) | map_rows(l, _r_any)
                st.heap[oid] = o.seta(lab=nl, fitted=True)
                return I.new_nd(st, node, d, l | nl, 'f')
            if n in ('transform', 'inverse_transform', 'predict'):
                d, l, t = self.shape_of(args[0], st)
                r = I.new_nd(st, node, d, l | lab | (frozenset(['~out@+n']) if I.tag_ext else EMPTY), 'f')
                cp = dict(o.aux.get('params') or ()).get('copy')
                if cp is not None and cp.const()[1] is not True and not (cp.const() == (True, True)):
                    # copy=False: works in place on its argument
                    for x in self.nd(args[0], st):
                        self.write_nd(x, (), r, st, node, how='transform with copy=False')
                    return join(r, args[0])
                return r
            if n == 'get_params':
                return unknown('params', lab)
            return unknown('sk.' + n, lab | al)
        if o.cls == 'numpy.random.RandomState':
            if n == 'shuffle':
                for x in self.nd(args[0], st):
                    self.write_nd(x, (('u',),), V(REAL.atoms, lab), st, node, how='shuffle')
                return NONE
            if n == 'seed':
                st.heap[oid] = o.seta(lab=self.args_labels(args, kwargs, st))
                return NONE
            al = self.args_labels(args, kwargs, st)
            al = frozenset(x for x in al if not (isinstance(x, str) and x.startswith('#')))
            # drawing advances the generator
            I.emit('extwrite', st, node, oid=oid, how=n)
            return self.rand_result(n, args, kwargs, lab | al, st, node)
        if o.cls == 'numpy.vectorize' and n == '__call__':
            return unknown('vec', self.args_labels(args, kwargs, st))
        return unknown('ext.' + n, lab | I.deep(list(args), kwargs, st))

    def _ctor_lab(self, o):
        l = set()
        for k, v in (o.aux.get('params') or ()):
            l |= v.labels
        return frozenset(l)

    @staticmethod
    def _binary(o):
        m = o.f.get('mode')
        c, k = m.const() if m is not None else (False, None)
        return bool(c and isinstance(k, str) and 'b' in k)

    def str_method(self, n, a, args, kwargs, st, node):
        I = self.I
        lab = self.args_labels(args, kwargs, st)
        if a[0] == 'k':
            cs = [x.const() for x in args]
            if all(c[0] for c in cs) and not kwargs and n in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith',
                                                               'endswith', 'find', 'count', 'isdigit', 'title', 'capitalize', 'isupper', 'islower', 'zfill'):
                try:
                    r = getattr(a[2], n)(*[c[1] for c in cs])
                    return const(r, lab)
                except Exception:
                    pass
            if n == 'split' and all(c[0] for c in cs):
                try:
                    return I.new_list(st, node, [const(x) for x in a[2].split(*[c[1] for c in cs])])
                except Exception:
                    pass
        if n in ('join',):
            it = self.iterate(args[0], st, node)
            isb = a[0] == 'by' or a[0] == 'k' and a[1] == 'bytes'
            for e in (it.exact if it.exact is not None else [it.mk(st, None)]):
                lab = lab | e.labels
            return V((BYTES_ATOM if isb else STR_ATOM,), map_rows(lab, _r_unk))
        if n in ('split', 'splitlines', 'rsplit'):
            return I.new_list(st, node, elem=V((STR_ATOM,), lab), length=num('int', 0))
        if n in ('partition', 'rpartition'):
            return I.new_tuple(st, node, [STR, STR, STR])
        if n in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isnumeric', 'isspace', 'isupper', 'islower', '__contains__', 'isidentifier'):
            return V(BOOL.atoms, lab)
        if n in ('find', 'rfind', 'index', 'rindex', 'count', '__len__'):
            return num('int', -1, INF, None, lab)
        if n == 'encode':
            return V((BYTES_ATOM,), lab)
        if n == 'decode':
            return V((STR_ATOM,), lab)
        if n == '__eq__':
            return V(BOOL.atoms, lab)
        return V((BYTES_ATOM if a[0] == 'by' or a[0] == 'k' and a[1] == 'bytes' else STR_ATOM,), lab)
