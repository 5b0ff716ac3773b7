"""The public surface the checks quantify over.

Everything here is specification: which classes and functions users call, what shapes of arguments they
take, which settings exist and which values the documentation allows.  Classes are addressed by their
public import path, so moving an implementation between files does not matter.
"""
import itertools

from engine.values import *
from engine.heap import *
from engine.scen import Driver

T_ = 'wai.ma.transformation'
P_ = 'wai.ma.algorithm.pls'
A_ = 'wai.ma.algorithm'
G_ = 'wai.ma.algorithm.glsw'
I_ = 'wai.ma.algorithm.ica'
K_ = 'wai.ma.transformation.kernel'
F_ = 'wai.ma.filter'
C_ = 'wai.ma.core'


# ----------------------------------------------------------------------------- setting domains
class Dom:
    """ok / bad: regions that must be accepted / rejected; sym: region used in lifecycle scenarios"""

    def __init__(self, ok, bad=(), structural=False, sym=None, state=True):
        self.ok = list(ok)
        self.bad = list(bad)
        self.structural = structural
        self.sym = sym
        self.default = False
        self.state = state          # changing it must discard what was learnt


def INTS(lo, hi=INF):
    return ('int', lo, hi)


def REALS(lo, hi):
    return ('real', lo, hi)


EPS = 1e-300
ANYINT = Dom([INTS(1)], [], sym=INTS(1))
NONNEG_INT = Dom([INTS(0)], [INTS(-INF, -1)], sym=INTS(1))
POS_INT = Dom([INTS(1)], [INTS(-INF, 0)], sym=INTS(1))
NONNEG = Dom([REALS(0.0, INF)], [REALS(-INF, -EPS), ('nan',)], sym=REALS(EPS, INF))
POS = Dom([REALS(EPS, INF)], [REALS(-INF, 0.0), ('nan',)], sym=REALS(EPS, INF))
ANYREAL = Dom([REALS(-INF, INF)], [], sym=REALS(EPS, INF))
BOOLS = Dom([('k', True), ('k', False)], [], structural=True)


def ENUM(mod, cls, *members):
    return Dom([('enum', mod, cls, m) for m in members], [], structural=True)


def STRS(*vals):
    return Dom([('k', v) for v in vals], [('k', 'no such choice'), ('k', '')], structural=True)


def OBJS(*alts):
    d = Dom([('obj',) + a for a in alts], [], structural=True)
    d.default = True            # may also be left as it is
    return d


PRE = ENUM(C_, 'PreprocessingType', 'NONE', 'CENTER', 'STANDARDIZE')
PLS_PARAMS = {'preprocessing_type': PRE, 'num_components': ANYINT}
NIPALS_PARAMS = dict(PLS_PARAMS, max_iter=NONNEG_INT, tol=NONNEG, norm_Y_weights=BOOLS,
                     deflation_mode=ENUM(P_, 'DeflationMode', 'REGRESSION', 'CANONICAL'))
KERNELS = OBJS((K_, 'LinearKernel'), (K_, 'PolyKernel'), (K_, 'RBFKernel'))


def abs_ge(eps):
    d = Dom([REALS(-INF, -eps), REALS(eps, INF)], [REALS(-eps * 0.999, eps * 0.999), ('k', 0), ('nan',)],
            sym=REALS(eps, INF))
    return d


class Spec:
    def __init__(self, name, module, kind, params=None, infer=(('transform', 'T'),), train=None, args=(), inverse=False,
                 prefix=None):
        self.name = name
        self.module = module
        self.kind = kind            # trans / sup / fit / filter
        self.params = params or {}
        self.infer = list(infer)
        self.train = train          # single multi pair ygrad cca dipls:* x
        self.args = args
        self.inverse = inverse
        self.prefix = prefix


PT = (('transform', 'T'), ('predict', 'T'))
SPECS = [
    Spec('Center', T_, 'trans', inverse=True),
    Spec('Standardize', T_, 'trans', inverse=True),
    Spec('RowNorm', T_, 'trans', inverse=True),
    Spec('PassThrough', T_, 'trans', inverse=True),
    Spec('Log', T_, 'trans', {'base': Dom([REALS(EPS, 0.999999), REALS(1.000001, INF)], [REALS(-INF, 0.0), ('k', 1.0)],
                                          sym=REALS(1.000001, INF))}, inverse=True),
    Spec('FFT', T_, 'trans', {'output_mode': Dom([('enum', T_, 'OutputMode', m) for m in (
        'REAL_COMPONENT_ONLY', 'IMAG_COMPONENT_ONLY', 'REAL_AND_IMAG_PAIRS', 'AMPLITUDE_ONLY', 'PHASE_ANGLE_ONLY',
        'AMPL_ANGLE_PAIRS')], [('k', 0), ('k', 5), ('k', 13), ('k', -1)], structural=True, state=False),
        'orthonormalisation': Dom([('k', True), ('k', False)], [], structural=True, state=False)}, inverse=True),
    Spec('SavitzkyGolay', T_, 'trans', {
        'polynomial_order': Dom([INTS(2)], [INTS(-INF, 1)], sym=INTS(2)), 'derivative_order': NONNEG_INT,
        'num_points_left': NONNEG_INT, 'num_points_right': NONNEG_INT}),
    Spec('SavitzkyGolay2', T_, 'trans', {
        'polynomial_order': Dom([INTS(2)], [INTS(-INF, 1)], sym=INTS(2)), 'derivative_order': NONNEG_INT,
        'num_points': NONNEG_INT}),
    Spec('PowerTransformer', T_, 'trans', {'method': STRS('yeo-johnson', 'box-cox'), 'standardise': BOOLS}, inverse=True),
    Spec('QuantileTransformer', T_, 'trans', {
        'output_distribution': STRS('uniform', 'normal'), 'n_quantiles': ANYINT, 'ignore_implicit_zeroes': BOOLS,
        'subsample': ANYINT, 'random_state': Dom([INTS(0)], [], sym=INTS(0))}, inverse=True),
    Spec('RobustScaler', T_, 'trans', {
        'with_centering': BOOLS, 'with_scaling': BOOLS,
        'quantile_range': Dom([('tup', 10.0, 90.0)], [('tup', 0.0, 50.0), ('tup', 50.0, 100.0), ('tup', 60.0, 40.0),
                                                      ('tup', 50.0, 50.0), ('tup', -1.0, 50.0), ('tup', 1.0, 101.0)],
                              sym=('tup', 25.0, 75.0))}, inverse=True),
    Spec('MultiplicativeScatterCorrection', T_, 'trans', {}),
    Spec('YGradientGLSWSavitzkyGolayFilter', 'wai.ma.transformation._YGradientGLSWSavitzkyGolayFilter', 'trans', {}),
    Spec('PCA', A_, 'fit', {'variance': Dom([REALS(EPS, 0.9999999)], [REALS(-INF, 0.0), REALS(1.0, INF), ('nan',)],
                                            sym=REALS(EPS, 0.9999999)),
                            'max_columns': Dom([('k', -1), INTS(1)], [('k', 0), INTS(-INF, -2)], sym=INTS(1)),
                            'center': BOOLS}),
    Spec('FastICA', I_, 'fit', {'num_components': POS_INT, 'whiten': BOOLS, 'max_iter': NONNEG_INT, 'tol': NONNEG}),
    Spec('CCAFilter', A_, 'sup', {'kcca': POS_INT, 'lambda_X': ANYREAL, 'lambda_Y': ANYREAL},
         (('transform', 'T'), ('transform_response', 'R')), 'cca'),
    Spec('GLSW', G_, 'sup', {'alpha': POS}, train='pair'),
    Spec('EPO', G_, 'sup', {'alpha': POS, 'N': POS_INT}, train='pair'),
    Spec('YGradientGLSW', G_, 'sup', {'alpha': POS}, train='ygrad'),
    Spec('YGradientEPO', G_, 'sup', {'alpha': POS, 'N': POS_INT}, train='ygrad'),
    Spec('PLS1', P_, 'sup', PLS_PARAMS, PT, 'single'),
    Spec('VCPLS', P_, 'sup', dict(PLS_PARAMS, lambda_=ANYREAL), PT, 'single'),
    Spec('SIMPLS', P_, 'sup', dict(PLS_PARAMS, num_coefficients=ANYINT), PT, 'single'),
    Spec('OPLS', P_, 'sup', dict(PLS_PARAMS, base_PLS=OBJS((P_, 'PLS1'), (P_, 'SIMPLS'))), PT, 'single'),
    Spec('SparsePLS', P_, 'sup', dict(PLS_PARAMS, tol=NONNEG, max_iter=NONNEG_INT, lambda_=NONNEG), PT, 'single'),
    Spec('PRM', P_, 'sup', dict(PLS_PARAMS, tol=NONNEG, max_iter=NONNEG_INT, C=abs_ge(1e-10),
                                num_SIMPLS_coefficients=ANYINT), PT, 'single'),
    Spec('DIPLS', P_, 'sup', dict(PLS_PARAMS, lambda_=abs_ge(1e-8)), PT, 'dipls'),
    Spec('NIPALS', P_, 'sup', NIPALS_PARAMS, PT, 'multi'),
    Spec('CCARegression', P_, 'sup', {k: v for k, v in NIPALS_PARAMS.items() if k != 'deflation_mode'}, PT, 'multi'),
    Spec('KernelPLS', P_, 'sup', dict(PLS_PARAMS, kernel=KERNELS, max_iter=NONNEG_INT, tol=NONNEG), PT, 'multi'),
    Spec('Downsample', F_, 'filter', {'start_index': Dom([INTS(0)], [], sym=INTS(0)), 'step': Dom([INTS(1)], [], sym=INTS(1))}),
    Spec('Equidistance', F_, 'filter', {'num_samples': Dom([INTS(2)], [INTS(-INF, 1)], sym=INTS(2))}, args=(INTS(2),)),
]
BY_NAME = {s.name: s for s in SPECS}
DIPLS_WAYS = ('initialize_unsupervised', 'initialize_supervised', 'initialize_semisupervised')


# ----------------------------------------------------------------------------- builders
class Bench:
    """scenario helpers bound to one driver"""

    def __init__(self, D):
        self.D = D
        self.I = D.I
        self.dims = {}              # sizes fixed to a number
        self.prefilters = False     # spectra are corrected with and without a prefilter

    def reset(self):
        self.D.reset()
        self.st = self.D.fresh()
        return self.st

    # values ----------------------------------------------------------------
    def cls(self, st, module, name):
        outs, exc = self.D.get(st, V((('m', module),)), name)
        if not outs:
            raise MissingAnchor('%s.%s' % (module, name))
        return outs[0][0]

    def value(self, st, region, label=None, sym=None):
        lab = frozenset([label]) if label else EMPTY
        k = region[0]
        if k == 'int':
            lin = None
            if sym is not None:
                lin = self.D.dim(sym, region[1], region[2])
            return num('int', region[1], region[2], lin, lab)
        if k == 'real':
            return num('float', region[1], region[2], None, lab)
        if k == 'nan':
            return V((NAN_ATOM,), lab)
        if k == 'k':
            return const(region[1], lab)
        if k == 'enum':
            c = self.cls(st, region[1], region[2])
            outs, exc = self.D.get(st, c, region[3])
            if not outs:
                raise MissingAnchor('.'.join(region[1:]))
            return outs[0][0].with_labels(lab)
        if k == 'tup':
            return self.I.new_tuple(st, self.D.node(), [const(x, lab) for x in region[1:]]).with_labels(lab)
        if k == 'obj':
            r = self.construct(st, region[1], region[2])
            if r is None:
                raise MissingAnchor('.'.join(region[1:]))
            v, s = r
            st.assign(s)
            return v.with_labels(lab)
        raise ValueError(region)

    def construct(self, st, module, name, args=()):
        D = self.D
        n = D.node()
        outs, exc = D.run(lambda: self.I.call_multi(self.cls(st, module, name), list(args), {}, st, n))
        self.last_exc = exc
        return D.join(outs)

    def make(self, spec, cfg=None, st=None, labels=False, num='sym', skip=()):
        """a configured instance of the class: (object value, state)"""
        st = st if st is not None else self.reset()
        args = [self.value(st, a, ('P:num_samples' if labels else None), 'ns_') for a in spec.args]
        r = self.construct(st, spec.module, spec.name, args)
        if r is None:
            raise MissingAnchor('%s.%s() cannot be constructed' % (spec.module, spec.name))
        o, st = r
        if spec.name == 'MultiplicativeScatterCorrection':
            rng = self.I.new_list(st, self.D.node(), elem=self.I.new_tuple(st, self.D.node(), [REAL, REAL]),
                                  length=globals()['num']('int', 0))
            c, _ = self.D.get(st, o, 'correction')
            if c:
                self.D.set(st, c[0][0], 'ranges', rng)
                if self.prefilters:
                    f = self.construct(st, T_, 'Center')
                    if f is not None:
                        st.assign(f[1])
                        self.D.set(st, c[0][0], 'prefilter', join(NONE, f[0]))
        cfg = cfg or {}
        for p, d in spec.params.items():
            if p in skip:
                continue
            if p in cfg:
                region = cfg[p]
                if region[0] == 'default':
                    continue
            elif num == 'sym' and d.sym is not None:
                region = d.sym
            else:
                continue
            sym = 'k_' + p if region[0] == 'int' else None
            if spec.args and p == 'num_samples':
                continue
            v = self.value(st, region, ('P:' + p) if labels else None, sym)
            outs, exc = self.D.set(st, o, p, v)
            if not outs:
                return None
            st = outs[0][1]
        return o, st

    def ranges_of(self, st, o):
        """(list, state) of the ranges a multiplicative scatter correction offers"""
        c, _ = self.D.get(st, o, 'correction')
        if not c:
            return []
        return self.D.get(c[0][1], c[0][0], 'ranges')[0]

    def configs(self, spec):
        ps = [(p, d.ok + ([('default',)] if d.default else [])) for p, d in spec.params.items() if d.structural]
        out = []
        for combo in itertools.product(*[ok for _, ok in ps]):
            out.append({p: r for (p, _), r in zip(ps, combo)})
        return out or [{}]

    # data ------------------------------------------------------------------
    def X(self, st, name, rows, cols, labels=None, lo=3):
        return self.D.matrix(st, name, self.lin(rows, lo), self.lin(cols, 3), labels)

    def lin(self, d, lo=3):
        d = self.dims.get(d, d)
        if isinstance(d, int):
            return lin_const(d)
        return self.D.dim(d, lo)

    def training_data(self, spec, st, tag='1', p=None, way=None, labels=None, lo=3):
        """argument list of the training call"""
        n, p, q = 'n' + tag, p or 'p' + tag, 'q' + tag
        L = (lambda b: None) if labels is None else labels

        def m(name, r, c):
            return self.X(st, name + tag, r, c, L(name + tag), lo)
        if spec.train == 'dipls':
            a = [m('X', n, p), m('X2', 'u' + tag, p)]
            if way == 'initialize_unsupervised':
                return a + [m('Y', n, 1)]
            if way == 'initialize_supervised':
                return a + [m('Y', n, 1), m('Y2', 'u' + tag, 1)]
            return a + [m('X3', 'w' + tag, p), m('Y', n, 1), m('Y2', 'u' + tag, 1)]
        x = m('X', n, p)
        if spec.kind in ('trans', 'fit'):
            return [x]
        if spec.train in ('single', 'ygrad'):
            return [x, m('Y', n, 1)]
        if spec.train in ('multi', 'cca'):
            return [x, m('Y', n, q)]
        if spec.train == 'pair':
            return [x, m('Y', n, p)]
        raise ValueError(spec.train)

    def train_method(self, spec, way=None):
        if spec.train == 'dipls':
            return way
        return 'configure' if spec.kind in ('trans', 'fit') else 'initialize'

    def ways(self, spec):
        return DIPLS_WAYS if spec.train == 'dipls' else (None,)

    def train(self, spec, st, o, tag='1', p=None, way=None, labels=None, data=None, lo=3):
        """(success state or None, failures [(value, state)], exceptions)"""
        if data is None:
            data = self.training_data(spec, st, tag, p, way, labels, lo)
        outs, exc = self.D.method(st, o, self.train_method(spec, way), data)
        good = [s for v, s in outs if NONE_ATOM in v.atoms or v.has_unknown()]
        bad = [(v, s) for v, s in outs if v.single() != NONE_ATOM]
        return (join_list(good) if good else None), bad, exc

    def infer_arg(self, spec, st, what, name='T', rows='m', p='p1', q='q1', labels=None, lo=3):
        return self.X(st, name, rows, p if what == 'T' else q, labels, lo)

    # observations ----------------------------------------------------------
    def labels(self, v, st):
        """every dependence label of a value and of everything reachable from it"""
        out = set(v.labels)
        for i in reach(st, [v]):
            o = st.heap[i]
            out |= set(o.aux.get('lab') or ())
            for x in o.f.values():
                out |= set(x.labels)
            for x in o.aux.get('items', ()):
                out |= set(x.labels)
            for k in ('elem', 'length'):
                if o.aux.get(k) is not None:
                    out |= set(o.aux[k].labels)
            for x in (o.aux.get('map') or {}).values():
                out |= set(x.labels)
        return out

    def names(self, v, st):
        return {(l[0] if type(l) is tuple else l) for l in self.labels(v, st)}

    def bool_of(self, st, o, method):
        """set of truth values a no-argument method can return"""
        outs, exc = self.D.method(st, o, method, [])
        r = set()
        for v, s in outs:
            t, f = truth(v)
            if t:
                r.add(True)
            if f:
                r.add(False)
        return r


class MissingAnchor(Exception):
    pass
