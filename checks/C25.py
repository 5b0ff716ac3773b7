from checks.common import *
from checks.api import SPECS, BY_NAME

ID = 'C25'
TECHNIQUE = 'static value-flow analysis of settings (abstract interpretation)'
TITLE = 'Every setting is honoured'
RULE = ('the value of every setting flows, during training or use of the instance, into a result, a decision, the number '
        'of rounds of a loop, an index or size, or an argument of a numeric routine; an object given as a setting has a '
        'method called; and two different choices of a setting with named values never lead through the same code with '
        'the same constants.')
FLOOR = 300
cost = life_cost
# a setting with no role in the variant that inherits it
NO_ROLE = {('EPO', 'alpha'): 'inherited from GLSW; EPO projects the difference out completely',
           ('YGradientEPO', 'alpha'): 'inherited from GLSW; EPO projects the difference out completely'}


AF = 'wai.ma.algorithm.ica.approxfun'
# settings without a validator: class, structural settings, where the setting is, its name, what is assigned
FREE = [
    ('Log', {}, (), 'offset', ('num', 0.5, 2.0)),
    ('YGradientGLSWSavitzkyGolayFilter', {}, (), 'coef', ('list', 5)),
    ('MultiplicativeScatterCorrection', {}, (), 'prefilter', ('obj', 'wai.ma.transformation', 'Center')),
    ('MultiplicativeScatterCorrection', {}, ('correction',), 'prefilter', ('obj', 'wai.ma.transformation', 'Center')),
    ('MultiplicativeScatterCorrection', {}, ('correction',), 'ranges', ('ranges',)),
    ('FastICA', {}, (), 'fun', ('obj', AF, 'LogCosH')),
    ('FastICA', {}, (), 'fun', ('obj', AF, 'Exponential')),
    ('FastICA', {}, (), 'fun', ('obj', AF, 'Cube')),
    ('FastICA', {}, ('fun',), 'alpha', ('num', 1.0, 2.0)),
    ('KernelPLS', {'kernel': 'PolyKernel'}, ('kernel',), 'degree', ('int', 2, 5)),
    ('KernelPLS', {'kernel': 'PolyKernel'}, ('kernel',), 'coef_0', ('num', 0.5, 2.0)),
    ('KernelPLS', {'kernel': 'PolyKernel'}, ('kernel',), 'gamma', ('num', 0.5, 2.0)),
    ('KernelPLS', {'kernel': 'RBFKernel'}, ('kernel',), 'gamma', ('num', 0.5, 2.0)),
]
VECTOR = [(k, a) for k, attrs in (('PolyKernel', ('degree', 'coef_0', 'gamma')), ('RBFKernel', ('gamma',))) for a in attrs]
ALGORITHMS = ('PARALLEL', 'DEFLATION')


def free(env, case):
    """settings that can be assigned freely take part in training or use"""
    B, D, I = env.B, env.D, env.I
    if case[1] == 'vector':
        k, attr = VECTOR[case[2]]
        st = B.reset()
        r = B.construct(st, 'wai.ma.transformation.kernel', k)
        if r is None:
            raise MissingAnchor(k)
        o, st = r
        D.set(st, o, attr, num('float' if attr != 'degree' else 'int', 1, 3, None, frozenset(['P'])))
        env.ok(1, 'settings of kernels')
        outs, exc = D.method(st, o, 'apply_vector', [B.X(st, 'x', 1, 'p'), B.X(st, 'y', 1, 'p')])
        for v, s in outs:
            if is_unknown(env, v, s):
                env.skip('result not followed')
            elif 'P' not in content(env, v, s):
                env.find('setting has no effect', '%s.%s' % (k, attr),
                         '%s.apply_vector does not depend on %s' % (k, attr))
        return
    if case[1] == 'algorithm':
        spec = BY_NAME['FastICA']
        got = []
        for m in ALGORITHMS:
            o, st = B.make(spec, {'whiten': ('k', True)})
            D.set(st, o, 'algorithm', B.value(st, ('enum', 'wai.ma.algorithm.ica._FastICA', 'Algorithm', m)))
            shape = Path(env)
            with listening(env, shape):
                life(env, spec, None, None, o, st, Uses(env))
            got.append(frozenset(shape.seen))
        env.ok(1, 'pairs of choices')
        if got[0] == got[1]:
            env.find('choices not distinguished', 'FastICA.algorithm', 'FastICA does exactly the same for both algorithms')
        return
    name, cfg, way, attr, what = FREE[case[2]]
    spec = BY_NAME[name]
    cfg = dict(next(c for c in B.configs(spec) if all(c[k][-1] == v for k, v in cfg.items())))
    o, st = B.make(spec, cfg)
    holder = o
    for w in way:
        got, _ = D.get(st, holder, w)
        if not got:
            raise MissingAnchor('%s.%s' % (name, w))
        holder = got[0][0]
    lab = frozenset(['P:' + attr])
    objects = {}
    if what[0] in ('num', 'int'):
        v = num('float' if what[0] == 'num' else 'int', what[1], what[2], None, lab)
    elif what[0] == 'list':
        v = I.new_list(st, D.node(), items=[num('float', -1, 1, None, lab) for _ in range(what[1])])
    elif what[0] == 'ranges':
        pair = I.new_tuple(st, D.node(), [num('float', -INF, INF, None, lab), num('float', -INF, INF, None, lab)])
        v = I.new_list(st, D.node(), elem=pair, length=num('int', 0))
    else:
        r = B.construct(st, what[1], what[2])
        if r is None:
            raise MissingAnchor(what[2])
        v, s = r
        st.assign(s)
        objects = {a[1]: attr for a in v.atoms if a[0] == 'o'}
    outs, exc = D.set(st, holder, attr, v)
    if not outs:
        raise MissingAnchor('%s.%s cannot be assigned' % (name, attr))
    st = outs[0][1]
    u = Uses(env, objects)
    known = life(env, spec, cfg, B.ways(spec)[0], o, st, u)
    who = '.'.join((name,) + way + (attr,))
    env.ok(1, 'settings without validator')
    env.sample(who)
    if known is None:
        env.skip('training never succeeds')
    elif 'P:' + attr not in {(l[0] if type(l) is tuple else l) for l in u.labels}:
        if not known:
            env.skip('result not followed')
        else:
            env.find('setting has no effect', who, 'neither training nor using %s depends on the value of its setting %s' % (
                name, '.'.join(way + (attr,))))


# constructor arguments of the library estimators: parameter -> setting
ESTIMATOR = {'PowerTransformer': {'method': 'method', 'standardize': 'standardise'},
             'QuantileTransformer': {'n_quantiles': 'n_quantiles', 'output_distribution': 'output_distribution',
                                     'ignore_implicit_zeros': 'ignore_implicit_zeroes', 'subsample': 'subsample',
                                     'random_state': 'random_state'},
             'RobustScaler': {'with_centering': 'with_centering', 'with_scaling': 'with_scaling',
                              'quantile_range': 'quantile_range'}}


class Constructed:
    """library estimators that are constructed: (state, arguments by name)"""

    def __init__(self, cls):
        self.cls = cls
        self.seen = []

    def __call__(self, kind, st, node, d):
        if kind == 'extcall' and str(d.get('name', '')).startswith('sklearn') and str(d['name']).endswith('.' + self.cls):
            self.seen.append((st.copy(), dict(d['kwargs']), list(d['args']), node))


def estimator(env, spec, cfg, o, c):
    """the estimator is constructed with the values of the settings"""
    D = env.D
    for st, kw, args, node in c.seen:
        if args and spec.name == 'PowerTransformer':
            kw.setdefault('method', args[0])
        for par, setting in ESTIMATOR[spec.name].items():
            if par not in kw:
                continue
            env.ok(1, 'estimator arguments')
            got, _ = D.get(st.copy(), o, setting)
            for v, s in got:
                g = kw[par]
                if g.has_unknown() or v.has_unknown():
                    env.skip('argument not followed: %s.%s' % (spec.name, setting))
                elif not v.const()[0] or not g.const()[0]:
                    continue        # symbolic values: the dependence is decided above
                elif g.const()[1] != v.const()[1]:
                    env.find('setting has no effect', '%s.%s / estimator' % (spec.name, setting),
                             '%s (%s) constructs its estimator with another value for %s than its setting %s' % (
                                 spec.name, cfg_name(cfg), par, setting))


def no_role(spec, p, cfg):
    if (spec.name, p) in NO_ROLE:
        return True
    # documented: without whitening all components are kept
    return spec.name == 'FastICA' and p == 'num_components' and cfg.get('whiten') == ('k', False)


def cases(tier, env):
    return [c for c in life_cases(env) if BY_NAME[c[1]].params] + \
           [('free', 'free', i) for i in range(len(FREE))] + [('free', 'vector', i) for i in range(len(VECTOR))] + \
           [('free', 'algorithm', 0)] + \
           [('pairs', s.name, p) for s in SPECS for p, d in sorted(s.params.items()) if d.structural]


class Uses:
    """what the values of settings are used for"""

    def __init__(self, env, objects=()):
        self.I = env.I
        self.labels = set()
        self.entered = set()
        self.objects = dict(objects)        # object id -> setting
        self.trace = set()

    def __call__(self, kind, st, node, d):
        if kind == 'cond':
            self.labels.update(d['labels'])
        elif kind in ('extcall', 'index'):
            if str(d.get('name', '')).startswith('builtins.') and d['name'][9:] in ('print', 'str', 'repr', 'type', 'isinstance'):
                return
            for v in list(d['args']) + list(d['kwargs'].values()):
                self.value(v, st)
            if kind == 'extcall':
                self.trace.add((d['name'],) + tuple(self.key(v, st) for v in d['args'])
                               + tuple((k, self.key(v, st)) for k, v in sorted(d['kwargs'].items())))
        elif kind == 'enter':
            fi = d['fn']
            self.trace.add(fi.qual)
            for v in d['bound'].values():
                a = v.single()
                if a is not None and a[0] == 'o' and a[1] in self.objects:
                    self.labels.add('P:' + self.objects[a[1]])
                break

    def key(self, v, st):
        """constants a call receives"""
        a = v.single()
        if a is not None and a[0] in ('k', 's'):
            return a
        if a is not None and a[0] == 'o' and st.heap[a[1]].kind == 'tuple':
            return tuple(self.key(x, st) for x in st.heap[a[1]].aux.get('items', ()))
        return None

    def value(self, v, st):
        self.labels.update(v.labels)
        for x in v.atoms:
            if x[0] == 'o' and x[1] in st.heap and st.heap[x[1]].kind in ('tuple', 'list', 'slice'):
                for y in st.heap[x[1]].aux.get('items', ()):
                    self.labels.update(y.labels)


def objects_of(env, spec, o, st):
    out = {}
    for p, d in spec.params.items():
        if d.structural and d.ok[0][0] == 'obj':
            got, _ = env.D.get(st.copy(), o, p)
            for v, s in got:
                for a in v.atoms:
                    if a[0] == 'o':
                        out[a[1]] = p
    return out


def life(env, spec, cfg, way, o, st, u):
    """runs training and use; None when training never succeeds, else whether every result was followed"""
    B, D = env.B, env.D
    good = st
    known = True
    with listening(env, u):
        if spec.kind != 'filter':
            good, bad, exc = B.train(spec, st, o, way=way)
            if good is None:
                return None
        for meth, what in inference_calls(spec):
            s = good.copy()
            t = B.infer_arg(spec, s, what)
            for rv, rs in D.method(s, o, meth, [t])[0]:
                if is_unknown(env, rv, rs):
                    known = False
                u.labels |= content(env, rv, rs)
    return known


def run(case, env):
    B, D = env.B, env.D
    if case[0] == 'life':
        spec, cfg, way, o, st = setup(env, case, labels=True)
        u = Uses(env, objects_of(env, spec, o, st))
        c = Constructed(spec.name)
        with listening(env, c):
            known = life(env, spec, cfg, way, o, st, u)
        if spec.name in ESTIMATOR:
            estimator(env, spec, cfg, o, c)
        if known is None:
            env.skip('training never succeeds')
            return
        seen = {(l[0] if type(l) is tuple else l) for l in u.labels}
        for p in spec.params:
            if no_role(spec, p, cfg) or cfg.get(p) == ('default',) and not u.objects:
                continue
            env.ok(1, 'settings')
            if 'P:' + p in seen:
                continue
            if not known:
                env.skip('result not followed')
                continue
            env.find('setting has no effect', '%s.%s' % (spec.name, p),
                     'neither training nor using %s (%s) depends on the value of its setting %s' % (
                         spec.name, cfg_name(cfg), p))
        env.sample('%s (%s)' % (spec.name, cfg_name(cfg)))
        return
    if case[0] == 'free':
        return free(env, case)
    # pairs: every two choices of one setting, the others as in each configuration
    spec = BY_NAME[case[1]]
    p = case[2]
    choices = spec.params[p].ok
    rest = []
    for c in B.configs(spec):
        r = {k: v for k, v in c.items() if k != p}
        if r not in rest:
            rest.append(r)
    for r in rest:
        told = set()
        got = []
        for region in choices:
            made = B.make(spec, dict(r, **{p: region}))
            if made is None:
                raise MissingAnchor('%s cannot be configured with %s' % (spec.name, cfg_name(dict(r, **{p: region}))))
            o, st = made
            u = Uses(env)
            shape = Path(env)
            with listening(env, shape):
                known = life(env, spec, None, B.ways(spec)[0], o, st, u)
            got.append((known, frozenset(u.trace), frozenset(shape.seen)))
        for i in range(len(choices)):
            for j in range(i):
                env.ok(1, 'pairs of choices')
                if got[i][0] is None or got[j][0] is None or got[i][1:] != got[j][1:]:
                    continue
                env.find('choices not distinguished', '%s.%s %s/%s' % (spec.name, p, choices[j][-1], choices[i][-1]),
                         '%s (%s) does exactly the same for %s=%s and %s=%s' % (
                             spec.name, cfg_name(r), p, choices[j][-1], p, choices[i][-1]))
    env.sample('%s.%s: %d choices' % (spec.name, p, len(choices)))


class Path:
    """the decisions taken: which conditions could come out which way, and what is computed"""

    def __init__(self, env):
        self.seen = set()

    def __call__(self, kind, st, node, d):
        if kind == 'cond':
            self.seen.add((kind, node.lineno, node.col_offset, d['outcome']))
        elif kind in ('constop', 'index'):
            self.seen.add((kind, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                           tuple(str(x.single()) if x.single() and x.single()[0] in ('k', 's', 'c') else '' for x in d['args'])))
        elif kind in ('enter', 'loop', 'setattr', 'getattr', 'matmul', 'write', 'extcall'):
            self.seen.add((kind, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), str(d.get('name', ''))))
