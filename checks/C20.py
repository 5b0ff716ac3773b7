from checks.common import *
from checks import surface as S
from checks.api import K_

ID = 'C20'
TECHNIQUE = 'static exception-path analysis (abstract interpretation)'
TITLE = 'Valid use does not fail'
RULE = ('for every admitted combination of settings and for boundary values of each, training on data of matching sizes '
        'has a path that reports success and every use of the trained instance a path that returns; and on no path does '
        'the code reach an operation that is certain to fail there as a programming error (missing attribute, undefined '
        'or unassigned name, wrong kind of operand or argument list, missing key).')
FLOOR = 600
PROGRAMMING = ('AttributeError', 'TypeError', 'NameError', 'UnboundLocalError', 'KeyError', 'IndexError', 'ZeroDivisionError', 'RecursionError')
# documented not to be available
UNAVAILABLE = {('FFT', 'inverse_transform')}
NOT_IMPLEMENTED = {'helper.row_norms', 'helper.euclidean_distance', 'utils.list_to_string'}


# spectra need a wave number and an amplitude
PAIRS = {'MultiplicativeScatterCorrection'}


def cost(c):
    return life_cost(c)


# sizes that rule out every accidental match
SIZES = {-4: {'n1': 9, 'p1': 4, 'q1': 3, 'u1': 11, 'w1': 7, 'm': 5}, -5: {'n1': 5, 'p1': 8, 'q1': 3, 'u1': 7, 'w1': 6, 'm': 2}}
SMALL = {'num_points_left': 1, 'num_points_right': 1, 'num_points': 1, 'derivative_order': 1, 'num_samples': 5,
         'start_index': 1}


def boundaries(spec):
    out = []
    for p, d in sorted(spec.params.items()):
        if d.structural or (spec.args and p == 'num_samples'):
            continue
        for r in d.ok:
            if r[0] == 'int':
                out.append((p, ('k', r[1])) if r[1] != -INF else (p, r))
            elif r[0] == 'k':
                out.append((p, r))
            elif r[0] == 'real':
                out.append((p, ('k', 0.0)) if r[1] == 0.0 else (p, r))
    return out


def cases(tier, env):
    out = []
    for c in life_cases(env):
        out += [c + (-1,), c + (-4,), c + (-5,)]
        if c[2] == 0 and BY_NAME[c[1]].kind != 'filter':
            out += [c + (-3,)] + ([c + (-2,)] if c[1] not in PAIRS else [])
        if c[2] == 0 or tier == 'thorough':
            out += [c + (k,) for k in range(len(boundaries(BY_NAME[c[1]])))]
    out += [('matrix', i) for i in range(len(S.MATRIX_METHODS))]
    out += [('function', i) for i in range(len(S.FUNCTIONS))]
    out += [('kernel', k, m) for k in S.KERNELS for m in ('apply_vector', 'apply_matrix')]
    return out


def judge(env, entry, outs, exc, what='never returns', must=True):
    env.ok(1, 'calls with valid arguments')
    for ev, s in exc:
        for a in ev.atoms:
            o = s.heap.get(a[1]) if a[0] == 'o' else None
            if o is None or not o.aux.get('certain'):
                continue
            n = str(o.cls)[2:]
            env.ok(1, 'failing paths')
            if n in PROGRAMMING:
                here, where = o.aux['at']
                env.find('certain to fail', '%s > %s' % (entry, here),
                         '%s reaches code that fails with %s (in %s)' % (entry, n, here), where)
    if must and not outs:
        env.find('valid use fails', entry, '%s %s with valid arguments (%s)' % (
            entry, what, ', '.join(sorted(env.D.excnames(exc))) or 'no path returns'))


def run(case, env):
    try:
        analyse(case, env)
    finally:
        env.B.dims = {}


def analyse(case, env):
    B, D = env.B, env.D
    if case[0] == 'life':
        spec = BY_NAME[case[1]]
        cfg = dict(B.configs(spec)[case[2]])
        way = case[3] or None
        if case[4] >= 0:
            p, r = boundaries(spec)[case[4]]
            cfg[p] = r
        p = 'p1'
        B.dims = dict(SIZES.get(case[4], {}))
        if B.dims and spec.name in PAIRS:
            B.dims['m'] = B.dims['n1']
        if B.dims:
            for k, d in spec.params.items():
                if d.sym is not None and d.sym[0] == 'int':
                    cfg[k] = ('k', SMALL.get(k, 2))
        if case[4] in (-2, -3):
            # a single predictor column / a single response column
            for k in ('num_components', 'kcca', 'N'):
                if k in spec.params:
                    cfg[k] = ('k', 1)
            if case[4] == -2:
                p = 1
        r = B.make(spec, cfg)
        if r is None:
            raise MissingAnchor('%s cannot be configured with %s' % (spec.name, cfg_name(cfg)))
        o, st = r
        name = '%s (%s)' % (spec.name, cfg_name(cfg))
        env.sample(name)
        good = st
        if spec.kind != 'filter':
            data = None
            if case[4] in (-2, -3):
                data = B.training_data(spec, st, p=p, way=way)
                if case[4] == -3 and spec.train in ('multi', 'cca'):
                    data[1] = B.X(st, 'Y1', 'n1', 1)
            good, bad, exc = B.train(spec, st, o, way=way, data=data)
            judge(env, '%s.%s' % (spec.name, B.train_method(spec, way)), [1] if good else [], exc, 'never succeeds')
            if good is None:
                return
        for meth, what in inference_calls(spec):
            for rows in ('m', 1) if spec.kind != 'fit' and not (B.dims and spec.name in PAIRS) else ('m',):
                s = good.copy()
                t = B.infer_arg(spec, s, what, rows=rows, p=p, q=1 if case[4] == -3 else 'q1')
                outs, exc = D.method(s, o, meth, [t])
                judge(env, '%s.%s' % (spec.name, meth), outs, exc, must=(spec.name, meth) not in UNAVAILABLE)
        for m in ('reset', 'to_string', '__str__', 'is_initialised', 'get_matrix_names', 'get_loadings', 'has_loadings',
                  'can_predict', 'get_min_columns_response', 'get_max_columns_response', 'reconstruct'):
            for s0 in (st, good):
                got, _ = D.get(s0.copy(), o, m)
                if not got or (m == 'reconstruct' and s0 is st):
                    continue
                outs, exc = D.method(s0.copy(), o, m, [])
                judge(env, '%s.%s' % (spec.name, m), outs, exc)
        return
    st = B.reset()
    a = S.Args(env, st)
    if case[0] == 'kernel':
        o, st = B.construct(st, K_, case[1])
        a.st = st
        args = [a.value('n1'), a.value('n1b')] if case[2] == 'apply_vector' else [a.value('np'), a.value('mp')]
        outs, exc = D.method(st, o, case[2], args)
        judge(env, '%s.%s' % (case[1], case[2]), outs, exc)
        return
    f = (S.MATRIX_METHODS if case[0] == 'matrix' else S.FUNCTIONS)[case[1]]
    args = [a.value(c) for c in ([f.recv] if case[0] == 'matrix' else []) + f.args]
    outs, exc = S.call(env, st, f, args)
    env.sample(S.describe(f))
    n = '%s.%s' % (f.recv.rsplit('.', 1)[-1], f.name) if case[0] == 'function' else 'Matrix.' + f.name
    if n not in NOT_IMPLEMENTED:
        judge(env, n, outs, exc)
