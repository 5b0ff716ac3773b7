from checks.common import *
from checks import surface as S
from checks.api import K_, F_, T_

ID = 'C01'
TECHNIQUE = 'static points-to/effect analysis (abstract interpretation of the source)'
TITLE = 'Arguments are never modified'
RULE = ('no write (element store, in-place operator or ufunc, output parameter, list/dict mutation, replacement of a '
        'matrix\'s array) executed by a public call reaches storage owned by a matrix, array or list the caller passed, '
        'except where the call is documented to work in place.')
FLOOR = 450
cost = life_cost


def cases(tier, env):
    out = life_cases(env)
    out += [('matrix', i) for i in range(len(S.MATRIX_METHODS))]
    out += [('function', i) for i in range(len(S.FUNCTIONS))]
    out += [('kernel', k, m) for k in S.KERNELS for m in ('apply_vector', 'apply_matrix', 'apply_matrix1')]
    out += [('multifilter',)]
    return out


def watched(env, entry, st, vals, fn):
    p = Protect(env, 'argument written', entry)
    for name, v in vals:
        p.add(st, v, name)
    with listening(env, p):
        r = fn()
    env.ok(len(vals), 'arguments of ' + entry.split('.')[0].split('[')[0] if False else 'protected arguments')
    return r


def lists(env, o, st):
    """lists the caller handed over as settings (ranges of the scatter correction)"""
    out = []
    for a, b in (('correction', 'ranges'),):
        c, _ = env.D.get(st, o, a)
        r = env.D.get(st, c[0][0], b)[0] if c else None
        if r:
            out.append((a + '.' + b, r[0][0]))
    return out


def run(case, env):
    B, D = env.B, env.D
    B.prefilters = True
    if case[0] == 'life':
        spec, cfg, way, o, st = setup(env, case)
        good = st
        if spec.kind != 'filter':
            data = B.training_data(spec, st, way=way)
            meth = B.train_method(spec, way)
            good, bad, exc = watched(env, '%s.%s' % (spec.name, meth), st,
                                     [('#%d' % i, v) for i, v in enumerate(data)],
                                     lambda: B.train(spec, st, o, way=way, data=data))
            env.sample('%s.%s with %s: %d abstract matrices protected' % (spec.name, meth, cfg_name(cfg), len(data)))
            if good is None:
                env.skip('training never succeeds')
                return
        for meth, what in inference_calls(spec):
            s = good.copy()
            t = B.infer_arg(spec, s, what)
            watched(env, '%s.%s' % (spec.name, meth), s, [('#0', t)] + lists(env, o, s), lambda: D.method(s, o, meth, [t]))
    elif case[0] in ('matrix', 'function'):
        f = (S.MATRIX_METHODS if case[0] == 'matrix' else S.FUNCTIONS)[case[1]]
        st = B.reset()
        a = S.Args(env, st)
        args = [a.value(c) for c in ([f.recv] if case[0] == 'matrix' else []) + f.args]
        names = (['self'] if case[0] == 'matrix' else []) + list(range(len(f.args)))
        vals = [('self' if n == 'self' else '#%d' % n, v) for n, v in zip(names, args) if n not in f.mut]
        watched(env, S.describe(f), st, vals, lambda: S.call(env, st, f, args))
    elif case[0] == 'kernel':
        st = B.reset()
        a = S.Args(env, st)
        o, st = B.construct(st, K_, case[1])
        a.st = st
        args = [a.value('n1'), a.value('n1b')] if case[2] == 'apply_vector' else [a.value('np'), a.value('mp')]
        m = case[2]
        if m.endswith('1'):
            m, args = m[:-1], args[:1]
        watched(env, '%s.%s' % (case[1], m), st, [('#%d' % i, v) for i, v in enumerate(args)],
                lambda: D.method(st, o, m, args))
    elif case[0] == 'multifilter':
        st = B.reset()
        a = S.Args(env, st)
        fs = []
        for mod, n in ((T_, 'Center'), (T_, 'RowNorm'), (T_, 'SavitzkyGolay'), (F_, 'Downsample')):
            o, st = B.construct(st, mod, n)
            fs.append(o)
        lst = env.I.new_list(st, D.node(), items=fs)
        o, st = B.construct(st, 'wai.ma.core', 'MultiFilter', [lst])
        a.st = st
        t = a.value('np')
        watched(env, 'MultiFilter.transform', st, [('#0', t), ('filters', lst)],
                lambda: D.method(st, o, 'transform', [t]))
