from checks.common import *
from checks import surface as S
from checks.api import K_, F_, T_

ID = 'C02'
TECHNIQUE = 'static alias analysis (abstract interpretation of the source)'
TITLE = 'Results share no storage with arguments, models or each other'
RULE = ('the arrays, matrices and lists reachable from the value a public call returns are disjoint from those reachable '
        'from its arguments, from the instance it was called on, and from class- or module-level state.')
FLOOR = 350
cost = life_cost

# documented to hand the input on unchanged
PASSES_ON = {('PassThrough', 'transform'), ('PassThrough', 'inverse_transform')}


def cases(tier, env):
    out = life_cases(env)
    out += [('matrix', i) for i, f in enumerate(S.MATRIX_METHODS) if f.returns in 'ml']
    out += [('function', i) for i, f in enumerate(S.FUNCTIONS) if f.returns in 'ml' and not f.alias]
    out += [('kernel', k, m) for k in S.KERNELS for m in ('apply_matrix', 'apply_matrix1')]
    out += [('multifilter',), ('ica',)]
    return out


def owned(st, vals):
    """mutable things reachable from the values: array owners, matrices, lists"""
    out = {}
    for i in reach(st, vals):
        o = st.heap[i]
        if o.kind == 'nd':
            for b in o.aux['base']:
                out[b] = 'array'
        elif o.kind == 'inst' and o.cls and o.cls.endswith('.Matrix'):
            out[i] = 'matrix'
        elif o.kind in ('list', 'dict', 'set'):
            out[i] = o.kind
    return out


def static_owned(env, st):
    out = {}
    for i, o in st.heap.items():
        if o.kind in ('class', 'module'):
            for n, v in o.f.items():
                if any(a[0] == 'o' for a in v.atoms):
                    out.update({k: '%s %s.%s' % (t, i, n) for k, t in owned(st, [v]).items()})
    return out


def judge(env, entry, outs, sources):
    """sources: list of (name, value)"""
    for v, s in outs:
        if not any(a[0] == 'o' for a in v.atoms):
            env.skip('result has no storage') if v.has_unknown() else None
            continue
        mine = owned(s, [v])
        if not mine:
            continue
        for name, val in sources:
            env.ok(1, 'result versus ' + ('instance' if name == 'instance' else 'argument'))
            common = set(mine) & set(owned(s, [val]))
            if common:
                k = sorted(common, key=lambda x: (mine[x] != 'array', x))[0]
                env.find('shared storage', '%s / %s' % (entry, name),
                         'the result of %s shares %s storage with %s' % (entry, mine[k], name), k)
        env.ok(1, 'result versus class and module state')
        so = static_owned(env, s)
        common = set(mine) & set(so)
        if common:
            k = sorted(common)[0]
            env.find('shared storage', '%s / static' % entry,
                     'the result of %s shares storage with %s' % (entry, so[k]), k)


def run(case, env):
    B, D = env.B, env.D
    B.prefilters = True
    if case[0] == 'life':
        spec, cfg, way, o, st = setup(env, case)
        good = st
        if spec.kind != 'filter':
            data = B.training_data(spec, st, way=way)
            good, bad, exc = B.train(spec, st, o, way=way, data=data)
            if good is None:
                env.skip('training never succeeds')
                return
            # the model keeps no reference to the caller's training data
            env.ok(1, 'model versus training data')
            mine = owned(good, [o])
            for i, dv in enumerate(data):
                common = set(mine) & set(owned(good, [dv]))
                if common:
                    env.find('shared storage', '%s model / training argument %d' % (spec.name, i),
                             'a trained %s keeps sharing storage with the training data it was given' % spec.name,
                             sorted(common)[0])
        for meth, what in inference_calls(spec):
            if (spec.name, meth) in PASSES_ON:
                continue
            s = good.copy()
            t = B.infer_arg(spec, s, what)
            outs, exc = D.method(s, o, meth, [t])
            entry = '%s.%s' % (spec.name, meth)
            judge(env, entry, outs, [('argument', t), ('instance', o)])
            env.sample('%s with %s' % (entry, cfg_name(cfg)))
            if outs:
                v1, s1 = D.join(outs)
                outs2, _ = D.method(s1, o, meth, [t])
                for v2, s2 in outs2:
                    env.ok(1, 'result versus earlier result')
                    c = set(owned(s2, [v2])) & set(owned(s2, [v1]))
                    # a second call allocates at other sites; overlap means both hand out one stored object
                    if c:
                        env.find('shared storage', '%s / earlier result' % entry,
                                 'two calls of %s return the same storage' % entry, sorted(c)[0])
    elif case[0] in ('matrix', 'function'):
        f = (S.MATRIX_METHODS if case[0] == 'matrix' else S.FUNCTIONS)[case[1]]
        st = B.reset()
        a = S.Args(env, st)
        args = [a.value(c) for c in ([f.recv] if case[0] == 'matrix' else []) + f.args]
        names = (['self'] if case[0] == 'matrix' else []) + list(range(len(f.args)))
        outs, exc = S.call(env, st, f, args)
        judge(env, S.describe(f), outs, [('self' if n == 'self' else 'argument %d' % n, v) for n, v in zip(names, args)
                                         if any(x[0] == 'o' for x in v.atoms)])
    elif case[0] == 'kernel':
        st = B.reset()
        a = S.Args(env, st)
        o, st = B.construct(st, K_, case[1])
        a.st = st
        args = [a.value('np'), a.value('mp')]
        m = case[2]
        if m.endswith('1'):
            m, args = m[:-1], args[:1]
        outs, exc = D.method(st, o, m, args)
        judge(env, '%s.%s' % (case[1], m), outs, [('argument %d' % i, v) for i, v in enumerate(args)])
    elif case[0] == 'multifilter':
        st = B.reset()
        a = S.Args(env, st)
        fs = []
        for mod, n in ((T_, 'Center'), (T_, 'RowNorm'), (T_, 'SavitzkyGolay'), (F_, 'Downsample')):
            o, st = B.construct(st, mod, n)
            fs.append(o)
        lst = env.I.new_list(st, D.node(), items=fs)
        o, st = B.construct(st, 'wai.ma.core', 'MultiFilter', [lst])
        a.st = st
        t = a.value('np')
        outs, exc = D.method(st, o, 'transform', [t])
        judge(env, 'MultiFilter.transform', outs, [('argument', t), ('instance', o)])
    elif case[0] == 'ica':
        spec = BY_NAME['FastICA']
        for cfg in B.configs(spec):
            o, st = B.make(spec, cfg)
            good, bad, exc = B.train(spec, st, o)
            if good is None:
                env.skip('training never succeeds')
                continue
            outs, exc = D.method(good.copy(), o, 'reconstruct', [])
            judge(env, 'FastICA.reconstruct', outs, [('instance', o)])
