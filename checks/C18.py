from checks.common import *
from checks.C11 import owners

ID = 'C18'
TECHNIQUE = 'static dependence analysis with arithmetic roles (abstract interpretation)'
TITLE = 'inverse_transform undoes transform'
RULE = ('every statistic and setting a transformation applies is applied by its inverse as well, in the opposite way: what '
        'transform subtracts inverse_transform adds, what it divides by it multiplies with, in the opposite order; '
        'wrappers of library estimators call the inverse of the estimator they fitted.')
FLOOR = 40
cost = life_cost
# how each quantity enters the result: sign, numerator / denominator, p: multiplied on the way
ROLES = {
    'Center': {'transform': {'T': '+n', 'means': '-n'}, 'inverse_transform': {'T': '+n', 'means': '+n'}},
    'Standardize': {'transform': {'T': '+np', 'means': '-np', 'std_devs': '+dp'},
                    'inverse_transform': {'T': '+np', 'means': '+n', 'std_devs': '+np'}},
    'PassThrough': {'transform': {'T': '+n'}, 'inverse_transform': {'T': '+n'}},
    'Log': {'transform': {'log(T)': '+np', 'log(offset)': '+np', 'log(base)': '+dp'},
            'inverse_transform': {'exp(T@+np)': '+n', 'exp(log(base)@+np)': '+n', 'offset': '-n'}},
}
WORD = {'+n': 'added', '-n': 'subtracted', '+np': 'multiplied (added before or as a factor)',
        '-np': 'subtracted before scaling', '+dp': 'divided by', '-dp': 'subtracted as a reciprocal'}
ESTIMATORS = ('PowerTransformer', 'QuantileTransformer', 'RobustScaler')
SETTINGS = {'Log': [{'base': (1.5, INF), 'offset': (1.5, INF)}, {'base': (0.01, 0.75), 'offset': (-INF, -1.5)},
                    {'base': (1.5, INF), 'offset': (0.01, 0.75)}]}


def cases(tier, env):
    out = life_cases(env, names=list(ROLES) + list(ESTIMATORS))
    return out + [c for c in life_cases(env, names=['FastICA'])]


def roles(env, v, st):
    """{quantity: {roles}} of the arrays a value shows"""
    labs = set(v.labels)
    for oid, o in owners(st, v):
        labs |= set(env.I.lib.nd_labels(oid, st))
    out = {}
    for l in labs:
        sr = split_role(l)
        if sr:
            out.setdefault(sr[0], set()).add(sr[1])
    return out


def mark_fields(env, st, o, prefix=''):
    """give the learnt arrays of an instance role labels: their field names"""
    out = []
    for oid in o.objs():
        h = st.heap[oid]
        for n, v in sorted(h.f.items()):
            bs = sorted(storages(st, reach(st, [v])))
            for b in bs:
                x = st.heap[b]
                st.heap[b] = x.seta(lab=(x.aux.get('lab') or EMPTY) | {role_label(prefix + n)})
            if bs:
                out.append(prefix + n)
    return out


class Calls:
    def __init__(self):
        self.names = []

    def __call__(self, kind, st, node, d):
        if kind == 'extcallm':
            self.names.append((d['oid'], d['name']))


def run(case, env):
    for regions in SETTINGS.get(case[1], [{}]):
        one(case, env, regions)


def one(case, env, regions):
    B, D, I = env.B, env.D, env.I
    spec, cfg, way, o, st = setup(env, case)
    name = spec.name
    env.sample('%s (%s)' % (name, cfg_name(cfg)))
    for p, (lo, hi) in regions.items():
        D.set(st, o, p, num('float', lo, hi, None, frozenset([role_label(p)])))
    st, bad, exc = B.train(spec, st, o, way=way)
    if st is None:
        env.skip('training never succeeds')
        return
    if name == 'FastICA':
        return ica(env, spec, cfg, o, st)
    fields = mark_fields(env, st, o)
    seen = {}
    for meth, rows in (('transform', 'm'), ('inverse_transform', 'm'), ('transform', 1), ('inverse_transform', 1)):
        s = st.copy()
        t = B.infer_arg(spec, s, 'T', rows=rows, labels=[role_label('T')])
        c = Calls()
        I.tag_ext = name in ESTIMATORS
        try:
            with listening(env, c):
                outs, exc = D.method(s, o, meth, [t])
        finally:
            I.tag_ext = False
        who = '%s.%s' % (name, meth)
        if not outs:
            env.skip('no normal outcome: ' + who)
        got = {}
        for v, s2 in outs:
            again = sorted(x[2:] for x in content(env, v, s2) if str(x).startswith('F:'))
            if again and meth in {n for _, n in c.names}:
                env.find('not undone', who + ' / estimator', '%s applies %s of the estimator in addition to what the '
                         'estimator does' % (who, ', '.join(again)))
            if is_unknown(env, v, s2):
                env.skip('not followed: ' + who)
                got = None
                break
            r = roles(env, v, s2)
            env.ok(1, meth)
            out = r.pop('out', None)
            if name in ESTIMATORS and out is not None and '??' not in out:
                env.ok(1, 'result of the estimator')
                if out != {'+n'}:
                    env.find('not undone', who + ' / estimator', '%s scales or negates what its estimator returns' % who)
            for q, want in ROLES.get(name, {}).get(meth, {}).items():
                env.ok(1, 'role of a quantity')
                b = role_base(q)
                g = set()
                for x, rs in r.items():
                    if role_base(x) == b and x != b and q != b and role_chain(x) == role_chain(q):
                        g |= {y if x == q else x + ' ' + y for y in rs}
                    elif role_base(x) == b and not (x == b and q != b):     # (the plain name: tested in a condition)
                        g |= rs if x == q else {'??'}
                if '??' in g:
                    env.skip('role not followed: %s in %s' % (q, who))
                elif not g:
                    env.find('not undone', '%s / %s' % (who, q), '%s does not use %s' % (
                        who, 'the data' if q == 'T' else q))
                elif g != {want}:
                    env.find('not undone', '%s / %s' % (who, q), 'in %s, %s is %s; it has to be %s' % (
                        who, 'the data' if q == 'T' else b, ', '.join(WORD.get(x, x) for x in sorted(g)), WORD[want]))
            for q in r:
                got.setdefault(role_base(q), set()).update(r[q])
        if got is not None:
            seen.setdefault(meth, set()).update(got)
        if name in ESTIMATORS:
            env.ok(1, 'library estimator')
            names = {n for _, n in c.names if n in ('transform', 'inverse_transform', 'fit_transform')}
            if outs and names != {meth}:
                env.find('not undone', who + ' / estimator', '%s applies %s of the fitted estimator' % (
                    who, ' and '.join(sorted(names)) or 'nothing'))
    if len(seen) == 2:
        for q in sorted(seen['transform'] | seen['inverse_transform']):
            env.ok(1, 'used both ways')
            for m, other in (('transform', 'inverse_transform'), ('inverse_transform', 'transform')):
                if q not in seen[m]:
                    env.find('not undone', '%s.%s / %s' % (name, m, q),
                             '%s.%s uses %s but %s.%s does not' % (name, other, q, name, m))


def ica(env, spec, cfg, o, st):
    """the reconstruction adds the mean that was removed, and only when it was removed"""
    B, D = env.B, env.D
    s = st.copy()
    outs, exc = D.method(s, o, 'transform', [B.infer_arg(spec, s, 'T', labels=['T'])])
    for v, s1 in outs[:1]:
        for oid in o.objs():
            c = s1.heap[oid].f.get('center')
            if c is not None and c.objs():
                mark_fields(env, s1, c, 'center.')
        pre = s1.copy()
        r, exc = D.method(s1, o, 'reconstruct', [])
        for w, s2 in r:
            env.ok(1, 'reconstruction')
            for i in sorted(reach(pre, [o])):
                a, b = pre.heap.get(i), s2.heap.get(i)
                if a is not None and b is not None and a.kind == 'inst' and '.transformation.' in str(a.cls) and not a.same(b):
                    env.find('not undone', 'FastICA.reconstruct / learns',
                             'FastICA.reconstruct configures its centring with its own result')
                    break
            g = roles(env, w, s2).get('center.means', set())
            white = cfg['whiten'][-1]
            if white and '??' not in g and g != {'+n'}:
                env.find('not undone', 'FastICA.reconstruct / means',
                         'FastICA.reconstruct does not add back the column means that were removed')
            if not white and g:
                env.find('not undone', 'FastICA.reconstruct / means',
                         'FastICA.reconstruct adds column means that were not removed')
