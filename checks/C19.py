from checks.common import *
from checks.C16 import arrays, differ, text, lin_str

ID = 'C19'
TECHNIQUE = 'static query protocol analysis over the life cycle (abstract interpretation)'
TITLE = 'Named matrices agree with what is advertised'
RULE = ('the advertised names are distinct; for each, get_matrix returns None and never raises before training and after a '
        'reset, and after training a matrix computed from the training data, of the documented size, a different one '
        'for each name; any other name gives None; get_loadings returns a matrix exactly when has_loadings says so.')
FLOOR = 300
cost = life_cost
K = 'k_num_components'
SIZES = {
    'PLS1': {'RegVector': ('p1', 1), 'P': ('p1', K), 'W': ('p1', K), 'b_hat': (K, 1)},
    'VCPLS': {'RegVector': ('p1', 1), 'P': ('p1', K), 'W': ('p1', K), 'b_hat': (K, 1)},
    'SIMPLS': {'W': ('p1', K), 'B': ('p1', 1), 'Q': (1, K)},
    'OPLS': {'P_orth': ('p1', K), 'W_orth': ('p1', K), 'T_orth': ('n1', K)},
    'SparsePLS': {'W': ('p1', K), 'B': ('p1', 1)},
    'PRM': {'B': ('p1', 1), 'Wr': ('n1', 1), 'Wx': ('n1', 1), 'W': ('n1', 1)},
    'DIPLS': {'Wdi': ('p1', K), 'P': ('p1', K), 'Ps': ('p1', K), 'Pt': ('p1', K), 'bdi': ('p1', 1)},
    'NIPALS': {'T': ('n1', K), 'U': ('n1', K), 'P': ('p1', K), 'Q': ('q1', K)},
    'CCARegression': {'T': ('n1', K), 'U': ('n1', K), 'P': ('p1', K), 'Q': ('q1', K)},
    'KernelPLS': {'K': ('n1', 'n1'), 'T': ('n1', K), 'U': ('n1', K), 'P': ('n1', K), 'Q': ('q1', K)},
}


def cases(tier, env):
    return life_cases(env, names=list(SIZES))


def names_of(env, st, o, who):
    outs, exc = env.D.method(st.copy(), o, 'get_matrix_names', [])
    r = set()
    for v, s in outs:
        a = v.single()
        items = s.heap[a[1]].aux.get('items') if a and a[0] == 'o' else None
        if items is None or not all(i.const()[0] for i in items):
            return None
        r.add(tuple(i.const()[1] for i in items))
    if len(r) != 1:
        return None
    return list(r.pop())


def lookup(env, st, o, name):
    """(may be None, may be a matrix, labels, storages, value list, exceptions) of get_matrix(name)"""
    outs, exc = env.D.method(st.copy(), o, 'get_matrix', [const(name)])
    return outs, exc


def none_only(env, spec, st, o, name, phase):
    outs, exc = lookup(env, st, o, name)
    env.ok(1, phase)
    if exc:
        env.find('query fails', '%s.get_matrix(%r) %s' % (spec.name, name, phase),
                 '%s.get_matrix(%r) can raise %s %s' % (spec.name, name, ', '.join(
                     sorted(x.rsplit('.', 1)[-1] for x in env.D.excnames(exc))), phase))
    for v, s in outs:
        if any(a != NONE_ATOM and a[0] != 'u' for a in v.atoms):
            env.find('unexpected matrix', '%s.get_matrix(%r) %s' % (spec.name, name, phase),
                     '%s.get_matrix(%r) returns something other than None %s' % (spec.name, name, phase))


def run(case, env):
    B, D, I = env.B, env.D, env.I
    spec, cfg, way, o, st = setup(env, case)
    env.sample('%s (%s)' % (spec.name, cfg_name(cfg)))
    names = names_of(env, st, o, spec.name)
    if names is None:
        env.skip('names not followed: ' + spec.name)
        names = list(SIZES[spec.name])
    env.ok(1, 'names')
    if len(set(names)) != len(names):
        env.find('names repeated', spec.name, '%s.get_matrix_names lists a name twice' % spec.name)
    for n in SIZES[spec.name]:
        if n not in names:
            env.find('name missing', '%s / %s' % (spec.name, n), '%s.get_matrix_names does not list %r' % (spec.name, n))
    names = sorted(set(names))
    for n in names + ['no such matrix']:
        none_only(env, spec, st, o, n, 'before training')
    st, bad, exc = B.train(spec, st, o, way=way, labels=lambda n: ['D:' + n])
    if st is None:
        env.skip('training never succeeds')
        return
    none_only(env, spec, st, o, 'no such matrix', 'after training')
    where = {}
    for n in names:
        outs, exc = lookup(env, st, o, n)
        if not outs:
            env.ok(1, 'after training')
            env.find('query fails', '%s.get_matrix(%r) after training' % (spec.name, n),
                     '%s.get_matrix(%r) never returns after training' % (spec.name, n))
        for v, s in outs:
            env.ok(1, 'after training')
            if v.has_unknown():
                env.skip('not followed')
                continue
            if NONE_ATOM in v.atoms:
                env.find('matrix missing', '%s / %s' % (spec.name, n),
                         '%s.get_matrix(%r) can be None after training' % (spec.name, n))
            if not any(l.startswith('D:') for l in content(env, v, s) if type(l) is str):
                env.find('not learnt', '%s / %s' % (spec.name, n),
                         '%s.get_matrix(%r) does not depend on the training data' % (spec.name, n))
            a = v.single()
            if a is not None and a[0] == 'o':
                if a[1] in st.heap:
                    where.setdefault(a[1], set()).add(n)
            want = SIZES[spec.name].get(n)
            for d in arrays(s, v):
                if want is None or d in (None, 'none') or len(d) != 2:
                    continue
                for g, w in zip(d, want):
                    w = lin_const(w) if isinstance(w, int) else lin_sym(w)
                    # a matrix that grows in the loop is one column wide after the first component
                    if differ(env, g, w) and not (spec.name == 'DIPLS' and g == lin_const(1)):
                        env.find('wrong shape', '%s / %s' % (spec.name, n),
                                 '%s.get_matrix(%r) has shape %s, documented is %s' % (spec.name, n, text(d), want))
    for oid, ns in sorted(where.items()):
        env.ok(1, 'distinct matrices')
        if len(ns) > 1:
            env.find('same matrix', '%s / %s' % (spec.name, ', '.join(sorted(ns))),
                     '%s returns the same matrix for the names %s' % (spec.name, ', '.join(sorted(ns))))
    has = B.bool_of(st, o, 'has_loadings')
    outs, exc = D.method(st.copy(), o, 'get_loadings', [])
    env.ok(1, 'loadings')
    for v, s in outs:
        if has == {True} and NONE_ATOM in v.atoms:
            env.find('loadings', spec.name, '%s advertises loadings but get_loadings can be None after training' % spec.name)
        if has == {False} and any(a[0] == 'o' for a in v.atoms):
            env.find('loadings', spec.name, '%s denies having loadings but returns some' % spec.name)
    can = B.bool_of(st, o, 'can_predict')
    if can == {True}:
        s = st.copy()
        outs, exc = D.method(s, o, 'predict', [B.infer_arg(spec, s, 'T')])
        env.ok(1, 'prediction')
        if not outs:
            env.find('prediction', spec.name, '%s advertises predictions but never predicts' % spec.name)
    s = st.copy()
    outs, exc = D.method(s, o, 'reset', [])
    for v, s2 in outs:
        for n in names:
            none_only(env, spec, s2, o, n, 'after a reset')
