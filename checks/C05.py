from checks.common import *
from checks.C04 import refusal

ID = 'C05'
TECHNIQUE = 'static typestate analysis over all exceptional exits (abstract interpretation)'
TITLE = 'Training that does not succeed leaves the instance untrained'
RULE = ('at every point of a training call where a library routine or the code itself can raise, and at every exit that '
        'reports an error, the instance is not marked as trained and keeps refusing to produce results - unless the call '
        'has not touched it yet, so that an earlier model is still complete; an exit that reports success leaves it '
        'trained.')
FLOOR = 1500
cost = life_cost


# learns nothing: looks at every input afresh
STATELESS = {'RowNorm'}


def cases(tier, env):
    return [c for c in life_cases(env, ('sup', 'trans', 'fit')) if c[1] not in STATELESS] + [('none', s.name) for s in SPECS if s.kind == 'sup']


class Points:
    """states at places where training can be interrupted"""

    def __init__(self, env):
        self.env = env
        self.by = {}
        self.depth = len(env.I.stack)

    def __call__(self, kind, st, node, d):
        if kind in ('extcall', 'extcallm'):
            if kind == 'extcall' and not d['name'].startswith(('numpy', 'scipy', 'sklearn')):
                return
            k = (self.env.I.site(node), kind)
            l = self.by.setdefault(k, [])
            if len(l) < 3:
                l.append((st.copy(), self.env.I.where(node), self.env.I.trace()[1:], d.get('name', kind)))
            else:
                l[-1] = (st.copy(), self.env.I.where(node), self.env.I.trace()[1:], d.get('name', kind))


def untouched(o, st, pre):
    """the instance and everything it refers to are as before the call"""
    for i in reach(pre, [o]):
        a, b = st.heap.get(i), pre.heap.get(i)
        if a is None or not (a is b or a.same(b)):
            return False
    return True


def trained(env, spec, st, o):
    if spec.kind != 'trans':
        return env.B.bool_of(st.copy(), o, 'is_initialised')
    got, exc = env.D.get(st.copy(), o, 'configured')
    if not got:
        raise MissingAnchor(spec.name + '.configured')
    r = set()
    for v, s in got:
        t, f = truth(v)
        r |= ({True} if t else set()) | ({False} if f else set())
    return r


def not_trained(env, spec, o, st, where, path, when, pre):
    B, D = env.B, env.D
    env.ok(1, 'interruption points' if when == 'interrupted' else when)
    b = trained(env, spec, st, o)
    if True in b and untouched(o, st, pre):
        return
    if True in b:
        env.find('marked as trained although training did not succeed', '%s / %s' % (spec.name, where.split(' ')[-1]),
                 '%s stays or becomes trained when training is %s at %s' % (spec.name, when, where), where, path)
        return
    if spec.kind != 'sup':
        return                  # configures itself on first use
    meth, what = spec.infer[0]
    s = st.copy()
    t = B.infer_arg(spec, s, what)
    outs, exc = D.method(s, o, meth, [t])
    if outs:
        env.find('produces results although training did not succeed', '%s.%s / %s' % (
            spec.name, meth, where.split(' ')[-1]),
            '%s.%s returns a result after training was %s at %s' % (spec.name, meth, when, where), where, path)


def check_training(env, spec, st, o, way, tag, data=None):
    B = env.B
    pts = Points(env)
    if spec.kind == 'fit':          # their transform() resets and then trains
        outs, exc = env.D.method(st, o, 'reset', [])
        if not outs:
            raise MissingAnchor(spec.name + '.reset')
        st = env.D.join(outs)[1]
    pre = st.copy()
    with listening(env, pts):
        good, bad, exc = B.train(spec, st, o, way=way, tag=tag, data=data)
    for k, l in sorted(pts.by.items()):
        for s, where, path, name in l:
            not_trained(env, spec, o, s, where, path, 'interrupted', pre)
    for v, s in bad:
        if NONE_ATOM in v.atoms or v.has_unknown():
            continue
        not_trained(env, spec, o, s, '%s.%s' % (spec.name, B.train_method(spec, way)), [], 'reported as failed', pre)
    for ev, s in exc:
        not_trained(env, spec, o, s, '%s.%s' % (spec.name, B.train_method(spec, way)), [], 'ended by an exception', pre)
    if good is not None:
        env.ok(1, 'success')
        b = trained(env, spec, good, o)
        if False in b:
            env.find('success reported but not trained', spec.name,
                     '%s.%s can report success and leave the instance untrained' % (
                         spec.name, B.train_method(spec, way)))
    return good, bad, exc


def base_fails(env, spec, st, o, way):
    """the failure of a model the user supplied as a setting is a failure of the training"""
    B, D, I = env.B, env.D, env.I
    for p, d in sorted(spec.params.items()):
        if not any(r[0] == 'obj' for r in d.ok):
            continue
        got, _ = D.get(st.copy(), o, p)
        ids = {a[1] for v, s in got for a in v.atoms if a[0] == 'o' and D.get(s.copy(), v, 'initialize')[0]}
        if not ids:
            continue
        called = []

        def hook(fi, bound, s):
            me = bound.get(fi.params[0]) if fi.params else None
            if fi.qual.rsplit('.', 1)[-1] != 'initialize' or me is None or not any(a[0] == 'o' and a[1] in ids for a in me.atoms):
                return None
            called.append(1)
            return const('failed')
        pre = st.copy()
        I.intercept = hook
        try:
            good, bad, exc = B.train(spec, st.copy(), o, way=way, tag='1')
        finally:
            I.intercept = None
        if not called:
            env.skip('training of the model in setting %s.%s not followed' % (spec.name, p))
            continue
        env.ok(1, 'failing base model')
        if good is not None:
            env.find('success reported although the base model failed', '%s.%s' % (spec.name, p),
                     '%s reports success although training of its %s failed' % (spec.name, p))
        for v, s in bad:
            not_trained(env, spec, o, s, spec.name + '.initialize', [], 'reported as failed', pre)


def run(case, env):
    B, D = env.B, env.D
    if case[0] == 'life':
        spec, cfg, way, o, st = setup(env, case)
        env.sample('%s (%s), first and second training' % (spec.name, cfg_name(cfg)))
        base_fails(env, spec, st.copy(), o, way)
        good, bad, exc = check_training(env, spec, st, o, way, '1')
        if good is not None and spec.kind != 'trans':
            check_training(env, spec, good, o, way, '2')
        return
    # missing or unusable data, on a fresh and on a trained instance
    spec = BY_NAME[case[1]]
    way = B.ways(spec)[0]
    for trained in (False, True):
        o, st = B.make(spec)
        if trained:
            good, bad, exc = B.train(spec, st, o, way=way)
            if good is None:
                env.skip('training never succeeds')
                continue
            st = good
        for what in ('no response', 'no predictors', 'no response columns'):
            s = st.copy()
            pre = st.copy()
            data = B.training_data(spec, s, '3') if spec.train != 'dipls' else [
                B.X(s, 'X3', 'n3', 'p3'), B.X(s, 'Y3', 'n3', 1)]
            if what == 'no response':
                data[1] = NONE
            elif what == 'no predictors':
                data[0] = NONE
            else:
                data[1] = B.X(s, 'Y3e', 'n3', 0)
            outs, exc = D.method(s, o, 'initialize', data)
            for v, s2 in outs:
                if v.single() == NONE_ATOM:
                    if what != 'no response columns' and spec.train != 'dipls':
                        env.find('success reported without data', '%s / %s' % (spec.name, what),
                                 '%s.initialize reports success with %s' % (spec.name, what))
                    continue
                not_trained(env, spec, o, s2, spec.name + '.initialize', [], 'refused', pre)
            for ev, s2 in exc:
                not_trained(env, spec, o, s2, spec.name + '.initialize', [], 'ended by an exception', pre)
