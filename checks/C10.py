from checks.common import *

ID = 'C10'
TECHNIQUE = 'static value analysis of the settings (abstract interpretation)'
TITLE = 'Training and use never change the settings'
RULE = ('after any sequence of training, use, reset and retraining, every setting holds exactly the value the user '
        'assigned, and settings the user did not assign hold the value they had after construction.')
FLOOR = 700
cost = life_cost


# public settings without a validator
EXTRA = {'Log': ['offset'], 'MultiplicativeScatterCorrection': ['correction'],
         'YGradientGLSWSavitzkyGolayFilter': ['coef']}


def cases(tier, env):
    return life_cases(env)


def snapshot(env, spec, o, st):
    D = env.D
    out = {}
    for p in list(spec.params) + EXTRA.get(spec.name, []):
        got, exc = D.get(st, o, p)
        if not got:
            raise MissingAnchor('%s.%s' % (spec.name, p))
        out[p] = got[0][0]
    return out


def deep_same(env, spec, p, a, b, s1, s2):
    if a.atoms != b.atoms:
        return False
    if 'P:' + p in a.labels and 'P:' + p not in b.labels:
        return False
    for x in a.atoms:
        if x[0] != 'o':
            continue
        o1, o2 = s1.heap.get(x[1]), s2.heap.get(x[1])
        if o1 is None or o2 is None:
            return False
        if o1.kind == 'list':
            if o1.aux != o2.aux:
                return False
            continue
        if o1.kind != 'inst':
            continue
        name = o1.cls.rsplit('.', 1)[-1]
        if name in BY_NAME:
            # a nested algorithm: its own settings count, what it learns is its own business
            sp = BY_NAME[name]
            r1, r2 = snapshot(env, sp, V((x,)), s1), snapshot(env, sp, V((x,)), s2)
            for n in sp.params:
                if not r2[n].has_unknown() and not deep_same(env, sp, n, r1[n], r2[n], s1, s2):
                    return False
        else:
            for n, v in o1.f.items():
                w = o2.f.get(n)
                if w is not None and any(z[0] == 'o' and s1.heap[z[1]].kind == 'list' for z in v.atoms):
                    if not deep_same(env, spec, p, v, w, s1, s2):
                        return False
                if all(z[0] in ('k', 'n', 's', 'e', 'nan') for z in v.atoms) \
                        and (w is None or (w.atoms != v.atoms and not w.has_unknown())):
                    return False
    return True


def compare(env, spec, o, st, ref, rst, when):
    for p, v in snapshot(env, spec, o, st).items():
        env.ok(1, 'settings after ' + when.split(' ')[0])
        if v.has_unknown():
            env.skip('not followed')
        elif not deep_same(env, spec, p, ref[p], v, rst, st):
            env.find('setting changed', '%s.%s / %s' % (spec.name, p, when.split(' ')[0]),
                     '%s changes the setting %s' % (when, spec.name + '.' + p))


class Lists:
    """writes to lists the user gave as settings"""

    def __init__(self, env, spec, ref, st):
        self.env = env
        self.spec = spec
        self.ids = {}
        for p, v in ref.items():
            for a in v.atoms:
                if a[0] == 'o' and st.heap[a[1]].kind == 'inst':
                    if st.heap[a[1]].cls.rsplit('.', 1)[-1] not in BY_NAME:
                        for n, w in st.heap[a[1]].f.items():
                            self.add(st, w, '%s.%s' % (p, n))
            self.add(st, v, p)

    def add(self, st, v, name):
        for a in v.atoms:
            if a[0] == 'o' and st.heap[a[1]].kind in ('list', 'set', 'dict'):
                self.ids[a[1]] = name

    def __call__(self, kind, st, node, d):
        if kind == 'write' and d['oid'] in self.ids:
            I = self.env.I
            self.env.find('setting changed', '%s.%s / in place' % (self.spec.name, self.ids[d['oid']]),
                          'the list %s.%s is changed in place (%s in %s)' % (
                              self.spec.name, self.ids[d['oid']], d.get('how'), I.here()), I.where(node), I.trace()[1:])


def run(case, env):
    B, D = env.B, env.D
    spec, cfg, way, o, st = setup(env, case, labels=True)
    if spec.name == 'Log':
        outs, exc = D.set(st, o, 'offset', num('float', -INF, INF, None, frozenset(('P:offset',))))
        if not outs:
            raise MissingAnchor('Log.offset')
        st = outs[0][1]
    with listening(env, Lists(env, spec, snapshot(env, spec, o, st), st)):
        analyse(env, spec, cfg, way, o, st)


def analyse(env, spec, cfg, way, o, st):
    B, D = env.B, env.D
    env.I.refine_fields = False
    ref, rst = snapshot(env, spec, o, st), st.copy()
    env.sample('%s (%s)' % (spec.name, cfg_name(cfg)))
    good = st
    if spec.kind != 'filter':
        good, bad, exc = B.train(spec, st, o, way=way)
        for v, s in bad + exc:
            compare(env, spec, o, s, ref, rst, 'failing training')
        if good is None:
            env.skip('training never succeeds')
            return
        compare(env, spec, o, good, ref, rst, 'training')
    for meth, what in inference_calls(spec):
        s = good.copy()
        t = B.infer_arg(spec, s, what)
        outs, exc = D.method(s, o, meth, [t])
        for _, s2 in outs:
            compare(env, spec, o, s2, ref, rst, meth)
    if spec.kind == 'filter':
        return
    outs, exc = D.method(good.copy(), o, 'reset', [])
    for _, s2 in outs:
        compare(env, spec, o, s2, ref, rst, 'reset')
