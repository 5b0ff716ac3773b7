from checks.common import *
from checks.api import F_, T_

ID = 'C13'
TECHNIQUE = 'static dependence (taint) analysis across instances (abstract interpretation)'
TITLE = 'Instances do not influence each other'
RULE = ('configuring, training and using one instance leaves no trace - neither of its data nor of its settings - in '
        'class, module or default-argument state, nor in any other instance of any class created before or after.')
FLOOR = 300
cost = life_cost


def cases(tier, env):
    return life_cases(env)


def static_labels(env, st):
    """labels held by classes, modules and defaults: construct -> labels"""
    out = {}
    for i, o in st.heap.items():
        if o.kind in ('class', 'module'):
            for n, v in o.f.items():
                l = content(env, v, st)
                if l:
                    out['%s.%s' % (i, n)] = l
    for fid, fi in env.I.fns.items():
        for v in list(fi.defaults or ()) + list((fi.kwdefaults or {}).values() if isinstance(fi.kwdefaults, dict) else
                                                (fi.kwdefaults or ())):
            if isinstance(v, V):
                l = content(env, v, st)
                if l:
                    out['default of ' + fi.qual] = l
    return out


def strip(ls):
    return {l for l in ls if not str(l).startswith('#')}


def members(env, st, v):
    """instances of the code under test and containers held by an instance"""
    out = {}
    for i in reach(st, [v]):
        o = st.heap[i]
        if o.kind == 'inst' and o.cls and not o.cls.endswith('.Matrix') and o.f and 'Enum' not in str(env.I.mro(o.cls)):
            out[i] = o.cls.rsplit('.', 1)[-1]
        elif o.kind in ('list', 'set', 'dict'):
            out[i] = o.kind
    return out


class Shared:
    """writes to lists and sets held by classes, modules or defaults"""

    def __init__(self, env, spec, st):
        self.env = env
        self.spec = spec
        self.ids = {}
        roots = [('%s.%s' % (i, n), v) for i, o in st.heap.items() if o.kind in ('class', 'module')
                 for n, v in o.f.items()]
        for fid, fi in env.I.fns.items():
            for v in list(fi.defaults or ()) + list((fi.kwdefaults or {}).values() if isinstance(
                    fi.kwdefaults, dict) else (fi.kwdefaults or ())):
                if isinstance(v, V):
                    roots.append(('default of ' + fi.qual, v))
        for n, v in roots:
            for a in v.atoms:
                if a[0] == 'o' and a[1] in st.heap and st.heap[a[1]].kind in ('list', 'set'):
                    self.ids[a[1]] = n

    def __call__(self, kind, st, node, d):
        if kind == 'write' and d['oid'] in self.ids:
            I = self.env.I
            self.env.find('shared container changed', '%s > %s' % (self.spec.name, self.ids[d['oid']]),
                          'using a %s changes %s, which all instances share (%s in %s)' % (
                              self.spec.name, self.ids[d['oid']], d.get('how'), I.here()), I.where(node), I.trace()[1:])


def run(case, env):
    B, D = env.B, env.D
    spec = BY_NAME[case[1]]
    cfg = B.configs(spec)[case[2]]
    way = case[3] or None
    st = B.reset()
    with listening(env, Shared(env, spec, st)):
        analyse(env, spec, cfg, way, st)


def meet(env, spec, o, b, st):
    mine, theirs = members(env, st, o), members(env, st, b)
    env.ok(len(theirs), 'objects held by the neighbour')
    for i in sorted(set(mine) & set(theirs), key=str):
        env.find('object shared between instances', '%s > %s' % (spec.name, theirs[i]),
                 'two instances of %s hold the same %s, so that changing it for one changes it for the other' % (
                     spec.name, theirs[i]))


def analyse(env, spec, cfg, way, st):
    B, D = env.B, env.D
    # a neighbour with default settings, created before
    args = [B.value(st, a) for a in spec.args]
    r = B.construct(st, spec.module, spec.name, args)
    if r is None:
        raise MissingAnchor(spec.name)
    b, st = r
    before = {p: D.get(st, b, p)[0] for p in spec.params}
    r = B.make(spec, cfg, st=st, labels=True)
    if r is None:
        raise MissingAnchor('%s cannot be configured' % spec.name)
    o, st = r
    if spec.name == 'MultiplicativeScatterCorrection':
        # ranges are added to the list the correction offers
        for x, y in B.ranges_of(st.copy(), b):
            D.method(y, x, 'append', [env.I.new_tuple(y, D.node(), [REAL, REAL])])
    good = st
    if spec.kind != 'filter':
        good, bad, exc = B.train(spec, st, o, way=way)
        if good is None:
            env.skip('training never succeeds')
            return
    for meth, what in inference_calls(spec):
        t = B.infer_arg(spec, good, what)
        outs, exc = D.method(good, o, meth, [t])
        if outs:
            good = D.join(outs)[1]
    env.ok(1, 'class and module state')
    for k, l in static_labels(env, good).items():
        if strip(l):
            env.find('shared state keeps a trace', '%s > %s' % (spec.name, k),
                     'using a %s leaves %s in %s' % (spec.name, ', '.join(sorted(map(str, strip(l)))), k))
    meet(env, spec, o, b, good)
    # the neighbour, and one created afterwards
    s = good.copy()
    args = [B.value(s, a) for a in spec.args]
    r = B.construct(s, spec.module, spec.name, args)
    later = [('created before', b, good)] + ([('created afterwards', r[0], r[1])] if r else [])
    for when, x, s in later:
        env.ok(1, 'neighbouring instances')
        l = strip({(y[0] if type(y) is tuple else y) for y in B.labels(x, s)})
        if l:
            env.find('another instance keeps a trace', '%s / %s' % (spec.name, when),
                     'an instance of %s %s depends on %s of another instance' % (
                         spec.name, when, ', '.join(sorted(map(str, l)))))
    for p, got in before.items():
        if not got:
            raise MissingAnchor('%s.%s' % (spec.name, p))
        now, _ = D.get(good, b, p)
        env.ok(1, 'settings of the neighbour')
        if now and now[0][0].atoms != got[0][0].atoms and not now[0][0].has_unknown():
            env.find('setting of another instance changed', '%s.%s' % (spec.name, p),
                     'using one %s changes the setting %s of another' % (spec.name, p))
    # training the neighbour on its own data must give results free of the first one's
    if spec.kind in ('trans', 'sup'):
        s = good.copy()
        g2, bad, exc = B.train(spec, s, b, tag='9', way=way)
        if g2 is None:
            return
        meet(env, spec, o, b, g2)
        for meth, what in inference_calls(spec):
            s2 = g2.copy()
            t = B.infer_arg(spec, s2, what, name='T9', rows='m9', p='p9', q='q9')
            outs, exc = D.method(s2, b, meth, [t])
            for v, s3 in outs:
                env.ok(1, 'results of the neighbour')
                if is_unknown(env, v, s3):
                    env.skip('not followed')
                    continue
                l = {x for x in strip(content(env, v, s3)) if x in ('X1', 'Y1', 'X21', 'X31', 'Y21', 'T')
                     or str(x).startswith('P:')}
                if l:
                    env.find('results of another instance depend on it', '%s.%s' % (spec.name, meth),
                             '%s.%s of one instance depends on %s of another' % (spec.name, meth, ', '.join(sorted(l))))
    env.sample('%s (%s)' % (spec.name, cfg_name(cfg)))
