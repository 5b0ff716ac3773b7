from checks.common import *

ID = 'C09'
TECHNIQUE = 'static dependence (taint) analysis of two-training histories (abstract interpretation)'
TITLE = 'Training again forgets the earlier training'
RULE = ('after training on data 1 and then on data 2 (directly, or with a reset or a setting change in between), nothing '
        'an instance returns - transformed data, predictions, named matrices, loadings - depends on data 1.')
FLOOR = 350


def cost(c):
    return 2 * life_cost(c)


def cases(tier, env):
    out = []
    for c in life_cases(env, ('sup', 'trans', 'fit')):
        out.append(c + ('again',))
        out.append(c + ('reset',))
        if BY_NAME[c[1]].train == 'dipls':
            out += [c + (w,) for w in DIPLS_WAYS if w != c[3]] + [c + ('other',)]
    return out


def observations(env, spec, st, o):
    """(name, outcomes) of everything a user can read from a trained instance"""
    B, D = env.B, env.D
    for meth, what in inference_calls(spec):
        s = st.copy()
        t = B.infer_arg(spec, s, what, p='p2', q='q2')
        yield meth, D.method(s, o, meth, [t])[0]
    yield from matrices(env, spec, st, o)
    if spec.name == 'FastICA':
        yield 'reconstruct', D.method(st.copy(), o, 'reconstruct', [])[0]


def matrices(env, spec, st, o):
    D = env.D
    for n in matrix_names(env, st, o):
        yield 'get_matrix(%r)' % n, D.method(st.copy(), o, 'get_matrix', [const(n)])[0]
    for g in ('get_loadings', 'get_means', 'get_std_devs', 'get_projection_matrix'):
        got, _ = D.get(st.copy(), o, g)
        if got and any(a[0] == 'bm' for a in got[0][0].atoms):
            yield g, D.method(st.copy(), o, g, [])[0]
    if spec.name == 'PCA':
        for g in ('loadings', 'scores'):
            got, _ = D.get(st.copy(), o, g)
            if got:
                yield g, [(v, s) for v, s in got]


def matrix_names(env, st, o):
    D = env.D
    got, _ = D.get(st.copy(), o, 'get_matrix_names')
    if not got:
        return []
    outs, exc = D.method(st.copy(), o, 'get_matrix_names', [])
    names = []
    for v, s in outs:
        for a in v.atoms:
            if a[0] == 'o':
                for x in s.heap[a[1]].aux.get('items', ()):
                    k = x.single()
                    if k is not None and k[0] == 'k' and isinstance(k[2], str) and k[2] not in names:
                        names.append(k[2])
    return names


def train(env, spec, st, o, tag, way):
    B, D = env.B, env.D
    if spec.kind == 'fit':
        # these learn from the data they transform
        outs, exc = D.method(st, o, 'transform', B.training_data(spec, st, tag))
        return (D.join(outs)[1] if outs else None), exc
    good, bad, exc = B.train(spec, st, o, tag=tag, way=way)
    return good, exc


class Carried:
    """labels whatever the first training put into the instance (scalars, contents of collections and of arrays) and
    notes which of it the second training builds upon instead of replacing it"""

    def __init__(self, env, pre, st, o):
        self.env = env
        self.names = {}
        self.upon = set()
        self.objects = {}
        for i in reach(st, [o]):
            x, y = pre.heap.get(i), st.heap[i]
            if x is not None and x.same(y):
                continue
            if y.kind == 'inst':
                for k, v in list(y.f.items()):
                    w = x.f.get(k) if x is not None and x.kind == 'inst' else None
                    if (w is None or w.atoms != v.atoms) and all(a[0] in ('n', 'k') for a in v.atoms):
                        y = y.setf(k, self.old(v, self.label((i, k), k)))
            elif y.kind in ('list', 'dict', 'set'):
                l = self.label(i, y.kind)
                kw = {}
                if 'items' in y.aux:
                    kw['items'] = tuple(self.old(v, l) for v in y.aux['items'])
                for k in ('elem', 'length'):
                    if y.aux.get(k) is not None:
                        kw[k] = self.old(y.aux[k], l)
                if y.aux.get('map'):
                    kw['map'] = {k: self.old(v, l) for k, v in y.aux['map'].items()}
                y = y.seta(**kw)
            else:
                continue
            st.heap[i] = y

    def label(self, key, name):
        l = 'OLD:%d' % len(self.names)
        self.names[l] = name
        self.objects[key] = l
        return l

    @staticmethod
    def old(v, l):
        return V(v.atoms, v.labels | {l})

    def __call__(self, kind, st, node, d):
        if kind == 'write' and d['oid'] in self.objects:
            self.upon.add(self.objects[d['oid']])
        elif kind == 'setattr' and (d['oid'], d['attr']) in self.objects:
            l = self.objects[(d['oid'], d['attr'])]
            if l in d['value'].labels:
                self.upon.add(l)


def run(case, env):
    B, D = env.B, env.D
    spec, cfg, way, o, st = setup(env, case[:4])
    pre = st.copy()
    good, exc = train(env, spec, st, o, '1', way)
    if good is None:
        env.skip('training never succeeds')
        return
    st = good
    car = Carried(env, pre, st, o)
    env.ok(len(car.names), 'scalars and collections learnt in the first training')
    mode = case[4]
    way2 = way
    # use it once in between, as a user would
    meth, what = spec.infer[0]
    t = B.infer_arg(spec, st, what, name='T0', rows='m0')
    outs, exc = D.method(st, o, meth, [t])
    if outs:
        st = D.join(outs)[1]
    if mode == 'reset':
        outs, exc = D.method(st, o, 'reset', [])
        if not outs:
            raise MissingAnchor('%s.reset' % spec.name)
        st = D.join(outs)[1]
    elif mode in DIPLS_WAYS:
        way2 = mode
    elif mode == 'other':
        # DIPLS keeps its centring filters across trainings (known finding); everything else must still be forgotten
        st = reset_centres(env, st, o)
    with listening(env, car):
        good, exc = train(env, spec, st, o, '2', way2)
    if good is None:
        env.find('cannot be trained again', '%s / %s' % (spec.name, mode),
                 '%s cannot be trained a second time with data of another shape (%s)' % (
                     spec.name, ', '.join(D.excnames(exc)) or 'refused'))
        return
    for name, outs in observations(env, spec, good, o):
        for v, s in outs:
            env.ok(1, 'observations after second training')
            if is_unknown(env, v, s):
                env.skip('result not followed')
                continue
            old = {l for l in content(env, v, s) if l in ('X1', 'Y1', 'X21', 'X31', 'Y21', 'T0')} | (
                set(content(env, v, s)) & car.upon)
            if old:
                env.find('earlier training data reaches later results', '%s.%s%s' % (
                    spec.name, name.split('(')[0], ' (other than centring)' if mode == 'other' else ''),
                         '%s of %s depends on data of an earlier training (%s; second training: %s)' % (
                             name, spec.name, ', '.join(sorted(car.names.get(x, x) for x in old)), mode))
    env.sample('%s (%s), %s' % (spec.name, cfg_name(cfg), mode))
