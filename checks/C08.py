from checks.common import *

ID = 'C08'
TECHNIQUE = 'static effect and dependence analysis (abstract interpretation)'
TITLE = 'Applying a trained model does not change it'
RULE = ('a call that applies a trained instance writes to none of the arrays the instance owns, replaces none of the '
        'values it holds, and leaves no trace of its input in any later result of the instance.')
FLOOR = 500
cost = life_cost
# learns nothing: documented to look at every input afresh, so its fields are scratch values (its later results are
# still checked)
STATELESS = {'RowNorm'}


def cases(tier, env):
    return life_cases(env, ('sup', 'trans', 'filter'))


class Watch:
    def __init__(self, env, entry, spec, st, o):
        self.env = env
        self.entry = entry
        self.spec = spec
        ids = reach(st, [o])
        self.nd = storages(st, ids)
        self.inst = {i for i in ids if st.heap[i].kind == 'inst'}
        self.coll = {i for i in ids if st.heap[i].kind in ('list', 'dict', 'set')}
        self.pre = st

    def __call__(self, kind, st, node, d):
        I = self.env.I
        if kind == 'write':
            if d['oid'] in self.nd or d['oid'] in self.coll:
                self.env.find('model storage written', '%s > %s' % (self.entry, I.here()),
                              '%s writes into storage of the trained model (%s in %s)' % (
                                  self.entry, d.get('how'), I.here()), I.where(node), I.trace()[1:])
        elif kind == 'extwrite' and d['oid'] in reachset(self):
            self.env.find('model object changed', '%s > %s' % (self.entry, I.here()),
                          '%s refits an object of the trained model (%s in %s)' % (self.entry, d.get('how'), I.here()),
                          I.where(node), I.trace()[1:])
        elif kind == 'setattr' and d['oid'] in self.inst:
            o = self.pre.heap[d['oid']]
            if o.cls and o.cls.endswith('.Matrix') and d['attr'] != 'data':
                return
            old = o.f.get(d['attr'])
            if old is None or old.single() == NONE_ATOM:
                return              # filled in lazily; what matters is whether later results show it
            if self.spec.name in STATELESS:
                return
            v = d['value']
            if v.has_unknown() or v.atoms == old.atoms:
                return
            if all(a[0] == 'k' for a in v.atoms) and v.atoms <= old.atoms:
                return
            self.env.find('model state replaced', '%s > %s.%s' % (self.entry, I.here(), d['attr']),
                          '%s replaces %s of the trained model (in %s)' % (self.entry, d['attr'], I.here()),
                          I.where(node), I.trace()[1:])


def reachset(w):
    return w.nd | w.inst | w.coll | w.ext


Watch.ext = frozenset()


def run(case, env):
    B, D = env.B, env.D
    spec, cfg, way, o, st = setup(env, case)
    good = st
    if spec.kind != 'filter':
        good, bad, exc = B.train(spec, st, o, way=way)
        if good is None:
            env.skip('training never succeeds')
            return
    calls = inference_calls(spec)
    env.sample('%s (%s): %s' % (spec.name, cfg_name(cfg), ', '.join(m for m, _ in calls)))
    for meth, what in calls:
        entry = '%s.%s' % (spec.name, meth)
        for rows, cols in ((1, 'p1'), ('m1', 'pz'), ('m1', 'p1')):
            if cols == 'pz' and spec.kind == 'trans':
                continue
            s = good.copy()
            t = B.infer_arg(spec, s, what, name='T1', rows=rows, p=cols, q='q1' if cols == 'p1' else 'qz')
            w = Watch(env, entry, spec, s.copy(), o)
            w.ext = frozenset(i for i in reach(s, [o]) if s.heap[i].kind == 'ext')
            with listening(env, w):
                outs, exc = D.method(s, o, meth, [t])
            env.ok(len(w.nd) + len(w.inst), 'protected parts of trained instances')
        if not outs:
            continue
        after = join_list([x for _, x in outs])
        for meth2, what2 in calls:
            s2 = after.copy()
            t2 = B.infer_arg(spec, s2, what2, name='T2', rows='m2')
            outs2, exc2 = D.method(s2, o, meth2, [t2])
            for v, s3 in outs2:
                env.ok(1, 'later results')
                if is_unknown(env, v, s3):
                    env.skip('result not followed')
                elif 'T1' in content(env, v, s3):
                    env.find('earlier input reaches later result', '%s after %s' % (meth2, entry),
                             'the result of %s.%s depends on the input of an earlier %s' % (spec.name, meth2, entry))
        if spec.kind == 'sup':
            env.ok(1, 'trained flag')
            if False in B.bool_of(after.copy(), o, 'is_initialised'):
                env.find('model untrained by use', entry, '%s leaves the trained model untrained' % entry)
