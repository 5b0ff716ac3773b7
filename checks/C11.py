from checks.common import *

ID = 'C11'
TECHNIQUE = 'static row-alignment dependence analysis (abstract interpretation)'
TITLE = 'Each row is transformed and predicted independently of its batch'
RULE = ('in the matrix a trained instance returns, row i depends only on row i of the data it was applied to - never on '
        'another row, nor on the number of rows in the batch.')
FLOOR = 80
cost = life_cost
# source separation and principal components are fitted to the batch they are given; the gradient filter smooths along
# the rows by definition, the scatter correction regresses over the rows of one spectrum
SKIP = {'YGradientGLSWSavitzkyGolayFilter', 'MultiplicativeScatterCorrection'}


def cases(tier, env):
    return [c for c in life_cases(env, ('trans', 'sup', 'filter')) if c[1] not in SKIP]


def owners(st, v):
    """(labels per owner) of every array the result shows"""
    out = []
    for a in v.atoms:
        if a[0] != 'o':
            continue
        o = st.heap.get(a[1])
        if o is None:
            continue
        if o.kind == 'inst' and o.f.get('data') is not None:
            out += owners(st, o.f['data'])
        elif o.kind == 'nd':
            out.append((a[1], o))
    return out


def run(case, env):
    B, D, I = env.B, env.D, env.I
    spec, cfg, way, o, st = setup(env, case)
    env.sample('%s (%s)' % (spec.name, cfg_name(cfg)))
    if spec.kind != 'filter':
        st, bad, exc = B.train(spec, st, o, way=way, labels=lambda n: ['tr'])
        if st is None:
            env.skip('training never succeeds')
            return
    for meth, what in inference_calls(spec):
        s = st.copy()
        t = B.infer_arg(spec, s, what, labels=[('T', 0)])
        outs, exc = D.method(s, o, meth, [t])
        for v, s2 in outs:
            for oid, nd in owners(s2, v):
                env.ok(1, meth)
                labs = I.lib.nd_labels(oid, s2)
                mine = {l[1] for l in labs if type(l) is tuple and l[0] == 'T'}
                env.sample('%s: %s' % (meth, sorted(map(str, labs))))
                if '?' in mine or v.has_unknown():
                    env.skip('row relation not followed: %s.%s' % (spec.name, meth))
                if '*' in mine:
                    env.find('rows mixed', '%s.%s' % (spec.name, meth),
                             'a row of the result of %s.%s depends on other rows of the batch' % (spec.name, meth))
                if 1 in mine or any(type(x) is tuple for x in mine):
                    env.find('rows moved', '%s.%s' % (spec.name, meth),
                             'row i of the result of %s.%s is not computed from row i of the batch' % (spec.name, meth))
                if '#m' in labs:
                    env.find('batch size', '%s.%s' % (spec.name, meth),
                             'the values %s.%s returns depend on the number of rows of the batch' % (spec.name, meth))
