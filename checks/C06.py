from checks.common import *

ID = 'C06'
TECHNIQUE = 'static typestate and dependence analysis (abstract interpretation)'
TITLE = 'Changing a setting discards what was learnt'
RULE = ('after training, assigning an accepted value to any setting leaves no path on which the old model is applied: '
        'trained models refuse until trained again, transformations no longer let the earlier data reach '
        'their result; and the value the setting had before reaches no result of the instance, retrained or not.')
FLOOR = 300
cost = life_cost


def cases(tier, env):
    out = []
    for c in life_cases(env, ('sup', 'trans')):
        if c[1] in ('PRM', 'NIPALS', 'SparsePLS'):          # slow ones: one setting at a time
            out += [c + (p,) for p in BY_NAME[c[1]].params]
        elif BY_NAME[c[1]].params:
            out.append(c)
    return out


def stale(env, spec, p, meth, res):
    for rv, rs in res:
        env.ok(1, 'earlier values of settings')
        if is_unknown(env, rv, rs):
            env.skip('result not followed')
        elif 'P:' + p in content(env, rv, rs):
            env.find('earlier value of a setting still in use', '%s.%s / %s' % (spec.name, p, meth),
                     '%s.%s still uses the value %s had before it was changed' % (spec.name, meth, p))


def run(case, env):
    B, D = env.B, env.D
    spec, cfg, way, o, st = setup(env, case, labels=True)
    good, bad, exc = B.train(spec, st, o, way=way)
    if good is None:
        env.skip('training never succeeds')
        return
    for p, dom in spec.params.items():
        if not dom.state or case[4:] and case[4] != p:
            continue
        for region in dom.ok:
            s = good.copy()
            v = B.value(s, region, 'N:' + p, 'new_' + p if region[0] == 'int' else None)
            outs, exc = D.set(s, o, p, v)
            for _, s1 in outs:
                for meth, what in inference_calls(spec):
                    s2 = s1.copy()
                    t = B.infer_arg(spec, s2, what)
                    res, exc = D.method(s2, o, meth, [t])
                    env.ok(1, 'setting changes')
                    entry = '%s.%s' % (spec.name, p)
                    if spec.kind == 'sup':
                        if res:
                            env.find('old model applied after setting change', '%s / %s' % (entry, meth),
                                     '%s.%s still returns a result after %s was changed without retraining' % (
                                         spec.name, meth, p))
                    else:
                        stale(env, spec, p, meth, res)
                        for rv, rs in res:
                            if is_unknown(env, rv, rs):
                                env.skip('result not followed')
                            elif 'X1' in content(env, rv, rs):
                                env.find('old configuration applied after setting change', '%s / %s' % (entry, meth),
                                         '%s.%s still uses the data learnt before %s was changed' % (
                                             spec.name, meth, p))
                if spec.kind == 'sup':
                    env.ok(1, 'trained flag')
                    if True in B.bool_of(s1.copy(), o, 'is_initialised'):
                        env.find('still marked as trained after setting change', '%s.%s' % (spec.name, p),
                                 '%s stays trained when %s is changed' % (spec.name, p))
            if spec.kind == 'sup' and region is dom.ok[0] and case[2] == 0:
                for _, s1 in outs[:1]:
                    if spec.train == 'dipls':
                        # keeps its centring filters across trainings (known finding of C09)
                        s1 = reset_centres(env, s1.copy(), o)
                    s2, bad, exc = B.train(spec, s1.copy(), o, way=way, tag='2')
                    if s2 is None:
                        continue
                    for meth, what in inference_calls(spec):
                        s3 = s2.copy()
                        t = B.infer_arg(spec, s3, what, p='p2', q='q2')
                        stale(env, spec, p, meth, D.method(s3, o, meth, [t])[0])
    env.sample('%s (%s): settings %s' % (spec.name, cfg_name(cfg), ', '.join(spec.params)))
