from checks.common import *

ID = 'C04'
TECHNIQUE = 'static typestate analysis over all paths (abstract interpretation)'
TITLE = 'An untrained model refuses to produce results'
RULE = ('on every path, applying an instance that has not been trained (fresh, configured, or reset after training) ends '
        'in an explicit not-initialised error and never in a result.')
FLOOR = 150
cost = life_cost
REFUSALS = {'x:RuntimeError', 'cls:wai.ma.core.error._MatrixAlgorithmsError.MatrixAlgorithmsError'}


def cases(tier, env):
    return life_cases(env, ('sup',)) + [('ica', 0)]


def refused(env, st, o, spec, meth, arg, when):
    D = env.D
    outs, exc = D.method(st, o, meth, arg)
    env.ok(1, 'applications of an untrained instance')
    entry = '%s.%s' % (spec.name, meth)
    if outs:
        env.find('untrained instance produces a result', '%s / %s' % (entry, when),
                 '%s returns a result although the instance is not trained (%s)' % (entry, when))
        return
    names = D.excnames(exc)
    wrong = [n for n in names if n != '?' and not refusal(env, n)]
    if wrong:
        env.find('untrained instance fails without saying so', '%s / %s' % (entry, when),
                 '%s on an untrained instance (%s) fails with %s instead of a not-initialised error' % (
                     entry, when, ', '.join(wrong)))


def refusal(env, n):
    if n in REFUSALS or n.endswith('.MatrixAlgorithmsError'):
        return True
    if n.startswith('cls:'):
        return any(b in ('x:RuntimeError', 'RuntimeError') for b in env.I.ext_bases(n)) or \
            any(str(b).endswith('MatrixAlgorithmsError') for b in env.I.mro(n))
    return False


def run(case, env):
    B, D = env.B, env.D
    if case[0] == 'ica':
        spec = BY_NAME['FastICA']
        for cfg in B.configs(spec):
            o, st = B.make(spec, cfg)
            refused(env, st, o, spec, 'reconstruct', [], 'never trained')
        return
    spec, cfg, way, o, st = setup(env, case)
    env.sample('%s (%s)' % (spec.name, cfg_name(cfg)))
    for meth, what in inference_calls(spec):
        s = st.copy()
        t = B.infer_arg(spec, s, what)
        refused(env, s, o, spec, meth, [t], 'never trained')
    if 'num_components' in spec.params:
        # the number of components is not restricted when it is set
        r = B.make(spec, dict(cfg, num_components=('int', -INF, 0)))
        if r is not None:
            for meth, what in inference_calls(spec):
                s = r[1].copy()
                t = B.infer_arg(spec, s, what)
                refused(env, s, r[0], spec, meth, [t], 'never trained, no components')
        spec, cfg, way, o, st = setup(env, case)
    b = B.bool_of(st.copy(), o, 'is_initialised')
    env.ok(1, 'trained flag')
    if True in b:
        env.find('untrained instance claims to be trained', spec.name + '.is_initialised',
                 '%s.is_initialised() can be true before training' % spec.name)
    good, bad, exc = B.train(spec, st, o, way=way)
    if good is None:
        env.skip('training never succeeds')
        return
    outs, exc = D.method(good, o, 'reset', [])
    for v, s0 in outs:
        for meth, what in inference_calls(spec):
            s = s0.copy()
            t = B.infer_arg(spec, s, what)
            refused(env, s, o, spec, meth, [t], 'reset after training')
