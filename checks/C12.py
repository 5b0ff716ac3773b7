from checks.common import *
from engine.lib import NONDET
from checks import surface as S
from checks.api import K_, F_, T_

ID = 'C12'
TECHNIQUE = 'static effect analysis for sources of nondeterminism (abstract interpretation)'
TITLE = 'Results are reproducible and independent of global random state'
RULE = ('no public call reads or writes process-wide random state, the clock, the environment or the identity/hash order '
        'of objects; the random matrix factories draw from a generator seeded with the caller\'s seed alone, which reaches '
        'the result; library estimators with random behaviour receive a fixed seed.')
FLOOR = 250
cost = life_cost
CLOCK = ('time.', 'datetime.', 'os.environ', 'os.getenv', 'os.urandom', 'os.getpid', 'uuid.', 'secrets.', 'random.',
         'socket.', 'platform.')


def cases(tier, env):
    out = life_cases(env)
    out += [('matrix', i) for i in range(len(S.MATRIX_METHODS))]
    out += [('function', i) for i in range(len(S.FUNCTIONS))]
    out += [('seed', n, w) for n in ('rand', 'randn', 'rand_like', 'randn_like') for w in ('reaches', 'default')]
    out += [('kernel', k, m) for k in S.KERNELS for m in ('apply_vector', 'apply_matrix')]
    return out


class Nondet:
    def __init__(self, env, entry):
        self.env = env
        self.entry = entry

    def __call__(self, kind, st, node, d):
        I = self.env.I
        name = d.get('name')
        if kind == 'nondet':
            why = 'changes' if d.get('write') else 'depends on'
        elif kind == 'globalset':
            why = 'changes'
        elif kind == 'extcall' and str(name).startswith(CLOCK) and not str(name).startswith(('random.Random',)):
            if name in ('os.getenv',) or not str(name).startswith('os.') or True:
                why = 'depends on'
        else:
            return
        self.env.find('global state', '%s > %s' % (I.here(), name),
                      '%s %s process-wide state through %s (in %s)' % (self.entry, why, name, I.here()),
                      I.where(node), I.trace()[1:])


def results(env, entry, outs):
    for v, s in outs:
        env.ok(1, 'results')
        if NONDET in content(env, v, s):
            env.find('result depends on object identity or hash order', entry,
                     '%s depends on a value that differs between runs (object identity, hash or unseeded generator)' % entry)


def run(case, env):
    B, D = env.B, env.D
    st = None
    if case[0] == 'life':
        spec, cfg, way, o, st = setup(env, case)
        n = Nondet(env, spec.name)
        with listening(env, n):
            good = st
            if spec.kind != 'filter':
                good, bad, exc = B.train(spec, st, o, way=way)
            env.ok(1, 'training calls')
            if good is None:
                env.skip('training never succeeds')
                return
            for meth, what in inference_calls(spec):
                s = good.copy()
                t = B.infer_arg(spec, s, what)
                results(env, '%s.%s' % (spec.name, meth), D.method(s, o, meth, [t])[0])
                env.ok(1, 'applications')
    elif case[0] in ('matrix', 'function'):
        f = (S.MATRIX_METHODS if case[0] == 'matrix' else S.FUNCTIONS)[case[1]]
        st = B.reset()
        a = S.Args(env, st)
        args = [a.value(c) for c in ([f.recv] if case[0] == 'matrix' else []) + f.args]
        with listening(env, Nondet(env, S.describe(f))):
            outs, exc = S.call(env, st, f, args)
        results(env, S.describe(f), outs)
        env.ok(1, 'function calls')
        env.sample(S.describe(f))
    elif case[0] == 'kernel':
        st = B.reset()
        a = S.Args(env, st)
        o, st = B.construct(st, K_, case[1])
        a.st = st
        args = [a.value('n1'), a.value('n1b')] if case[2] == 'apply_vector' else [a.value('np'), a.value('mp')]
        with listening(env, Nondet(env, case[1] + '.' + case[2])):
            D.method(st, o, case[2], args)
        env.ok(1, 'function calls')
    elif case[0] == 'seed':
        st = B.reset()
        a = S.Args(env, st)
        first = [a.value('np', labels=['A'])] if case[1].endswith('_like') else [num('int', 1, INF, D.dim('r', 1)),
                                                                                 num('int', 1, INF, D.dim('c', 1))]
        if case[2] == 'reaches':
            first.append(num('int', 0, 2 ** 32 - 1, D.dim('seed', 0), frozenset(['SEED'])))
        elif case[1].endswith('_like'):
            return
        with listening(env, Nondet(env, 'factory.' + case[1])):
            outs, exc = D.function(st, S.FACTORY, case[1], first)
        if not outs:
            raise MissingAnchor('factory.' + case[1])
        for v, s in outs:
            env.ok(1, 'seeded factories')
            if is_unknown(env, v, s):
                env.skip('not followed')
            elif case[2] == 'reaches' and 'SEED' not in content(env, v, s):
                env.find('seed ignored', 'factory.' + case[1], 'the seed given to factory.%s does not reach its result' % case[1])
