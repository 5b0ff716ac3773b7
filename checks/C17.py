from checks.common import *
from checks.algebra import OPS, ROLES, ROLE_OF, title as op_title
from checks.C16 import run_op
from checks.C11 import owners

ID = 'C17'
TECHNIQUE = 'static element-provenance analysis (abstract interpretation with axis-aligned dependence labels)'
TITLE = 'Every element of a result is computed from the right elements'
RULE = ('for each axis of each operand, the dependence labels of the result name the documented axis: element (r, c) of '
        'an elementwise operation uses element (r, c) of its operands only, a reduction uses exactly the reduced axis, a '
        'selection the selected index; column j of a feature-wise transformation uses column j of the data it is '
        'applied to and of the data it was trained on only. An operand never vanishes from the result.')
FLOOR = 250
cost = life_cost
FEATUREWISE = ('Center', 'Standardize', 'RobustScaler', 'PowerTransformer', 'QuantileTransformer', 'Log', 'PassThrough')


def cases(tier, env):
    return [('op', i) for i, o in enumerate(OPS) if o[4]] + life_cases(env, names=FEATUREWISE)


def labels_of(env, st, v):
    out = set(v.labels)
    for oid, o in owners(st, v):
        out |= set(env.I.lib.nd_labels(oid, st))
    return out


def axes(spec):
    """'+rc' -> ['+r', 'c']"""
    out = []
    i = 0
    while i < len(spec):
        n = 2 if spec[i] == '+' else 1
        out.append(spec[i:i + n])
        i += n
    return out


NAMES = {0: 'row', 1: 'column'}
WORDS = {'r': 'the same row', 'c': 'the same column', '*': 'all of them', 'i': 'the selected one'}


def kind(x):
    if x == 0:
        return 'r'
    if x == 1:
        return 'c'
    if x == '*':
        return '*'
    if type(x) is tuple and x[0] == 'i':
        return 'i'
    return '?'


def check_axis(env, who, name, ax, want, got, idx):
    if want == '-':
        return
    env.ok(1, 'operand axis')
    kinds = {kind(x) for x in got}
    w = want[-1]
    ok = {w} | ({'*'} if want[0] == '+' else set())
    if '?' in kinds:
        env.skip('element relation not followed: %s' % who)
        return
    if not got:
        env.find('operand ignored', '%s / %s' % (who, name), 'the result of %s does not depend on operand %s' % (who, name))
        return
    if w not in kinds or want[0] == '+' and '*' not in kinds:
        env.find('wrong elements', '%s / %s %ss' % (who, name, NAMES[ax]),
                 'an element of the result of %s uses the %ss of operand %s as %s instead of %s' % (
                     who, NAMES[ax], name, ', '.join(sorted(WORDS[k] for k in kinds)), WORDS[w]))
        return
    if kinds - ok:
        env.find('wrong elements', '%s / %s %ss' % (who, name, NAMES[ax]),
                 'an element of the result of %s uses other %ss of operand %s (%s) than %s' % (
                     who, NAMES[ax], name, ', '.join(sorted(WORDS[k] for k in kinds - ok)), WORDS[w]))
        return
    if w == 'i' and idx is not None:
        for x in got:
            if kind(x) == 'i' and x[1] is not None and x[1] != idx:
                # an index the analysis names itself (a loop variable) may well be the right one
                if all(not s.startswith('%') for s, _ in x[1][1]):
                    env.find('wrong elements', '%s / %s %ss' % (who, name, NAMES[ax]),
                             '%s reads %s %s of operand %s instead of the selected one' % (
                                 who, NAMES[ax], lin_str(x[1]), name))


ENTERS = {'+n': 'added', '-n': 'subtracted', '+np': 'a factor', '-np': 'a negated factor', '+dp': 'a divisor',
          '-dp': 'a negated divisor'}


def arithmetic(env, o, who, labs):
    """the operands are added, subtracted, multiplied or divided as the name of the operation says"""
    if o[0].endswith('factory'):
        return
    for i, r in enumerate(ROLES.get(o[1], '')):
        nm = 'ABCDE'[i]
        got = set()
        for l in labs:
            sr = split_role(l)
            if sr and sr[0] == nm:
                got.add(sr[1])
        if not got or '??' in got:
            continue
        env.ok(1, 'arithmetic role')
        want = {ROLE_OF[r]}
        if o[3] in ('self', 'arg0') and i == 0:
            want.add('+n')      # elements not touched
        if got - want:
            env.find('wrong operation', '%s / operand %d' % (who, i + 1), 'in %s operand %d is %s, documented is %s' % (
                who, i + 1, ', '.join(sorted(ENTERS.get(x, x) for x in got - want)), ENTERS[ROLE_OF[r]]))


def op(env, o):
    who = op_title(o)
    env.sample(who)
    args, outs = run_op(env, o)
    codes = ([o[0]] if '.' not in o[0] else []) + list(o[2])
    idxs = [lin_sym('i_' + 'ABCDE'[i]) for i, c in enumerate(codes) if c == 'i']
    for v, st in outs:
        if v.has_unknown():
            env.skip('not followed: ' + who)
            continue
        labs = labels_of(env, st, v)
        if labs & {('?', '?')}:
            continue
        arithmetic(env, o, who, labs)
        for i, spec in enumerate(o[4]):
            nm = 'ABCDE'[i]
            if spec == 'x':
                env.ok(1, 'number operand')
                if not any((l[0] if type(l) is tuple else l) == nm for l in labs):
                    env.find('operand ignored', '%s / %s' % (who, nm),
                             'the result of %s does not depend on its number argument' % who)
                continue
            if not spec:
                continue
            ws = axes(spec)
            k = 0
            for ax, want in enumerate(ws):
                key = nm if ax == 0 else nm + "'"
                got = {l[1] for l in labs if type(l) is tuple and l[0] == key}
                idx = None
                if want == 'i':
                    idx = idxs[k] if k < len(idxs) else None
                    k += 1
                check_axis(env, who, 'number %d' % (i + 1), ax, want, got, idx)


def run(case, env):
    B, D, I = env.B, env.D, env.I
    if case[0] == 'op':
        return op(env, OPS[case[1]])
    spec, cfg, way, o, st = setup(env, case)
    env.sample('%s (%s)' % (spec.name, cfg_name(cfg)))
    st, bad, exc = B.train(spec, st, o, way=way, labels=lambda n: [("X'", 1)])
    if st is None:
        env.skip('training never succeeds')
        return
    for meth, what in inference_calls(spec):
        s = st.copy()
        t = B.infer_arg(spec, s, what, labels=[("T'", 1)])
        outs, exc = D.method(s, o, meth, [t])
        for v, s2 in outs:
            if is_unknown(env, v, s2):
                env.skip('not followed')
                continue
            labs = labels_of(env, s2, v)
            for key, name in (("T'", 'given'), ("X'", 'training')):
                got = {l[1] for l in labs if type(l) is tuple and l[0] == key}
                if key == "X'" and not got:
                    continue
                check_axis(env, '%s.%s' % (spec.name, meth), name + ' data', 1, 'c', got, None)
