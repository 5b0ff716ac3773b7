from checks.common import *

ID = 'C07'
TECHNIQUE = 'static interval analysis of the validators (abstract interpretation)'
TITLE = 'Settings accept every valid value and reject every invalid one'
RULE = ('assigning any value of the documented valid region to a setting stores it; assigning any value of the documented '
        'invalid region raises a ValueError and keeps the previous value.')
FLOOR = 180


def cases(tier, env):
    out = []
    for s in SPECS:
        for p, d in s.params.items():
            for i in range(len(d.ok)):
                out.append(('ok', s.name, p, i))
            for i in range(len(d.bad)):
                out.append(('bad', s.name, p, i))
    return out


def same(a, b):
    return a is not None and b is not None and a.atoms == b.atoms


def run(case, env):
    B, D = env.B, env.D
    kind, name, p, i = case
    spec = BY_NAME[name]
    dom = spec.params[p]
    if dom.ok and dom.ok[0][0] == 'obj' and kind == 'bad':
        return
    r = B.make(spec, {})
    if r is None:
        raise MissingAnchor('%s cannot be constructed' % name)
    o, st = r
    g, _ = D.get(st, o, p)
    if not g:
        raise MissingAnchor('%s.%s' % (name, p))
    before = g[0][0]
    region = (dom.ok if kind == 'ok' else dom.bad)[i]
    v = B.value(st, region, None, 'v_' if region[0] == 'int' else None)
    st0 = st.copy()
    outs, exc = D.set(st, o, p, v)
    env.ok(1, 'accepting' if kind == 'ok' else 'rejecting')
    env.sample('%s.%s = %s must be %s' % (name, p, region, 'accepted' if kind == 'ok' else 'rejected'))
    entry = '%s.%s' % (name, p)
    if kind == 'ok':
        if exc:
            names = D.excnames(exc)
            if set(names) == {'?'}:
                env.skip('not followed')
                return
            env.find('valid value rejected', entry, '%s rejects a valid value (%s): %s' % (
                entry, describe(region), ', '.join(names)))
        for _, s in outs:
            g, _ = D.get(s, o, p)
            for gv, gs in g:
                if gv.has_unknown():
                    env.skip('not followed')
                elif not same(gv, v) and not subsumed(gv, v):
                    env.find('accepted value not stored', entry, '%s does not hold the value it was set to (%s)' % (
                        entry, describe(region)))
    else:
        if outs:
            env.find('invalid value accepted', '%s / %s' % (entry, describe(region)),
                     '%s accepts an invalid value (%s)' % (entry, describe(region)))
        names = D.excnames(exc)
        wrong = [n for n in names if n not in ('x:ValueError', '?') and not value_error(env, n)]
        if wrong:
            env.find('invalid value rejected with another error', entry, '%s raises %s instead of ValueError for %s' % (
                entry, ', '.join(wrong), describe(region)))
        for ev, s in exc:
            g, _ = D.get(s, o, p)
            for gv, gs in g:
                env.ok(1, 'previous value kept')
                if not gv.has_unknown() and not same(gv, before):
                    env.find('rejected value stored', '%s / %s' % (entry, describe(region)),
                             '%s holds the rejected value after raising' % entry)


def subsumed(got, want):
    """got is one of the values want stands for (a boolean test narrowed the region)"""
    if all(a[0] in ('k', 'n') for a in got.atoms) and all(a[0] in ('k', 'n', 'nan') for a in want.atoms):
        def rng(v):
            lo, hi = INF, -INF
            for a in v.atoms:
                if a[0] == 'n':
                    lo, hi = min(lo, a[2]), max(hi, a[3])
                elif a[0] == 'k' and isinstance(a[2], (int, float)):
                    lo, hi = min(lo, a[2]), max(hi, a[2])
            return lo, hi
        g, w = rng(got), rng(want)
        return g == w
    return False


def value_error(env, n):
    return n.startswith('cls:') and any('ValueError' in str(b) for b in env.I.ext_bases(n))


def describe(r):
    if r[0] in ('int', 'real'):
        return '%s in [%s, %s]' % (r[0], r[1], r[2])
    return ' '.join(str(x) for x in r[1:]) or r[0]
