from checks.common import *

ID = 'C15'
TECHNIQUE = 'static dependence analysis of learnt preprocessing statistics (abstract interpretation)'
TITLE = 'Preprocessing learnt in training is applied in every use'
RULE = ('the statistics of every preprocessing step that a trained instance keeps reach every result they belong to: those '
        'of the predictors reach each transformation and prediction, those of the response reach each prediction, the '
        'statistics of response column i in column i of the prediction only. Centres and scales of the predictors are '
        'subtracted and divided by exactly once, those of the response multiplied with and added last.')
FLOOR = 60
cost = life_cost
# its scores are defined on the unscaled predictors
RAW = {('SparsePLS', 'transform')}
# keeps one centring per domain
ANY_CENTRE = {'DIPLS'}
# statistics of the response kept besides those of the preprocessing
EXTRA = {'DIPLS': 1}
# multiply the coefficients by the response deviations once, in training
FOLDED = {('NIPALS', 'response'), ('CCARegression', 'response')}


def cases(tier, env):
    return life_cases(env, ('sup',))


def transformations(env, st, o):
    """transformation instances a trained model keeps, with their learnt arrays: {oid: (class name, [owner ids])}"""
    I = env.I
    out = {}
    for i in sorted(reach(st, [o])):
        h = st.heap[i]
        if h.kind != 'inst' or V((('o', i),)).atoms == o.atoms:
            continue
        if not any('.transformation.' in c for c in map(str, I.mro(h.cls))):
            continue
        own = []
        for n, v in sorted(h.f.items()):
            own += [(n, b) for b in sorted(storages(st, reach(st, [v])))]
        out[i] = (h.cls.rsplit('.', 1)[-1], own)
    return out


def side_of(names):
    x = any(n.startswith('X') for n in names)
    y = any(n.startswith('Y') for n in names)
    return 'predictors' if x and not y else 'response' if y and not x else None


def plain_fields(env, st, o, skip):
    """learnt numbers and lists of numbers outside the transformations: [(holder, field)]"""
    out = []
    for i in sorted(reach(st, [o]) - skip):
        h = st.heap[i]
        if h.kind != 'inst' or (h.cls and h.cls.endswith('.Matrix')):
            continue
        for n, v in sorted(h.f.items()):
            if v.atoms and all(is_num_atom(a) for a in v.atoms) and v.labels:
                out.append((i, n, None))
            elif len(v.atoms) == 1 and v.objs() and st.heap[v.objs()[0]].kind in ('list', 'tuple'):
                out.append((i, n, v.objs()[0]))
    return out


def mark(env, spec, st, o):
    """give every learnt statistic a label of its own: (per transformation needs, labels of other statistics)"""
    I = env.I
    tr = transformations(env, st, o)
    need, inside = [], set()
    multi = spec.train == 'multi'
    for k, (oid, (cls, own)) in enumerate(sorted(tr.items())):
        inside |= reach(st, [V((('o', oid),))])
        labs = {'predictors': [], 'response': []}
        for field, b in own:
            h = st.heap[b]
            side = side_of({(l[0] if type(l) is tuple else l) for l in I.lib.nd_labels(b, st)})
            if side is None:
                continue
            lab = 'S%d:%s' % (k, field)
            st.heap[b] = h.seta(lab=(h.aux.get('lab') or EMPTY) | {(lab, 1), role_label(lab)})
            labs[side].append((lab, '%s.%s' % (cls, field)))
        for side, ls in labs.items():
            if ls:
                need.append((side, ls, cls))
    other = set()
    for k, (i, n, seq) in enumerate(plain_fields(env, st, o, inside)):
        h = st.heap[i]
        v = h.f[n]
        lab = 'F%d:%s' % (k, n)
        if seq is None:
            if side_of({(l[0] if type(l) is tuple else l) for l in v.labels}) == 'response':
                st.heap[i] = h.setf(n, v.with_labels(frozenset([(lab, '?'), role_label(lab)])))
                other.add(lab)
            continue
        q = st.heap[seq]
        items = q.aux.get('items')
        vals = list(items) if items else [q.aux['elem']] if q.aux.get('elem') is not None else []
        names = {(l[0] if type(l) is tuple else l) for x in vals for l in x.labels}
        if not vals or side_of(names) != 'response' or not all(is_num_atom(a) for x in vals for a in x.atoms):
            continue
        if multi:
            env.ok(1, 'statistics per response column')
            for x in vals:
                for l in x.labels:
                    if type(l) is tuple and len(l) == 2 and (l[1] in (0, '*') or type(l[1]) is tuple and l[1][0] == 'i'
                                                             and l[1][1] is not None and not l[1][1][1] and not items):
                        env.find('statistics of another response column', '%s.%s' % (spec.name, n),
                                 'training %s keeps in %s, for each response column, a statistic of %s' % (
                                     spec.name, n, 'column %d' % l[1][1][0] if type(l[1]) is tuple else 'all columns'))
        if items:
            st.heap[seq] = q.seta(items=tuple(x.with_labels(frozenset([(lab, '?'), role_label(lab)])) for x in items))
        else:
            st.heap[seq] = q.seta(elem=q.aux['elem'].with_labels(frozenset([(lab, 'l'), role_label(lab)])))
        other.add(lab)
    return need, other


class Learning:
    """labels the statistics a transformation learns at the moment it stores them"""

    def __init__(self, env, name):
        self.env = env
        self.I = env.I
        self.name = name
        self.again = []

    def __call__(self, kind, st, node, d):
        if kind != 'setattr':
            return
        h = st.heap.get(d['oid'])
        if h is None or h.kind != 'inst' or not any('.transformation.' in str(c) for c in self.I.mro(h.cls)):
            return
        for b in storages(st, reach(st, [d['value']])):
            x = st.heap[b]
            old = x.aux.get('lab') or EMPTY
            if d['value'].single() and d.get('old') is not None and b not in storages(st, reach(st, [d['old']])) \
                    and 'L%s:%s' % (d['oid'], d['attr']) in {(l[0] if type(l) is tuple else l) for l in old}:
                self.again.append((d['oid'], d['attr'], h.cls.rsplit('.', 1)[-1], self.I.where(node), self.I.trace()[1:]))
            lab = 'L%s:%s' % (d['oid'], d['attr'])
            st.heap[b] = x.seta(lab=(x.aux.get('lab') or EMPTY) | {lab, role_label(lab)})


def learnt_from(env, spec, cfg, st, o):
    """what was learnt was learnt from the preprocessed data"""
    I = env.I
    tr = transformations(env, st, o)
    inside = set()
    for oid in tr:
        inside |= reach(st, [V((('o', oid),))])
    inside |= {b for oid in tr for _, b in tr[oid][1]}
    labs = set()
    for i in reach(st, [o]) - inside:
        h = st.heap[i]
        if h.kind == 'nd':
            labs |= set(I.lib.nd_labels(i, st))
        for v in h.f.values():
            if not v.objs():
                labs |= set(v.labels)
    names = {(l[0] if type(l) is tuple else l) for l in labs}
    for oid, (cls, own) in sorted(tr.items()):
        for n in sorted({f for f, b in own}):
            if not any('L%s:%s' % (oid, n) in (I.lib.nd_labels(b, st)) for f, b in own if f == n):
                continue
            env.ok(1, 'training data preprocessed')
            if 'L%s:%s' % (oid, n) not in names:
                who = [k for x in o.objs() for k, v in st.heap[x].f.items() if ('o', oid) in v.atoms]
                env.find('learnt preprocessing not applied', '%s training / %s.%s' % (spec.name, (who or [cls])[0], n),
                         'training %s does not use %s of the %s it keeps as %s, which is applied when the model is '
                         'used' % (spec.name, n, cls, ', '.join(who)))


def folded(env, spec, st, o):
    """deviations that training multiplied into what it learnt"""
    I = env.I
    tr = transformations(env, st, o)
    inside = {b for oid in tr for _, b in tr[oid][1]}
    for oid in tr:
        inside |= reach(st, [V((('o', oid),))])
    roles = {}
    for i in reach(st, [o]) - inside:
        if st.heap[i].kind == 'nd':
            for l in I.lib.nd_labels(i, st):
                sr = split_role(l)
                if sr:
                    roles.setdefault(sr[0], set()).add(sr[1])
    out = set()
    for k, (oid, (cls, own)) in enumerate(sorted(tr.items())):
        for n in sorted({f for f, b in own if statistic(f) == 'scale'}):
            rs = roles.get('L%s:%s' % (oid, n))
            if rs is not None and any(r[0] == '+' and r[1] in 'nN' for r in rs):
                out.add('S%d:%s' % (k, n))
    return out


def run(case, env):
    B, D, I = env.B, env.D, env.I
    spec, cfg, way, o, st = setup(env, case)
    env.sample('%s (%s)' % (spec.name, cfg_name(cfg)))
    learning = Learning(env, spec.name)
    with listening(env, learning):
        st, bad, exc = B.train(spec, st, o, way=way, labels=lambda b: [b, (b, 1)] if b.startswith('Y') else [b])
    if st is None:
        env.skip('training never succeeds')
        return
    learnt_from(env, spec, cfg, st, o)
    own = {a[1] for x in o.objs() for v in st.heap[x].f.values() for a in v.atoms if a[0] == 'o'}
    for oid, attr, cls, where, trace in learning.again:
        if oid in own:
            env.find('learnt from preprocessed data', '%s / %s.%s' % (spec.name, cls, attr),
                     'training %s learns %s of a %s from data which that same step already preprocessed' % (
                         spec.name, attr, cls), where, trace)
    fold = folded(env, spec, st, o)
    need, other = mark(env, spec, st, o)
    for meth, what, rows in [c + (r,) for c in inference_calls(spec) for r in ('m', 1)]:
        s = st.copy()
        t = B.infer_arg(spec, s, what, rows=rows, labels=['T'])
        outs, exc = D.method(s, o, meth, [t])
        for v, s2 in outs:
            if is_unknown(env, v, s2):
                env.skip('not followed')
                continue
            labs = set(v.labels)
            for i in storages(s2, reach(s2, [v])):
                labs |= set(I.lib.nd_labels(i, s2))
            roles = {}
            for l in labs:
                sr = split_role(l)
                if sr:
                    roles.setdefault(sr[0], set()).add(sr[1])
            in_use(env, spec, meth, what, need, other, roles)
            judge(env, spec, cfg, meth, what, need, other, labs, fold)


def statistic(name):
    n = name.split(':')[-1]
    return 'centre' if 'mean' in n or 'center' in n or 'centre' in n else 'scale' if 'std' in n or 'dev' in n else None


def in_use(env, spec, meth, what, need, other, roles):
    """centres of the predictors are subtracted and their scales divided by, those of the response added and multiplied"""
    side = {}
    for sd, ls, cls in need:
        for l, f in ls:
            side[l] = (sd, f)
    for l in other:
        side[l] = ('response', l.split(':')[-1])
    # of several nested steps only the outermost centre is added last; inner ones are scaled by the outer steps
    outer = any(sd == 'response' and statistic(l) == 'centre' and '+n' in roles.get(l, ()) for l, (sd, f) in side.items())
    for l, rs in sorted(roles.items()):
        if l not in side or '??' in rs:
            continue
        sd, f = side[l]
        kind = statistic(l)
        back = sd == 'response' and meth == 'predict'
        if sd == 'response' and not back and what != 'R':
            continue
        env.ok(1, 'arithmetic of ' + sd + ' statistics')
        if back:
            bad = {r for r in rs if r[0] != '+' or r[1] in 'dD'}
            if kind == 'centre' and '+n' not in rs and not (outer and '+np' in rs):
                bad |= rs
            if kind == 'scale' and '+np' not in rs:
                bad |= rs
            want = 'added last' if kind == 'centre' else 'multiplied with' if kind == 'scale' else 'undone'
        else:
            if kind == 'centre':
                bad = set() if any(r[0] == '-' and r[1] == 'n' for r in rs) else rs
                want = 'subtracted once'
            elif kind == 'scale':
                bad = set() if any(r[1] == 'd' for r in rs) else rs
                want = 'divided by once'
            else:
                continue
        if bad:
            env.find('preprocessing misapplied', '%s.%s / %s of the %s' % (spec.name, meth, f, sd),
                     '%s.%s does not apply %s of the %s as it must (%s): enters as %s' % (
                         spec.name, meth, f, sd, want, ', '.join(sorted(bad))))


def judge(env, spec, cfg, meth, what, need, other, labs, fold):
    names = {l[0] for l in labs if type(l) is tuple}
    extra = len(names & other) - EXTRA.get(spec.name, 0)
    if spec.name in ANY_CENTRE:
        # several centrings of one kind are learnt and the strategy decides which one applies
        insts = [ls for side, ls, cls in need if side == 'predictors']
        hit = [ls for ls in insts if all(l in names for l, _ in ls)]
        want = 1 + (cfg['preprocessing_type'][-1] != 'NONE')
        env.ok(1, 'predictors statistics in ' + meth)
        if len(insts) >= want > len(hit):
            env.find('learnt preprocessing not applied', '%s.%s / predictors' % (spec.name, meth),
                     '%s.%s skips a centring or scaling of the predictors that training applied' % (spec.name, meth))
    for side, ls, cls in need:
        if what == 'R' and side == 'predictors' or what == 'T' and side == 'response' and meth != 'predict':
            continue
        if side == 'predictors' and ((spec.name, meth) in RAW or spec.name in ANY_CENTRE):
            continue
        env.ok(len(ls), '%s statistics in %s' % (side, meth))
        miss = [f for l, f in ls if l not in names]
        if (spec.name, side) in FOLDED and len(miss) < len(ls):
            env.ok(len(miss), 'response scale folded into the model')
            miss = [f for l, f in ls if l not in names and l not in fold]
        if miss and not (side == 'response' and extra >= len(ls)):
            env.find('learnt preprocessing not applied', '%s.%s / %s of the %s' % (spec.name, meth, miss[0], side),
                     '%s.%s does not use %s, learnt from the %s and applied in training' % (
                         spec.name, meth, ', '.join(miss), side))
    if meth == 'predict' and spec.train == 'multi':
        ys = {l for side, ls, cls in need if side == 'response' for l, _ in ls} | other
        for l in labs:
            if type(l) is tuple and l[0] in ys:
                env.ok(1, 'alignment of response columns')
                if l[1] in ('*', 0) or type(l[1]) is tuple:
                    env.find('response columns mixed up', '%s.%s / %s' % (spec.name, meth, l[0].split(':')[-1]),
                             'a column of the result of %s.%s uses the statistics of another response column' % (
                                 spec.name, meth))
