from checks.common import *
from checks import surface as S
from checks.C04 import refusal
from checks.C11 import owners

ID = 'C23'
TECHNIQUE = 'static effect and order analysis of everything written to the stream (abstract interpretation)'
TITLE = 'Saved state is complete and readable'
RULE = ('the values a serialisation writes are, in this order, row count, column count and each element once row by row '
        'for every matrix that makes up the learnt state; numbers are written with sign, in full precision, in one byte '
        'order and in a width that holds them; an untrained instance is refused before anything is written; saving '
        'works for every file name and leaves the instance as it was.')
FLOOR = 150
# class, settings, what is written: names of fields holding a matrix, or of numbers
STATE = {
    'Standardize': ({}, ['means', 'std_devs']),
    'SIMPLS': ({'num_components': ('k', 2)}, ['W']),
    'SavitzkyGolay': ({'num_points_left': ('k', 2), 'num_points_right': ('k', 1), 'polynomial_order': ('k', 2),
                       'derivative_order': ('k', 1)}, ['coefficients']),
}
PATHS = ('model.bin', 'out/model.bin', './model.bin', '/tmp/model.bin')


def cases(tier, env):
    out = [('matrix', r, c) for r, c in ((1, 3), (3, 1), (2, 3), (3, 2))] + [('matrix', 'n', 'p')]
    for n in STATE:
        for i in range(len(env.B.configs(BY_NAME[n]))):
            out += [('state', n, i, p) for p in (3, 1)]
    out += [('log',), ('text',), ('types',)] + [('path', p) for p in PATHS + ('',)]
    out += [('int', k, s) for k in list(range(0, 18)) + [31, 32, 63, 64] for s in (1, -1)] + [('int', None, 0)]
    return out


class Written:
    """the numbers written to a stream, in order"""

    def __init__(self):
        self.seq = []
        self.bytes = 0
        self.opened = []
        self.closed = 0
        self.orders = set()
        self.problems = []

    def __call__(self, kind, st, node, d):
        if kind == 'to_bytes':
            a = list(d['args'])
            ln = a[0] if a else d['kwargs'].get('length', const(1))
            od = a[1] if len(a) > 1 else d['kwargs'].get('byteorder', const('big'))
            sg = d['kwargs'].get('signed', const(False))
            self.seq.append(('int', d['value'], ln, sg))
            self.order(od)
        elif kind == 'extcall' and d['name'] in ('struct.pack', 'struct.pack_into', 'struct.Struct'):
            if len(d['args']) < 2:
                self.seq.append(('?',))
                return
            f = d['args'][0].const()
            if not f[0] or not isinstance(f[1], str):
                self.seq.append(('?',))
                return
            if not f[1].lstrip('<>!=@').isalpha() or len(f[1].lstrip('<>!=@')) != len(d['args']) - 1:
                self.seq.append(('?',))
                return
            for v in d['args'][1:]:
                self.seq.append(('float' if f[1][-1] in 'dfe' else 'int', v, f[1], None))
            if f[1][0] in '<>!':
                self.order(const('little' if f[1][0] == '<' else 'big'))
        elif kind == 'streamwrite':
            self.bytes += 1
        elif kind == 'extcallm' and d['name'] == 'tobytes':
            self.seq.append(('?',))
        elif kind == 'open':
            self.opened.append((list(d['args']), dict(d['kwargs'])))
        elif kind in ('streamclose', 'with'):
            self.closed += 1

    def order(self, v):
        c = v.const()
        if c[0]:
            self.orders.add(c[1])


def fits(env, who, e):
    """the width of an integer holds every value it is used for"""
    if e[0] != 'int' or e[3] is None:
        return
    ln = e[2].const()
    sg = e[3].const()
    env.ok(1, 'integer widths')
    for a in e[1].atoms:
        r = num_range(a)
        if r is None:
            continue
        lo, hi = r[1], r[2]
        if sg == (True, False) and lo < 0:
            env.find('number not preserved', '%s / sign' % who, '%s writes a possibly negative number without sign' % who)
        if ln[0] and isinstance(ln[1], int) and -INF < lo and hi < INF and sg[0]:
            w = 8 * ln[1] - (1 if sg[1] else 0)
            if hi > 2 ** w - 1 or lo < (-2 ** w if sg[1] else 0):
                env.find('number not preserved', '%s / width' % who,
                         '%s writes numbers from %d to %d into %d bytes' % (who, lo, hi, ln[1]))


def expect(rows, cols, tag):
    return [('int', rows), ('int', cols)] + [('el', tag, r, c) for r in range(rows) for c in range(cols)]


def show(e):
    return 'the number %s' % (e[1],) if e[0] == 'int' else 'element (%d, %d) of %s' % (e[2], e[3], e[1]) if e[0] == 'el' else \
        e[1]


def same(e, w):
    """does the written value w agree with what is expected: True, False or None (not followed)"""
    if w[0] == '?':
        return None
    if e[0] == 'int':
        if w[0] != 'int':
            return False
        c = w[1].const()
        return c[1] == e[1] if c[0] else None
    if w[0] != 'float':
        return False
    labs = w[1].labels
    if e[0] == 'num':
        return any(e[1] == (l[0] if type(l) is tuple else l) for l in labs)
    r = {l[1] for l in labs if type(l) is tuple and l[0] == e[1] + ':r'}
    c = {l[1] for l in labs if type(l) is tuple and l[0] == e[1] + ':c'}
    if not r and not c:
        return False
    if any(x in ('?', '*', 0, 1) for x in r | c) or any(x[0] != 'i' or x[1] is None or x[1][1] for x in r | c):
        return None
    return r == {('i', lin_const(e[2]))} and c == {('i', lin_const(e[3]))}


def vague(w):
    """a written value the analysis could not follow to one number"""
    if w[0] == '?':
        return True
    if w[0] == 'int':
        x = w[1].single()
        return x is None or num_range(x) is None or num_range(x)[3] is None
    return any(type(l) is tuple and l[1] == '?' for l in w[1].labels)


def compare(env, who, want, got):
    if any(vague(w) for w in got.seq):
        env.skip('not followed: ' + who)
        return
    for k, e in enumerate(want):
        env.ok(1, 'values written')
        if k >= len(got.seq):
            if any(w[0] == '?' for w in got.seq):
                env.skip('not followed: ' + who)
                return
            env.find('state incomplete', who, '%s does not write %s' % (who, show(e)))
            return
        s = same(e, got.seq[k])
        if s is None:
            env.skip('not followed: ' + who)
            return
        if s is False:
            env.find('state incomplete', who, '%s does not write %s at its place (%d)' % (who, show(e), k))
            return
    if len(got.seq) > len(want):
        env.find('state incomplete', who, '%s writes more values than the state has' % who)
    if got.bytes < len(want) and got.bytes < 2:
        env.find('state incomplete', who, '%s writes nothing to the stream' % who)


def common_rules(env, who, got):
    for e in got.seq:
        fits(env, who, e)
        if e[0] == 'float':
            env.ok(1, 'precision')
            if e[2][-1] in 'fe':
                env.find('number not preserved', who + ' / precision', '%s writes reals in reduced precision' % who)
        if e[0] == 'int' and e[3] is None and any(a[0] == 'nan' or (num_range(a) or ('int',))[0] != 'int' for a in e[1].atoms):
            env.find('number not preserved', who + ' / kind', '%s writes reals as integers' % who)
    if len(got.orders) > 1:
        env.find('number not preserved', who + ' / byte order', '%s mixes byte orders' % who)


def relabel(st, v, tag):
    """name the rows and columns of the array behind a learnt matrix; its size when known"""
    dims = None
    for b in sorted(storages(st, reach(st, [v]))):
        x = st.heap[b]
        st.heap[b] = x.seta(lab=frozenset([(tag + ':r', 0), (tag + ':c', 1)]))
        dims = x.aux.get('dims')
    return dims


def stream(env, st):
    return S.Args(env, st).value('bytes')


def serialise(env, st, o):
    w = Written()
    f = stream(env, st)
    with listening(env, w):
        outs, exc = env.D.method(st, o, 'serialise_state', [f])
    return w, outs, exc


def unchanged(env, who, o, pre, outs):
    for v, s in outs:
        env.ok(1, 'instance unchanged')
        for i in sorted(reach(pre, [o])):
            a, b = pre.heap.get(i), s.heap.get(i)
            if a is not None and b is not None and not (a is b or a.same(b)):
                env.find('saving changes the instance', who, '%s changes the instance it saves' % who)
                return


def run(case, env):
    B, D, I = env.B, env.D, env.I
    try:
        globals()['case_' + case[0]](env, *case[1:])
    finally:
        B.dims = {}


def case_matrix(env, r, c):
    B, D = env.B, env.D
    st = B.reset()
    lin = (lambda d: lin_const(d) if isinstance(d, int) else D.dim(d, 1))
    m = D.matrix(st, 'A', lin(r), lin(c), labels=[('A:r', 0), ('A:c', 1)])
    env.sample('Matrix %s x %s' % (r, c))
    pre = st.copy()
    w, outs, exc = serialise(env, st, m)
    who = 'Matrix.serialise_state'
    if not outs:
        env.find('saving fails', who, '%s never returns' % who)
        return
    common_rules(env, who, w)
    unchanged(env, who, m, pre, outs)
    if isinstance(r, int):
        compare(env, who, expect(r, c, 'A'), w)
        return
    # any size: the two counts come first
    if any(vague(x) for x in w.seq):
        env.skip('not followed: ' + who)
        return
    for k, d in enumerate((r, c)):
        env.ok(1, 'values written')
        if k < len(w.seq) and w.seq[k][0] == 'int':
            x = w.seq[k][1].single()
            lin = num_range(x)[3] if x is not None and num_range(x) else None
            if lin is not None and lin != lin_sym(d):
                env.find('state incomplete', who, '%s does not write the number of %s first' % (who, ('rows', 'columns')[k]))
        elif k < len(w.seq) and w.seq[k][0] == '?':
            env.skip('not followed: ' + who)
        else:
            env.find('state incomplete', who, '%s does not write the size of the matrix' % who)


def case_state(env, name, i, cols=3):
    B, D, I = env.B, env.D, env.I
    spec = BY_NAME[name]
    cfg = dict(B.configs(spec)[i], **STATE[name][0])
    if cols == 1:
        # the smallest state: one component, a window of one point
        cfg.update({k: ('k', 1 if k == 'num_components' else 0) for k in cfg if k in ('num_components', 'num_points_left',
                                                                                      'num_points_right')})
    B.dims = {'n1': 4, 'p1': cols}
    who = name + '.serialise_state'
    env.sample('%s (%s)' % (name, cfg_name(cfg)))
    r = B.make(spec, cfg)
    if r is None:
        raise MissingAnchor('%s cannot be configured with %s' % (name, cfg_name(cfg)))
    o, st = r
    states = [('never trained', st)]
    good, bad, exc = B.train(spec, st.copy(), o)
    if good is None:
        env.skip('training never succeeds')
    else:
        for v, s in D.method(good.copy(), o, 'reset', [])[0]:
            states.append(('reset', s))
    for when, s in states:
        w, outs, exc = serialise(env, s.copy(), o)
        env.ok(1, 'untrained refused')
        wrong = [n for n in D.excnames(exc) if n != '?' and not refusal(env, n)]
        if outs or w.bytes:
            env.find('untrained state saved', '%s / %s' % (who, when), '%s writes something although the instance is not '
                     'trained (%s)' % (who, when))
        elif wrong:
            env.find('untrained state saved', '%s / %s' % (who, when), '%s of an untrained instance fails with %s' % (
                who, ', '.join(sorted(wrong))))
    if good is None:
        return
    want = []
    for n in STATE[name][1]:
        got, _ = D.get(good, o, n)
        if not got:
            raise MissingAnchor('%s.%s' % (name, n))
        dims = relabel(good, got[0][0], n)
        if dims is None or len(dims) != 2 or any(d is None or d[1] for d in dims):
            env.skip('size of %s not known' % n)
            want = None
            break
        want += expect(dims[0][0], dims[1][0], n)
    pre = good.copy()
    w, outs, exc = serialise(env, good, o)
    if not outs:
        env.find('saving fails', who, '%s never returns' % who)
        return
    common_rules(env, who, w)
    unchanged(env, who, o, pre, outs)
    if want is not None:
        compare(env, who, want, w)
        return
    labs = {(l[0] if type(l) is tuple else l) for e in w.seq if e[0] == 'float' for l in e[1].labels}
    for n in STATE[name][1]:
        env.ok(1, 'fields written')
        if n + ':r' not in labs and not any(e[0] == '?' for e in w.seq):
            env.find('state incomplete', who, '%s does not write %s' % (who, n))


def case_log(env):
    B, D = env.B, env.D
    spec = BY_NAME['Log']
    o, st = B.make(spec, {'base': ('default',)})
    for p in ('base', 'offset'):
        outs, exc = D.set(st, o, p, num('float', 1.5, INF, None, frozenset([p])))
        if not outs:
            raise MissingAnchor('Log.' + p)
        st = outs[0][1]
    pre = st.copy()
    w, outs, exc = serialise(env, st, o)
    who = 'Log.serialise_state'
    if not outs:
        env.find('saving fails', who, '%s never returns' % who)
        return
    common_rules(env, who, w)
    unchanged(env, who, o, pre, outs)
    compare(env, who, [('num', 'base'), ('num', 'base'), ('num', 'offset')], w)
    if len(w.seq) == 3:
        env.ok(1, 'conversion factor')
        if w.seq[0][1].labels == w.seq[1][1].labels and w.seq[0][1].atoms == w.seq[1][1].atoms:
            env.find('state incomplete', who + ' / factor', '%s writes the base twice instead of its conversion factor' % who)


def ser(env, st):
    """the serialisation helpers, reached through a matrix"""
    return env.D.matrix(st, 'M', lin_const(1), lin_const(1))


def case_int(env, k, sign):
    """whole ranges of integers with the same number of bits"""
    D = env.D
    st = env.B.reset()
    if k is None:
        v = const(0)
    elif sign > 0:
        v = num('int', 2 ** k, 2 ** (k + 1) - 1)
    else:
        v = num('int', -2 ** (k + 1) + 1, -2 ** k)
    w = Written()
    with listening(env, w):
        outs, exc = D.method(st, ser(env, st), 'serialise_big_int', [v])
    who = 'Serialisable.serialise_big_int'
    env.ok(1, 'integer ranges')
    if not outs:
        env.find('saving fails', who, '%s never returns' % who)
    for e in w.seq:
        fits(env, who, e)
    if len(w.seq) == 2 and w.seq[0][0] == 'int' and w.seq[1][0] == 'int':
        # the width it is written in is what is announced (arguments are evaluated before the prefix is added)
        pair = [x for x in w.seq if x[1].atoms != v.atoms]
        body = [x for x in w.seq if x[1].atoms == v.atoms]
        if len(pair) == 1 and len(body) == 1 and pair[0][1].const()[0] and body[0][2].const()[0]:
            env.ok(1, 'announced width')
            if pair[0][1].const()[1] != body[0][2].const()[1]:
                env.find('number not preserved', who + ' / announced width', '%s announces %s bytes and writes %s' % (
                    who, pair[0][1].const()[1], body[0][2].const()[1]))
    # however the bytes are made: a value of this range does not fit into fewer bytes than announced
    for x in w.seq:
        if x[0] == 'int' and x[1].atoms != v.atoms and k is not None:
            for a in x[1].atoms:
                if a[0] == 'k' and type(a[2]) is int:
                    env.ok(1, 'announced width')
                    r = num_range(v.single())
                    if a[2] < 1 or r[2] > 2 ** (8 * a[2] - 1) - 1 or r[1] < -2 ** (8 * a[2] - 1):
                        env.find('number not preserved', who + ' / announced width',
                                 '%s announces %d bytes for numbers from %d to %d' % (who, a[2], r[1], r[2]))
    if len(w.seq) == 1:
        env.find('state incomplete', who, '%s writes only one of width and value' % who)
    common_rules(env, who, w)


def case_text(env):
    D = env.D
    who = 'Serialisable.serialise_to_bytes'
    for t in ('abc', '', '\u00e9\u20ac'):
        st = env.B.reset()
        w = Written()
        with listening(env, w):
            outs, exc = D.method(st, ser(env, st), 'serialise_to_bytes', [const(t)])
        env.ok(1, 'texts')
        if not outs:
            env.find('saving fails', who + ' / text', '%s fails for a text' % who)
            continue
        common_rules(env, who, w)
        ints = [e for e in w.seq if e[0] == 'int']
        if not ints:
            env.find('state incomplete', who + ' / text', '%s writes a text without its length' % who)
        elif ints[0][1].const()[0] and ints[0][1].const()[1] != len(t.encode('utf-8')):
            env.find('state incomplete', who + ' / text', '%s announces %s bytes for a text of %d' % (
                who, ints[0][1].const()[1], len(t.encode('utf-8'))))


def case_types(env):
    D = env.D
    who = 'Serialisable.serialise_to_bytes'
    for n, v, kind in (('integers', num('int', -2 ** 31, 2 ** 31 - 1), 'int'), ('reals', num('float', -INF, INF), 'float'),
                       ('reals', V((NAN_ATOM,)), 'float'), ('truth values', BOOL, 'int'), ('nothing', NONE, None),
                       ('numpy reals', num('real', -INF, INF), 'float')):
        st = env.B.reset()
        w = Written()
        with listening(env, w):
            outs, exc = D.method(st, ser(env, st), 'serialise_to_bytes', [v])
        env.ok(1, 'kinds of values')
        if kind is None:
            if outs:
                env.find('unsupported value accepted', who, '%s accepts a value it cannot represent' % who)
            continue
        if not outs:
            env.find('saving fails', who + ' / ' + n, '%s fails for %s' % (who, n))
            continue
        common_rules(env, who, w)
        if w.seq and not any(e[0] in (kind, '?') for e in w.seq):
            env.find('number not preserved', who + ' / ' + n, '%s does not write %s as such' % (who, n))


def case_path(env, p):
    """saving to a file: any name"""
    D = env.D
    st = env.B.reset()
    m = D.matrix(st, 'A', lin_const(2), lin_const(3), labels=[('A:r', 0), ('A:c', 1)])
    w = Written()
    with listening(env, w):
        outs, exc = D.method(st, m, 'save_state', [const(p) if p else V((STR_ATOM,))])
    who = 'Serialisable.save_state'
    env.ok(1, 'file names')
    if not outs:
        env.find('saving fails', '%s / %s' % (who, p or 'any'), '%s fails for the file name %s' % (who, p or '(any)'))
        return
    if not w.opened:
        env.find('state incomplete', who, '%s opens no file' % who)
    for a, kw in w.opened:
        mode = (a[1] if len(a) > 1 else kw.get('mode', const('r'))).const()
        if mode[0] and 'b' not in mode[1] or mode[0] and 'w' not in mode[1]:
            env.find('state incomplete', who + ' / mode', '%s opens the file in mode %r' % (who, mode[1]))
        c = a[0].const() if a else (False, None)
        if p and c[0] and c[1] != p:
            env.find('state incomplete', who + ' / name', '%s opens %r instead of %r' % (who, c[1], p))
    if not w.closed:
        env.find('state incomplete', who + ' / close', '%s does not close the file' % who)
    compare(env, who, expect(2, 3, 'A'), w)
