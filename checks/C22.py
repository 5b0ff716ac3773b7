import ast
import itertools

from checks.common import *
from checks import surface as S

ID = 'C22'
TECHNIQUE = 'static region analysis of predicates and index functions (abstract interpretation with intervals)'
TITLE = 'Predicates and special values are decided correctly'
RULE = ('for operands of every combination of small sizes each predicate about shapes has exactly the documented truth value; '
        'each predicate about contents can answer both ways for arbitrary contents, and answers one way when the elements '
        'leave no choice; index functions return the documented position for elements in disjoint ranges; NaN and '
        'infinite values take the documented branch; reading and comparing accept empty and unequal operands as documented.')
FLOOR = 400
SIZES = ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (1, 2), (2, 1))


def cases(tier, env):
    out = [('unary', i) for i in range(len(UNARY))] + [('binary', i) for i in range(len(BINARY))]
    out += [('content', n) for n in CONTENT] + [('index', n) for n in range(1, 6 if tier == 'thorough' else 5)]
    out += [('strings',), ('squares',), ('guard',), ('read',), ('equality',), ('content_equality', '__eq__'), ('content_equality', 'helper.equal'), ('lines',), ('nesting',)]
    return out


UNARY = [
    ('is_vector', lambda r, c: r == 1 or c == 1), ('is_row_vector', lambda r, c: r == 1),
    ('is_column_vector', lambda r, c: c == 1), ('is_square', lambda r, c: r == c),
    ('num_rows', lambda r, c: r), ('num_columns', lambda r, c: c), ('num_elements', lambda r, c: r * c),
    ('shape_string', lambda r, c: '[%d x %d]' % (r, c)), ('helper.dim', lambda r, c: '%d x %d' % (r, c)),
]
BINARY = [
    ('same_shape_as', lambda a, b: a == b), ('is_multiplicable_with', lambda a, b: a[1] == b[0]),
    ('vector_size_matches', lambda a, b: (b[0] == 1 and a[1] == b[1]) or (b[1] == 1 and a[0] == b[0])),
    ('__eq__', lambda a, b: False if a != b else None), ('helper.equal', lambda a, b: False if a != b else None),
    # the element-wise operations refuse what does not fit, and only that
]
CONTENT = ('contains_NaN', 'any', 'all', 'which', 'where_vector')


def matrix(env, st, name, r, c, labels=None):
    return env.D.matrix(st, name, lin_const(r), lin_const(c), labels)


def decided_all(env, who, outs, want, what):
    """judges all outcomes together: an answer that is possible on another path only is not decided"""
    if isinstance(want, bool):
        ts = [truth(v) for v, s in outs]
        if any(t for t, f in ts) and any(f for t, f in ts):
            env.skip('not decided: ' + who)
            return
    elif len(outs) > 1 and any(v.const() == (True, want) or not v.const()[0] for v, s in outs):
        if not all(v.const() == (True, want) for v, s in outs):
            env.skip('not decided: ' + who)
        return
    for v, s in outs:
        decided(env, who, v, want, what)


def decided(env, who, v, want, what):
    """the value agrees with the expectation; a value that is not a constant is not judged unless it excludes it"""
    c = v.const()
    if isinstance(want, bool):
        t, f = truth(v)
        if t and f:
            env.skip('not decided: ' + who)
            return
        if t is not want and (t or f):
            env.find('wrong answer', who, '%s answers %s for %s' % (who, bool(t), what))
        return
    if not c[0]:
        if all(a[0] == 'k' for a in v.atoms) and not any(a[2] == want for a in v.atoms):
            env.find('wrong answer', who, '%s cannot give %r for %s' % (who, want, what))
        else:
            env.skip('not decided: ' + who)
        return
    if c[1] != want:
        env.find('wrong answer', who, '%s gives %r instead of %r for %s' % (who, c[1], want, what))


def call(env, st, name, args):
    if name.startswith('helper.'):
        return env.D.function(st, S.HELPER, name[7:], args)
    got, _ = env.D.get(st, args[0], name)
    if not got:
        raise MissingAnchor('Matrix.' + name)
    return env.D.method(st, args[0], name, args[1:])


def who_of(name):
    return name if '.' in name else 'Matrix.' + name


def case_unary(env, i):
    name, want = UNARY[i]
    env.sample(who_of(name))
    for r, c in SIZES:
        st = env.B.reset()
        outs, exc = call(env, st, name, [matrix(env, st, 'A', r, c)])
        env.ok(1, 'predicates of one shape')
        if not outs:
            env.find('predicate fails', who_of(name), '%s fails for a %d x %d matrix' % (who_of(name), r, c))
        decided_all(env, who_of(name), outs, want(r, c), 'a %d x %d matrix' % (r, c))


def case_binary(env, i):
    name, want = BINARY[i]
    env.sample(who_of(name))
    for a, b in itertools.product(SIZES, SIZES):
        st = env.B.reset()
        x, y = matrix(env, st, 'A', *a), matrix(env, st, 'B', *b)
        outs, exc = call(env, st, name, [x, y])
        env.ok(1, 'predicates of two shapes')
        what = '%d x %d and %d x %d matrices' % (a + b)
        w = want(a, b)
        if not outs:
            env.find('predicate fails', who_of(name), '%s fails for %s' % (who_of(name), what))
            continue
        if w is not None:
            decided_all(env, who_of(name), outs, w, what)
            continue
        both_ways(env, who_of(name), outs, what)


def both_ways(env, who, outs, what):
    t = f = False
    for v, s in outs:
        a, b = truth(v)
        t, f = t or a, f or b
    if not (t and f) and (t or f):
        env.find('answer independent of the contents', who, '%s always answers %s for %s' % (who, bool(t), what))


def fn(env, st, text):
    return env.I.eval(ast.parse(text, mode='eval').body, st)


def case_content(env, name):
    """predicates over the elements"""
    env.sample('Matrix.' + name)
    who = 'Matrix.' + name
    for r, c in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2)):
        what = 'a %d x %d matrix' % (r, c)
        vec = r == 1 or c == 1
        if name == 'where_vector' and not vec:
            st = env.B.reset()
            outs, exc = call(env, st, name, [matrix(env, st, 'A', r, c), fn(env, st, 'lambda e: True')])
            env.ok(1, 'predicates over elements')
            if outs:
                env.find('wrong answer', who, '%s accepts a matrix that is no vector' % who)
            continue
        if name == 'contains_NaN':
            st = env.B.reset()
            outs, exc = call(env, st, name, [matrix(env, st, 'A', r, c)])
            env.ok(1, 'predicates over elements')
            both_ways(env, who, outs, what)
            continue
        for text, val in (('lambda e: True', True), ('lambda e: False', False), ('lambda e: e > 0', None)):
            st = env.B.reset()
            m = matrix(env, st, 'A', r, c)
            outs, exc = call(env, st, name, [m, fn(env, st, text)])
            env.ok(1, 'predicates over elements')
            if not outs:
                env.find('predicate fails', who, '%s fails for %s' % (who, what))
                continue
            if name in ('any', 'all'):
                if val is None:
                    both_ways(env, who, outs, what)
                    sequences(env, name, r, c)
                else:
                    decided_all(env, who, outs, val, what + ' and a condition that is always %s' % val)
                continue
            if val is None:
                sequences(env, name, r, c)
                continue
            n = r * c
            for v, s in outs:
                a = v.single()
                o = s.heap.get(a[1]) if a is not None and a[0] == 'o' else None
                if o is None or o.aux.get('items') is None:
                    if o is not None and o.aux.get('length') is not None and not val and o.aux['length'].const() == (True, 0):
                        continue
                    env.skip('not decided: ' + who)
                    continue
                items = o.aux['items']
                want = [] if not val else list(range(n)) if name == 'where_vector' else [(i, j) for i in range(r) for j in range(c)]
                got = []
                for x in items:
                    y = plain(x, s)
                    got.append(y)
                if any(g is None for g in got) or len(outs) > 1:
                    env.skip('not decided: ' + who)
                elif got != want:
                    env.find('wrong answer', who, '%s gives %s instead of %s for %s and a condition that is always %s' % (
                        who, got, want, what, val))


def sequences(env, name, r, c):
    """a condition that holds for one element only, or for all but one"""
    who = 'Matrix.' + name
    n = r * c
    for k in range(n):
        for hit in (True, False):
            seq = [hit if i == k else not hit for i in range(n)]
            st = env.B.reset()
            m = matrix(env, st, 'A', r, c)
            outs, exc = call(env, st, name, [m, fn(env, st, 'lambda e, l=%r: l.pop(0)' % (seq,))])
            env.ok(1, 'conditions that hold for some elements')
            what = 'a %d x %d matrix and a condition with the outcomes %s' % (r, c, seq)
            want = any(seq) if name == 'any' else all(seq) if name == 'all' else \
                [i for i in range(n) if seq[i]] if name == 'where_vector' else [(i // c, i % c) for i in range(n) if seq[i]]
            if name in ('any', 'all'):
                decided_all(env, who, outs, want, what)
                continue
            for v, s in outs:
                a = v.single()
                o = s.heap.get(a[1]) if a is not None and a[0] == 'o' else None
                got = [plain(x, s) for x in o.aux['items']] if o is not None and o.aux.get('items') is not None else [None]
                if any(g is None for g in got) or len(outs) > 1:
                    env.skip('not decided: ' + who)
                elif got != want:
                    env.find('wrong answer', who, '%s gives %s instead of %s for %s' % (who, got, want, what))


def plain(v, st):
    """python value of a constant or a tuple of constants, else None"""
    c = v.const()
    if c[0]:
        return c[1]
    a = v.single()
    o = st.heap.get(a[1]) if a is not None and a[0] == 'o' else None
    if o is not None and o.kind == 'tuple' and o.aux.get('items') is not None:
        t = [plain(x, st) for x in o.aux['items']]
        return None if any(x is None for x in t) else tuple(t)
    return None


def ranges(n):
    return [num('float', 10.0 * k - 20.0, 10.0 * k - 19.0) for k in range(n)]


def case_index(env, n):
    """positions of elements that lie in disjoint ranges, in every order"""
    D, I = env.D, env.I
    env.sample('utils.max_index and utils.sort of %d elements' % n)
    for perm in itertools.permutations(range(n)):
        rs = ranges(n)
        want_max = perm.index(n - 1)
        want_sort = [perm.index(k) for k in range(n)]
        st = env.B.reset()
        l = I.new_list(st, D.node(), items=[rs[k] for k in perm])
        outs, exc = D.function(st, S.UTILS, 'max_index', [l])
        env.ok(1, 'positions')
        what = 'elements ordered as %s' % (perm,)
        if not outs:
            env.find('predicate fails', 'utils.max_index', 'utils.max_index fails for %d elements' % n)
        decided_all(env, 'utils.max_index', outs, want_max, what)
        if n > 3:
            continue                # beyond three elements the order is decided by loops over the data
        st = env.B.reset()
        l = I.new_list(st, D.node(), items=[rs[k] for k in perm])
        outs, exc = D.function(st, S.UTILS, 'sort', [l])
        env.ok(1, 'positions')
        if not outs:
            env.find('predicate fails', 'utils.sort', 'utils.sort fails for %d elements' % n)
        for v, s in outs:
            a = v.single()
            o = s.heap.get(a[1]) if a is not None and a[0] == 'o' else None
            got = [plain(x, s) for x in o.aux['items']] if o is not None and o.aux.get('items') is not None else [None]
            if any(g is None for g in got) or len(outs) > 1:
                env.skip('not decided: utils.sort')
            elif got != want_sort:
                env.find('wrong answer', 'utils.sort', 'utils.sort gives %s instead of %s for %s' % (got, want_sort, what))
    # not-a-number is sorted last, plain numbers are accepted
    if n == 3:
        for items, want in (([V((NAN_ATOM,)), const(1.0)], [1, 0]), ([const(1.0), V((NAN_ATOM,))], [0, 1]),
                            ([const(2), const(1)], [1, 0]), ([const(1), const(2)], [0, 1]), ([], []), ([const(1.0)], [0])):
            st = env.B.reset()
            l = I.new_list(st, D.node(), items=items)
            outs, exc = D.function(st, S.UTILS, 'sort', [l])
            env.ok(1, 'special elements')
            if not outs:
                env.find('predicate fails', 'utils.sort', 'utils.sort fails for %s' % ([str(x) for x in items],))
            for v, s in outs:
                a = v.single()
                o = s.heap.get(a[1]) if a is not None and a[0] == 'o' else None
                got = [plain(x, s) for x in o.aux['items']] if o is not None and o.aux.get('items') is not None else [None]
                if any(g is None for g in got) or len(outs) > 1:
                    env.skip('not decided: utils.sort')
                elif got != want:
                    env.find('wrong answer', 'utils.sort', 'utils.sort gives %s instead of %s' % (got, want))
        # longer lists, whatever they contain: the order has to exist
        for x in (V((NAN_ATOM,)), num('float', -INF, INF), num('int', -INF, INF), num('real', -INF, INF)):
            st = env.B.reset()
            l = I.new_list(st, D.node(), elem=x, length=num('int', 4, INF))
            outs, exc = D.function(st, S.UTILS, 'sort', [l])
            env.ok(1, 'special elements')
            if not outs:
                env.find('predicate fails', 'utils.sort / long', 'utils.sort never returns for long lists of %s' % x)
            for ev, s in exc:
                for a in ev.atoms:
                    o = s.heap.get(a[1]) if a[0] == 'o' else None
                    if o is not None and o.aux.get('certain') and str(o.cls)[2:] in ('TypeError', 'AttributeError', 'IndexError'):
                        env.find('predicate fails', 'utils.sort / long', 'utils.sort fails with %s for long lists of %s' % (
                            str(o.cls)[2:], x))


def case_strings(env):
    """not-a-number and infinite values have a text of their own"""
    D = env.D
    env.sample('utils.real_to_string_fixed')
    who = 'utils.real_to_string_fixed'
    for digits in (const(-1), const(3), num('int', -INF, INF)):
        for v, want in ((V((NAN_ATOM,)), 'NaN'), (const(float('inf')), '+Infinity'), (const(float('-inf')), '-Infinity')):
            st = env.B.reset()
            outs, exc = D.function(st, S.UTILS, 'real_to_string_fixed', [v, digits])
            env.ok(1, 'special values')
            if not outs:
                env.find('predicate fails', who, '%s fails for %s' % (who, want))
            for r, s in outs:
                c = r.const()
                if c[0] and c[1] != want:
                    env.find('wrong answer', who, '%s gives %r instead of %r' % (who, c[1], want))
                elif not c[0]:
                    env.find('wrong answer', who, '%s does not give %r for that value' % (who, want))
        for v in (num('float', -1.7e308, -1e290), num('float', 1e290, 1.7e308), num('float', -1e300, 1e300), num('float', 1.0, 2.0), num('float', -2.0, -1.0)):
            st = env.B.reset()
            outs, exc = D.function(st, S.UTILS, 'real_to_string_fixed', [v, digits])
            env.ok(1, 'ordinary values')
            for r, s in outs:
                for a in sorted(r.atoms, key=repr):
                    if a[0] == 'k' and a[2] in ('NaN', '+Infinity', '-Infinity'):
                        env.find('wrong answer', who, '%s gives %r for a finite value' % (who, a[2]))


def case_squares(env):
    D, I = env.D, env.I
    who = 'utils.sum_of_squares'
    for items, lo, hi in (([], 0, 0), ([(2.0, 3.0)], 4, 9), ([(2.0, 3.0), (5.0, 6.0)], 29, 45),
                          ([(-3.0, -2.0), (1.0, 1.5)], 5, 11.25)):
        st = env.B.reset()
        l = I.new_list(st, D.node(), items=[num('float', a, b) for a, b in items])
        outs, exc = D.function(st, S.UTILS, 'sum_of_squares', [l])
        env.ok(1, 'sums')
        if not outs:
            env.find('predicate fails', who, '%s fails' % who)
        for v, s in outs:
            for a in v.atoms:
                r = num_range(a)
                if r is not None and (r[1] > hi or r[2] < lo):
                    env.find('wrong answer', who, '%s lies in [%s, %s] instead of [%s, %s]' % (who, r[1], r[2], lo, hi))


class Stores:
    """constant positions written in an array"""

    def __init__(self):
        self.at = {}

    def __call__(self, kind, st, node, d):
        if kind == 'index':
            ks = [v.const() for v in d['args']]
            self.at.setdefault(id(node), set()).add(tuple(k[1] if k[0] else None for k in ks))


def case_guard(env):
    """every column without variation is guarded, not only one of them"""
    B, D = env.B, env.D
    spec = BY_NAME['Standardize']
    env.sample('Standardize.configure, columns without variation')
    for p in (1, 2, 3, 4):
        B.dims = {'n1': 5, 'p1': p}
        try:
            o, st = B.make(spec)
            comp = set()
            used = []

            def ev(kind, s, node, d):
                if kind == 'cond':
                    used.append(d.get('labels'))
            data = B.X(st, 'X1', 'n1', 'p1', labels=[('X1', 1)])
            with listening(env, ev):
                outs, exc = D.method(st, o, 'configure', [data])
        finally:
            B.dims = {}
        env.ok(1, 'guarded columns')
        for labs in used:
            for l in labs or ():
                if type(l) is tuple and l[0] == 'X1' and type(l[1]) is tuple and l[1][0] == 'i' and l[1][1] is not None \
                        and not l[1][1][1]:
                    comp.add(l[1][1][0])
        if comp and comp < set(range(p)):
            env.find('guard incomplete', 'Standardize.configure', 'Standardize.configure looks for columns without '
                     'variation in columns %s of %d only' % (sorted(comp), p))
        elif not comp:
            env.skip('guard not followed')


def case_read(env):
    """text without rows is refused with the documented error"""
    D, I = env.D, env.I
    env.sample('helper.read')
    for name, src in (('stream', 'txt'), ('file name', 's')):
        for header in (True, False):
            st = env.B.reset()
            a = S.Args(env, st)
            f = a.value(src)
            outs, exc = D.function(st, S.HELPER, 'read', [f, const(header), const(',')])
            env.ok(1, 'inputs')
            if not outs:
                env.find('predicate fails', 'helper.read', 'helper.read never returns for a %s' % name)
            names = D.excnames(exc)
            if 'x:RuntimeError' not in names and not any(n.startswith('cls:') for n in names):
                env.find('wrong answer', 'helper.read / empty', 'helper.read has no error for a %s without rows' % name)
            for ev, s in exc:
                for at in ev.atoms:
                    o = s.heap.get(at[1]) if at[0] == 'o' else None
                    if o is not None and o.aux.get('certain') and str(o.cls)[2:] in ('TypeError', 'AttributeError', 'IndexError',
                                                                                    'NameError'):
                        env.find('predicate fails', 'helper.read / ' + name, 'helper.read fails with %s for a %s' % (
                            str(o.cls)[2:], name))


def unsized(v, st):
    """a matrix whose size was not followed"""
    for b in storages(st, reach(st, [v])):
        d = st.heap[b].aux.get('dims')
        if d is None or any(x is None or x[1] for x in d):
            return True
    return False


def case_lines(env):
    """lines given one by one: none, only a header, some"""
    D, I = env.D, env.I
    who = 'helper.read'
    env.sample('helper.read of given lines')
    for n in range(4):
        for header in (True, False):
            st = env.B.reset()
            l = I.new_list(st, D.node(), items=[const('1.0,2.0\n')] * n)
            outs, exc = D.function(st, S.HELPER, 'read', [l, const(header), const(',')])
            names = set(D.excnames(exc))
            if 'x:AttributeError' in names:
                env.skip('not decided: ' + who)
                continue
            env.ok(1, 'lines')
            rows = n - (1 if header else 0)
            what = '%d lines %s a header' % (n, 'with' if header else 'without')
            if rows <= 0:
                if outs and any(v.has_unknown() or unsized(v, s) for v, s in outs):
                    env.skip('not decided: ' + who)
                elif outs:
                    env.find('wrong answer', who + ' / empty', '%s returns a matrix for %s' % (who, what))
                elif 'x:IndexError' in names or 'x:TypeError' in names:
                    env.find('wrong answer', who + ' / empty', '%s fails with %s for %s' % (who, ', '.join(sorted(names)), what))
                continue
            if not outs:
                env.find('predicate fails', who, '%s fails for %s' % (who, what))
            for v, s in outs:
                for b in storages(s, reach(s, [v])):
                    d = s.heap[b].aux.get('dims')
                    if d is not None and len(d) == 2 and d[0] is not None and not d[0][1] and d[0][0] != rows:
                        env.find('wrong answer', who + ' / rows', '%s gives %d rows for %s' % (who, d[0][0], what))


def case_equality(env):
    """comparison with anything"""
    D = env.D
    who = 'Matrix.__eq__'
    env.sample(who)
    for r, c in SIZES:
        st = env.B.reset()
        m = matrix(env, st, 'A', r, c)
        for what, x, want in (('itself', m, True), ('nothing', NONE, False), ('a number', const(1), False),
                              ('a text', const('a'), False), ('its copy', None, None)):
            s0 = st.copy()
            if what == 'its copy':
                got, _ = D.method(s0, m, 'copy', [])
                if not got:
                    continue
                x, s0 = got[0]
            outs, exc = call(env, s0, '__eq__', [m, x])
            env.ok(1, 'comparisons')
            if not outs:
                env.find('predicate fails', who, '%s fails when compared with %s' % (who, what))
                continue
            for v, s in outs:
                if want is not None:
                    decided(env, who, v, want, 'a comparison with ' + what)
            if want is None and not any(truth(v)[0] for v, s in outs):
                env.find('wrong answer', who, '%s never finds a matrix equal to its copy' % who)


SIGNLESS = ('numpy.abs', 'numpy.absolute', 'numpy.fabs', 'numpy.square', 'builtins.abs', 'numpy.linalg.norm', 'numpy.power')
LOSSY = ('add', 'multiply', 'sum', 'mean', 'prod', 'median', 'trace', 'average', 'nansum')


class Decision:
    """how the contents of two operands A and B enter an answer"""

    def __init__(self, env):
        self.env = env
        self.dirs = set()       # directions in which a signed difference is compared
        self.lossy = set()      # reductions of the signed difference in which differences cancel
        self.single = set()     # max or min of the signed difference
        self.alone = set()      # reductions of one operand
        self.bad_all = False
        self.eq_any = False
        self.array_ops = set()
        self.signless = False
        self.elementwise = False
        self.axes = {}
        self.mismatch = None

    def labels(self, v, st):
        out = set(v.labels)
        for a in v.atoms:
            if a[0] == 'o' and a[1] in st.heap:
                out |= set(self.env.I.lib.nd_labels(a[1], st) if st.heap[a[1]].kind == 'nd' else
                           self.env.I.lib.deep_labels(V((a,)), st))
        return out

    def roles(self, labs):
        out = {}
        for l in labs:
            r = split_role(l)
            if r:
                out.setdefault(r[0], set()).add(r[1])
        return out

    def signed(self, labs):
        r = self.roles(labs)
        return r.get('A') and r.get('B') and {tuple(r['A']), tuple(r['B'])} == {('+n',), ('-n',)}

    def note(self, labs):
        for n in ('A', "A'", 'B', "B'"):
            self.axes.setdefault(n, set()).update(l[1] for l in labs if type(l) is tuple and l[0] == n)
        for a, b in (('A', 'B'), ("A'", "B'")):
            x, y = ({l[1] for l in labs if type(l) is tuple and l[0] == n and type(l[1]) is tuple and l[1][0] == 'i' and
                     l[1][1] is not None} for n in (a, b))
            if len(x) == 1 and len(y) == 1 and x != y:
                self.mismatch = 'columns' if "'" in a else 'rows'

    def __call__(self, kind, st, node, d):
        if kind == 'extcall' and d['name'] in SIGNLESS:
            self.signless = True
        elif kind == 'reduce':
            labs = self.labels(d['value'], st)
            r = self.roles(labs)
            if not r.get('A') and not r.get('B'):
                return
            both = bool(r.get('A') and r.get('B'))
            isb = any(a[0] == 'o' and a[1] in st.heap and st.heap[a[1]].aux.get('dt') == 'b' for a in d['value'].atoms)
            if d['name'] in LOSSY:
                if self.signed(labs):
                    self.lossy.add(d['name'])
                elif not both:
                    self.alone.add(d['name'])
            elif d['name'] in ('max', 'min', 'amax', 'amin', 'maximum', 'minimum'):
                (self.single if self.signed(labs) else self.alone).add('max' if 'max' in d['name'] else 'min')
            elif d['name'] == 'all' and self.signed(labs) and not isb:
                self.bad_all = True
            elif d['name'] == 'any' and isb and both and self.array_ops == {'Eq'}:
                self.eq_any = True
            if d['name'] in ('any', 'all', 'count_nonzero') and both:
                self.elementwise = True
                self.note(labs)
        elif kind == 'compare' and d['op'] in ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq'):
            l, r = self.labels(d['left'], st), self.labels(d['right'], st)
            rl, rr = self.roles(l), self.roles(r)
            if not (set(rl) | set(rr)) & {'A'} or not (set(rl) | set(rr)) & {'B'}:
                return
            arr = any(a[0] == 'o' and a[1] in st.heap and st.heap[a[1]].kind == 'nd' for v in (d['left'], d['right'])
                      for a in v.atoms)
            if arr:
                self.array_ops.add(d['op'])
            if arr or any(type(x) is tuple and type(x[1]) is tuple and x[1][0] == 'i' for x in l | r):
                self.elementwise = True
            self.note(l | r)
            if d['op'] in ('Eq', 'NotEq'):
                return
            for v, labs, flip in ((d['left'], l, 1), (d['right'], r, -1)):
                if not self.signed(labs):
                    continue
                rng = [num_range(a) for a in v.atoms if num_range(a)]
                if rng and all(x[1] >= 0 or x[2] <= 0 for x in rng):
                    self.signless = True
                    continue
                # the direction with respect to A - B
                s = 1 if self.roles(labs)['A'] == {'+n'} else -1
                self.dirs.add(flip * s * (1 if d['op'][0] == 'G' else -1))


def case_content_equality(env, name):
    """whether two matrices are equal is decided from every pair of corresponding elements, in both directions"""
    D = env.D
    who = who_of(name)
    env.sample(who + ' (contents)')
    st = env.B.reset()
    a, b = (D.matrix(st, n, D.dim('n', 2), D.dim('p', 2), [(n, 0), (n + "'", 1), role_label(n)]) for n in 'AB')
    w = Decision(env)
    with listening(env, w):
        outs, exc = call(env, st, name, [a, b] + ([num('float', 0, 1)] if name != '__eq__' else []))
    env.ok(4, 'equality of contents')
    if not outs:
        env.find('predicate fails', who, '%s fails for matrices of the same shape' % who)
        return
    if not any(truth(v)[0] for v, s in outs) or not any(truth(v)[1] for v, s in outs):
        env.find('wrong answer', who, '%s gives the same answer whatever the elements are' % who)
    if not w.signless:
        if len(w.dirs) == 1:
            env.find('wrong answer', who + ' / sign', '%s compares the signed difference of two elements in one direction '
                     'only' % who)
        if w.lossy:
            env.find('wrong answer', who + ' / cancelling', '%s decides on the %s of the differences, in which differences of '
                     'opposite sign cancel' % (who, ', '.join(sorted(w.lossy))))
        if len(w.single) == 1:
            env.find('wrong answer', who + ' / sign', '%s decides on the %s of the signed differences only' % (
                who, ', '.join(sorted(w.single))))
    if w.bad_all or w.eq_any:
        env.find('wrong answer', who + ' / quantifier', '%s asks for one equal element instead of all' % who)
    if w.alone and not w.elementwise and not w.lossy and not w.single:
        env.find('wrong answer', who + ' / cancelling', '%s compares the %s of the matrices instead of their elements' % (
            who, ', '.join(sorted(w.alone))))
    if w.mismatch:
        env.find('wrong answer', who + ' / ' + w.mismatch, '%s compares elements of different %s' % (who, w.mismatch))
    for n, xs in sorted(w.axes.items()):
        if xs and all(type(x) is tuple and x[0] == 'i' and x[1] is not None and not x[1][1] for x in xs):
            env.find('wrong answer', who + ' / coverage', '%s looks at single %s of a matrix only' % (
                who, 'columns' if "'" in n else 'rows'))


def case_nesting(env):
    D, I = env.D, env.I
    who = 'utils.get_list_dimensions'
    st = env.B.reset()
    l = I.new_list(st, D.node(), items=[num('float', 0.0, 1.0)] * 2)
    for k in range(1, 4):
        outs, exc = D.function(st.copy(), S.UTILS, 'get_list_dimensions', [l])
        env.ok(1, 'nesting')
        if not outs:
            env.find('predicate fails', who, '%s fails for %d levels' % (who, k))
        decided_all(env, who, outs, k, '%d levels' % k)
        l = I.new_list(st, D.node(), items=[l, l])


def run(case, env):
    globals()['case_' + case[0]](env, *case[1:])
