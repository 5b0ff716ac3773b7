from checks.common import *
from checks import surface as S

ID = 'C03'
TECHNIQUE = 'static dependence analysis of query/mutate/query histories (abstract interpretation)'
TITLE = 'Derived quantities of a matrix are never stale'
RULE = ('after every method that changes a matrix in place, each derived quantity (decomposition, statistic, copy) that '
        'depended on the contents before also depends on the newly written contents, whatever was computed and cached '
        'earlier and whichever operation produced the matrix.')
FLOOR = 3000

MUTATORS = [
    ('set', 'i', 'i', 'x'), ('set_row', 'i', '1p'), ('set_row', 'i', 'p1'), ('set_column', 'i', 'n1'),
    ('set_column', 'i', '1n'), ('add_by_vector_modify', '1p'), ('sub_by_vector_modify', 'n1'),
    ('mul_by_vector_modify', '1p'), ('div_by_vector_modify', 'n1'), ('vector_op_modify', '1p', 'uf'),
    ('helper.fill_diagonal', 'x'),
]
OBSERVERS = [f for f in S.MATRIX_METHODS if not f.mut and f.recv in ('nn', 'np')
             and f.name not in ('get_serialised_state', 'num_rows', 'num_columns', 'is_multiplicable_with', 'is_vector',
                                'same_shape_as', 'is_row_vector', 'is_column_vector', 'shape_string',
                                'vector_size_matches', 'num_elements', 'is_square')]
DERIVE = ['copy', 'transpose', 'inverse', 'abs', 'get_eigenvectors', 'get_eigenvalue_decomposition_V', 'svd_U', 'svd_V',
          'svd_S', 'get_eigenvalue_decomposition_D', 'sqrt', 'exp', 'pseudo_inverse', 'normalized', 'head']


def cases(tier, env):
    out = [('self', i) for i in range(len(MUTATORS))]
    out += [('derived', d, i) for d in DERIVE for i in (range(len(MUTATORS)) if tier == 'thorough' else (0, 3, 5, 9))]
    return out


class SquareArgs(S.Args):
    def shape(self, code):
        n = self.D.dim('n', 2)
        return tuple(lin_const(d) if isinstance(d, int) else (n if d in ('n', 'p') else self.D.dim(d, 2))
                     for d in S.SHAPES[code])


def observe(env, st, m, a):
    """observer index -> set of labels shown (None: unknown or no outcome)"""
    res = {}
    for k, f in enumerate(OBSERVERS):
        s = st.copy()
        a.st = s
        args = [a.value(c, labels=['other']) for c in f.args]
        outs, exc = env.D.method(s, m, f.name, args)
        if not outs:
            res[k] = None
            continue
        v, s2 = env.D.join(outs)
        res[k] = None if is_unknown(env, v, s2) else content(env, v, s2)
    return res


def warm(env, st, m, a):
    for f in OBSERVERS:
        a.st = st
        args = [a.value(c, labels=['other']) for c in f.args]
        outs, exc = env.D.method(st, m, f.name, args)
        if outs:
            st = env.D.join(outs)[1]
    return st


def split(m, states):
    """one state per combination of alternatives the fields of the matrix may hold"""
    a = m.single()
    out = []
    for st in states:
        todo = [st]
        if a is not None and a[0] == 'o' and st.heap[a[1]].kind == 'inst':
            for n, v in sorted(st.heap[a[1]].f.items()):
                if len(v.atoms) > 1 and len(todo) < 8 and n != 'data':
                    nxt = []
                    for s in todo:
                        for x in sorted(v.atoms, key=repr):
                            if x == UNDEF:
                                continue
                            t = s.copy()
                            t.heap[a[1]] = t.heap[a[1]].setf(n, V((x,), v.labels))
                            nxt.append(t)
                    todo = nxt
        out.extend(todo)
    return out


def run(case, env):
    B, D = env.B, env.D
    st = B.reset()
    a = SquareArgs(env, st)
    m = a.matrix('nn', 'A', ['A'])
    st = warm(env, st, m, a)
    src = 'Matrix'
    if case[0] == 'derived':
        outs, exc = D.method(st, m, case[1], [])
        if not outs:
            raise MissingAnchor('Matrix.%s' % case[1])
        m, st = D.join(outs)
        src = 'Matrix.%s()' % case[1]
        st = warm(env, st, m, a)
    before = observe(env, st, m, a)
    mut = MUTATORS[case[-1]]
    a.st = st
    args = [a.value(c, labels=['NEW']) for c in mut[1:]]
    if mut[0].startswith('helper.'):
        outs, exc = D.function(st, S.HELPER, mut[0][7:], [m] + args)
    else:
        outs, exc = D.method(st, m, mut[0], args)
    if not outs:
        raise MissingAnchor('Matrix.%s' % mut[0])
    for st in split(m, [s for _, s in outs]):
        after = observe(env, st, m, a)
        for k, f in enumerate(OBSERVERS):
            if before[k] is None or after[k] is None:
                env.skip('observer not followed')
                continue
            if 'A' not in before[k]:
                continue
            env.ok(1, 'observer after in-place change')
            if 'NEW' not in after[k]:
                env.find('stale after in-place change', '%s / %s' % (mut[0], f.name),
                         '%s still returns the old result after %s changed the matrix (%s)' % (f.name, mut[0], src))
    env.sample('%s(%s) on %s, then %d observers' % (mut[0], ', '.join(mut[1:]), src, len(OBSERVERS)))
