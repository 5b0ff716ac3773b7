from checks.common import *
from checks import surface as S
from checks.algebra import OPS, title as op_title

ID = 'C16'
TECHNIQUE = 'static shape inference with symbolic dimensions (abstract interpretation)'
TITLE = 'Results have the documented shape'
RULE = ('on every path, the symbolic size of the result equals the documented one: that of each matrix operation as a '
        'function of its operands, one row per given row for everything a trained instance returns, as many columns as '
        'requested components (transformations), given columns (feature-wise transformations and inverses) or response '
        'columns (predictions).')
FLOOR = 250
cost = life_cost

COLUMNS = {'FFT': '.', 'SavitzkyGolay': '.', 'SavitzkyGolay2': '.', 'Downsample': '.', 'DIPLS': 'k_num_components',
           'CCAFilter': 'k_kcca', 'Equidistance': 'ns_', 'PCA': '.', 'FastICA': '.', 'OPLS': 'p1'}
KEEP = {'GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO'}


SIZES = ((1, 1), (1, 3), (3, 1), (2, 2), (2, 4), (4, 2), (3, 3))
H, F = S.HELPER, S.FACTORY


def fixed(n, p):
    """(module or None, operation, further arguments, size of the result) for an n x p matrix; a matrix argument is given by its
    size, a list of numbers by its values"""
    k = min(n, p)
    M = lambda r, c: ('m', r, c)
    out = [('diag', (), (k, 1)), ('svd_U', (), (n, k)), ('svd_V', (), (k, p)), ('svd_S', (), (k, k)),
           ('get_singular_values', (), (k, 1)), ('head', (), (min(5, n), p)), ('transpose', (), (p, n)), ('t', (), (p, n)),
           ('inverse', (), (p, n)), ('pseudo_inverse', (), (p, n)), ('sum', (-1,), (1, 1)), ('sum', (0,), (1, p)),
           ('sum', (1,), (n, 1)), ('mean', (-1,), (1, 1)), ('mean', (0,), (1, p)), ('mean', (1,), (n, 1)),
           ('normalized', (), (n, p)), ('normalized', (1,), (n, p)), ('copy', (), (n, p)), ('sqrt', (), (n, p)),
           ('sign', (), (n, p)), ('abs', (), (n, p)), ('exp', (), (n, p)), ('tanh', (), (n, p)),
           ('pow_elementwise', (2,), (n, p)), ('div', (2.0,), (n, p)), ('mul', (2.0,), (n, p)), ('add', (2.0,), (n, p)),
           ('sub', (2.0,), (n, p)), ('clip', (0.0, 1.0), (n, p)), ('clip_lower', (0.0,), (n, p)), ('clip_upper', (0.0,), (n, p)),
           ('get_row', (0,), (1, p)), ('get_row', (n - 1,), (1, p)), ('get_column', (0,), (n, 1)), ('get_column', (p - 1,), (n, 1)),
           ('get_rows', ([n - 1],), (1, p)), ('get_rows', ([0, 0, 0],), (3, p)), ('get_columns', ([p - 1, 0],), (n, 2)),
           ('get_columns', ((0, p),), (n, p)), ('get_rows', ((0, n),), (n, p)),
           ('get_sub_matrix', ([0], [0, p - 1, 0]), (1, 3)), ('get_sub_matrix', ((0, n), [p - 1]), (n, 1)),
           ('add', (M(n, p),), (n, p)), ('sub', (M(n, p),), (n, p)), ('mul_elementwise', (M(n, p),), (n, p)),
           ('div_elementwise', (M(n, p),), (n, p)), ('mul', (M(p, 2),), (n, 2)), ('mul', (M(p, 1),), (n, 1)),
           ('concat', (M(2, p), 0), (n + 2, p)), ('concat', (M(n, 3), 1), (n, p + 3)), ('concat_along_rows', (M(1, p),), (n + 1, p)),
           ('concat_along_columns', (M(n, 1),), (n, p + 1)), ('add_by_vector', (M(1, p),), (n, p)),
           ('sub_by_vector', (M(n, 1),), (n, p)), ('mul_by_vector', (M(1, p),), (n, p)), ('mul_by_vector', (M(n, 1),), (n, p)),
           ('scale_by_row_vector', (M(p, 1),), (n, p)), ('scale_by_column_vector', (M(n, 1),), (n, p))]
    out += [('head', (k,), (min(k, n), p)) for k in (1, 2, 5)]
    if n == p:
        out += [('get_eigenvectors', (), (n, n)), ('get_eigenvectors_sorted_ascending', (), (n, n)),
                ('get_eigenvectors_sorted_descending', (), (n, n)), ('get_dominant_eigenvector', (), (n, 1)),
                ('get_eigenvalue_decomposition_V', (), (n, n)), ('get_eigenvalue_decomposition_D', (), (n, n)),
                ('get_eigenvalues', (), (n, 1)), ('get_eigenvalues_sorted_ascending', (), (n, 1)),
                ('get_eigenvalues_sorted_descending', (), (n, 1))]
    if n == 1 or p == 1:
        out += [('vector_to_diagonal', (), (n * p, n * p))]
    out = [(None,) + o for o in out]
    out += [(H, 'row_means', (), (n, 1)), (H, 'column_means', (), (1, p)), (H, 'row_stdevs', (), (n, 1)),
            (H, 'column_stdevs', (), (1, p)), (H, 'row_as_vector', (0,), (1, p)), (H, 'column_as_vector', (0,), (n, 1)),
            (H, 'inverse', (), (p, n)), (F, 'zeros_like', (), (n, p)), (F, 'eye_like', (), (n, p)), (F, 'filled_like', (1.0,), (n, p)),
            (F, 'rand_like', (1,), (n, p)), (F, 'randn_like', (1,), (n, p))]
    if p > 1:
        out += [(H, 'delete_col', (0,), (n, p - 1)), (H, 'delete_col', (p - 1,), (n, p - 1)),
                (H, 'delete_cols', ([p - 1],), (n, p - 1)), (H, 'delete_cols', ([0, 0],), (n, p - 1))]
    if p > 2:
        out += [(H, 'delete_cols', ([0, p - 1],), (n, p - 2))]
    if n == p:
        out += [(H, 'solve', (M(n, 1),), (n, 1)), (H, 'solve', (M(n, 2),), (n, 2))]
    if p == 1:
        out += [(F, 'diag', (), (n, n))]
    return out


def run_fixed(env, n, p, i):
    D, I = env.D, env.I
    mod, name, args, want = fixed(n, p)[i]
    st = env.B.reset()

    def make(a, nm):
        if type(a) is tuple and a[0] == 'm':
            return D.matrix(st, nm, lin_const(a[1]), lin_const(a[2]), [nm])
        if type(a) in (tuple, list):
            v = [const(x) for x in a]
            return I.new_tuple(st, D.node(), v) if type(a) is tuple else I.new_list(st, D.node(), items=v)
        return const(a)
    vals = [make(('m', n, p), 'A')] + [make(a, 'BCD'[j]) for j, a in enumerate(args)]
    outs, exc = S.call(env, st, S.Fn(name, mod or 'np'), vals)
    who = '%s%s on %d x %d' % (name, args, n, p)
    if not outs:
        env.find('no result', who, '%s ends in %s although the sizes fit' % (who, ', '.join(sorted(D.excnames(exc))) or 'an error'))
    for v, s in outs:
        compare(env, s, v, tuple(lin_const(x) for x in want), 'operation, exact sizes', who)


def cases(tier, env):
    return life_cases(env) + [('op', i) for i in range(len(OPS))] + [('fixed', n, p, i) for n, p in SIZES for i in
                                                                     range(len(fixed(n, p)))]


def arrays(st, v):
    """dims of every array the value shows; None for something that is not an array"""
    out = []
    for a in v.atoms:
        o = st.heap.get(a[1]) if a[0] == 'o' else None
        if o is not None and o.kind == 'inst' and o.f.get('data') is not None:
            out += arrays(st, o.f['data'])
        elif o is not None and o.kind == 'nd':
            out.append(o.aux.get('dims'))
        elif a == NONE_ATOM:
            out.append('none')
        else:
            out.append(None)
    return out


def differ(env, got, want):
    """the two symbolic sizes differ (for some admissible sizes)"""
    if got is None or want is None:
        return False
    d = lin_add(got, want, -1)
    if d == (0, ()):
        return False
    # sizes named by internal symbols may be equal after all
    return all(not s.startswith('%') for s, _ in d[1])


def text(d):
    if d is None:
        return 'unknown'
    return '(%s)' % ', '.join('?' if x is None else lin_str(x) for x in d)


def lin_str(x):
    c, t = x
    parts = [('' if k == 1 else '%s*' % k) + s for s, k in t] + ([str(c)] if c or not t else [])
    return '+'.join(parts)


def compare(env, st, v, want, what, who):
    for d in arrays(st, v):
        env.ok(1, what)
        if d == 'none':
            env.find('no result', who, '%s returns nothing' % who)
            continue
        if d is None:
            env.skip('shape not followed')
            continue
        if len(d) != 2:
            env.find('wrong shape', who, 'the result of %s has %d dimensions' % (who, len(d)))
            continue
        for g, w, ax in zip(d, want, ('rows', 'columns')):
            if w is None:
                continue
            if g is None:
                env.skip('size not followed: %s of %s' % (ax, who))
            elif differ(env, g, w):
                env.find('wrong shape', who, 'the result of %s has shape %s, documented are %s %s' % (
                    who, text(d), lin_str(w), ax))


def op_args(env, st, op):
    """argument values of a table row, matrices labelled per axis"""
    D, I = env.D, env.I
    A = S.Args(env, st)
    codes = ([op[0]] if '.' not in op[0] else []) + list(op[2])
    out = []
    for i, c in enumerate(codes):
        nm = 'ABCDE'[i]
        if c in S.SHAPES:
            out.append(A.matrix(c, nm, [(nm, 0), (nm + "'", 1), role_label(nm)]))
        elif c in ('il', 'jl', 'xl'):
            D.dim('J' if c == 'jl' else 'L', 2)
            lab = frozenset([nm]) if c == 'xl' else EMPTY
            out.append(I.new_list(st, D.node(), elem=num('float', -INF, INF, None, lab) if c == 'xl' else num('int', 0, INF),
                                  length=num('int', 2, INF, lin_sym('J' if c == 'jl' else 'L'))))
        elif c == 'it':
            D.dim('lo', 0)
            D.dim('hi', 1)
            out.append(I.new_tuple(st, D.node(), [num('int', 0, INF, lin_sym('lo')), num('int', 1, INF, lin_sym('hi'))]))
        elif c == 'ht':
            D.dim('H', 1)
            out.append(I.new_tuple(st, D.node(), [const(0), num('int', 1, INF, lin_sym('H'))]))
        else:
            out.append(A.value(c, nm, [nm, role_label(nm)]))
    return out


def run_op(env, op):
    """(arguments, [(shown value, state)]) of one operation"""
    st = env.B.reset()
    env.I.name_slices = True
    args = op_args(env, st, op)
    f = S.Fn(op[1], op[0])
    outs, exc = S.call(env, st, f, args)
    if op[3] in ('self', 'arg0'):
        outs = [(args[0], s) for v, s in outs]
    return args, outs


def size(env, c):
    if c == '.':
        return None
    if c == '1':
        return lin_const(1)
    if c == 'R':
        return (0, (('hi', 1), ('lo', -1)))
    if c in 'AB':
        return lin_sym('i_' + c)
    return lin_sym(c)


def want_of(env, op):
    w = op[3]
    if w is None:
        return None
    if w in ('self', 'arg0'):
        w = 'nn' if 'nn' in op[2] else 'np'
    if '+' in w:
        return lin_add(lin_sym('n'), lin_sym('m')), lin_sym('p')
    if '|' in w:
        return lin_sym('n'), lin_add(lin_sym('p'), lin_sym('k'))
    return tuple(size(env, c) for c in w)


def run(case, env):
    B, D, I = env.B, env.D, env.I
    if case[0] == 'fixed':
        return run_fixed(env, *case[1:])
    if case[0] == 'op':
        op = OPS[case[1]]
        who = op_title(op)
        env.sample(who)
        args, outs = run_op(env, op)
        if not outs:
            env.skip('no normal outcome: ' + who)
        for v, s in outs:
            if op[3] and op[3][0] == '#':
                env.ok(1, 'size query')
                a = v.single()
                if a and a[0] == 'n' and a[4] is not None and a[4] != lin_sym(op[3][1]):
                    env.find('wrong shape', who, '%s returns %s' % (who, lin_str(a[4])))
                continue
            if op[3] is None:
                env.ok(1, 'number')
                for a in v.atoms:
                    if a == NONE_ATOM:
                        env.find('no result', who, '%s returns nothing on some path' % who)
                    elif a[0] == 'o' and s.heap[a[1]].kind in ('nd', 'list', 'tuple'):
                        env.find('wrong shape', who, '%s returns an array instead of a number' % who)
                continue
            compare(env, s, v, want_of(env, op), 'operation', who)
        return
    spec, cfg, way, o, st = setup(env, case)
    env.sample('%s (%s)' % (spec.name, cfg_name(cfg)))
    if spec.kind != 'filter':
        st, bad, exc = B.train(spec, st, o, way=way)
        if st is None:
            env.skip('training never succeeds')
            return
    for meth, what, r in [c + (r,) for c in inference_calls(spec) for r in ('m', 1)]:
        s = st.copy()
        t = B.infer_arg(spec, s, what, rows=r)
        outs, exc = D.method(s, o, meth, [t])
        rows = lin_sym('m') if r == 'm' else lin_const(1)
        if spec.name == 'PCA':
            rows = None
        if meth == 'predict':
            cols = lin_sym('q1') if spec.train == 'multi' else lin_const(1)
        elif spec.name in COLUMNS:
            c = COLUMNS[spec.name]
            cols = None if c == '.' else lin_sym(c)
        elif spec.kind == 'trans' or spec.name in KEEP:
            cols = lin_sym('p1')
        else:
            cols = lin_sym('k_num_components')
        for v, s2 in outs:
            compare(env, s2, v, (rows, cols), meth, '%s.%s' % (spec.name, meth))
