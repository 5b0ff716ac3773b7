from checks.common import *
from checks import surface as S

ID = 'C14'
TECHNIQUE = 'static shape analysis with symbolic dimensions (abstract interpretation)'
TITLE = 'Data of the wrong shape is rejected'
RULE = ('with operands whose sizes differ for every value of their symbolic dimensions, no path through a matrix operation '
        'returns a result; no path through applying a trained instance to a different number of columns returns a '
        'result; no path through training on predictors and responses of different length, two data sets of different '
        'width, or too many responses reports success.')
FLOOR = 200
cost = life_cost

# work on whatever they are given: nothing learnt fixes a number of columns
ANY_COLUMNS = {'FFT', 'Log', 'MultiplicativeScatterCorrection', 'PassThrough', 'RowNorm', 'SavitzkyGolay',
               'SavitzkyGolay2', 'YGradientGLSWSavitzkyGolayFilter'}
# the rejection happens inside a library estimator, or at a position that depends on the data
NOT_DECIDED = {('columns', 'PowerTransformer'), ('columns', 'QuantileTransformer'), ('columns', 'RobustScaler'),
               ('columns', 'PRM'), ('rows', 'PRM'), ('rows', 'NIPALS'), ('rows', 'CCARegression'),
               ('response', 'YGradientEPO'), ('response', 'YGradientGLSW')}
OPS = [('mul', 'np', 'qk'), ('mul_elementwise', 'np', 'mp'), ('mul_elementwise', 'np', 'nq'), ('add', 'np', 'mp'),
       ('add', 'np', 'nq'), ('sub', 'np', 'mp'), ('sub', 'np', 'nq'), ('div_elementwise', 'np', 'mp'),
       ('div_elementwise', 'np', 'nq'), ('vector_dot', 'n1', 'm1'), ('vector_dot', '1p', '1q'),
       ('add_by_vector', 'np', '1q'), ('add_by_vector', 'np', 'm1'), ('sub_by_vector', 'np', '1q'),
       ('sub_by_vector', 'np', 'm1'), ('mul_by_vector', 'np', '1q'), ('mul_by_vector', 'np', 'm1'),
       ('add_by_vector_modify', 'np', '1q'), ('add_by_vector_modify', 'np', 'm1'), ('sub_by_vector_modify', 'np', '1q'),
       ('sub_by_vector_modify', 'np', 'm1'), ('mul_by_vector_modify', 'np', '1q'), ('mul_by_vector_modify', 'np', 'm1'),
       ('div_by_vector_modify', 'np', '1q'), ('div_by_vector_modify', 'np', 'm1'), ('add_by_vector', 'np', 'np'),
       ('mul_by_vector', 'np', 'np'), ('vector_dot', 'np', 'np'), ('set_row', 'np', 'i', 'np'),
       ('set_column', 'np', 'i', 'np'), ('vector_to_diagonal', 'np'), ('as_real', 'np'), ('get_from_vector', 'np', 'i'),
       ('where_vector', 'np', 'pred'), ('scale_by_row_vector', 'np', 'q1'), ('scale_by_column_vector', 'np', 'm1'),
       ('concat_along_rows', 'np', 'mq'), ('concat_along_columns', 'np', 'mq'), ('normalized', 'np', 'k:2'), ('sum', 'np', 'k:2'),
       ('mean', 'np', 'k:2')]
# the same number of elements, or sizes that only fit crosswise
OPS += [(o, a, b) for o in ('add', 'sub', 'mul_elementwise', 'div_elementwise')
        for a, b in (('1p', 'm1'), ('n1', '1q'), ('np', 'pn'), ('np', '1p'), ('np', 'n1'), ('1p', 'np'), ('n1', 'np'), ('np', '11'),
                     ('11', 'np'), ('1p', 'p1'))]
OPS += [(o, a, b) for o in ('add_by_vector', 'sub_by_vector', 'mul_by_vector', 'add_by_vector_modify', 'sub_by_vector_modify',
                            'mul_by_vector_modify', 'div_by_vector_modify') for a, b in (('np', 'p1'), ('np', '1n'), ('nn', '1p'),
                                                                                         ('np', '11'), ('1p', '1q'), ('1p', 'm1'))]
OPS += [('mul', 'np', 'np'), ('mul', 'np', 'n1'), ('mul', 'np', '1p'), ('mul', '1p', '1p'), ('mul', 'np', '11'),
        ('scale_by_row_vector', 'np', '1p'), ('scale_by_row_vector', 'np', 'n1'), ('scale_by_row_vector', 'np', '11'),
        ('scale_by_column_vector', 'np', '1n'), ('scale_by_column_vector', 'np', 'p1'), ('scale_by_column_vector', 'np', '11'),
        ('vector_dot', '1p', 'm1'), ('vector_dot', 'np', '1p'), ('vector_dot', '1p', 'np'), ('vector_dot', '1p', '11'),
        ('concat_along_rows', 'np', 'pn'), ('concat_along_columns', 'np', 'pn'), ('concat_along_rows', 'np', 'n1'),
        ('concat_along_columns', 'np', '1p'), ('concat', 'np', 'mq', 'k:0'), ('concat', 'np', 'mq', 'k:1'),
        ('as_real', '1p'), ('as_real', 'n1'), ('set_row', 'np', 'i', 'mq'),
        ('set_column', 'np', 'i', 'mq'), ('vector_to_diagonal', 'nn'), ('get_eigenvalues', 'np'), ('get_eigenvectors', 'np'),
        ('get_eigenvalue_decomposition_V', 'np'), ('get_eigenvalue_decomposition_D', 'np'),
        ('get_dominant_eigenvector', 'np'), ('get_eigenvalues_sorted_ascending', 'np'),
        ('get_eigenvalues_sorted_descending', 'np'), ('normalized', 'np', 'k:-3')]


def cases(tier, env):
    out = [('life',) + c[1:] + ('columns',) for c in life_cases(env, ('trans', 'sup')) if c[1] not in ANY_COLUMNS]
    out += [('life',) + c[1:] + (w,) for c in life_cases(env, ('sup',)) for w in ('rows', 'response', 'second')]
    out += [('op', i) for i in range(len(OPS))]
    return [c for c in out if c[0] == 'op' or (c[4], c[1]) not in NOT_DECIDED]


def diff(env, *names):
    I = env.I
    s = set(I.distinct)
    for i, a in enumerate(names):
        for b in names[:i]:
            s.add(lin_add(env.D.dim(a, 3), env.D.dim(b, 3), -1))
    I.distinct = s


def unsure(env, *names):
    """the mismatching quantity met a size or a routine the analysis does not know: no verdict"""
    if env.I.doubts & set(names):
        env.skip('an unknown size is involved')
        return True
    return False


def op(env, case):
    D, I = env.D, env.I
    name, *codes = OPS[case[1]]
    st = env.B.reset()
    diff(env, 'n', 'm', 'p', 'q', 'k')
    A = S.Args(env, st)

    def val(c, nm):
        if len(c) == 2:
            return D.matrix(st, nm, *[lin_const(int(x)) if x.isdigit() else D.dim(x, 3) for x in c])
        return A.value(c)
    vals = [val(c, 'M%d' % i) for i, c in enumerate(codes)]
    outs, exc = D.method(st, vals[0], name, vals[1:])
    env.ok(1, 'matrix operation')
    what = '%s(%s)' % (name, ', '.join(codes))
    env.sample(what)
    if outs and not unsure(env, 'M0', 'M1', 'M2', '#n', '#m', '#p', '#q', '#k'):
        env.find('mismatching operands accepted', what, 'matrix operation %s on operands of shapes %s returns a result' % (
            name, ', '.join(codes)))


def run(case, env):
    if case[0] == 'op':
        return op(env, case)
    B, D, I = env.B, env.D, env.I
    spec, cfg, way, o, st = setup(env, case)
    mode = case[4]
    env.sample('%s (%s) %s' % (spec.name, cfg_name(cfg), mode))
    if mode == 'columns':
        diff(env, 'p1', 'p2')
        st, bad, exc = B.train(spec, st, o, way=way)
        if st is None:
            env.skip('training never succeeds')
            return
        for meth, what in inference_calls(spec):
            if what == 'R':
                diff(env, 'q1', 'p2')
            s = st.copy()
            t = B.X(s, 'T', 'm', 'p2')
            I.doubts = set()
            outs, exc = D.method(s, o, meth, [t])
            env.ok(1, 'application to a different number of columns')
            if outs and not unsure(env, 'T', '#p2'):
                env.find('wrong number of columns accepted', '%s.%s' % (spec.name, meth),
                         '%s.%s returns a result for data with another number of columns than the training data' % (
                             spec.name, meth))
        return
    data = B.training_data(spec, st, '1', None, way)
    entry = '%s.%s' % (spec.name, way or 'initialize')
    if mode == 'rows':
        diff(env, 'n1', 'n2')
        if spec.train == 'dipls':
            diff(env, 'u1', 'n2')
        cols = {'single': 1, 'ygrad': 1, 'dipls': 1, 'multi': 'q1', 'cca': 'q1', 'pair': 'p1'}[spec.train]
        data[-1] = B.X(st, 'Ybad', 'n2', cols)
        text = 'succeeds although the predictors and the response differ in their number of rows'
    elif mode == 'response':
        if spec.train not in ('single', 'ygrad', 'dipls'):
            return
        diff(env, 'n1', 'n2')
        data[-1] = B.X(st, 'Ybad', 'n1' if way in (None, 'initialize_unsupervised') else 'u1', 2)
        text = 'succeeds with two response columns although the algorithm handles a single response'
    else:
        if spec.train not in ('pair', 'dipls'):
            return
        diff(env, 'p1', 'p2')
        data[1] = B.X(st, 'Xbad', 'n1' if spec.train == 'pair' else 'u1', 'p2')
        text = 'succeeds although its two data sets differ in their number of columns'
    good, bad, exc = B.train(spec, st, o, way=way, data=data)
    env.ok(1, 'training, %s' % mode)
    if good is not None and not unsure(env, 'Ybad', 'Xbad', '#n2', '#p2'):
        env.find('mismatching training data accepted', '%s / %s' % (entry, mode), '%s %s' % (entry, text))
