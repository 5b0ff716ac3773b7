"""Public functions outside the trainable classes, with the arguments they take.

Argument codes: matrices by shape ('np' n x p, 'n1' column, '1p' row, 'nn' square, 'pk' p x k, 'np2' a second n x p,
'mp' m x p, '11'), 'i' index, 'x' real number, 'b' truth value, 'k:<v>' constant, 'il' list of ints, 'xl' list of
reals, 'it' index range pair, 'f' elementwise function, 'pred' elementwise predicate, 'uf' numpy ufunc, 'bytes' byte
stream, 'txt' text stream, 's' string, 'sl' list of strings, 'xll' list of lists, 'nd' ndarray.
"""
import ast

from engine.values import *
from engine.heap import *
from checks.api import MissingAnchor, K_, C_

MM = 'wai.ma.core.matrix'
HELPER = 'wai.ma.core.matrix.helper'
FACTORY = 'wai.ma.core.matrix.factory'
UTILS = 'wai.ma.core.utils'


class Fn:
    def __init__(self, name, recv, args=(), mut=(), alias=False, returns='m'):
        self.name = name
        self.recv = recv            # shape code of the receiver, or module name for functions
        self.args = list(args)
        self.mut = set(mut)         # documented to modify: 'self' or argument positions
        self.alias = alias          # documented to return (part of) an argument
        self.returns = returns      # m matrix, s scalar, l python list, n nothing


def _m(name, recv, *args, **kw):
    return Fn(name, recv, args, **kw)


MATRIX_METHODS = [
    _m('get_sub_matrix', 'np', 'il', 'il'), _m('get_sub_matrix', 'np', 'it', 'it'),
    _m('get_rows', 'np', 'il'), _m('get_rows', 'np', 'it'), _m('get_columns', 'np', 'il'), _m('get_columns', 'np', 'it'),
    _m('get_eigenvectors', 'nn'), _m('get_eigenvectors', 'nn', 'k:True'),
    _m('get_eigenvectors_sorted_ascending', 'nn'), _m('get_eigenvectors_sorted_descending', 'nn'),
    _m('get_dominant_eigenvector', 'nn'), _m('get_eigenvalue_decomposition_V', 'nn'),
    _m('get_eigenvalue_decomposition_D', 'nn'), _m('get_eigenvalues', 'nn'),
    _m('get_eigenvalues_sorted_descending', 'nn'), _m('get_eigenvalues_sorted_ascending', 'nn'),
    _m('svd_U', 'np'), _m('svd_V', 'np'), _m('svd_S', 'np'), _m('get_singular_values', 'np'),
    _m('sum', 'np', returns='s'), _m('sum', 'np', 'k:-1'), _m('sum', 'np', 'k:0'), _m('sum', 'np', 'k:1'),
    _m('norm1', 'np', returns='s'), _m('norm2', 'np', returns='s'), _m('norm2_squared', 'np', returns='s'),
    _m('mul', 'np', 'pk'), _m('mul', 'np', 'x'), _m('is_multiplicable_with', 'np', 'pk', returns='s'),
    _m('vector_dot', 'n1', 'n1b', returns='s'), _m('vector_dot', '1p', '1pb', returns='s'),
    _m('normalized', 'np'), _m('normalized', 'np', 'k:1'), _m('is_vector', 'np', returns='s'),
    _m('same_shape_as', 'np', 'np2', returns='s'), _m('mul_elementwise', 'np', 'np2'),
    _m('scale_by_row_vector', 'np', 'p1'), _m('scale_by_column_vector', 'np', 'n1'),
    _m('add_by_vector', 'np', '1p'), _m('add_by_vector', 'np', 'n1'),
    _m('div_elementwise', 'np', 'np2'), _m('div', 'np', 'x'),
    _m('sub', 'np', 'np2'), _m('sub', 'np', 'x'), _m('add', 'np', 'np2'), _m('add', 'np', 'x'),
    _m('pow_elementwise', 'np', 'x'), _m('sqrt', 'np'), _m('transpose', 'np'), _m('t', 'np'),
    _m('num_columns', 'np', returns='s'), _m('num_rows', 'np', returns='s'),
    _m('get', 'np', 'i', 'i', returns='s'),
    _m('set', 'np', 'i', 'i', 'x', mut=['self'], returns='n'),
    _m('set_row', 'np', 'i', '1p', mut=['self'], returns='n'), _m('set_row', 'np', 'i', 'p1', mut=['self'], returns='n'),
    _m('set_column', 'np', 'i', 'n1', mut=['self'], returns='n'),
    _m('set_column', 'np', 'i', '1n', mut=['self'], returns='n'),
    _m('get_row', 'np', 'i'), _m('get_column', 'np', 'i'), _m('inverse', 'nn'), _m('inverse', 'np'), _m('copy', 'np'),
    _m('as_real', '11', returns='s'), _m('to_raw_copy_1D', 'np', returns='l'), _m('to_raw_copy_2D', 'np', returns='l'),
    _m('concat', 'np', 'mp', 'k:0'), _m('concat', 'np', 'nk', 'k:1'), _m('concat_along_rows', 'np', 'mp'),
    _m('concat_along_columns', 'np', 'nk'), _m('is_row_vector', 'np', returns='s'),
    _m('is_column_vector', 'np', returns='s'), _m('apply_elementwise', 'np', 'f'), _m('clip', 'np', 'k:0.0', 'k:1.0'),
    _m('clip_lower', 'np', 'x'), _m('clip_upper', 'np', 'x'), _m('sign', 'np'), _m('abs', 'np'),
    _m('max', 'np', returns='s'), _m('median', 'np', returns='s'), _m('where_vector', 'n1', 'pred', returns='l'),
    _m('where_vector', '1p', 'pred', returns='l'), _m('head', 'np'), _m('head', 'np', 'i'), _m('diag', 'np'),
    _m('mean', 'np', returns='s'), _m('mean', 'np', 'k:-1'), _m('mean', 'np', 'k:0'), _m('mean', 'np', 'k:1'),
    _m('contains_NaN', 'np', returns='s'), _m('any', 'np', 'pred', returns='s'), _m('all', 'np', 'pred', returns='s'),
    _m('which', 'np', 'pred', returns='l'), _m('trace', 'nn', returns='s'), _m('__str__', 'np', returns='s'),
    _m('row_str', 'np', 'i', returns='s'), _m('__eq__', 'np', 'np2', returns='s'), _m('shape_string', 'np', returns='s'),
    _m('sub_by_vector', 'np', '1p'), _m('mul_by_vector', 'np', 'n1'), _m('sub_by_vector', 'np', 'n1'),
    _m('mul_by_vector', 'np', '1p'),
    _m('add_by_vector_modify', 'np', '1p', mut=['self'], returns='n'),
    _m('sub_by_vector_modify', 'np', '1p', mut=['self'], returns='n'),
    _m('mul_by_vector_modify', 'np', 'n1', mut=['self'], returns='n'),
    _m('div_by_vector_modify', 'np', 'n1', mut=['self'], returns='n'),
    _m('vector_op', 'np', '1p', 'uf'), _m('vector_op_modify', 'np', '1p', 'uf', mut=['self'], returns='n'),
    _m('vector_size_matches', 'np', '1p', returns='s'), _m('num_elements', 'np', returns='s'),
    _m('get_from_vector', 'n1', 'i', returns='s'), _m('vector_to_diagonal', 'n1'),
    _m('get_eigenvectors_sorted', 'nn', 'k:True'), _m('get_eigenvalues_sorted', 'nn', 'k:False'),
    _m('exp', 'np'), _m('tanh', 'np'), _m('is_square', 'np', returns='s'), _m('pseudo_inverse', 'np'),
    _m('serialise_state', 'np', 'bytes', mut=[0], returns='n'), _m('get_serialised_state', 'np', returns='s'),
]

FUNCTIONS = [
    _m('delete_col', HELPER, 'np', 'i'), _m('delete_cols', HELPER, 'np', 'il'), _m('row_as_vector', HELPER, 'np', 'i'),
    _m('mean', HELPER, 'np', 'i', 'b', returns='s'), _m('stdev', HELPER, 'np', 'i', 'b', returns='s'),
    _m('column_as_vector', HELPER, 'np', 'i'), _m('euclidean_distance', HELPER, 'np', 'mp', 'b'),
    _m('row_norms', HELPER, 'np', 'b'), _m('equal', HELPER, 'np', 'np2', 'x', returns='s'),
    _m('to_lines', HELPER, 'np', 'b', 's', 'i', 'b', returns='l'),
    _m('data_to_string', HELPER, 'np', 's', 'i', 'sl', 'b', mut=[3], returns='n'),
    _m('write', HELPER, 'np', 'txt', 'b', 's', 'i', mut=[1], returns='n'),
    _m('to_string', HELPER, 'np', returns='s'), _m('dim', HELPER, 'np', returns='s'), _m('inverse', HELPER, 'nn'),
    _m('row_mean', HELPER, 'np', 'i', returns='s'), _m('row_means', HELPER, 'np'),
    _m('column_mean', HELPER, 'np', 'i', returns='s'), _m('column_means', HELPER, 'np'),
    _m('row_stdev', HELPER, 'np', 'i', returns='s'), _m('row_stdevs', HELPER, 'np'),
    _m('column_stdev', HELPER, 'np', 'i', returns='s'), _m('column_stdevs', HELPER, 'np'),
    _m('fill_diagonal', HELPER, 'nn', 'x', mut=[0], returns='n'), _m('solve', HELPER, 'nn', 'n1'),
    _m('multi_concat', HELPER, 'k:0', 'np', 'mp'), _m('multi_concat', HELPER, 'k:1', 'np', 'nk'),
    _m('multi_concat', HELPER, 'k:0', 'np'),
    _m('create', FACTORY, 'nd'), _m('create', FACTORY, 'xll'),
    _m('eye_like', FACTORY, 'np'), _m('zeros_like', FACTORY, 'np'), _m('filled_like', FACTORY, 'np', 'x'),
    _m('from_row', FACTORY, 'xl'), _m('from_column', FACTORY, 'xl'), _m('randn_like', FACTORY, 'np', 'i'),
    _m('rand_like', FACTORY, 'np', 'i'), _m('diag', FACTORY, 'n1'), _m('create_spectrum', FACTORY, 'xl', 'xl'),
    _m('eye', FACTORY, 'i', 'i'), _m('zeros', FACTORY, 'i', 'i'), _m('filled', FACTORY, 'i', 'i', 'x'),
    _m('rand', FACTORY, 'i', 'i'), _m('randn', FACTORY, 'i', 'i'), _m('range', FACTORY, 'i', 'i', 'i'),
    _m('sort', UTILS, 'xl', returns='l'), _m('linear_regression', UTILS, 'xl', 'xl', returns='s'),
    _m('sum_of_squares', UTILS, 'xl', returns='s'), _m('to_real_array', UTILS, 'xl', returns='l'),
    _m('max_index', UTILS, 'xl', returns='s'), _m('list_to_string', UTILS, 'xl', returns='s'),
    _m('read', HELPER, 'txt', 'b', 's', mut=[0]), _m('real_to_string_fixed', UTILS, 'x', 'i', returns='s'),
    _m('get_list_dimensions', UTILS, 'xl', returns='s'),
]

KERNELS = ('LinearKernel', 'PolyKernel', 'RBFKernel')

SHAPES = {'np': ('n', 'p'), 'np2': ('n', 'p'), 'n1': ('n', 1), 'n1b': ('n', 1), '1p': (1, 'p'), '1pb': (1, 'p'),
          'nn': ('n', 'n'), 'pk': ('p', 'k'), 'mp': ('m', 'p'), '11': (1, 1), 'p1': ('p', 1), '1n': (1, 'n'),
          'nk': ('n', 'k')}

_FSRC = ast.parse('lambda e: e * 2', mode='eval').body


class Args:
    """builds argument values in a state"""

    def __init__(self, env, st):
        self.env = env
        self.D = env.D
        self.I = env.I
        self.st = st
        self.k = 0

    def shape(self, code):
        return tuple(lin_const(d) if isinstance(d, int) else self.D.dim(d, 2) for d in SHAPES[code])

    def matrix(self, code, name, labels=None):
        r, c = self.shape(code)
        return self.D.matrix(self.st, name, r, c, labels)

    def value(self, code, name=None, labels=None):
        """abstract value of an argument code"""
        self.k += 1
        name = name or 'A%d' % self.k
        lab = frozenset(labels if labels is not None else [name])
        st, D, I = self.st, self.D, self.I
        if code in SHAPES:
            return self.matrix(code, name, labels)
        if code == 'nd':
            r, c = self.shape('np')
            return D.nd(st, name, r, c, labels)
        if code == 'i':
            D.dim('i_' + name, 0)
            return num('int', 0, INF, lin_sym('i_' + name))
        if code == 'x':
            return join(num('float', -INF, INF, None, lab), V((NAN_ATOM,), lab))
        if code == 'b':
            return BOOL
        if code.startswith('k:'):
            return const(ast.literal_eval(code[2:]))
        if code == 's':
            return V((STR_ATOM,))
        if code == 'il':
            return I.new_list(st, D.node(), elem=num('int', 0, INF), length=num('int', 1, INF))
        if code == 'xl':
            return I.new_list(st, D.node(), elem=join(num('float', -INF, INF, None, lab), V((NAN_ATOM,), lab)), length=num('int', 1, INF))
        if code == 'sl':
            return I.new_list(st, D.node(), elem=V((STR_ATOM,)), length=num('int', 0, INF))
        if code == 'xll':
            row = I.new_list(st, D.node(), elem=join(num('float', -INF, INF, None, lab), V((NAN_ATOM,), lab)), length=num('int', 1, INF))
            return I.new_list(st, D.node(), elem=row, length=num('int', 1, INF))
        if code == 'it':
            return I.new_tuple(st, D.node(), [const(0), num('int', 1, INF)])
        if code in ('f', 'pred'):
            return V((('x', 'builtins.abs' if code == 'f' else 'builtins.bool'),))
        if code == 'uf':
            return V((('x', 'numpy.add'),))
        if code in ('bytes', 'txt'):
            n = D.node()
            m = 'io.BytesIO' if code == 'bytes' else 'io.StringIO'
            return I.call_value(V((('x', m),)), [], {}, st, n)
        raise ValueError(code)


def call(env, st, f, args):
    """(outcomes, exceptions) of calling the described function"""
    D = env.D
    if '.' in f.recv:
        got, _ = D.get(st, V((('m', f.recv),)), f.name)
        if not got:
            raise MissingAnchor('%s.%s' % (f.recv, f.name))
        return D.function(st, f.recv, f.name, args)
    recv, rest = args[0], args[1:]
    got, _ = D.get(st, recv, f.name)
    if not got:
        raise MissingAnchor('Matrix.%s' % f.name)
    return D.method(st, recv, f.name, rest)


def describe(f):
    return '%s.%s(%s)' % (f.recv.split('.')[-1] if '.' in f.recv else 'Matrix[%s]' % f.recv, f.name, ', '.join(f.args))
