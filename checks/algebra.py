"""What the matrix operations compute from what: the shape of each result, and for every axis of every operand the axis
of the result its elements end up on.

A row is (module or receiver code, name, argument codes, result shape, dependences).  Shapes are two letters naming the
symbolic sizes of the operands ('1' for one, '.' for a size that depends on the data), None for a number.  Dependences
are one two-character entry per operand, first the rows, then the columns of the operand:
  r c   element (r, c) of the result uses that row / column of the operand only
  *     every element of the result uses the whole axis
  i     the row or column selected by the (first / second) index argument
  +r +c the matching row / column, and a reduction over the whole axis as well
  -     not examined
"""
from checks.surface import HELPER, FACTORY

E = 'rc'


def _e(name, *a):
    return ('np', name, a, 'np', [E])


OPS = [
    ('np', 'get_sub_matrix', ('il', 'jl'), 'LJ', ['--']), ('np', 'get_rows', ('il',), 'Lp', ['-c']),
    ('np', 'get_columns', ('jl',), 'nJ', ['r-']), ('np', 'get_rows', ('it',), 'Rp', ['-c']),
    ('np', 'get_columns', ('it',), 'nR', ['r-']), ('np', 'get_rows', ('ht',), 'Hp', ['rc']),
    ('np', 'get_columns', ('ht',), 'nH', ['rc']), ('np', 'get_sub_matrix', ('it', 'ht'), 'RH', ['-c']),
    ('np', 'get_sub_matrix', ('ht', 'jl'), 'HJ', ['r-']),
    ('nn', 'get_eigenvectors', (), 'nn', ['**']), ('nn', 'get_eigenvectors_sorted_ascending', (), 'n.', ['**']),
    ('nn', 'get_eigenvectors_sorted_descending', (), 'n.', ['**']), ('nn', 'get_dominant_eigenvector', (), 'n1', ['**']),
    ('nn', 'get_eigenvalue_decomposition_V', (), 'nn', ['**']), ('nn', 'get_eigenvalue_decomposition_D', (), 'nn', ['**']),
    ('nn', 'get_eigenvalues', (), 'n1', ['**']), ('nn', 'get_eigenvalues_sorted_ascending', (), 'n1', ['**']),
    ('nn', 'get_eigenvalues_sorted_descending', (), 'n1', ['**']),
    ('np', 'svd_U', (), 'n.', ['**']), ('np', 'svd_V', (), '.p', ['**']), ('np', 'svd_S', (), '..', ['**']),
    ('np', 'get_singular_values', (), '.1', ['**']),
    ('np', 'sum', (), None, ['**']), ('np', 'sum', ('k:-1',), '11', ['**']), ('np', 'sum', ('k:0',), '1p', ['*c']),
    ('np', 'sum', ('k:1',), 'n1', ['r*']), ('np', 'mean', (), None, ['**']), ('np', 'mean', ('k:-1',), '11', ['**']),
    ('np', 'mean', ('k:0',), '1p', ['*c']), ('np', 'mean', ('k:1',), 'n1', ['r*']),
    ('np', 'norm1', (), None, ['**']), ('np', 'norm2', (), None, ['**']), ('np', 'norm2_squared', (), None, ['**']),
    ('np', 'mul', ('pk',), 'nk', ['r*', '*c']), ('np', 'mul', ('x',), 'np', [E, 'x']),
    ('n1', 'vector_dot', ('n1b',), None, ['*-', '*-']), ('1p', 'vector_dot', ('1pb',), None, ['-*', '-*']),
    ('np', 'normalized', (), 'np', ['+r' + 'c']), ('np', 'normalized', ('k:1',), 'np', ['r' + '+c']),
    ('np', 'mul_elementwise', ('np2',), 'np', [E, E]), ('np', 'div_elementwise', ('np2',), 'np', [E, E]),
    ('np', 'add', ('np2',), 'np', [E, E]), ('np', 'sub', ('np2',), 'np', [E, E]),
    ('np', 'add', ('x',), 'np', [E, 'x']), ('np', 'sub', ('x',), 'np', [E, 'x']), ('np', 'div', ('x',), 'np', [E, 'x']),
    ('np', 'pow_elementwise', ('x',), 'np', [E, 'x']),
    ('np', 'scale_by_row_vector', ('p1',), 'np', [E, 'c-']), ('np', 'scale_by_column_vector', ('n1',), 'np', [E, 'r-']),
    ('np', 'add_by_vector', ('1p',), 'np', [E, '-c']), ('np', 'add_by_vector', ('n1',), 'np', [E, 'r-']),
    ('np', 'sub_by_vector', ('1p',), 'np', [E, '-c']), ('np', 'sub_by_vector', ('n1',), 'np', [E, 'r-']),
    ('np', 'mul_by_vector', ('1p',), 'np', [E, '-c']), ('np', 'mul_by_vector', ('n1',), 'np', [E, 'r-']),
    ('np', 'add_by_vector_modify', ('1p',), 'self', [E, '-c']), ('np', 'add_by_vector_modify', ('n1',), 'self', [E, 'r-']),
    ('np', 'sub_by_vector_modify', ('1p',), 'self', [E, '-c']), ('np', 'sub_by_vector_modify', ('n1',), 'self', [E, 'r-']),
    ('np', 'mul_by_vector_modify', ('1p',), 'self', [E, '-c']), ('np', 'mul_by_vector_modify', ('n1',), 'self', [E, 'r-']),
    ('np', 'div_by_vector_modify', ('1p',), 'self', [E, '-c']), ('np', 'div_by_vector_modify', ('n1',), 'self', [E, 'r-']),
    _e('sqrt'), _e('sign'), _e('abs'), _e('exp'), _e('tanh'), _e('copy'), _e('apply_elementwise', 'f'),
    _e('clip', 'k:0.0', 'k:1.0'), ('np', 'clip_lower', ('x',), 'np', [E, 'x']),
    ('np', 'clip_upper', ('x',), 'np', [E, 'x']),
    ('np', 'transpose', (), 'pn', ['cr']), ('np', 't', (), 'pn', ['cr']),
    ('np', 'num_columns', (), '#p', []), ('np', 'num_rows', (), '#n', []),
    ('np', 'get', ('i', 'i'), None, ['ii']), ('np', 'get_row', ('i',), '1p', ['ic']),
    ('np', 'get_column', ('i',), 'n1', ['ri']), ('n1', 'get_from_vector', ('i',), None, ['i-']),
    ('1p', 'get_from_vector', ('i',), None, ['-i']),
    ('np', 'set', ('i', 'i', 'x'), 'self', [E, '', '', 'x']), ('np', 'set_row', ('i', '1p'), 'self', [E, '', '-c']),
    ('np', 'set_row', ('i', 'p1'), 'self', [E, '', 'c-']), ('np', 'set_column', ('i', 'n1'), 'self', [E, '', 'r-']),
    ('np', 'set_column', ('i', '1n'), 'self', [E, '', '-r']),
    ('nn', 'inverse', (), 'nn', ['**']), ('np', 'inverse', (), 'pn', ['**']), ('np', 'pseudo_inverse', (), 'pn', ['**']),
    ('np', 'concat', ('mp', 'k:0'), 'np+mp', ['-c', '-c']), ('np', 'concat', ('nk', 'k:1'), 'np|nk', ['r-', 'r-']),
    ('np', 'concat_along_rows', ('mp',), 'np+mp', ['-c', '-c']),
    ('np', 'concat_along_columns', ('nk',), 'np|nk', ['r-', 'r-']),
    ('np', 'max', (), None, ['**']), ('np', 'median', (), None, ['**']),
    ('np', 'head', (), '.p', ['rc']), ('np', 'head', ('i',), '.p', ['rc']), ('np', 'diag', (), '.1', ['--']),
    ('nn', 'diag', (), '.1', ['--']), ('n1', 'vector_to_diagonal', (), 'nn', ['--']),
    ('nn', 'trace', (), None, ['--']), ('11', 'as_real', (), None, ['--']),
    ('np', 'num_elements', (), None, []),
    (HELPER, 'delete_col', ('np', 'i'), 'n.', ['r-']), (HELPER, 'delete_cols', ('np', 'il'), 'n.', ['r-']),
    (HELPER, 'row_as_vector', ('np', 'i'), '1p', ['ic']), (HELPER, 'column_as_vector', ('np', 'i'), 'n1', ['ri']),
    (HELPER, 'row_mean', ('np', 'i'), None, ['i*']), (HELPER, 'row_means', ('np',), 'n1', ['r*']),
    (HELPER, 'column_mean', ('np', 'i'), None, ['*i']), (HELPER, 'column_means', ('np',), '1p', ['*c']),
    (HELPER, 'row_stdev', ('np', 'i'), None, ['i*']), (HELPER, 'row_stdevs', ('np',), 'n1', ['r*']),
    (HELPER, 'column_stdev', ('np', 'i'), None, ['*i']), (HELPER, 'column_stdevs', ('np',), '1p', ['*c']),
    (HELPER, 'mean', ('np', 'i', 'k:False'), None, ['i*']), (HELPER, 'mean', ('np', 'i', 'k:True'), None, ['*i']),
    (HELPER, 'stdev', ('np', 'i', 'k:False'), None, ['i*']), (HELPER, 'stdev', ('np', 'i', 'k:True'), None, ['*i']),
    (HELPER, 'inverse', ('nn',), 'nn', ['**']), (HELPER, 'solve', ('nn', 'n1'), 'n1', ['**', '*-']),
    (HELPER, 'solve', ('nn', 'nk'), 'nk', ['**', '*c']), (HELPER, 'fill_diagonal', ('nn', 'x'), 'arg0', [E, 'x']),
    (HELPER, 'multi_concat', ('k:0', 'np', 'mp'), 'np+mp', ['', '-c', '-c']),
    (HELPER, 'multi_concat', ('k:1', 'np', 'nk'), 'np|nk', ['', 'r-', 'r-']),
    (HELPER, 'multi_concat', ('k:0', 'np'), 'np', ['', E]),
    (FACTORY, 'eye_like', ('np',), 'np', []), (FACTORY, 'zeros_like', ('np',), 'np', []),
    (FACTORY, 'filled_like', ('np', 'x'), 'np', ['', 'x']), (FACTORY, 'randn_like', ('np', 'i'), 'np', []),
    (FACTORY, 'rand_like', ('np', 'i'), 'np', []), (FACTORY, 'diag', ('n1',), 'nn', ['--']),
    (FACTORY, 'from_row', ('xl',), '1L', ['x']), (FACTORY, 'from_column', ('xl',), 'L1', ['x']),
    (FACTORY, 'eye', ('i', 'i'), 'AB', []), (FACTORY, 'zeros', ('i', 'i'), 'AB', []),
    (FACTORY, 'filled', ('i', 'i', 'x'), 'AB', ['', '', 'x']), (FACTORY, 'rand', ('i', 'i'), 'AB', []),
    (FACTORY, 'randn', ('i', 'i'), 'AB', []),
]

# how the operands enter the result: + added, - subtracted, * factor, / divisor (by name of the operation)
ROLES = {
    'add': '++', 'sub': '+-', 'mul_elementwise': '**', 'div_elementwise': '*/', 'mul': '**', 'div': '*/',
    'add_by_vector': '++', 'sub_by_vector': '+-', 'mul_by_vector': '**', 'add_by_vector_modify': '++',
    'sub_by_vector_modify': '+-', 'mul_by_vector_modify': '**', 'div_by_vector_modify': '*/', 'vector_dot': '**',
    'scale_by_row_vector': '**', 'scale_by_column_vector': '**', 'transpose': '+', 't': '+', 'copy': '+', 'get': '+',
    'get_row': '+', 'get_column': '+', 'get_rows': '+', 'get_columns': '+', 'get_sub_matrix': '+', 'head': '+',
    'concat': '++', 'concat_along_rows': '++', 'concat_along_columns': '++', 'row_as_vector': '+', 'column_as_vector': '+',
    'delete_col': '+', 'delete_cols': '+', 'sum': '+', 'get_from_vector': '+', 'diag': '+', 'vector_to_diagonal': '+',
}
ROLE_OF = {'+': '+n', '-': '-n', '*': '+np', '/': '+dp'}


def title(op):
    return '%s.%s(%s)' % (op[0].split('.')[-1] if '.' in op[0] else 'Matrix[%s]' % op[0], op[1], ', '.join(op[2]))
