#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALGS = ['src/wai/ma/algorithm/**', 'src/wai/ma/transformation/**', 'src/wai/ma/filter/**']
CORE = ['src/wai/ma/core/matrix/_Matrix.py', 'src/wai/ma/core/matrix/helper.py', 'src/wai/ma/core/matrix/factory.py']
PLS = ['src/wai/ma/algorithm/pls/**']

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism
P = []


def p(*a):
    P.append(a)


p('C01', 'Arguments are never modified',
  'No public operation changes the contents of a matrix, array, list or settings object that the caller passes to it '
  '(training data, responses, data to transform or predict, operands of matrix arithmetic, index lists). The only '
  'exceptions are the operations documented to work in place on the matrix they are called on, and these change that '
  'matrix only, never their other arguments.',
  ['inputs', 'configurations'],
  'every public operation of the matrix type, the helper and factory functions, every algorithm, transformation, filter '
  'and kernel under every combination of its structural settings, for all argument contents and shapes',
  'the tests compare results with reference files and never look at their inputs again; an in-place operation on a view '
  'of the caller\'s data does not change any checked output',
  ALGS + CORE, 'in-place operations and library calls that write their arguments; copies made on entry')
p('C02', 'Results share no storage with arguments, models or each other',
  'The matrix or list a public operation returns is independent: changing it in place later never changes an argument of '
  'the call, the model it came from, or any earlier or later result. The documented exceptions are the explicit '
  'pass-through transformation, an empty chain of transformations, wrapping an existing array as a matrix, and accessors '
  'that hand out part of a model\'s state.',
  ['inputs', 'configurations', 'histories'],
  'every public operation that returns a matrix, array or list, under every combination of structural settings',
  'no test modifies a result and then looks at the argument or the model again; aliasing is invisible to a comparison of '
  'values taken once',
  ALGS + CORE, 'views returned by slicing, transposing, reshaping and asarray-like library calls; cached decompositions')
p('C03', 'Derived quantities of a matrix are never stale',
  'Whatever was asked of a matrix before, after any operation that changes it in place every derived quantity '
  '(eigenvalues, eigenvectors, singular values and vectors, sums, norms, means and other statistics, copies, its '
  'transpose) is computed from the current contents.',
  ['histories', 'inputs'],
  'all sequences query - in-place change - query over all pairs of in-place operation and derived quantity',
  'the tests query freshly built matrices; the cache is only wrong for a query, a change and a second query in that order',
  [CORE[0]], 'decompositions cached per matrix and the reset of the cache in every in-place operation')
p('C04', 'An untrained model refuses to produce results',
  'Applying a model that has not been trained - newly constructed, merely configured, or reset after training - to any '
  'data ends in an explicit error that says it is not initialised; it never returns a matrix and never fails with an '
  'unrelated error.',
  ['histories', 'configurations', 'inputs'],
  'every trainable algorithm, every operation that applies it, every combination of structural settings, any data',
  'each test class trains first; the untrained and the reset state of most operations are never exercised',
  ALGS, 'the initialised flag, the checks at every entry point and what reset clears')
p('C05', 'Training that does not succeed leaves the instance untrained',
  'If a training call reports an error or is cut short by an exception at any point, the instance afterwards is not '
  'marked as trained and refuses to produce results, unless the call had not yet touched an earlier, still complete '
  'model. A training call that reports success leaves the instance marked as trained.',
  ['fault_sequences', 'inputs', 'configurations'],
  'every training entry point, every statement in it or in anything it calls at which a library routine or the code '
  'itself can fail, every error exit',
  'no test makes training fail midway; the failure points are inside library routines fed with unusual data',
  ALGS, 'order of marking as trained versus the fallible steps; error values propagated from nested training')
p('C06', 'Changing a setting discards what was learnt',
  'After training, assigning a new accepted value to any setting that influences training means that the old model is '
  'never applied again: algorithms refuse until trained again, transformations configure themselves anew instead of '
  'using what they learnt earlier.',
  ['histories', 'configurations'],
  'every algorithm and transformation, each of its settings, every combination of the other structural settings',
  'tests set options before training only',
  ALGS, 'property setters that reset the instance')
p('C07', 'Settings accept every valid value and reject every invalid one',
  'Assigning any value in the documented range of a setting stores exactly that value. Assigning any value outside it '
  '(below or above the bounds, zero where a positive value is required, not-a-number where a number is required, an '
  'unknown choice) raises a value error and leaves the previous value in place.',
  ['inputs', 'configurations'],
  'every setting of every algorithm, transformation and filter that documents a range, over the whole numeric line',
  'tests assign a handful of valid values; boundaries, the whole invalid region and not-a-number are not sampled',
  ALGS, 'the validators attached to the settings and their comparison operators')
p('C08', 'Applying a trained model does not change it',
  'Transforming, inverse-transforming or predicting with a trained model leaves the model as it was: no later result '
  'depends on data the model was merely applied to, in whatever order and however often it is applied.',
  ['histories', 'inputs', 'configurations'],
  'every sequence of applications of every trained model, every combination of structural settings',
  'tests apply a model once per training; a leak shows only in the result of a second application to different data',
  ALGS, 'writes to the instance or to its arrays on the inference paths')
p('C09', 'Training again forgets the earlier training',
  'When an instance is trained again on other data - directly, after a reset, or after a setting was changed - nothing '
  'it returns afterwards (transformed data, predictions, named matrices, loadings) depends on the data of the earlier '
  'training.',
  ['histories', 'configurations'],
  'every trainable class, every way of training it, every combination of structural settings, data of equal or different '
  'shapes',
  'every test trains a new instance',
  ALGS, 'what reset clears, accumulators and buffers kept on the instance, helper transformations configured only once')
p('C10', 'Training and use never change the settings',
  'Training, applying, resetting and retraining an instance leave every setting exactly as the user (or the constructor) '
  'left it, including the settings of nested objects such as kernels and base models, also when training fails.',
  ['histories', 'configurations', 'inputs'],
  'every setting of every class, after every training outcome and every application',
  'no test reads a setting back after training; a clamped or derived value written back changes only the next training',
  ALGS, 'values derived from the data during training and where they are stored')
p('C12', 'Results are reproducible and independent of global random state',
  'Every result is a function of the arguments, the settings and the training data alone: no operation reads or changes '
  'the process-wide random generators, the clock, the environment or the hash order of objects. The random matrix '
  'factories draw from a generator seeded only with the seed passed to them, and library estimators with random '
  'behaviour always receive a fixed seed.',
  ['histories', 'schedules', 'inputs'],
  'every public operation, whatever ran in the process before it or runs beside it',
  'a single process with a fixed order of tests always sees the same random state',
  ALGS + CORE, 'sources of randomness: the factories, the initial weights of iterative algorithms, library estimators')
p('C13', 'Instances do not influence each other',
  'Configuring, training and using one instance leaves no trace of its data or its settings in any other instance, '
  'created before or after, of the same or another class, nor in class-wide, module-wide or default-argument state.',
  ['histories', 'schedules'],
  'all pairs of instances and all interleavings of their training and use',
  'tests use one instance at a time and never compare two',
  ALGS + CORE, 'mutable class attributes, mutable default arguments, module-level caches, shared helper objects')
p('C11', 'Rows are processed independently and keep their order',
  'Row i of every transformed, inverse-transformed or predicted result depends on row i of the given data (plus what was '
  'learnt in training) and on no other given row, and the result has one row per given row: applying a trained model to a '
  'batch equals applying it to each row alone.',
  ['inputs', 'configurations'],
  'every transformation, filter and algorithm that keeps learnt state, every batch and every row of it',
  'tests apply models to one fixed batch, where a dependence between rows looks like any other number',
  ALGS, 'statistics computed from the data a model is applied to; reductions and permutations along the row axis')
p('C14', 'Data of the wrong shape is rejected',
  'An operation on matrices of incompatible sizes, applying a trained model to data with another number of columns than it '
  'was trained on, and training on predictors and responses of different lengths or on more response columns than the '
  'algorithm supports never produce a result: they raise (or training reports failure).',
  ['inputs', 'histories'],
  'every binary matrix operation and every model, all sizes that differ, whatever the values',
  'numpy broadcasting makes many size mismatches succeed silently; tests pass matching sizes only',
  ALGS + CORE, 'explicit shape checks before broadcasting operations, and the checks in training')
p('C15', 'Preprocessing learnt in training is applied in every use',
  'Whatever centring, scaling or other preprocessing an algorithm learnt from the training data is applied, with the '
  'learnt values, to the data of every later transformation and prediction, and predictions are mapped back to the '
  'original scale of the response, column by column.',
  ['configurations', 'inputs', 'histories'],
  'every supervised algorithm, every preprocessing setting, every later use',
  'regression tests pin default settings on one data set; a skipped or doubled step under another setting is not sampled',
  ALGS, 'pre- and post-processing around transform and predict in the base classes and their overrides')
p('C16', 'Results have the documented shape',
  'The size of every result is the documented function of the sizes of the operands: elementwise operations keep the '
  'shape, products and concatenations combine it, selections and reductions have exactly the selected or remaining rows '
  'and columns. Everything a trained model returns has one row per given row, and as many columns as components were '
  'requested (projections), columns were given (feature-wise transformations and inverses) or responses were learnt '
  '(predictions) - also for a single row.',
  ['inputs', 'configurations'],
  'every matrix operation and every trained model, all sizes including a single row or column',
  'tests use one size; a squeezed axis, an off-by-one slice or a size taken from the wrong operand coincides with the '
  'right one there',
  ALGS + CORE, 'slicing, reshaping and reduction in the matrix type; allocation of result matrices in the algorithms')
p('C17', 'Every element of a result is computed from the right elements',
  'Element (r, c) of an elementwise matrix operation is computed from element (r, c) of the operands, in the documented '
  'arithmetic role (added, subtracted, multiplied, divided, each once); a row-wise or column-wise operation uses exactly '
  'the row or column it belongs to; a selection returns the selected elements; column j of a feature-wise transformation '
  '(Center, Standardize, RowNorm excepted) depends on column j of the training and of the given data only.',
  ['inputs'],
  'every element of every operand of every matrix operation, all sizes',
  'values on a few small, often symmetric or square examples cannot tell a row index from a column index',
  CORE + ALGS[1:2], 'axis arguments of reductions, index arguments, broadcasting and operand order in the matrix type')
p('C18', 'inverse_transform undoes transform step by step',
  'Every statistic and setting a transformation applies is undone by its inverse with the same learnt value: what '
  'transform subtracts the inverse adds, what it divides by it multiplies with, in the opposite order, column by column, '
  'whatever data was transformed in between; FastICA.reconstruct undoes the centring its training applied; wrappers use '
  'the inverse of the estimator they fitted.',
  ['inputs', 'configurations', 'histories'],
  'every invertible transformation and every combination of its settings',
  'round trips are tested with default settings only, where a forgotten offset or factor is neutral',
  ALGS[1:2] + ['src/wai/ma/algorithm/ica/**'],
  'paired transform and inverse implementations and the statistics they share')
p('C19', 'Named matrices agree with what is advertised',
  'For every name an algorithm advertises, get_matrix returns nothing before training and after a reset, and after '
  'training the matrix of that name: computed from the training data, of the documented size, a different one for every '
  'name. Any other name gives None, and get_loadings returns a matrix exactly when has_loadings says there is one.',
  ['histories', 'configurations', 'inputs'],
  'every supervised algorithm, every advertised and every other name, before training, after it and after a reset',
  'tests read a few names of a trained model; swapped, missing or stale entries under other settings are not sampled',
  PLS, 'the name list and the dispatch of get_matrix in every algorithm')
p('C20', 'Valid use does not fail',
  'Under every admitted combination of settings, including the boundary values of each, training on data of matching '
  'sizes (down to a single response or predictor column where that is meaningful) can succeed and every operation of the '
  'trained instance returns a result for data of any number of rows. No valid call of a matrix operation, helper, '
  'factory, kernel or algorithm runs into a programming error such as a missing attribute, an undefined name, a wrong '
  'kind of operand or a missing key.',
  ['inputs', 'configurations'],
  'every public operation under every combination of its structural settings and the boundary values of the others',
  'tests train with default settings on one data set; branches for other settings, one column or one row are never entered',
  ALGS + CORE, 'the branches on settings and on sizes; attributes set in one branch and used in another')
p('C21', 'Iterations are limited and stop on the tolerance',
  'No operation can run forever: every loop ends after a number of rounds limited by a setting or a size, whatever the '
  'data. Where an algorithm has an iteration limit and a tolerance, its iterations are limited by max_iter and end early '
  'when, and only when, the change in a round is within tol.',
  ['inputs', 'configurations'],
  'every loop of the package, for all data and all values of the limits and tolerances',
  'test data converge quickly, so the limit never acts; non-convergent data or a zero tolerance would be needed, and a '
  'test cannot tell a long run from an endless one',
  ALGS + ['src/wai/ma/core/**'], 'loop conditions, counters and early exits of the iterative algorithms')
p('C25', 'Every setting is honoured',
  'Every setting an algorithm, transformation or filter offers takes part in what it computes: the value assigned to it '
  'is what training or use works with (it decides something, limits an iteration, selects or scales elements, or is '
  'handed to the numeric routine), never a fixed default or another setting in its place, and choosing between named '
  'alternatives (modes, switches, kernels, base models) changes what is done.',
  ['configurations', 'inputs'],
  'every setting of every class under every combination of the settings with named values',
  'the tests mostly use defaults and compare with stored results; a setting that is ignored equals its default there',
  ALGS, 'reads of the settings in training and inference; constructor arguments of the sklearn estimators')
p('C22', 'Predicates and special values are decided correctly',
  'Questions about matrices answer what their documentation says, for operands of every shape: shape predicates '
  '(vector, row or column vector, square, same shape, multiplication and concatenation compatibility, index in range) '
  'depend on exactly the documented dimensions; predicates over elements (any, all, NaN, equality, a condition that '
  'holds for some element) are true in exactly the documented cases and can answer both ways; index functions '
  '(positions of the largest, the smallest, the sorted or the matching elements) give the documented positions; '
  'columns without deviation are not divided by zero; NaN and both infinities are written with their own text and '
  'finite numbers never are; comparing with unequal shapes or with something that is not a matrix, and reading empty '
  'or short input, give the documented answer.',
  ['inputs'],
  'all operands of every combination of small shapes and arbitrary contents; element ranges that leave no choice',
  'the tests use a few matrices of one shape each and hardly any special value; a predicate that looks at the wrong '
  'dimension or misses one branch agrees on those',
  CORE + ['src/wai/ma/core/utils.py'], 'shape comparisons; reductions over conditions; sorting and searching; special-value branches')
p('C23', 'Saved state is complete and readable',
  'What a matrix or a trained model writes to a stream can be read back: for each matrix of the state it saves the '
  'row count, the column count and then every element exactly once, row by row, each number with its sign, in full '
  'precision, in one byte order and in a width that holds it. A model that has not been trained is refused before '
  'anything is written, saving works for every file name, with or without a directory, and saving does not change the '
  'instance.',
  ['inputs', 'configurations', 'histories'],
  'matrices of every shape and contents, integers of every magnitude, every class that can save its state, every '
  'configuration of it, trained or not, every file name',
  'no test reads back what was written; there is no reader in the repository, so a value that is missing, repeated, out '
  'of order or cut short is invisible',
  ['src/wai/ma/core/_Serialisable.py', 'src/wai/ma/core/utils.py', 'src/wai/ma/core/matrix/_Matrix.py', 'src/wai/ma/core/matrix/helper.py'],
  'the serialisation methods and the number encoders; the file that is opened')
#MORE

NA = [
 ('N01', 'Models reproduce the published algorithms numerically',
  'For every data set the learnt model equals, up to rounding, the result of the published algorithm it is named after.',
  'the statement compares real-valued results of iterative floating-point computations with a mathematical definition; '
  'no static argument in reach bounds rounding, convergence or the sign and order of eigenvectors'),
 ('N02', 'Iterative algorithms reach their tolerance',
  'Whenever an iterative algorithm stops before its iteration limit, the returned weights satisfy the tolerance.',
  'convergence depends on the spectrum of the data; a static analysis can show that the loop is bounded and tests the '
  'tolerance, not that the limit of the iteration is the wanted one'),
 ('N03', 'Inverting a transformation returns the original values',
  'For every data set, transforming and inverting gives back the data up to rounding.',
  'the deciding quantity is a rounding error (and, for quantile maps, interpolation); only the structural half of it - '
  'the inverse uses the same learnt statistics in the reverse order - is decidable from the source'),
]

LEVEL_NOTE = ('Abstract interpretation of the current source over all argument contents, symbolic shapes and all '
              'combinations of structural settings. A report names a construct and the call path to it. Trusts the models '
              'of the numpy/scipy/sklearn routines in engine/lib.py and engine/npmodel.py; constructs it cannot follow '
              'are treated as unknown and never reported, so silence is evidence up to the undecided obligations listed '
              'in the evidence file.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for i, t, s, over, q, why, files, mech in P:
            assert len(t) <= 80, t
            f.write(json.dumps({'id': i, 'title': t, 'statement': s, 'quantifier': {'over': over, 'text': q},
                                'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [
                                    {'name': m.strip(), 'where': ', '.join(files)} for m in mech.split(';')]}}) + '\n')
        for i, t, s, why in NA:
            f.write(json.dumps({'id': i, 'title': t, 'statement': s,
                                'quantifier': {'over': ['inputs'], 'text': 'all data sets'},
                                'why_tests_cant': 'the tests compare with stored results for one data set at fixed '
                                                  'settings', 'anchors': {'files': ALGS, 'mechanism': [
                                    {'name': 'the numeric kernels', 'where': ', '.join(ALGS)}]}}) + '\n')
    tech = {}
    for e in P:
        import importlib
        import sys
        sys.path.insert(0, HERE)
        m = importlib.import_module('checks.' + e[0])
        tech[e[0]] = m.TECHNIQUE
    man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q engine checks',
           'checks': [{'property': e[0], 'quick_cmd': 'python3 check.py %s' % e[0],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % e[0],
                       'technique': tech[e[0]], 'level': 'other', 'level_note': LEVEL_NOTE} for e in P],
           'not_applicable': [{'property': i, 'reason': why} for i, t, s, why in NA],
           'notes': 'All checks read /repo/src on every run; nothing is executed and nothing is cached between runs.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
