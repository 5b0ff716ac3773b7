import ast

from checks import framework
from checks.common import *
from engine import loops as L

ID = 'C21'
TECHNIQUE = 'static ranking-function and exit-condition analysis of loops (AST path analysis)'
TITLE = 'Iterations are limited and stop on the tolerance'
RULE = ('for every loop, some variable moves strictly in one direction on every path back to the head and every such path '
        'has passed a condition limiting it by something the loop does not change; in a class with an iteration limit and '
        'a tolerance, an iteration that tests the tolerance is limited by that limit, an iteration limited by it tests '
        'the tolerance, and the test ends the iteration when the change is small, not when it is large, and is not left '
        'out in particular iterations.')
FLOOR = 60


def cases(tier, env):
    out = set()
    for f in L.Program(framework.SRC).funcs:
        out.add((f.path,))
    return sorted(out)


_prog = None


def params(f):
    return {a.arg for a in ast.walk(f.node.args) if isinstance(a, ast.arg)} - {'self', 'cls'}


def passed_in(l, e):
    """the expression depends on an argument of the function (a limit or tolerance handed over by the caller)"""
    ps = params(l.f)
    todo, seen = [e], set()
    while todo:
        for n in ast.walk(todo.pop()):
            if isinstance(n, ast.Name):
                if n.id in ps:
                    return True
                if n.id not in seen:
                    seen.add(n.id)
                    todo += [v for v in l.outer.get(n.id, []) if v is not None]
    return False


def run(case, env):
    global _prog
    if _prog is None:
        _prog = L.Program(framework.SRC)
    large = {}
    for l in L.loops(_prog):
        if l.f.path != case[0]:
            continue
        where = '%s:%d' % (l.f.path, l.node.lineno)
        kind, info = l.analyse()
        env.ok(1, 'for loops' if l.is_for else 'while loops')
        if kind == 'unsure':
            env.skip('loop limit not followed')
        elif kind == 'unbounded':
            env.find('loop without a limit', l.f.qual,
                     'the loop in %s has no limit that is independent of the data (its exits: %s)' % (l.f.qual, info), where)
        if l.f.cls is None or not (_prog.has_field(l.f.cls, 'max_iter') and _prog.has_field(l.f.cls, 'tol')):
            continue
        tol = l.tolerance()
        limited = kind == 'bounded' and any(l.mentions(e, 'max_iter') for e in info)
        if tol or limited:
            env.ok(1, 'iterations with a tolerance')
            env.sample('%s: %s' % (l.f.qual, ', '.join(ast.unparse(c) for c, _ in tol)))
        if tol and kind == 'bounded' and info and not limited and not any(passed_in(l, e) for e in info):
            env.find('iteration not limited by max_iter', l.f.qual,
                     'the iteration in %s is limited by %s instead of max_iter' % (
                         l.f.qual, ', '.join(sorted({ast.unparse(e) for e in info}))), where)
        if limited and not tol:
            if l.unclear_exit() or any(passed_in(l, c) for c, _ in l.exits()):
                env.skip('exit of an iteration not followed')
            elif len(l.exits()) > (0 if l.is_for else 1) or not l.is_for:
                env.find('tolerance not tested', l.f.qual,
                         'no exit of the iteration in %s tests the tolerance' % l.f.qual, where)
            else:
                env.find('tolerance not tested', l.f.qual,
                         'the iteration in %s always runs to its limit; the tolerance is not tested' % l.f.qual, where)
        for c in l.delayed() if tol else ():
            env.find('tolerance tested only in some iterations', l.f.qual,
                     'the iteration in %s tests the tolerance only where %s' % (l.f.qual, ast.unparse(c)), where)
        for c, how in tol:
            if how == 'large stops':
                name = l.f.cls['name']
                large[name] = large.get(name, 0) + 1
                env.find('iteration ends on a large change', '%s #%d' % (name, large[name]),
                         'the iteration in %s goes on while the change is below the tolerance and ends when it is above '
                         '(%s)' % (l.f.qual, ast.unparse(c)), where)


TOY = '''
def a(n, m):
    i = 0
    while i < n:
        if m: continue
        i += 1
def b(n, x):
    i = 0
    while x > 1 or i < n:
        i += 1
        x = x / 2
def c(n, x):
    i = 0
    while True:
        x = x / 2
        if x < 1: break
        if i >= n: break
        i = i + 1
def d(n, x):
    i = 0
    while i < n:
        i += 1 if x else 0
def e(n, x, tol):
    for i in range(n):
        x = x / 2
        if x < tol and i > 0: break
def f(n, x, tol):
    for i in range(n):
        x = x / 2
        if i > 3:
            if x < tol: break
def g(n, x, tol):
    i = 0
    while i < 2 or x > tol and i < n:
        x = x / 2
        i += 1
def h(n, x, tol):
    i = 0
    while (i % 5 != 0 or x > tol) and i < n:
        x = x / 2
        i += 1
'''


def self_test(env):
    p = L.Program.__new__(L.Program)
    p.funcs, p.classes, p.modfuncs = [], {}, {}
    p.collect(ast.parse(TOY), None, 'toy', 'toy', '')
    got = [l.analyse()[0] for l in L.loops(p)]
    if got != ['unbounded', 'unbounded', 'bounded', 'unbounded', 'bounded', 'bounded', 'bounded', 'bounded']:
        raise AssertionError(got)
    got = [len(l.delayed()) for l in L.loops(p)]
    if got != [0, 0, 0, 0, 0, 1, 0, 1]:
        raise AssertionError(got)
