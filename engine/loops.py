"""Ranking arguments for loops, decided on the syntax tree.

A loop is bounded when some expression strictly grows (or shrinks) on every path back to its head and every such path
has passed a condition that limits it by something the loop does not change.
"""
import ast
import os

FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
MAXPATHS = 400
INFINITE = 10 ** 9
MUTATORS = {'append', 'pop', 'popleft', 'remove', 'add', 'discard', 'clear', 'extend', 'insert', 'update', 'sort'}
DISCRETE = {'ndim', 'shape', 'size', 'empty'}


class TooMany(Exception):
    pass


def key(e):
    """name of a variable or attribute chain, None for anything else"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        k = key(e.value)
        return k and k + '.' + e.attr
    return None


def scope_walk(node):
    """nodes of a function body without those of nested functions and classes"""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            stack.extend(ast.iter_child_nodes(n))


def targets(n):
    """(key, value expression or None) pairs a statement assigns"""
    out = []

    def tgt(t, v):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            for x, y in zip(t.elts, vs):
                tgt(x, y)
        elif isinstance(t, ast.Starred):
            tgt(t.value, None)
        elif key(t):
            out.append((key(t), v))
    if isinstance(n, ast.Assign):
        for t in n.targets:
            tgt(t, n.value)
    elif isinstance(n, ast.AnnAssign) and n.value is not None:
        tgt(n.target, n.value)
    elif isinstance(n, ast.AugAssign) and key(n.target):
        out.append((key(n.target), ast.copy_location(ast.BinOp(n.target, n.op, n.value), n)))
    elif isinstance(n, ast.NamedExpr):
        tgt(n.target, n.value)
    elif isinstance(n, ast.For):
        tgt(n.target, None)
    elif isinstance(n, ast.With):
        for i in n.items:
            if i.optional_vars is not None:
                tgt(i.optional_vars, None)
    return out


def const(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        c = const(e.operand)
        return None if c is None else (-c if isinstance(e.op, ast.USub) else c)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('int', 'float', 'real') and len(e.args) == 1:
        return const(e.args[0])
    if isinstance(e, ast.Name) and e.id in ('ONE', 'ZERO'):
        return {'ONE': 1, 'ZERO': 0}[e.id]
    return None


def strip(e):
    """without conversions that keep the order"""
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('int', 'float', 'real', 'bool') \
            and len(e.args) == 1:
        e = e.args[0]
    return e


class Func:
    """a function with the class and module it belongs to"""

    def __init__(self, node, cls, mod, path, qual):
        self.node = node
        self.cls = cls
        self.mod = mod
        self.path = path
        self.qual = qual


class Program:
    def __init__(self, src):
        self.funcs = []
        self.classes = {}
        self.modfuncs = {}
        for d, _, fs in sorted(os.walk(src)):
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    with open(p, encoding='utf-8') as h:
                        tree = ast.parse(h.read(), p)
                    self.collect(tree, None, p, os.path.relpath(p, src), '')

    def collect(self, node, cls, path, rel, prefix):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + n.name
                f = Func(n, cls, rel, path, q)
                self.funcs.append(f)
                if cls is not None:
                    cls['methods'].setdefault(n.name, f)
                else:
                    self.modfuncs.setdefault(n.name, []).append(f)
                self.collect(n, None, path, rel, q + '.')
            elif isinstance(n, ast.ClassDef):
                c = {'name': n.name, 'methods': {}, 'bases': [key(b).split('.')[-1] for b in n.bases if key(b)],
                     'fields': set()}
                self.classes.setdefault(n.name, c)
                for x in ast.walk(n):
                    for k, v in targets(x):
                        if k.startswith('self.'):
                            c['fields'].add(k[5:])
                self.collect(n, c, path, rel, prefix + n.name + '.')
            else:
                self.collect(n, cls, path, rel, prefix)

    def mro(self, c):
        out = []
        todo = [c]
        while todo:
            x = todo.pop(0)
            if x is None or x in out:
                continue
            out.append(x)
            todo += [self.classes.get(b) for b in x['bases']]
        return out

    def method(self, c, name):
        for x in self.mro(c):
            if name in x['methods']:
                return x['methods'][name]
        return None

    def has_field(self, c, name):
        return any(name in x['fields'] for x in self.mro(c))


class Loop:
    def __init__(self, prog, f, node):
        self.prog = prog
        self.f = f
        self.node = node
        self.is_for = isinstance(node, ast.For)
        self.outer = {}
        self.inner = {}
        body = set()
        for s in node.body + ([node.test] if not self.is_for else []):
            for n in [s] + list(scope_walk(s)):
                body.add(id(n))
        for n in scope_walk(f.node):
            for k, v in targets(n):
                (self.inner if id(n) in body else self.outer).setdefault(k, []).append(v)
        for a in ast.walk(f.node.args):
            if isinstance(a, ast.arg):
                self.outer.setdefault(a.arg, []).append(None)
        self.mutated = set()
        self.self_calls = []
        for n in ast.walk(ast.Module(node.body, [])):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in MUTATORS and key(n.func.value):
                    self.mutated.add(key(n.func.value))
                if key(n.func.value) == 'self':
                    self.self_calls.append(n.func.attr)
        self.unsure = None
        self.called = self.fields_set_by_calls()

    def fields_set_by_calls(self):
        """attributes of self that methods called in the loop assign"""
        out, seen, todo = set(), set(), list(self.self_calls)
        while todo and self.f.cls is not None:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            g = self.prog.method(self.f.cls, m)
            if g is None:
                continue
            for n in scope_walk(g.node):
                for k, v in targets(n):
                    if k.startswith('self.'):
                        out.add(k)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and key(n.func.value) == 'self':
                    todo.append(n.func.attr)
        return out

    # ------------------------------------------------------------ expressions
    def expand(self, e, depth=0):
        """conditions hidden in locals or small methods written out"""
        if depth > 6:
            return e
        e1 = strip(e)
        if isinstance(e1, ast.Name):
            vals = self.inner.get(e1.id, []) + self.outer.get(e1.id, [])
            real = [v for v in vals if v is not None and not (isinstance(v, ast.Constant) and isinstance(v.value, (bool, type(None))))]
            if len(real) == 1 and None not in vals and isinstance(strip(real[0]), (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call, ast.Name, ast.Attribute)) \
                    and not any(isinstance(x, ast.Name) and x.id == e1.id for x in ast.walk(real[0])):
                if isinstance(strip(real[0]), ast.Call) and self.inline(strip(real[0])) is None:
                    return e1
                return self.expand(real[0], depth + 1)
            return e1
        if isinstance(e1, ast.Call):
            r = self.inline(e1)
            if r is not None:
                return self.expand(r, depth + 1)
            return e1
        if isinstance(e1, ast.BoolOp):
            return ast.copy_location(ast.BoolOp(e1.op, [self.expand(x, depth + 1) for x in e1.values]), e1)
        if isinstance(e1, ast.UnaryOp) and isinstance(e1.op, ast.Not):
            return ast.copy_location(ast.UnaryOp(e1.op, self.expand(e1.operand, depth + 1)), e1)
        if isinstance(e1, ast.Compare) and len(e1.ops) > 1:
            parts, l = [], e1.left
            for op, r in zip(e1.ops, e1.comparators):
                parts.append(ast.copy_location(ast.Compare(l, [op], [r]), e1))
                l = r
            return ast.copy_location(ast.BoolOp(ast.And(), parts), e1)
        return e1

    def inline(self, call):
        """the returned expression of a method or function that is one return statement"""
        fn = None
        args = list(call.args)
        if isinstance(call.func, ast.Attribute) and key(call.func.value) in ('self', 'cls') and self.f.cls is not None:
            fn = self.prog.method(self.f.cls, call.func.attr)
            static = fn is not None and any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.node.decorator_list)
            skip = 0 if static else 1
        elif isinstance(call.func, ast.Name):
            c = [g for g in self.prog.modfuncs.get(call.func.id, []) if g.path == self.f.path]
            fn = c[0] if len(c) == 1 else None
            skip = 0
        if fn is None:
            return None
        body = [s for s in fn.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
                and not isinstance(s, ast.Pass)]
        if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
            return None
        names = [a.arg for a in fn.node.args.args][skip:]
        sub = dict(zip(names, args))
        for k in call.keywords:
            if k.arg:
                sub[k.arg] = k.value
        for a, d in zip(reversed(fn.node.args.args), reversed(fn.node.args.defaults)):
            sub.setdefault(a.arg, d)

        class Sub(ast.NodeTransformer):
            def visit_Name(self, n):
                return sub.get(n.id, n)
        import copy
        return Sub().visit(copy.deepcopy(body[0].value))

    def resolve(self, e, depth=0):
        """a local that only renames something is replaced by it"""
        e = strip(e)
        if isinstance(e, ast.Name) and depth < 6:
            vals = self.inner.get(e.id, []) + self.outer.get(e.id, [])
            if len(vals) == 1 and vals[0] is not None:
                return self.resolve(vals[0], depth + 1)
        if isinstance(e, ast.Call) and depth < 6:
            r = self.inline(e)
            if r is not None:
                return self.resolve(r, depth + 1)
        return e

    def invariant(self, e):
        for n in ast.walk(e):
            k = key(n)
            if k and (k in self.inner or k in self.called or k in self.mutated):
                return False
            if isinstance(n, (ast.Await, ast.Yield, ast.NamedExpr)):
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next':
                return False
        return True

    def linear(self, e):
        """(key, sign) of an expression that grows or shrinks with one variable"""
        e = strip(e)
        if key(e):
            return key(e), 1
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            r = self.linear(e.operand)
            return r and (r[0], -r[1])
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Add):
                if self.invariant(e.right):
                    return self.linear(e.left)
                if self.invariant(e.left):
                    return self.linear(e.right)
            if isinstance(e.op, ast.Sub):
                if self.invariant(e.right):
                    return self.linear(e.left)
                if self.invariant(e.left):
                    r = self.linear(e.right)
                    return r and (r[0], -r[1])
            if isinstance(e.op, ast.Mult):
                for a, b in ((e.left, e.right), (e.right, e.left)):
                    c = const(a)
                    if c:
                        r = self.linear(b)
                        return r and (r[0], r[1] * (1 if c > 0 else -1))
        return None

    def step(self, k, v):
        """direction in which v changes k: '+', '-', '0', '?'(unknown) or '!' (set anew)"""
        v = strip(v) if v is not None else None
        if v is None or isinstance(v, (ast.Call, ast.Await)):
            return '?'
        if key(v) == k:
            return '0'
        if isinstance(v, ast.IfExp):
            return self.either(self.step(k, v.body), self.step(k, v.orelse))
        if isinstance(v, ast.BinOp) and isinstance(v.right, ast.IfExp):
            arms = [self.step(k, ast.copy_location(ast.BinOp(v.left, v.op, x), v)) for x in (v.right.body, v.right.orelse)]
            return self.either(*arms)
        if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)):
            sub = isinstance(v.op, ast.Sub)
            for a, b, ok in ((v.left, v.right, True), (v.right, v.left, not sub)):
                if ok and key(strip(a)) == k:
                    c = const(b)
                    if c is None:
                        c = const(self.resolve(b)) if self.invariant(b) else None
                    if c is None:
                        return '?'
                    if c == 0:
                        return '0'
                    return '-' if (c < 0) != sub else '+'
        if const(v) is not None:
            return '!'
        return '?'

    @staticmethod
    def either(a, b):
        if a == b:
            return a
        return {'+0': 'p', '0+': 'p', '-0': 'm', '0-': 'm'}.get(a + b, '?')

    # ------------------------------------------------------------ paths
    def paths(self):
        """[(facts [(expr, polarity)], effects {key: directions}, flags {name: bool})] of the ways back to the head"""
        start = [([], {}, {})]
        if not self.is_for:
            start = [([(self.node.test, True)], self.effect({}, self.node.test), {})]
        back = []
        fall = self.block(self.node.body, start, back)
        return back + fall

    def effect(self, eff, node):
        out = dict(eff)
        for n in [node] + list(scope_walk(node)):
            for k, v in targets(n):
                out[k] = out.get(k, '') + self.step(k, v)
        return out

    def loose(self, eff, nodes):
        """effects of code that may run any number of times"""
        out = dict(eff)
        for s in nodes:
            for n in [s] + list(scope_walk(s)):
                for k, v in targets(n):
                    d = self.step(k, v)
                    out[k] = out.get(k, '') + {'+': 'p', '-': 'm'}.get(d, d)
        return out

    @staticmethod
    def forget(g, eff):
        """facts about variables that have just been changed no longer hold"""
        out = {}
        for k, v in g.items():
            if k[0] == '!' and any(x in eff for x in v[2]):
                continue
            out[k] = v
        return out

    @staticmethod
    def know(g, e, pol):
        out = dict(g)
        out['!' + ast.dump(e)] = (e, pol, {key(n) for n in ast.walk(e) if key(n)})
        return out

    def block(self, stmts, cur, back):
        for s in stmts:
            if not cur:
                break
            cur = self.stmt(s, cur, back)
            if len(cur) + len(back) > MAXPATHS:
                raise TooMany()
        return cur

    def stmt(self, s, cur, back):
        if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
            return []
        if isinstance(s, ast.Continue):
            back.extend(cur)
            return []
        if isinstance(s, ast.If):
            out = []
            t = [(f + [(s.test, True)], self.effect(e, s.test), self.know(g, s.test, True)) for f, e, g in cur]
            n = [(f + [(s.test, False)], self.effect(e, s.test), self.know(g, s.test, False)) for f, e, g in cur]
            out += self.block(s.body, t, back)
            out += self.block(s.orelse, n, back)
            return out
        if isinstance(s, (ast.For, ast.While)):
            ch = self.loose({}, [s])
            return [(f, self.loose(e, [s]), self.forget({k: v for k, v in g.items() if k not in ch}, ch)) for f, e, g in cur]
        if isinstance(s, ast.With):
            cur = [(f, self.effect(e, ast.Module([ast.Expr(i.context_expr) for i in s.items], [])), g) for f, e, g in cur]
            return self.block(s.body, cur, back)
        if isinstance(s, ast.Try):
            out = self.block(s.body + s.orelse, list(cur), back)
            for h in s.handlers:
                pre = [(f, self.loose(e, s.body), g) for f, e, g in cur]
                out += self.block(h.body, pre, back)
            return self.block(s.finalbody, out, back)
        if isinstance(s, ast.Match):
            out = list(cur)
            for c in s.cases:
                out += self.block(c.body, list(cur), back)
            return out
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return cur
        res = []
        for f, e, g in cur:
            g2 = self.forget(g, self.effect({}, s))
            for k, v in targets(s):
                g2.pop(k, None)
                if isinstance(v, ast.Constant) and isinstance(v.value, bool):
                    g2[k] = v.value
            e2 = self.effect(e, s)
            if isinstance(s, ast.Assert):
                f = f + [(s.test, True)]
            res.append((f, e2, g2))
        return res

    def decided(self, e, g):
        """truth value of a condition at the end of a path on which the flags g hold"""
        if isinstance(e, ast.Name) and e.id in g:
            return g[e.id]
        if '!' + ast.dump(e) in g:
            return g['!' + ast.dump(e)][1]
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            d = self.decided(e.operand, g)
            return None if d is None else not d
        if isinstance(e, ast.BoolOp):
            ds = [self.decided(x, g) for x in e.values]
            stop = isinstance(e.op, ast.Or)
            if stop in ds:
                return stop
            return None if None in ds else not stop
        return None

    # ------------------------------------------------------------ ranking
    def bounds(self, e, pol, test):
        """does the condition (known to be pol) satisfy test in whichever way it came to be so"""
        e = self.expand(e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.bounds(e.operand, not pol, test)
        if isinstance(e, ast.BoolOp):
            every = isinstance(e.op, ast.Or) == pol
            r = [self.bounds(x, pol, test) for x in e.values]
            return all(r) if every else any(r)
        if isinstance(e, ast.Constant) and bool(e.value) != pol:
            return True
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = type(e.ops[0])
            if not pol:
                op = NEG.get(op)
            if op is not None:
                return test(e.left, op, e.comparators[0], e)
        return False

    def leaves(self, e):
        e = self.expand(e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.leaves(e.operand)
        if isinstance(e, ast.BoolOp):
            return [y for x in e.values for y in self.leaves(x)]
        return [e]

    def analyse(self):
        """('bounded', bound expressions) / ('unbounded', reason) / ('unsure', reason)"""
        if self.is_for:
            it = self.node.iter
            k = key(it.func) if isinstance(it, ast.Call) else None
            if k and k.split('.')[-1] in ('count', 'cycle', 'repeat') and not (k.endswith('repeat') and len(it.args) > 1):
                pass
            elif isinstance(it, ast.Call) and k == 'iter' and len(it.args) == 2:
                return 'unsure', 'iterator'
            else:
                return 'bounded', [it]
        try:
            paths = self.paths()
        except TooMany:
            return 'unsure', 'too many paths'
        if not self.is_for:
            paths = [p for p in paths if self.decided(self.expand(self.node.test), p[2]) is not False
                     and self.decided(self.node.test, p[2]) is not False]
        if self.is_for and isinstance(self.node.target, ast.Name):
            for f, e, g in paths:
                e[self.node.target.id] = '+'
        # conditions known to fail from what they say
        paths = [p for p in paths if not any(self.decided(self.expand(c), {}) is (not pol) for c, pol in p[0])]
        if not paths:
            return 'bounded', []
        leaves = [l for f, e, g in paths for c, _ in f for l in self.leaves(c)]
        cands = []
        for l in leaves:
            for n in ast.walk(l):
                r = key(n)
                if r and r in set().union(*[set(e) for _, e, _ in paths]) and r not in cands:
                    cands.append(r)
        for k in cands:
            for d, other in (('+', '-'), ('-', '+')):
                ds = [e.get(k, '') for f, e, g in paths]
                low = {'+': 'p', '-': 'm'}[d]
                if not all(set(x) <= {d, low, '0'} for x in ds):
                    continue
                used = []

                def limit(l, op, r, node, k=k, d=d):
                    for a, b, o in ((l, r, op), (r, l, FLIP.get(op))):
                        if o is None:
                            continue
                        la = self.linear(a)
                        if la and la[0] == k and self.invariant(b):
                            up = (d == '+') == (la[1] > 0)
                            if o in ((ast.Lt, ast.LtE) if up else (ast.Gt, ast.GtE)) or o is ast.Eq:
                                used.append(b)
                                return True
                            if o is ast.NotEq and 'self.' in ast.unparse(b) or o is ast.NotEq and const(b) is not None:
                                used.append(b)
                                return True
                    for n in ast.walk(node):
                        if isinstance(n, ast.Subscript) and self.invariant(n.value) and any(key(x) == k for x in ast.walk(n.slice)):
                            return True         # running off the end of a sequence ends the loop
                    return False
                if all(d in x for x in ds) and all(any(self.bounds(c, pol, limit) for c, pol in f) for f, e, g in paths):
                    return 'bounded', list({ast.dump(x): x for x in used + [v for v in self.outer.get(k, []) if v is not None]}.values())
        # two variables running towards each other
        for a in cands:
            for b in cands:
                if a == b:
                    continue

                def pair(l, op, r, node):
                    for x, y, o in ((l, r, op), (r, l, FLIP.get(op))):
                        lx, ly = self.linear(x), self.linear(y)
                        if lx == (a, 1) and ly == (b, 1) and o in (ast.Lt, ast.LtE, ast.NotEq):
                            return True
                    return False
                ok = True
                for f, e, g in paths:
                    x, y = e.get(a, ''), e.get(b, '')
                    if not (set(x) <= set('+p0') and set(y) <= set('-m0') and ('+' in x or '-' in y)
                            and any(self.bounds(c, pol, pair) for c, pol in f)):
                        ok = False
                if ok:
                    return 'bounded', []
        # not shown to be bounded: sure only when every exit was understood
        leaves = [l for c in self.exit_tests() for l in self.leaves(c)]
        for l in leaves:
            why = self.opaque(l, paths)
            if why:
                return 'unsure', why
        for n in ast.walk(ast.Module(self.node.body, [])):
            # a call that is handed a counter may end the loop by raising
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                for a in n.value.args:
                    if key(a) in cands and any(isinstance(const(v), int) for v in self.outer.get(key(a), []) if v is not None):
                        if (key(n.value.func) or '').startswith('self.') or key(n.value.func) in self.prog.modfuncs:
                            return 'unsure', 'call ' + key(n.value.func)
        return 'unbounded', ', '.join(sorted({ast.unparse(l) for l in leaves})) or 'no exit'

    def opaque(self, l, paths):
        if isinstance(l, (ast.Name, ast.Attribute)):
            if self.invariant(l):
                return None
            return 'flag %s' % key(l)
        if isinstance(l, ast.NamedExpr):
            return 'assignment in a condition'
        if isinstance(l, ast.Call):
            return 'call ' + ast.unparse(l.func)
        for n in ast.walk(l):
            if isinstance(n, ast.Attribute) and n.attr in DISCRETE and not self.invariant(n):
                return 'size of a changing value'
            if isinstance(n, ast.Call):
                k = key(n.func) or ''
                if k in ('len', 'next', 'abs', 'min', 'max') and not self.invariant(n):
                    return 'call ' + k
                if k.startswith('self.') and k.count('.') == 1 and (self.f.cls and self.prog.method(self.f.cls, k[5:])):
                    return 'call ' + k
            k = key(n)
            if k and k in self.inner:
                init = [v for v in self.outer.get(k, [])]
                steps = [self.step(k, v) for v in self.inner[k]]
                number = any(v is not None and isinstance(const(v), int) for v in init)
                if '?' in steps and number:
                    return 'counter %s is changed in a way that is not followed' % k
                if number and any(v is None for v in init):
                    return 'counter %s' % k
            if k and k in self.called:
                return 'attribute %s is changed by a call' % k
            if k and k in self.mutated:
                return 'collection %s' % k
        return None

    def exit_tests(self):
        """the conditions on which leaving the loop depends"""
        out = [] if self.is_for else [self.node.test]

        def leaves(stmts):
            return any(isinstance(n, (ast.Return, ast.Raise)) or isinstance(n, ast.Break) for s in stmts
                       for n in [s] + list(scope_walk(s)))

        def walk(stmts):
            for s in stmts:
                if isinstance(s, (ast.If, ast.While)):
                    if leaves(s.body) or leaves(s.orelse):
                        out.append(s.test)
                if isinstance(s, ast.Assert):
                    out.append(s.test)
                for f in ('body', 'orelse', 'finalbody'):
                    walk(getattr(s, f, []) or [])
                for h in getattr(s, 'handlers', []) or []:
                    walk(h.body)
                for h in getattr(s, 'cases', []) or []:
                    walk(h.body)
        walk(self.node.body)
        return out

    # ------------------------------------------------------------ exits on a tolerance
    def exits(self):
        """[(condition, polarity under which the loop goes on)]"""
        out = []
        if not self.is_for:
            out.append((self.node.test, True))

        def walk(stmts):
            for s in stmts:
                if isinstance(s, ast.If):
                    b = bool(s.body) and isinstance(s.body[-1], (ast.Break, ast.Return))
                    o = bool(s.orelse) and isinstance(s.orelse[-1], (ast.Break, ast.Return))
                    if b and not o:
                        out.append((s.test, False))
                    elif o and not b:
                        out.append((s.test, True))
                    walk(s.body)
                    walk(s.orelse)
                elif isinstance(s, (ast.With, ast.Try)):
                    walk(s.body)
        walk(self.node.body)
        return out

    def mentions(self, e, name):
        seen = set()
        todo = [e]
        while todo:
            x = todo.pop()
            for n in ast.walk(x):
                k = key(n)
                if k and k.split('.')[-1].lstrip('_') == name:
                    return True
                if isinstance(n, ast.Name) and n.id not in seen:
                    seen.add(n.id)
                    if n.id not in self.inner:
                        todo.extend(v for v in self.outer.get(n.id, []) if v is not None)
                if isinstance(n, ast.Call):
                    r = self.inline(n)
                    if r is not None and ast.dump(r) not in seen:
                        seen.add(ast.dump(r))
                        todo.append(r)
        return False

    def tolerance(self, name='tol'):
        """[(comparison, 'small stops' / 'large stops')] of the exits that compare something with the tolerance"""
        out = []

        def walk(e, goes_on):
            e = self.expand(e)
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                return walk(e.operand, not goes_on)
            if isinstance(e, ast.BoolOp):
                for x in e.values:
                    walk(x, goes_on)
                return None
            if isinstance(e, ast.Compare) and len(e.ops) == 1:
                l, r, op = e.left, e.comparators[0], type(e.ops[0])
                tl, tr = self.mentions(l, name), self.mentions(r, name)
                if tl == tr or op not in FLIP:
                    return None
                if tl:
                    l, r, op = r, l, FLIP[op]
                if not goes_on:
                    op = NEG[op]
                if op in (ast.Gt, ast.GtE):
                    out.append((e, 'small stops'))
                elif op in (ast.Lt, ast.LtE):
                    out.append((e, 'large stops'))
        for c, pol in self.exits():
            walk(c, pol)
        return out

    def counter(self, k):
        """(first value, iterations of leeway) of a variable that counts the iterations"""
        if self.is_for:
            it = self.node.iter
            if isinstance(self.node.target, ast.Name) and self.node.target.id == k and k not in self.inner \
                    and isinstance(it, ast.Call) and key(it.func) == 'range' and len(it.args) < 3:
                c = const(it.args[0]) if len(it.args) == 2 else 0
                return None if not isinstance(c, int) else (c, 1)
        steps = [self.step(k, v) for v in self.inner.get(k, [])]
        init = [const(v) if v is not None else None for v in self.outer.get(k, [])]
        if steps == ['+'] and len(init) == 1 and isinstance(init[0], int):
            return init[0], 2
        return None

    def holds_back(self, e, truth):
        """the condition has the truth value only in some of the iterations, and not just except for the first"""
        e = strip(e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.holds_back(e.operand, not truth)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            return bool(key(e.left) and self.counter(key(e.left)) and (const(e.right) or 0) > 1)
        if not (isinstance(e, ast.Compare) and len(e.ops) == 1):
            return False
        l, op, r = e.left, type(e.ops[0]), e.comparators[0]
        for a, b, o in ((l, r, op), (r, l, FLIP.get(op))):
            if o is None or not isinstance(const(b), int):
                continue
            if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Mod):
                return self.holds_back(a, truth)
            c = self.counter(key(a)) if key(a) else None
            if c is None:
                continue
            if not truth:
                o = NEG[o]
            out = const(b) - c[0] + {ast.Gt: 1, ast.GtE: 0}.get(o, -INFINITE)
            return out > c[1] or o is ast.Eq and const(b) != c[0]
        return False

    def delayed(self, name='tol'):
        """conditions that keep the tolerance from being tested in some of the iterations"""
        out = []

        def tests(e):
            return any(isinstance(n, ast.Compare) and self.mentions(n, name) for n in ast.walk(e))

        def walk(e, stop):
            e = self.expand(e)
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                return walk(e.operand, not stop)
            if isinstance(e, ast.BoolOp):
                if isinstance(e.op, ast.And) == stop:
                    if any(tests(x) for x in e.values):
                        out.extend(x for x in e.values if not tests(x) and self.holds_back(x, stop))
                for x in e.values:
                    walk(x, stop)
        for c, pol in self.exits():
            walk(c, not pol)

        def nested(stmts, guards):
            for s in stmts:
                if isinstance(s, ast.If):
                    ends = bool(s.body) and isinstance(s.body[-1], (ast.Break, ast.Return))
                    if ends and tests(self.expand(s.test)):
                        out.extend(g for g, t in guards if self.holds_back(g, t))
                    nested(s.body, guards + [(s.test, True)])
                    nested(s.orelse, guards + [(s.test, False)])
        nested(self.node.body, [])
        return out

    def unclear_exit(self):
        """an exit whose condition could not be written out"""
        for c, _ in self.exits():
            for l in self.leaves(c):
                if isinstance(l, (ast.Call, ast.Name, ast.Attribute, ast.NamedExpr)):
                    return True
        for s in ast.walk(ast.Module(self.node.body, [])):
            if isinstance(s, (ast.Match,)):
                return True
        return False


def loops(prog):
    for f in prog.funcs:
        for n in scope_walk(f.node):
            if isinstance(n, (ast.For, ast.While)):
                yield Loop(prog, f, n)
