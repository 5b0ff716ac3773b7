"""Backward liveness of local names at loop heads (structured, conservative)."""
import ast

_cache = {}


def _uses(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))} | \
           {n.target.id for n in ast.walk(node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}


def _names(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        out = set()
        for e in t.elts:
            out |= _names(e)
        return out
    if isinstance(t, ast.Starred):
        return _names(t.value)
    return set()


class _L:
    def __init__(self, body):
        self.heads = {}
        self.always = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    self.always |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}
        self.loops = []
        self.block(body, set())

    def block(self, stmts, out):
        for s in reversed(stmts):
            out = self.stmt(s, out)
        return out

    def stmt(self, s, out):
        if isinstance(s, ast.Assign):
            d = set()
            u = _uses(s.value)
            for t in s.targets:
                d |= _names(t)
                u |= _uses(t)
            return (out - d) | u
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out
            return (out - _names(s.target)) | _uses(s.value) | _uses(s.target)
        if isinstance(s, ast.If):
            return self.block(s.body, out) | self.block(s.orelse, out) | _uses(s.test)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            after = self.block(s.orelse, out) if s.orelse else set(out)
            after |= out
            head = set(after)
            tn = _names(s.target)
            while True:
                self.loops.append((out, head))
                b = self.block(s.body, head)
                self.loops.pop()
                new = head | (b - tn) | _uses(s.target)
                if new == head:
                    break
                head = new
            self.heads[id(s)] = head
            return head | _uses(s.iter)
        if isinstance(s, ast.While):
            after = self.block(s.orelse, out) if s.orelse else set(out)
            after |= out
            head = after | _uses(s.test)
            while True:
                self.loops.append((out, head))
                b = self.block(s.body, head)
                self.loops.pop()
                new = head | b
                if new == head:
                    break
                head = new
            self.heads[id(s)] = head
            return head
        if isinstance(s, ast.Break):
            return set(self.loops[-1][0]) if self.loops else set(out)
        if isinstance(s, ast.Continue):
            return set(self.loops[-1][1]) if self.loops else set(out)
        if isinstance(s, (ast.Return, ast.Raise)):
            return _uses(s)
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            o = set(out)
            if s.finalbody:
                o = self.block(s.finalbody, o)
            o2 = set(o)
            for h in s.handlers:
                o2 |= self.block(h.body, o)
            if s.orelse:
                o2 |= self.block(s.orelse, o)
            r = self.block(s.body, o2)
            return r | o2 | _uses(s)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            # the body of the switch statement may be left early: nothing is killed across it
            r = self.block(s.body, out)
            u = set()
            for i in s.items:
                u |= _uses(i.context_expr)
            return r | u | out
        if isinstance(s, ast.Match):
            r = set(out) | _uses(s)
            for c in s.cases:
                r |= self.block(c.body, out)
            return r
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return out | _uses(s)
        return out | _uses(s)


def live_at_loop(fnbody, key, loop):
    """names that may be read after the back edge of `loop`"""
    c = _cache.get(key)
    if c is None:
        l = _L(fnbody)
        c = _cache[key] = (l.heads, l.always, fnbody)
    h = c[0].get(id(loop))
    if h is None:
        return None
    return h | c[1]
