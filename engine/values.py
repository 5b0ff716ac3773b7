"""Abstract values of the interpreter.

A value is a finite set of *atoms* plus a set of dependence labels.

atoms
  ('k', tname, value)        constant (tname: int float real bool str bytes NoneType ...)
  ('nan',)                   the float NaN
  ('n', tname, lo, hi, lin)  a number in [lo, hi]; lin: symbolic linear form or None
  ('s',)                     some string            ('by',)  some bytes
  ('o', id)                  reference to a heap object
  ('c', id)                  a class of the analysed program (heap object id)
  ('fn', fnid, frame)        function value with its closure frame (or None)
  ('bm', fnatom, selfatom)   bound method
  ('m', name)                module of the analysed program
  ('x', dotted)              symbol of a library outside the analysed program
  ('xm', name, selfatom)     bound method of a library/builtin object
  ('e', clsid, name)         enum member
  ('super', clsid, selfatom)
  ('partial', id)
  ('u', tag)                 anything
  ('undef',)                 unbound (on some path)

labels: a plain string, or (name, spec) for row-tracked data; spec is
  0 / 1     aligned: element (i,..) along that axis depends only on row i of the source
  ('i',lin) depends only on row `lin`
  'l'       aligned with the position in a python sequence
  '*'       depends on several rows      '?'  unknown (never reported)
"""
import math

INF = math.inf

NONE_ATOM = ('k', 'NoneType', None)
TRUE_ATOM = ('k', 'bool', True)
FALSE_ATOM = ('k', 'bool', False)
NAN_ATOM = ('nan',)
STR_ATOM = ('s',)
BYTES_ATOM = ('by',)
UNDEF = ('undef',)

NUMT = ('int', 'float', 'real', 'bool', 'complex')
EMPTY = frozenset()


# ---------------------------------------------------------------- linear forms
def lin_const(c):
    return (c, ())


def lin_sym(s):
    return (0, ((s, 1),))


def lin_add(a, b, sign=1):
    if a is None or b is None:
        return None
    d = dict(a[1])
    for s, c in b[1]:
        d[s] = d.get(s, 0) + sign * c
    return (a[0] + sign * b[0], tuple(sorted((s, c) for s, c in d.items() if c != 0)))


def lin_scale(a, k):
    if a is None:
        return None
    if k == 0:
        return (0, ())
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def lin_is_const(a):
    return a is not None and not a[1]


def lin_syms(a):
    return [s for s, _ in a[1]] if a is not None else []


def lin_str(a):
    if a is None:
        return '?'
    parts = []
    for s, c in a[1]:
        parts.append(s if c == 1 else '%d*%s' % (c, s))
    if a[0] or not parts:
        parts.append(str(a[0]))
    return '+'.join(parts)


def is_loop_sym(s):
    return s.startswith('%')


# ---------------------------------------------------------------- values
def _atom_idx(a):
    if a[0] == 'n':
        return a[4] is not None and any(is_loop_sym(s) for s, _ in a[4][1])
    return False


def _label_idx(l):
    return type(l) is tuple and type(l[1]) is tuple


class V:
    __slots__ = ('atoms', 'labels', '_h', 'idx')

    def __init__(self, atoms, labels=EMPTY):
        self.atoms = atoms if type(atoms) is frozenset else frozenset(atoms)
        self.labels = labels if type(labels) is frozenset else frozenset(labels)
        self._h = hash((self.atoms, self.labels))
        self.idx = any(_atom_idx(a) for a in self.atoms) or any(_label_idx(l) for l in self.labels)

    def __eq__(self, o):
        return self is o or (type(o) is V and self._h == o._h and self.atoms == o.atoms and self.labels == o.labels)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def with_labels(self, extra):
        if not extra or extra <= self.labels:
            return self
        return V(self.atoms, self.labels | extra)

    def only_labels(self, labels):
        labels = frozenset(labels)
        if labels == self.labels:
            return self
        return V(self.atoms, labels)

    def single(self):
        if len(self.atoms) == 1:
            return next(iter(self.atoms))
        return None

    def const(self):
        """(True, value) if this is exactly one constant."""
        a = self.single()
        if a is not None and a[0] == 'k':
            return True, a[2]
        if a is not None and a[0] == 'n' and a[1] == 'int' and a[2] == a[3] and type(a[2]) is int:
            return True, a[2]       # a whole number with one value, which is also known in terms of others
        return False, None

    def objs(self):
        return [a[1] for a in self.atoms if a[0] == 'o']

    def has_unknown(self):
        return any(a[0] == 'u' for a in self.atoms)

    def may_be_none(self):
        return NONE_ATOM in self.atoms or self.has_unknown()

    def __repr__(self):
        return 'V(%s%s)' % (','.join(sorted(map(atom_str, self.atoms))),
                            (' |' + ','.join(sorted(map(str, self.labels)))) if self.labels else '')


def atom_str(a):
    if a[0] == 'k':
        return repr(a[2])
    if a[0] == 'n':
        return '%s[%s,%s]%s' % (a[1], a[2], a[3], '' if a[4] is None else '=' + lin_str(a[4]))
    if a[0] == 'e':
        return a[1].rsplit('.', 1)[-1] + '.' + a[2]
    return ':'.join(map(str, a))


def tname_of(x):
    if x is None:
        return 'NoneType'
    if x is Ellipsis:
        return 'ellipsis'
    return type(x).__name__


def const(x, labels=EMPTY, tname=None):
    if isinstance(x, float) and x != x:
        return V((NAN_ATOM,), labels)
    return V((('k', tname or tname_of(x), x),), labels)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
BOOL = V((TRUE_ATOM, FALSE_ATOM))
STR = V((STR_ATOM,))
UNDEF_V = V((UNDEF,))
BOTTOM = V(())


def num(tname='real', lo=-INF, hi=INF, lin=None, labels=EMPTY):
    if lin is not None and not lin[1]:
        return const(lin[0] if tname == 'int' else float(lin[0]), labels, tname)
    return V((('n', tname, lo, hi, lin),), labels)


REAL = num('real')
INT = num('int')


def unknown(tag='?', labels=EMPTY):
    return V((('u', tag),), labels)


def is_num_atom(a):
    return a[0] == 'n' or a[0] == 'nan' or (a[0] == 'k' and a[1] in ('int', 'float', 'real'))


def num_range(a):
    """(tname, lo, hi, lin) of a numeric atom (bool constants included)"""
    if a[0] == 'n':
        return a[1], a[2], a[3], a[4]
    if a[0] == 'k' and a[1] in ('int', 'float', 'real', 'bool'):
        v = a[2]
        return a[1], v, v, ((int(v), ()) if a[1] in ('int', 'bool') else None)
    return None


_RANK = {'bool': 0, 'int': 1, 'float': 2, 'real': 3, 'complex': 4}


def wider(t1, t2):
    return t1 if _RANK.get(t1, 3) >= _RANK.get(t2, 3) else t2


def _norm_atoms(atoms):
    nums = [a for a in atoms if a[0] == 'n' or (a[0] == 'k' and a[1] in ('int', 'float', 'real'))]
    if len(nums) <= 1:
        return atoms
    ns = [a for a in nums if a[0] == 'n']
    if not ns and len(nums) <= 6:
        return atoms
    # hull per type
    rest = [a for a in atoms if a not in nums]
    bytype = {}
    for a in nums:
        t, lo, hi, lin = num_range(a)
        if t in bytype:
            o = bytype[t]
            bytype[t] = (min(o[0], lo), max(o[1], hi), o[2] if o[2] == lin else None)
        else:
            bytype[t] = (lo, hi, lin)
    for t, (lo, hi, lin) in bytype.items():
        if lo == hi and lin is not None and not lin[1]:
            rest.append(('k', t, lo))
        elif lo == hi and abs(lo) != INF and t != 'int':
            rest.append(('k', t, lo))
        else:
            rest.append(('n', t, lo, hi, lin))
    return frozenset(rest)


def join(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a.atoms == b.atoms:
        if a.labels == b.labels:
            return a
        return V(a.atoms, a.labels | b.labels)
    return V(_norm_atoms(a.atoms | b.atoms), a.labels | b.labels)


def join_all(vs):
    r = None
    for v in vs:
        r = v if r is None else join(r, v)
    return r if r is not None else BOTTOM


def widen(old, new):
    """join with numeric extrapolation"""
    j = join(old, new)
    if j == old:
        return old
    on = [num_range(a) for a in old.atoms if is_num_atom(a) and a[0] != 'nan']
    jn = [a for a in j.atoms if is_num_atom(a) and a[0] != 'nan']
    if not on or not jn:
        return j
    olo = min(r[1] for r in on)
    ohi = max(r[2] for r in on)
    rest = [a for a in j.atoms if a not in jn]
    changed = False
    by = {}
    for a in jn:
        t, lo, hi, lin = num_range(a)
        if lo < olo:
            lo = 0 if (lo >= 0 and olo > 0) else -INF
            changed = True
        if hi > ohi:
            hi = INF
            changed = True
        if t in by:
            o = by[t]
            by[t] = (min(o[0], lo), max(o[1], hi), o[2] if o[2] == lin else None)
        else:
            by[t] = (lo, hi, lin)
    if not changed:
        return j
    for t, (lo, hi, lin) in by.items():
        if lo == hi and abs(lo) != INF:
            rest.append(('k', t, lo))
        else:
            rest.append(('n', t, lo, hi, lin))
    return V(frozenset(rest), j.labels)


def truth(v):
    """(may be true, may be false)"""
    t = f = False
    for a in v.atoms:
        k = a[0]
        if k == 'k':
            if a[2]:
                t = True
            else:
                f = True
        elif k == 'n':
            if a[2] > 0 or a[3] < 0:
                t = True
            else:
                t = f = True
        elif k in ('nan', 'fn', 'bm', 'c', 'm', 'x', 'xm', 'e', 'super', 'partial'):
            t = True
        elif k == 'o':
            t = True       # refined by the interpreter for containers
        elif k == 'undef':
            pass
        else:
            t = f = True
    return t, f


# ---------------------------------------------------------------- row labels
def map_rows(labels, fn):
    """apply fn to the spec of every row-tracked label"""
    out = None
    for l in labels:
        if type(l) is tuple:
            n = fn(l[1])
            if n != l[1]:
                if out is None:
                    out = set(labels)
                out.discard(l)
                if n is not None:
                    out.add((l[0], n))
    return labels if out is None else frozenset(out)


def combine_rows(sets):
    """labels of an element-wise combination: conflicting alignments of one source mean mixing"""
    per = {}
    out = set()
    nontriv = False
    for labels in sets:
        mine = {}
        for l in labels:
            if type(l) is tuple:
                mine.setdefault(l[0], set()).add(l[1])
            else:
                out.add(l)
        for n, specs in mine.items():
            per.setdefault(n, []).append(specs)
    for n, lst in per.items():
        allspecs = set().union(*lst)
        for s in allspecs:
            out.add((n, s))
        if len(lst) > 1:
            core = [frozenset(s for s in sp if s not in ('*', '?', 'l')) for sp in lst]
            core = [c for c in core if c]
            if len(core) > 1 and any(c != core[0] for c in core[1:]):
                # a genuine conflict only when some pair is disjoint
                for i in range(len(core)):
                    for j in range(i + 1, len(core)):
                        if not (core[i] & core[j]):
                            out.add((n, '*'))
                            nontriv = True
    return frozenset(out)


# ----------------------------------------------------------------------------- roles
# A tracked label '~name@role' also says how the quantity enters a value: sign (+ -), numerator or denominator (n d), and
# p when it is multiplied with something else on the way; N D when a whole array is combined with it more than once.
# '??' when the way is not an arithmetic one.
def role_label(name):
    return '~%s@+n' % name


def split_role(l):
    """(name, role) of a tracked label, or None"""
    n = l[0] if type(l) is tuple else l
    if type(n) is str and n[:1] == '~':
        i = n.rindex('@')
        return n[1:i], n[i + 1:]
    return None


def map_roles(labels, fn):
    out = None
    for l in labels:
        sr = split_role(l)
        if sr is None:
            continue
        r = '??' if sr[1] == '??' else fn(sr[1])
        if r != sr[1]:
            if out is None:
                out = set(labels)
            out.discard(l)
            n = '~%s@%s' % (sr[0], r)
            out.add((n, l[1]) if type(l) is tuple else n)
    return labels if out is None else frozenset(out)


def _flip(r):
    return ('-' if r[0] == '+' else '+') + r[1:]


def _prod(r):
    return r if r.endswith('p') else r + 'p'


def _recip(r):
    return r[0] + {'n': 'd', 'd': 'n', 'N': 'D', 'D': 'N'}[r[1]] + 'p'


def _blur(r):
    return '??'


_SAME = {'Add', 'add', 'UAdd', 'positive', 'copy', 'asarray', 'array', 'real', 'conj', 'conjugate', 'where', 'sum', 'mean',
         'nan_to_num', 'average', 'nansum', 'nanmean'}


_UNARY = {'log', 'exp', 'sqrt', 'log2', 'log10', 'log1p', 'expm1', 'square', 'abs', 'absolute', 'tanh', 'sin', 'cos', 'angle'}


def _wrap(fn, labels):
    """tracked quantities inside a function of one argument: '~log(x)@+n'"""
    out = set()
    for l in labels:
        sr = split_role(l)
        if sr:
            inner = sr[0] + ('' if sr[1] == '+n' else '@' + sr[1])
            n = '~%s(%s)@+n' % (fn, inner) if sr[1] != '??' and inner.count('(') < 3 else '~%s@??' % role_base(sr[0])
            l = (n, l[1]) if type(l) is tuple else n
        out.add(l)
    return frozenset(out)


def role_base(name):
    """the quantity inside 'exp(log(x)@+np)'"""
    return name.rsplit('(', 1)[-1].split(')', 1)[0].split('@', 1)[0]


def role_chain(name):
    return tuple(name.split('(')[:-1])


def _twice(r):
    return r[0] + r[1].upper() + r[2:]


def _again(name, out):
    """mark quantities that both operands already carry"""
    if name in ('Add', 'add', 'Sub', 'subtract'):
        use = lambda r: r[1] in 'nN' and len(r) == 2
    elif name in ('Mult', 'multiply', 'Div', 'divide', 'true_divide'):
        use = lambda r: True
    else:
        return out
    per = []
    for ls in out:
        m = set()
        for l in ls:
            sr = split_role(l)
            if sr and sr[1] != '??' and use(sr[1]):
                m.add(sr[0])
        per.append(m)
    both = per[0] & per[1]
    if not both:
        return out
    res = []
    for ls in out:
        new = set()
        for l in ls:
            sr = split_role(l)
            if sr and sr[0] in both and sr[1] != '??' and use(sr[1]):
                n = '~%s@%s' % (sr[0], _twice(sr[1]))
                l = (n, l[1]) if type(l) is tuple else n
            new.add(l)
        res.append(frozenset(new))
    return res


def op_roles(name, labs, consts, whole=False):
    """roles of the operands of an arithmetic operation after it; consts: (is constant, value) of each operand"""
    if not any(split_role(l) for ls in labs for l in ls):
        return labs
    n = len(labs)

    def other(i):
        c = [consts[j] for j in range(n) if j != i]
        return c[0] if len(c) == 1 else (False, None)

    def scale(i, r):
        c, k = other(i)
        if c and isinstance(k, (int, float)) and not isinstance(k, bool):
            return _flip(r) if k < 0 else r
        return _prod(r)
    if n == 1 and name in _UNARY:
        return [_wrap(name, labs[0])]
    out = []
    for i, ls in enumerate(labs):
        if name in _SAME:
            fn = None
        elif name in ('Sub', 'subtract'):
            fn = _flip if i == 1 else None
        elif name in ('USub', 'negative'):
            fn = _flip
        elif name in ('Mult', 'multiply', 'MatMult'):
            fn = lambda r, i=i: scale(i, r)
        elif name in ('Div', 'divide', 'true_divide'):
            fn = (lambda r, i=i: scale(i, r)) if i == 0 else (_recip if i == 1 else _blur)
        elif name in ('reciprocal',):
            fn = _recip
        elif name in ('Pow', 'power', 'float_power', 'pow') and i == 0 and consts[1][0]:
            fn = None if consts[1][1] == 1 else _recip if consts[1][1] == -1 else _blur
        else:
            fn = _blur
        out.append(ls if fn is None else map_roles(ls, fn))
    return _again(name, out) if whole and n == 2 else out


def drop_roles(labels):
    """tracked labels describe data flow only, not what a condition was computed from"""
    for l in labels:
        if split_role(l):
            return frozenset(l for l in labels if not split_role(l))
    return labels
