"""Abstract heap: immutable object records in a copy-on-write dictionary."""
from .values import *


class HObj:
    """kind: inst list tuple set dict nd frame class module exc ext iter slice
    f: attribute name -> V ; aux: analysis data (see below)

    aux keys
      items : tuple of V (exact contents) or absent
      elem  : V, summary of the contents
      length: V, number of elements
      map   : dict const -> V (dict kind)
      base  : frozenset of owner ids (nd)
      dims  : tuple of linear forms, or None when the rank is unknown (nd)
      dt    : 'f' 'i' 'c' 'b' '?' (nd)
      view  : tuple of view operations from owner to this array, None if unknown (nd)
      lab   : frozenset of content labels (nd owners, ext objects, opaque collections)
      val   : tags (frozenset) describing the contents, e.g. 'zeros' (nd)
    """
    __slots__ = ('kind', 'cls', 'f', 'aux', 'multi')

    def __init__(self, kind, cls=None, f=None, aux=None, multi=False):
        self.kind = kind
        self.cls = cls
        self.f = f if f is not None else {}
        self.aux = aux if aux is not None else {}
        self.multi = multi

    def setf(self, name, v):
        f = dict(self.f)
        f[name] = v
        return HObj(self.kind, self.cls, f, self.aux, self.multi)

    def delf(self, name):
        f = dict(self.f)
        f.pop(name, None)
        return HObj(self.kind, self.cls, f, self.aux, self.multi)

    def seta(self, **kw):
        aux = dict(self.aux)
        for k, v in kw.items():
            if v is _DEL:
                aux.pop(k, None)
            else:
                aux[k] = v
        return HObj(self.kind, self.cls, self.f, aux, self.multi)

    def as_multi(self):
        if self.multi:
            return self
        return HObj(self.kind, self.cls, self.f, self.aux, True)

    def same(self, o):
        return self is o or (self.kind == o.kind and self.cls == o.cls and self.multi == o.multi
                             and self.f == o.f and self.aux == o.aux)

    def __repr__(self):
        return '<%s %s %s %s>' % (self.kind, self.cls, self.f, self.aux)


_DEL = object()
DEL = _DEL


def join_obj(a, b, vj=join):
    if a is b:
        return a
    kind = a.kind
    if a.kind != b.kind:
        return HObj('opaque', None, {}, {'lab': a.aux.get('lab', EMPTY) | b.aux.get('lab', EMPTY)}, True)
    cls = a.cls if a.cls == b.cls else None
    if a.f is b.f:
        f = a.f
    else:
        f = {}
        changed = False
        for n, v in a.f.items():
            w = b.f.get(n)
            if w is v:
                f[n] = v
            elif w is None:
                f[n] = v if UNDEF in v.atoms else V(v.atoms | {UNDEF}, v.labels)
            else:
                f[n] = vj(v, w)
        for n, w in b.f.items():
            if n not in a.f:
                f[n] = w if UNDEF in w.atoms else V(w.atoms | {UNDEF}, w.labels)
    if a.aux is b.aux or a.aux == b.aux:
        aux = a.aux
    else:
        aux = {}
        ka, kb = a.aux, b.aux
        for k in set(ka) | set(kb):
            x, y = ka.get(k, _DEL), kb.get(k, _DEL)
            if x is y or (x is not _DEL and y is not _DEL and x == y):
                aux[k] = x
                continue
            if k == 'items':
                if x is not _DEL and y is not _DEL and len(x) == len(y):
                    aux[k] = tuple(vj(p, q) for p, q in zip(x, y))
                # otherwise: fall back to elem (computed below)
            elif k in ('elem', 'length'):
                if x is _DEL or y is _DEL:
                    pass
                else:
                    aux[k] = vj(x, y)
            elif k == 'map':
                m = {}
                x = {} if x is _DEL else x
                y = {} if y is _DEL else y
                for kk in set(x) | set(y):
                    if kk in x and kk in y:
                        m[kk] = vj(x[kk], y[kk])
                    else:
                        v = x.get(kk) or y.get(kk)
                        m[kk] = V(v.atoms | {UNDEF}, v.labels)
                aux[k] = m
            elif k in ('base', 'lab', 'val'):
                x = EMPTY if x is _DEL else x
                y = EMPTY if y is _DEL else y
                aux[k] = (x & y) if k == 'val' else (x | y)
            elif k == 'dims':
                if x is _DEL or y is _DEL or x is None or y is None or len(x) != len(y):
                    aux[k] = None
                else:
                    aux[k] = tuple(p if p == q else None for p, q in zip(x, y))
            elif k == 'dt':
                aux[k] = '?'
            elif k == 'view':
                aux[k] = None
            elif k == 'setvals':
                if x is not _DEL and y is not _DEL:
                    aux[k] = x | y
            else:
                aux[k] = None
        if kind in ('list', 'tuple', 'set', 'iter', 'dict') and 'items' not in aux:
            def elem_of(o):
                if 'items' in o:
                    return join_all(o['items'])
                return o.get('elem', BOTTOM)

            def len_of(o):
                if 'items' in o:
                    return const(len(o['items']))
                return o.get('length', num('int', 0))
            if ('items' in ka) or ('items' in kb):
                aux['elem'] = vj(elem_of(ka), elem_of(kb))
                aux['length'] = vj(len_of(ka), len_of(kb))
    return HObj(kind, cls, f, aux, a.multi or b.multi)


class State:
    __slots__ = ('heap', 'pc', 'facts')

    def __init__(self, heap=None, pc=EMPTY, facts=EMPTY):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.facts = facts     # frozenset of known facts about symbols (lin <= 0 style), unused by most checks

    def copy(self):
        return State(dict(self.heap), self.pc, self.facts)

    def assign(self, other):
        self.heap = other.heap
        self.pc = other.pc
        self.facts = other.facts

    def get(self, oid):
        return self.heap[oid]

    def put(self, oid, o):
        self.heap[oid] = o


def join_states(a, b, vj=join):
    if a is None:
        return b
    if b is None or a is b:
        return a
    ha, hb = a.heap, b.heap
    h = dict(ha)
    for k, o in hb.items():
        p = ha.get(k)
        if p is None:
            h[k] = o
        elif p is not o:
            h[k] = join_obj(p, o, vj)
    return State(h, a.pc | b.pc, a.facts & b.facts)


def join_list(sts, vj=join):
    r = None
    for s in sts:
        r = s if r is None else join_states(r, s, vj)
    return r


def state_le(new, old):
    """new adds nothing to old (used for loop convergence)"""
    ho = old.heap
    for k, o in new.heap.items():
        p = ho.get(k)
        if p is None:
            return False
        if p is not o and not p.same(o):
            return False
    return True


def reach(st, vals, skip=()):
    """ids of heap objects reachable from the values (frames/classes/modules not traversed)"""
    seen = set()
    stack = []

    def push(v):
        for a in v.atoms:
            t = a[0]
            if t == 'o':
                stack.append(a[1])
            elif t == 'bm':
                push_atom(a[2])
            elif t in ('xm', 'super'):
                push_atom(a[2])
            elif t == 'partial':
                stack.append(a[1])

    def push_atom(a):
        if a[0] == 'o':
            stack.append(a[1])

    for v in vals:
        push(v)
    while stack:
        i = stack.pop()
        if i in seen or i in skip:
            continue
        o = st.heap.get(i)
        if o is None or o.kind in ('frame', 'class', 'module'):
            continue
        seen.add(i)
        for n, v in o.f.items():
            push(v)
        for v in o.aux.get('items', ()):
            push(v)
        if 'elem' in o.aux and o.aux['elem'] is not None:
            push(o.aux['elem'])
        if o.aux.get('map'):
            for v in o.aux['map'].values():
                push(v)
        for b in o.aux.get('base', ()):
            if b not in seen:
                stack.append(b)
    return seen


def storages(st, ids):
    """owner ids of all ndarrays among ids"""
    out = set()
    for i in ids:
        o = st.heap.get(i)
        if o is not None and o.kind == 'nd':
            out |= o.aux['base']
    return out


def _ren_atom(a, old, new):
    t = a[0]
    if t == 'o':
        return (t, new) if a[1] == old else a
    if t in ('bm', 'xm', 'super'):
        b = _ren_atom(a[2], old, new)
        return a if b is a[2] else (t, a[1], b) + a[3:]
    return a


def _ren(v, old, new):
    for a in v.atoms:
        if _ren_atom(a, old, new) is not a:
            return V([_ren_atom(x, old, new) for x in v.atoms], v.labels)
    return v


def rename_refs(st, old, new):
    """every reference to object old becomes a reference to object new"""
    for k, o in list(st.heap.items()):
        if o.kind in ('class', 'module', 'nd'):
            continue
        f = None
        for n, v in o.f.items():
            w = _ren(v, old, new)
            if w is not v:
                f = f if f is not None else dict(o.f)
                f[n] = w
        aux = None
        for n in ('elem', 'length'):
            v = o.aux.get(n)
            if v is not None:
                w = _ren(v, old, new)
                if w is not v:
                    aux = aux if aux is not None else dict(o.aux)
                    aux[n] = w
        it = o.aux.get('items')
        if it:
            w = tuple(_ren(v, old, new) for v in it)
            if any(x is not y for x, y in zip(w, it)):
                aux = aux if aux is not None else dict(o.aux)
                aux['items'] = w
        m = o.aux.get('map')
        if m:
            w = {q: _ren(v, old, new) for q, v in m.items()}
            if any(w[q] is not m[q] for q in m):
                aux = aux if aux is not None else dict(o.aux)
                aux['map'] = w
        if f is not None or aux is not None:
            st.heap[k] = HObj(o.kind, o.cls, f if f is not None else o.f, aux if aux is not None else o.aux, o.multi)
