"""Case lists and observers shared by the checks."""
from engine.values import *
from engine.heap import *
from checks.api import SPECS, BY_NAME, DIPLS_WAYS, MissingAnchor

SLOW = {'PRM': 12, 'SparsePLS': 3, 'NIPALS': 2, 'CCARegression': 2, 'OPLS': 2, 'FastICA': 2}


def cfg_name(cfg):
    return ','.join('%s=%s' % (k, v[-1]) for k, v in sorted(cfg.items())) or 'default'


def life_cases(env, kinds=('trans', 'sup', 'fit', 'filter'), names=None):
    out = []
    for s in SPECS:
        if s.kind not in kinds or (names is not None and s.name not in names):
            continue
        for i, c in enumerate(env.B.configs(s)):
            for w in env.B.ways(s):
                out.append(('life', s.name, i, w or ''))
    return out


def life_cost(c):
    return SLOW.get(c[1], 1) if c[0] == 'life' else 0


def setup(env, case, labels=False, st=None):
    """(spec, cfg, way, object, state) of a lifecycle case"""
    spec = BY_NAME[case[1]]
    cfg = env.B.configs(spec)[case[2]]
    way = case[3] or None
    r = env.B.make(spec, cfg, st=st, labels=labels)
    if r is None:
        raise MissingAnchor('%s cannot be configured with %s' % (spec.name, cfg_name(cfg)))
    return spec, cfg, way, r[0], r[1]


def title(case):
    spec = BY_NAME[case[1]]
    return spec.name


class Protect:
    """reports writes that reach protected matrices or lists"""

    def __init__(self, env, rule, entry):
        self.env = env
        self.rule = rule
        self.entry = entry
        self.nd = {}
        self.inst = {}
        self.lists = {}
        self.n = 0

    def add(self, st, v, name, elements=True):
        for i in reach(st, [v]):
            o = st.heap[i]
            if o.kind == 'nd':
                for b in o.aux['base']:
                    self.nd[b] = name
            elif o.kind == 'inst':
                self.inst[i] = name
            elif o.kind in ('list', 'dict', 'set', 'tuple'):
                self.lists[i] = name
        self.n += 1

    def __call__(self, kind, st, node, d):
        if kind == 'write':
            n = self.nd.get(d['oid']) or self.lists.get(d['oid'])
            if n:
                self.hit(n, node, d.get('how', 'write'))
        elif kind == 'setattr' and d['attr'] == 'data' and d['oid'] in self.inst:
            old = d.get('old')
            if old is not None and old.atoms == d['value'].atoms:
                return
            self.hit(self.inst[d['oid']], node, 'assignment to .data')

    def hit(self, name, node, how):
        I = self.env.I
        self.env.find(self.rule, '%s > %s' % (self.entry, I.here()),
                      '%s modifies its argument %s (%s in %s)' % (self.entry, name, how, I.here()),
                      I.where(node), I.trace()[1:])


class listening:
    def __init__(self, env, *ls):
        self.env = env
        self.ls = list(ls)

    def __enter__(self):
        self.env.I.listeners = self.env.I.listeners + self.ls

    def __exit__(self, *a):
        self.env.I.listeners = [l for l in self.env.I.listeners if l not in self.ls]


def inference_calls(spec, trained=True):
    """(method, argument kind) pairs that use a trained instance"""
    out = list(spec.infer)
    if spec.inverse:
        out.append(('inverse_transform', 'T'))
    return out


def content(env, v, st):
    """dependence labels of what a value shows to its user (cached decompositions of a matrix are not shown)"""
    out = set(v.labels)
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        out |= set(x.labels)
        for a in x.atoms:
            if a[0] != 'o' or a[1] in seen:
                continue
            seen.add(a[1])
            o = st.heap.get(a[1])
            if o is None or o.kind in ('frame', 'class', 'module'):
                continue
            if o.kind == 'nd':
                for b in o.aux['base']:
                    bo = st.heap.get(b)
                    if bo is not None:
                        out |= set(bo.aux.get('lab') or ())
                out |= set(o.aux.get('lab') or ())
            elif o.kind == 'inst' and o.cls and o.cls.endswith('.Matrix'):
                d = o.f.get('data')
                if d is not None:
                    stack.append(d)
            else:
                out |= set(o.aux.get('lab') or ())
                stack.extend(o.f.values())
                stack.extend(o.aux.get('items', ()))
                for k in ('elem', 'length'):
                    if o.aux.get(k) is not None:
                        stack.append(o.aux[k])
                stack.extend((o.aux.get('map') or {}).values())
    return {(l[0] if type(l) is tuple else l) for l in out}


def is_unknown(env, v, st):
    """the analysis lost track of (part of) the value"""
    if v.has_unknown():
        return True
    for i in reach(st, [v]):
        o = st.heap[i]
        if o.kind == 'opaque':
            return True
        if o.kind == 'inst' and o.cls and o.cls.endswith('.Matrix') and o.f.get('data') is not None \
                and o.f['data'].has_unknown():
            return True
    return False


def reset_centres(env, st, o):
    """resets the centring filters an instance holds"""
    for c, v in sorted(st.heap[o.single()[1]].f.items()):
        for x in v.atoms:
            if x[0] == 'o' and st.heap[x[1]].kind == 'inst' and str(st.heap[x[1]].cls).endswith('.Center'):
                outs, exc = env.D.method(st, V((x,)), 'reset', [])
                if outs:
                    st = env.D.join(outs)[1]
    return st
