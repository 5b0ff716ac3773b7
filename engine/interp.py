"""A whole-program abstract interpreter for the Python sources under /repo/src/wai/ma.

It never executes the analysed program: it walks its syntax trees and computes, for every
statement, an over-approximation of the values, heap shapes, storage sharing and dependences
that can reach it.  Control-flow joins are joins of abstract states, loops are fixpoints,
calls are resolved through the class hierarchy and analysed in their calling context.
"""
import ast
import builtins as _pyb
import os
import sys

from .values import *
from .heap import *
from .live import live_at_loop

sys.setrecursionlimit(20000)


class Dead(Exception):
    """the current abstract path has no normal continuation"""


class AnalysisError(Exception):
    """the analyser itself cannot continue (never a verdict about the program)"""


class FnInfo:
    __slots__ = ('fid', 'node', 'module', 'qual', 'cls', 'defaults', 'kwdefaults', 'locals', 'globals', 'nonlocals',
                 'isgen', 'kind', 'abstract', 'params', 'simple')


class Frame:
    __slots__ = ('fid', 'fn', 'module', 'cls', 'parent', 'node', 'selfatom', 'qual', 'yields', 'callnode')


class Flow:
    __slots__ = ('normal', 'ret', 'brk', 'cont')

    def __init__(self, normal=None):
        self.normal = normal if normal is not None else []
        self.ret = []
        self.brk = []
        self.cont = []


class It:
    """iteration descriptor"""
    __slots__ = ('exact', 'mk', 'lo', 'length', 'rng', 'unordered')

    def __init__(self, exact=None, mk=None, lo=0, length=None, rng=None):
        self.exact = exact
        self.mk = mk
        self.lo = lo
        self.length = length
        self.rng = rng


PY_EXC = {n: getattr(_pyb, n) for n in dir(_pyb)
          if isinstance(getattr(_pyb, n), type) and issubclass(getattr(_pyb, n), BaseException)}


def assigned_names(body):
    """names bound in a function body (not descending into nested scopes)"""
    out, glob, nonl = set(), set(), set()
    isgen = [False]

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    tgt(sub.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen[0] = True
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.For, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is not None:
                    tgt(it.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in body:
        walk(s)
    return out - glob - nonl, glob, nonl, isgen[0]


class Interp:
    PKG = 'wai.ma'
    Dead = Dead

    def __init__(self, src='/repo/src', pkg='wai.ma'):
        self.src = src
        self.PKG = pkg
        self.trees = {}
        self.files = {}
        self.fns = {}
        self.fn_by_node = {}
        self.classes = {}
        self.mro_cache = {}
        self.ctx_tab = {}
        self.summary_classes = {"cls:wai.ma.core.matrix._Matrix.Matrix"}
        self.ctx = 0
        self.stack = []
        self.handlers = [[]]
        self.listeners = []
        self.intercept = None
        self.tag_ext = False        # mark what library estimators return and what is read from them
        self.steps = 0
        self.max_steps = 6000000
        self.analysed_fns = set()
        self.call_sites = set()
        self.unknown_ext = {}
        self.row_mode = False
        self.refine_fields = True
        self.distinct = set()
        self.doubts = set()
        self.sym_lo = {}
        self.sym_hi = {}
        self.switches = []
        self.max_disj = 5
        self.loop_limit = 12
        self.notes = set()
        self.opaque = {}
        self._discover()
        from . import lib
        self.lib = lib.Lib(self)
        self.base = State()
        self.loading = set()
        for m in sorted(self.trees):
            try:
                self.load_module(m, self.base)
            except Dead:
                raise AnalysisError('module %s cannot be imported' % m)
        self.handlers = [[]]

    # ------------------------------------------------------------ discovery
    def _discover(self):
        root = os.path.join(self.src, *self.PKG.split('.'))
        if not os.path.isdir(root):
            raise AnalysisError('package directory %s not found' % root)
        for d, dirs, fs in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.src)[:-3].replace(os.sep, '.')
                ispkg = rel.endswith('.__init__')
                if ispkg:
                    rel = rel[:-9]
                with open(p, encoding='utf-8') as fh:
                    text = fh.read()
                try:
                    tree = ast.parse(text, p)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (p, e))
                self.trees[rel] = tree
                self.files[rel] = (p, ispkg)

    def site(self, node):
        m = self.stack[-1].module if self.stack else '?'
        return '%s:%s:%s-%s:%s' % (m[len(self.PKG) + 1:] if m.startswith(self.PKG) else m,
                                   getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                                   getattr(node, 'end_lineno', 0), getattr(node, 'end_col_offset', 0))

    def where(self, node):
        """file:line function, for reports"""
        if not self.stack:
            return '<entry>'
        fr = self.stack[-1]
        p = self.files.get(fr.module, ('?',))[0]
        return '%s:%s %s' % (os.path.relpath(p, os.path.dirname(self.src)), getattr(node, 'lineno', 0), fr.qual)

    def here(self):
        return self.stack[-1].qual if self.stack else '<entry>'

    def trace(self):
        return [f.qual for f in self.stack]

    def emit(self, kind, st, node, **data):
        for l in self.listeners:
            l(kind, st, node, data)

    # ------------------------------------------------------------ context / allocation
    def push_ctx(self, key):
        old = self.ctx
        k = (old, key)
        c = self.ctx_tab.get(k)
        if c is None:
            c = self.ctx_tab[k] = len(self.ctx_tab) + 1
        self.ctx = c
        return old

    def alloc(self, st, node, obj, suffix='', name=None):
        oid = name or '%s@%s%s#%d' % (obj.kind, self.site(node), suffix, self.ctx)
        prev = st.heap.get(oid)
        if prev is not None:
            if obj.kind == 'nd' and obj.aux.get('base') == SELF:
                obj = obj.seta(base=frozenset((oid,)))
            if obj.kind == 'inst' and not obj.f and prev.kind == 'inst' and prev.cls == obj.cls:
                if name is None and not prev.multi and obj.cls not in self.summary_classes:
                    # keep the newest object of this site apart from the older ones (recency)
                    old = oid + '~'
                    rename_refs(st, oid, old)
                    prev = st.heap[oid]
                    was = st.heap.get(old)
                    st.heap[old] = prev.as_multi() if was is None else join_obj(was, prev).as_multi()
                else:
                    obj = prev.as_multi()
            else:
                obj = join_obj(prev, obj).as_multi()
            st.heap[oid] = obj
        else:
            if obj.kind == 'nd' and obj.aux.get('base') == SELF:
                obj = obj.seta(base=frozenset((oid,)))
            st.heap[oid] = obj
        return V((('o', oid),))

    def new_list(self, st, node, items=None, elem=None, length=None, kind='list', suffix='', labels=EMPTY):
        aux = {}
        if items is not None:
            aux['items'] = tuple(items)
        else:
            aux['elem'] = elem if elem is not None else BOTTOM
            aux['length'] = length if length is not None else num('int', 0)
        return self.alloc(st, node, HObj(kind, None, {}, aux), suffix).with_labels(labels)

    def new_tuple(self, st, node, items, suffix=''):
        return self.new_list(st, node, items, kind='tuple', suffix=suffix)

    def new_nd(self, st, node, dims, lab=EMPTY, dt='f', suffix='', name=None):
        if st.pc:
            lab = frozenset(lab) | st.pc
        return self.alloc(st, node, HObj('nd', None, {}, {'base': SELF, 'dims': dims, 'dt': dt, 'view': (),
                                                           'lab': frozenset(lab)}), suffix, name)

    # ------------------------------------------------------------ modules
    def load_module(self, name, st):
        mid = 'mod:' + name
        if mid in st.heap and name in self.loading:
            return
        if mid in st.heap:
            return
        self.loading.add(name)
        parent = name.rpartition('.')[0]
        if parent and parent in self.trees:
            self.load_module(parent, st)
            if mid in st.heap:
                return
        st.heap[mid] = HObj('module', name, {'__name__': const(name)})
        fr = Frame()
        fr.fid = mid
        fr.fn = None
        fr.module = name
        fr.cls = None
        fr.parent = None
        fr.selfatom = None
        fr.qual = name
        fr.yields = None
        self.stack.append(fr)
        old = self.push_ctx(('module', name))
        try:
            fl = self.exec_block(self.trees[name].body, [st.copy()])
            if not fl.normal:
                raise AnalysisError('module %s does not complete' % name)
            st.assign(join_list(fl.normal))
        finally:
            self.ctx = old
            self.stack.pop()
        if parent and parent in self.trees:
            pid = 'mod:' + parent
            if pid in st.heap:
                base = name.rpartition('.')[2]
                if base not in st.heap[pid].f:
                    st.heap[pid] = st.heap[pid].setf(base, V((('m', name),)))

    def resolve_from(self, node):
        m = self.stack[-1].module
        if node.level == 0:
            return node.module
        pkg = m if self.files[m][1] else m.rpartition('.')[0]
        for _ in range(node.level - 1):
            pkg = pkg.rpartition('.')[0]
        return pkg + ('.' + node.module if node.module else '')

    # ------------------------------------------------------------ classes
    def bases_of(self, cid):
        return self.classes[cid]['bases']

    def mro(self, cid):
        """linearisation; entries are class ids or ('x', name)"""
        r = self.mro_cache.get(cid)
        if r is not None:
            return r

        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in t if x != c] for t in seqs]
                seqs = [t for t in seqs if t]
            return out

        bs = self.bases_of(cid)
        seqs = []
        for b in bs:
            seqs.append([b] if isinstance(b, tuple) else list(self.mro(b)))
        seqs.append(list(bs))
        r = [cid] + merge(seqs)
        self.mro_cache[cid] = r
        return r

    def class_attr(self, st, cid, name, after=None):
        """(owner class id, V) through the MRO"""
        m = self.mro(cid)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if isinstance(c, tuple):
                continue
            o = st.heap.get(c)
            if o is not None and name in o.f:
                return c, o.f[name]
        return None, None

    def ext_bases(self, cid):
        return [c[1] for c in self.mro(cid) if isinstance(c, tuple)]

    def is_subclass(self, cid, other):
        return other in self.mro(cid)

    def is_enum(self, cid):
        return any(b.startswith('enum.') for b in self.ext_bases(cid))

    def metaclass(self, cid):
        for c in self.mro(cid):
            if not isinstance(c, tuple) and self.classes[c].get('meta'):
                return self.classes[c]['meta']
        return None

    def is_metaclass(self, cid):
        return any(b in ('builtins.type', 'abc.ABCMeta', 'enum.EnumMeta') for b in self.ext_bases(cid))

    def abstract_methods(self, st, cid):
        names = {}
        for c in reversed(self.mro(cid)):
            if isinstance(c, tuple):
                continue
            for n, v in st.heap[c].f.items():
                ab = False
                for a in v.atoms:
                    if a[0] == 'fn' and self.fns[a[1]].abstract:
                        ab = True
                    elif a[0] == 'o' and st.heap[a[1]].aux.get('abstract'):
                        ab = True
                names[n] = ab
        uses_abc = any(b in ('abc.ABC', 'abc.ABCMeta') for b in self.ext_bases(cid))
        mt = self.metaclass(cid)
        if not uses_abc and mt is not None and not isinstance(mt, tuple) and self.is_metaclass(mt):
            uses_abc = any(b == 'abc.ABCMeta' for b in self.ext_bases(mt))
        if not uses_abc and isinstance(mt, tuple) and mt[1] == 'abc.ABCMeta':
            uses_abc = True
        return sorted(n for n, ab in names.items() if ab) if uses_abc else []

    def define_class(self, node, st):
        fr = self.stack[-1]
        qual = (fr.qual + '.' if fr.cls or fr.fn else fr.module + '.') + node.name
        cid = 'cls:' + qual
        bases = []
        for b in node.bases:
            v = self.eval(b, st)
            a = v.single()
            if a is None:
                bases.append(('x', 'unknown'))
            elif a[0] == 'c':
                bases.append(a[1])
            elif a[0] == 'x':
                bases.append(('x', a[1]))
            else:
                bases.append(('x', 'unknown'))
        meta = None
        for k in node.keywords:
            if k.arg == 'metaclass':
                a = self.eval(k.value, st).single()
                if a is not None and a[0] == 'c':
                    meta = a[1]
                elif a is not None and a[0] == 'x':
                    meta = ('x', a[1])
        self.classes[cid] = {'bases': bases, 'meta': meta, 'node': node, 'module': fr.module, 'name': node.name,
                             'qual': qual}
        self.mro_cache.pop(cid, None)
        st.heap[cid] = HObj('class', cid, {})
        nf = Frame()
        nf.fid = cid
        nf.fn = None
        nf.module = fr.module
        nf.cls = cid
        nf.parent = fr.fid if st.heap[fr.fid].kind == 'frame' else None
        nf.selfatom = None
        nf.qual = qual
        nf.yields = None
        self.stack.append(nf)
        try:
            fl = self.exec_block(node.body, [st.copy()])
            if not fl.normal:
                raise Dead()
            st.assign(join_list(fl.normal))
        finally:
            self.stack.pop()
        if self.is_enum(cid):
            o = st.heap[cid]
            members = {}
            f = dict(o.f)
            counter = 0
            for n, v in list(f.items()):
                if n.startswith('_'):
                    continue
                a = v.single()
                if a is not None and a[0] in ('fn', 'o') and (a[0] == 'fn' or st.heap[a[1]].kind not in ('tuple',)) \
                        and not (a[0] == 'o' and st.heap[a[1]].kind == 'ext'):
                    if a[0] == 'fn':
                        continue
                if a is not None and a[0] == 'x':
                    continue
                if a is not None and a[0] == 'o' and st.heap[a[1]].cls == 'enum.auto':
                    counter += 1
                    v = const(counter)
                elif v.const()[0] and isinstance(v.const()[1], int):
                    counter = v.const()[1]
                else:
                    counter += 1
                members[n] = v
                f[n] = V((('e', cid, n),))
            st.heap[cid] = HObj('class', cid, f, {'members': members})
        val = V((('c', cid),))
        for d in reversed(node.decorator_list):
            dv = self.eval(d, st)
            a = dv.single()
            if a is not None and a[0] in ('fn',):
                val = self.call_value(dv, [val], {}, st, node)
            elif a is not None and a[0] == 'x' and a[1].startswith('dataclasses.dataclass'):
                self.classes[cid]['dataclass'] = True
            elif a is not None and a[0] == 'o':
                self.classes[cid]['dataclass'] = True
        return val

    # ------------------------------------------------------------ functions
    def make_fn(self, node, st, name, qual_prefix=None):
        fr = self.stack[-1]
        key = (id(node), fr.cls if st.heap[fr.fid].kind == 'class' else None)
        fid = self.fn_by_node.get(key)
        args = node.args
        defaults = [self.eval(d, st) for d in args.defaults]
        kwd = [self.eval(d, st) if d is not None else None for d in args.kw_defaults]
        if fid is None:
            fi = FnInfo()
            fi.fid = fid = 'fn%d' % len(self.fns)
            fi.node = node
            fi.module = fr.module
            if isinstance(node, ast.Lambda):
                fi.qual = fr.qual + '.<lambda>'
                body = [ast.Return(value=node.body, lineno=node.lineno, col_offset=node.col_offset)]
                fi.simple = body
            else:
                fi.qual = ((fr.qual + '.') if (fr.cls or fr.fn) else fr.module + '.') + name
                fi.simple = node.body
            fi.cls = fr.cls
            fi.kind = 'function'
            fi.abstract = False
            loc, glob, nonl, isgen = assigned_names(fi.simple)
            ps = [a.arg for a in args.posonlyargs + args.args]
            fi.params = ps
            allp = set(ps) | {a.arg for a in args.kwonlyargs}
            if args.vararg:
                allp.add(args.vararg.arg)
            if args.kwarg:
                allp.add(args.kwarg.arg)
            fi.locals = (loc | allp) - glob - nonl
            fi.globals = glob
            fi.nonlocals = nonl
            fi.isgen = isgen
            self.fns[fid] = fi
            self.fn_by_node[key] = fid
        fi = self.fns[fid]
        fi.defaults = defaults
        fi.kwdefaults = kwd
        closure = fr.fid if st.heap[fr.fid].kind == 'frame' else (fr.parent if st.heap[fr.fid].kind == 'class' else None)
        return V((('fn', fid, closure),))

    def define_function(self, node, st):
        v = self.make_fn(node, st, node.name)
        for d in reversed(node.decorator_list):
            dv = self.eval(d, st)
            a = dv.single()
            if a is None:
                v = unknown('decorated')
                continue
            if a[0] == 'x':
                n = a[1]
                if n in ('abc.abstractmethod',):
                    fa = v.single()
                    if fa is not None and fa[0] == 'fn':
                        self.fns[fa[1]].abstract = True
                    elif fa is not None and fa[0] == 'o':
                        st.heap[fa[1]] = st.heap[fa[1]].seta(abstract=True)
                elif n in ('builtins.staticmethod', 'builtins.classmethod', 'builtins.property',
                           'abc.abstractproperty', 'functools.cached_property'):
                    fa = v.single()
                    k = {'builtins.staticmethod': 'static', 'builtins.classmethod': 'classm'}.get(n, 'property')
                    ab = fa is not None and fa[0] == 'fn' and self.fns[fa[1]].abstract
                    v = self.alloc(st, node, HObj('descr', k, {'fn': v}, {'abstract': ab}), k)
                elif n in ('functools.lru_cache', 'functools.cache', 'functools.wraps', 'typing.overload',
                           'typing.no_type_check', 'typing.final', 'typing.override'):
                    if 'cache' in n:
                        self.emit('memo', st, node, fn=node.name)
                else:
                    v = unknown('decorated:' + n)
            elif a[0] == 'xm' and a[1] in ('setter', 'getter', 'deleter'):
                base = a[2]
                if a[1] == 'setter' and base[0] == 'o':
                    st.heap[base[1]] = st.heap[base[1]].setf('setter', v)
                v = V((base,))
            elif a[0] in ('fn', 'bm', 'c', 'o', 'partial'):
                v = self.call_value(dv, [v], {}, st, node)
            else:
                v = unknown('decorated')
        return v

    # ------------------------------------------------------------ calls
    def call_value(self, fv, args, kwargs, st, node):
        """call and join all outcomes into st"""
        outs = self.call_multi(fv, args, kwargs, st, node)
        if not outs:
            raise Dead()
        if len(outs) == 1:
            v, s = outs[0]
        else:
            v = join_all([o[0] for o in outs])
            s = join_list([o[1] for o in outs])
        st.assign(s)
        return v

    def call_multi(self, fv, args, kwargs, st, node, star=None):
        """list of (value, state)"""
        self.call_sites.add((self.stack[-1].module if self.stack else '', getattr(node, 'lineno', 0),
                             getattr(node, 'col_offset', 0)))
        outs = []
        atoms = sorted(fv.atoms, key=repr)
        n = len(atoms)
        for i, a in enumerate(atoms):
            s = st if n == 1 else st.copy()
            if fv.labels:
                pass
            try:
                outs.extend(self.call_atom(a, args, kwargs, s, node, fv.labels, star))
            except Dead:
                pass
        # merge by partition
        return self.partition(outs)

    @staticmethod
    def part_key(v):
        a = v.single()
        if a == NONE_ATOM:
            return 'N'
        if a == TRUE_ATOM:
            return 'T'
        if a == FALSE_ATOM:
            return 'F'
        if NONE_ATOM in v.atoms:
            return '?'
        return 'v'

    def partition(self, outs):
        if len(outs) <= 1:
            return outs
        groups = {}
        for v, s in outs:
            k = self.part_key(v)
            if k in groups:
                pv, ps = groups[k]
                groups[k] = (join(pv, v), join_states(ps, s))
            else:
                groups[k] = (v, s)
        return list(groups.values())

    def call_atom(self, a, args, kwargs, st, node, flabels=EMPTY, star=None):
        k = a[0]
        if k == 'fn':
            return self.call_fn(a, args, kwargs, st, node, star)
        if k == 'bm':
            return self.call_atom(a[1], [V((a[2],))] + args, kwargs, st, node, flabels, star)
        if k == 'c':
            return self.instantiate(a[1], args, kwargs, st, node, star)
        if k == 'x':
            return self.ret_many(self.lib.call(a[1], args, kwargs, st, node), st)
        if k == 'xm':
            return self.ret_many(self.lib.call_method(a[1], a[2], args, kwargs, st, node), st)
        if k == 'partial':
            o = st.heap[a[1]]
            kw = dict(o.aux.get('kw', {}))
            kw.update(kwargs)
            return self.call_multi(o.f['fn'], list(o.aux.get('args', ())) + args, kw, st, node)
        if k == 'o':
            o = st.heap[a[1]]
            if o.kind == 'inst':
                c, fv = self.class_attr(st, o.cls, '__call__')
                if fv is not None:
                    return self.call_multi(self.bind(fv, a, st, node), args, kwargs, st, node)
                if self.opaque_class(o.cls):
                    return self.ret1(unknown('call', self.deep(args, kwargs, st)), st)
                self.do_raise_named('TypeError', st, node)
                raise Dead()
            if o.kind == 'descr':
                return self.call_multi(o.f['fn'], args, kwargs, st, node)
            return self.ret1(unknown('call', self.deep(args, kwargs, st)), st)
        if k == 'e' or k == 'k' or k == 'n':
            self.do_raise_named('TypeError', st, node)
            raise Dead()
        return self.ret1(unknown('call', flabels | self.deep(args, kwargs, st)), st)

    def opaque_class(self, cid):
        return any(not b.startswith(('builtins.', 'abc.', 'enum.', 'typing.')) for b in self.ext_bases(cid))

    @staticmethod
    def ret1(v, st):
        return [(v, st)]

    @staticmethod
    def ret_many(r, st):
        if isinstance(r, list):
            return r
        return [(r, st)]

    def deep(self, args, kwargs, st):
        l = set()
        for v in list(args) + list(kwargs.values()):
            l |= self.lib.deep_labels(v, st)
        return map_rows(frozenset(l), lambda s: s if s == '*' else '?')

    def bind_args(self, fi, args, kwargs, st, node, star):
        """parameter dict"""
        fa = fi.node.args
        names = [x.arg for x in fa.posonlyargs + fa.args]
        out = {}
        args = list(args)
        npos = min(len(args), len(names))
        for n, v in zip(names, args):
            out[n] = v
        extra = args[len(names):]
        kw = dict(kwargs)
        if fa.vararg:
            if star is not None and star[0] is not None:
                out[fa.vararg.arg] = self.new_list(st, node, elem=join_all(extra + [star[0]]), kind='tuple', suffix='*')
            else:
                out[fa.vararg.arg] = self.new_list(st, node, extra, kind='tuple', suffix='*')
        elif extra:
            return None
        kwonly = [x.arg for x in fa.kwonlyargs]
        rest = {}
        for n, v in kw.items():
            if n in names[len(fa.posonlyargs):] or n in kwonly:
                if n in out:
                    return None
                out[n] = v
            else:
                rest[n] = v
        if fa.kwarg:
            out[fa.kwarg.arg] = self.alloc(st, node, HObj('dict', None, {}, {'map': dict(rest)}), '**')
        elif rest:
            return None
        nd = len(fi.defaults)
        for i, n in enumerate(names):
            if n not in out:
                j = i - (len(names) - nd)
                if star is not None and (star[0] is not None or star[1] is not None):
                    sv = join_all([x for x in star if x is not None])
                    out[n] = sv if j < 0 else join(sv, fi.defaults[j])
                elif j >= 0:
                    out[n] = fi.defaults[j]
                else:
                    return None
        for n, d in zip(kwonly, fi.kwdefaults):
            if n not in out:
                if star is not None and star[1] is not None:
                    out[n] = star[1] if d is None else join(star[1], d)
                elif d is not None:
                    out[n] = d
                else:
                    return None
        return out

    def call_fn(self, atom, args, kwargs, st, node, star=None):
        fi = self.fns[atom[1]]
        ops = self.opaque.get(fi.qual)
        if ops is not None:
            return self.ret_many(ops(self, args, kwargs, st, node), st)
        depth = sum(1 for f in self.stack if f.fn is fi)
        if depth >= 3 or len(self.stack) > 60:
            self.notes.add('recursion cut at ' + fi.qual)
            return [(unknown('rec', self.deep(args, kwargs, st)), st)]
        old = self.push_ctx((fi.fid, self.site(node)))
        try:
            bound = self.bind_args(fi, args, kwargs, st, node, star)
            if bound is None:
                self.emit('badcall', st, node, fn=fi.qual)
                self.do_raise_named('TypeError', st, node)
                raise Dead()
            fid = 'frame:%s#%d' % (fi.qual, self.ctx)
            if self.intercept is not None:
                r = self.intercept(fi, bound, st)
                if r is not None:
                    return [(r, st)]
            st.heap[fid] = HObj('frame', fi.fid, bound)
            fr = Frame()
            fr.fid = fid
            fr.fn = fi
            fr.module = fi.module
            fr.cls = fi.cls
            fr.parent = atom[2]
            self.frame_parent[fid] = atom[2]
            fr.selfatom = None
            fr.qual = fi.qual
            fr.callnode = node
            fr.yields = [] if fi.isgen else None
            if fi.params:
                fr.selfatom = bound.get(fi.params[0])
            self.stack.append(fr)
            self.analysed_fns.add(fi.qual)
            self.emit('enter', st, node, fn=fi, bound=bound)
            pc0 = st.pc
            try:
                fl = self.exec_block(fi.simple, [st])
            finally:
                self.stack.pop()
            outs = list(fl.ret)
            for s in fl.normal:
                outs.append((NONE, s))
            res = []
            for v, s in outs:
                s.pc = pc0
                self.kill_frame(s, fid, v)
                res.append((v, s))
            if fi.isgen:
                elem = join_all(fr.yields) if fr.yields else BOTTOM
                res2 = []
                for _, s in res:
                    res2.append((self.new_list(s, node, elem=elem, length=num('int', 0), suffix='gen'), s))
                res = res2
            res = self.partition(res)
            if self.listeners:
                for v, s in res:
                    self.emit('exit', s, node, fn=fi, bound=bound, value=v)
            return res
        finally:
            self.ctx = old

    def kill_frame(self, s, fid, v):
        """drop the locals of a finished call unless a closure may need them"""
        o = s.heap.get(fid)
        if o is None:
            return
        fi = self.fns[o.cls]
        if not getattr(fi, 'hasclosure', None) and fi.fid not in self._closure_cache:
            self._closure_cache[fi.fid] = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef))
                                              for b in fi.simple for n in ast.walk(b))
        if not self._closure_cache[fi.fid]:
            del s.heap[fid]

    _closure_cache = {}

    def instantiate(self, cid, args, kwargs, st, node, star=None, raw=False):
        if self.is_enum(cid):
            return self.ret1(self.enum_lookup(cid, args, st, node), st)
        if not raw:
            mt = self.metaclass(cid)
            if mt is not None and not isinstance(mt, tuple):
                c, fv = self.class_attr(st, mt, '__call__')
                if fv is not None:
                    a = fv.single()
                    return self.call_atom(('bm', a, ('c', cid)), args, kwargs, st, node, EMPTY, star)
        ab = self.abstract_methods(st, cid)
        if ab:
            self.emit('abstract', st, node, cls=cid, names=ab)
            self.do_raise_named('TypeError', st, node)
            raise Dead()
        c, nv = self.class_attr(st, cid, '__new__')
        exts = self.ext_bases(cid)
        kind = 'inst'
        if any(self.lib.is_exc_name(b) for b in exts):
            kind = 'exc'
        obj = self.alloc(st, node, HObj(kind, cid, {}), ':' + cid.rsplit('.', 1)[-1])
        if kind == 'exc':
            oid = obj.single()[1]
            st.heap[oid] = st.heap[oid].seta(args=tuple(args))
        c, iv = self.class_attr(st, cid, '__init__')
        if iv is None:
            if self.classes[cid].get('dataclass'):
                return self.dataclass_init(cid, obj, args, kwargs, st, node)
            if any(b.endswith('NamedTuple') for b in exts):
                return self.dataclass_init(cid, obj, args, kwargs, st, node)
            return [(obj, st)]
        outs = self.call_multi(self.bind(iv, obj.single(), st, node), args, kwargs, st, node, star)
        return [(obj, s) for _, s in outs][:1] if len(outs) == 1 else \
            ([(obj, join_list([s for _, s in outs]))] if outs else [])

    def dataclass_init(self, cid, obj, args, kwargs, st, node):
        fields = []
        for c in reversed(self.mro(cid)):
            if isinstance(c, tuple):
                continue
            for n in self.classes[c]['node'].body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    fields.append(n.target.id)
        oid = obj.single()[1]
        for i, f in enumerate(fields):
            if i < len(args):
                v = args[i]
            elif f in kwargs:
                v = kwargs[f]
            else:
                _, v = self.class_attr(st, cid, f)
                v = v if v is not None else unknown('field')
            st.heap[oid] = st.heap[oid].setf(f, v)
        return [(obj, st)]

    def enum_lookup(self, cid, args, st, node):
        members = st.heap[cid].aux.get('members', {})
        if not args:
            return unknown('enum')
        v = args[0]
        out = set()
        miss = False
        for a in v.atoms:
            if a[0] == 'e' and a[1] == cid:
                out.add(a)
                continue
            found = False
            if a[0] == 'k':
                for n, mv in members.items():
                    if mv.const() == (True, a[2]):
                        out.add(('e', cid, n))
                        found = True
                if not found:
                    miss = True
            else:
                out |= {('e', cid, n) for n in members}
                miss = True
        if miss:
            self.do_raise_named('ValueError', st, node, may=bool(out))
        if not out:
            raise Dead()
        return V(out, v.labels)

    # ------------------------------------------------------------ exceptions
    def do_raise(self, ev, st, node, may=False):
        self.emit('raise', st, node, exc=ev)
        self.handlers[-1].append((ev, st.copy()))       # the caller goes on to use st

    def do_raise_named(self, name, st, node, may=False):
        """may: the path also goes on without raising"""
        s = st.copy()
        ev = self.alloc(s, node, HObj('exc', 'x:' + name, {}, {'args': (STR,), 'certain': not may,
                                                               'at': (self.here(), self.where(node))}), ':' + name)
        self.emit('raise', s, node, exc=ev)
        self.handlers[-1].append((ev, s))

    def raise_dead(self, name, st, node, certain=True):
        self.do_raise_named(name, st, node, may=not certain)
        raise Dead()

    def exc_class_names(self, ev, st):
        """list of (class key) for the exception atoms"""
        out = []
        for a in ev.atoms:
            if a[0] == 'o' and a[1] in st.heap:
                out.append(st.heap[a[1]].cls or '?')
            elif a[0] == 'c':
                out.append(a[1])
            elif a[0] == 'x':
                out.append('x:' + a[1].replace('builtins.', ''))
            else:
                out.append('?')
        return out or ['?']

    def exc_matches(self, clskey, handler_atom):
        """True / False / None(maybe)"""
        if handler_atom[0] == 'x':
            hn = handler_atom[1].replace('builtins.', '')
            hc = PY_EXC.get(hn)
            if clskey == '?':
                return True if hn in ('Exception', 'BaseException') else None
            if clskey.startswith('x:'):
                cn = clskey[2:].replace('builtins.', '')
                if cn == hn:
                    return True
                cc = PY_EXC.get(cn)
                if cc is not None and hc is not None:
                    return issubclass(cc, hc)
                if hn in ('Exception', 'BaseException'):
                    return True
                return None
            for b in self.ext_bases(clskey):
                cc = PY_EXC.get(b.replace('builtins.', ''))
                if cc is not None and hc is not None and issubclass(cc, hc):
                    return True
            return False
        if handler_atom[0] == 'c':
            if clskey == '?':
                return None
            if clskey.startswith('x:'):
                return False
            return handler_atom[1] in self.mro(clskey)
        return None

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, states):
        out = Flow()
        cur = states
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                fl = self.exec_stmt(s, st)
                nxt.extend(fl.normal)
                out.ret.extend(fl.ret)
                out.brk.extend(fl.brk)
                out.cont.extend(fl.cont)
            cur = self.merge(nxt)
        out.normal = cur
        return out

    def signature(self, st):
        fr = self.stack[-1]
        o = st.heap.get(fr.fid)
        if o is None:
            return None
        sig = []
        for n, v in o.f.items():
            if len(v.atoms) == 1:
                a = next(iter(v.atoms))
                if a == NONE_ATOM or a == TRUE_ATOM or a == FALSE_ATOM or a[0] == 'e':
                    sig.append((n, a))
        for sw in self.switches:
            so = st.heap.get(sw)
            if so is not None:
                sig.append((sw, so.f.get('matched'), so.f.get('value')))
        return frozenset(sig)

    def merge(self, states):
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            k = (self.signature(s), s.pc)
            if k in groups:
                groups[k] = join_states(groups[k], s)
            else:
                groups[k] = s
        out = list(groups.values())
        if len(out) > self.max_disj:
            out = [join_list(out)]
        return out

    def exec_stmt(self, node, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError('analysis budget exceeded at ' + self.where(node))
        m = getattr(self, 'x_' + type(node).__name__, None)
        if m is None:
            self.notes.add('unsupported statement ' + type(node).__name__)
            return Flow([st])
        if self.try_depth:
            self.note_implicit(node, st)
        depth, ctx, nh, td, nsw = len(self.stack), self.ctx, len(self.handlers), self.try_depth, len(self.switches)
        try:
            r = m(node, st)
        except Dead:
            return Flow([])
        except (AnalysisError, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            if self.strict:
                raise
            # a construct the analysis cannot follow: its effects on local names become unknown, and the
            # place is reported with the evidence
            self.notes.add('not followed (%s) at %s' % (type(e).__name__, self.where(node)))
            del self.stack[depth:]
            del self.handlers[nh:]
            del self.switches[nsw:]
            self.ctx = ctx
            self.try_depth = td
            fl = Flow([st])
            if isinstance(node, ast.Return):
                fl.normal = []
                fl.ret.append((unknown('not followed'), st))
                return fl
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.bind_name(n.id, unknown('not followed'), st, node)
            return fl
        if r is None:
            return Flow([st])
        return r

    try_depth = 0
    strict = False

    def note_implicit(self, node, st):
        """inside a try body any statement may raise something"""
        if isinstance(node, (ast.Pass, ast.Continue, ast.Break)):
            return
        h = self.handlers[-1]
        if getattr(self, '_try_frames', None) and self._try_frames[-1] == len(self.stack):
            h.append((unknown('exc'), st.copy()))

    def x_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return None
        if isinstance(node.value, ast.Call):
            outs = self.eval_multi(node.value, st)
            fl = Flow([])
            for v, s in outs:
                self.emit('discard', s, node, value=v, call=node.value)
            ss = self.merge([s for _, s in outs])
            fl.normal = [join_list(ss)] if len(ss) > 1 else ss
            return fl
        self.eval(node.value, st)

    def x_Pass(self, node, st):
        return None

    def x_Global(self, node, st):
        return None

    x_Nonlocal = x_Global

    def x_Import(self, node, st):
        for a in node.names:
            if a.name.startswith(self.PKG) and a.name in self.trees:
                self.load_module(a.name, st)
                if a.asname:
                    self.bind_name(a.asname, V((('m', a.name),)), st, node)
                else:
                    self.bind_name(a.name.split('.')[0], V((('x', a.name.split('.')[0]),)), st, node)
            else:
                self.bind_name(a.asname or a.name.split('.')[0],
                               V((('x', a.name if a.asname else a.name.split('.')[0]),)), st, node)

    def x_ImportFrom(self, node, st):
        mod = self.resolve_from(node)
        for a in node.names:
            if mod in self.trees:
                self.load_module(mod, st)
                mo = st.heap['mod:' + mod]
                if a.name == '*':
                    allv = mo.f.get('__all__')
                    for n, v in mo.f.items():
                        if not n.startswith('_'):
                            self.bind_name(n, v, st, node)
                    continue
                if a.name in mo.f:
                    v = mo.f[a.name]
                elif mod + '.' + a.name in self.trees:
                    self.load_module(mod + '.' + a.name, st)
                    v = V((('m', mod + '.' + a.name),))
                else:
                    self.emit('badimport', st, node, name=mod + '.' + a.name)
                    v = unknown('import')
                self.bind_name(a.asname or a.name, v, st, node)
            else:
                if mod == '__future__':
                    continue
                self.bind_name(a.asname or a.name, self.lib.symbol(mod + '.' + a.name), st, node)

    def x_FunctionDef(self, node, st):
        v = self.define_function(node, st)
        self.bind_name(node.name, v, st, node)

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, node, st):
        v = self.define_class(node, st)
        self.bind_name(node.name, v, st, node)

    def x_Assign(self, node, st):
        outs = self.eval_multi(node.value, st)
        states = []
        for v, s in outs:
            try:
                for t in node.targets:
                    self.assign(t, v, s, node)
                states.append(s)
            except Dead:
                pass
        return Flow(self.merge(states))

    def x_AnnAssign(self, node, st):
        if node.value is None:
            return None
        outs = self.eval_multi(node.value, st)
        states = []
        for v, s in outs:
            try:
                self.assign(node.target, v, s, node)
                states.append(s)
            except Dead:
                pass
        return Flow(self.merge(states))

    def x_AugAssign(self, node, st):
        t = node.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st)
            rhs = self.eval(node.value, st)
            v = self.aug(node, cur, rhs, st)
            self.assign(t, v, st, node)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, st)
            cur = self.getattr(obj, t.attr, st, t)
            rhs = self.eval(node.value, st)
            v = self.aug(node, cur, rhs, st)
            self.setattr(obj, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            cur = self.lib.getitem(obj, idx, st, t)
            rhs = self.eval(node.value, st)
            v = self.aug(node, cur, rhs, st, sub=True)
            self.lib.setitem(obj, idx, v, st, node)

    def aug(self, node, cur, rhs, st, sub=False):
        """in-place operator: arrays and lists are updated in their own storage"""
        nd = [a for a in cur.atoms if a[0] == 'o' and st.heap[a[1]].kind == 'nd']
        if nd and not (len(nd) == 1 and st.heap[nd[0][1]].aux.get('dims') == ()):
            res = self.lib.binop(type(node.op).__name__, cur, rhs, st, node)
            for a in nd:
                self.lib.write_nd(a, (), res, st, node, how='in-place operator')
            rest = [a for a in res.atoms if not (a[0] == 'o' and st.heap[a[1]].kind == 'nd')]
            others = [a for a in cur.atoms if a not in nd]
            if not others:
                return V(nd, cur.labels)
            return V(frozenset(nd) | frozenset(rest), cur.labels | res.labels)
        if isinstance(node.op, ast.Add):
            lst = [a for a in cur.atoms if a[0] == 'o' and st.heap[a[1]].kind == 'list']
            if lst:
                for a in lst:
                    self.lib.call_method('extend', a, [rhs], {}, st, node)
                return cur
        dn = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__'}.get(
            type(node.op).__name__)
        for a in cur.atoms:
            if a[0] == 'o' and st.heap[a[1]].kind == 'inst' and dn:
                c, fv = self.class_attr(st, st.heap[a[1]].cls, dn)
                if fv is not None:
                    return self.call_value(self.bind(fv, a, st, node), [rhs], {}, st, node)
        return self.lib.binop(type(node.op).__name__, cur, rhs, st, node)

    def x_Return(self, node, st):
        fl = Flow([])
        if node.value is None:
            fl.ret.append((NONE, st))
            return fl
        if isinstance(node.value, (ast.Compare, ast.BoolOp)) or \
                (isinstance(node.value, ast.UnaryOp) and isinstance(node.value.op, ast.Not)) or \
                isinstance(node.value, (ast.Attribute, ast.Name)):
            v = self.eval(node.value, st)
            if v.atoms == BOOL.atoms:
                t, f = self.assume(node.value, st)
                lab = v.labels
                for s in t:
                    fl.ret.append((TRUE.with_labels(lab | s.pc), s))
                for s in f:
                    fl.ret.append((FALSE.with_labels(lab | s.pc), s))
                return fl
            fl.ret.append((v.with_labels(st.pc), st))
            return fl
        for v, s in self.eval_multi(node.value, st):
            fl.ret.append((v.with_labels(s.pc), s))
        return fl

    def x_Raise(self, node, st):
        if node.exc is None:
            ev = self.cur_exc[-1] if self.cur_exc else unknown('exc')
        else:
            ev = self.eval(node.exc, st)
            atoms = set()
            for a in ev.atoms:
                if a[0] in ('x', 'c'):
                    v = self.call_value(V((a,)), [], {}, st, node)
                    atoms |= v.atoms
                else:
                    atoms.add(a)
            ev = V(atoms, ev.labels)
            if node.cause is not None:
                self.eval(node.cause, st)
        self.do_raise(ev, st, node)
        raise Dead()

    cur_exc = []

    def x_Assert(self, node, st):
        t, f = self.assume(node.test, st)
        for s in f:
            self.do_raise_named('AssertionError', s, node)
        return Flow(self.merge(t))

    def x_Delete(self, node, st):
        for t in node.targets:
            if isinstance(t, ast.Name):
                fr = self.stack[-1]
                o = st.heap[fr.fid]
                st.heap[fr.fid] = o.delf(t.id)
            elif isinstance(t, ast.Attribute):
                obj = self.eval(t.value, st)
                for a in obj.atoms:
                    if a[0] == 'o':
                        o = st.heap[a[1]]
                        self.emit('setattr', st, node, oid=a[1], attr=t.attr, value=UNDEF_V, delete=True)
                        if o.multi or len(obj.atoms) > 1:
                            if t.attr in o.f:
                                v = o.f[t.attr]
                                st.heap[a[1]] = o.setf(t.attr, V(v.atoms | {UNDEF}, v.labels))
                        else:
                            st.heap[a[1]] = o.delf(t.attr)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value, st)
                idx = self.eval_index(t.slice, st)
                self.lib.delitem(obj, idx, st, node)

    def x_If(self, node, st):
        pc0 = st.pc
        fid = self.stack[-1].fid
        old = {}
        for x in ast.walk(node.test):
            if isinstance(x, ast.Name):
                v = st.heap[fid].f.get(x.id)
                if v is not None and len(v.atoms) == 1 and v.single() is not None and v.single()[0] == 'n' and v.single()[4] is not None:
                    old[x.id] = v
        t, f = self.assume(node.test, st)
        lab = self.last_cond_labels
        fl = Flow([])
        part = {}
        lab = map_rows(lab, lambda s: s)
        out = []
        for states, body in ((t, node.body), (f, node.orelse)):
            if not states:
                continue
            states = self.merge(states)
            for s in states:
                if lab:
                    s.pc = pc0 | lab
                for n in old:
                    part.setdefault(n, set()).add(s.heap[fid].f.get(n))
            r = self.exec_block(body, states) if body else Flow(states)
            fl.ret.extend(r.ret)
            fl.brk.extend(r.brk)
            fl.cont.extend(r.cont)
            for s in r.normal:
                s.pc = pc0
            out.append(r.normal)
        if len([x for x in out if x]) == 2:
            # the ranges a branch assumed for a variable end where the branches meet
            for s in out[0] + out[1]:
                for n, v in old.items():
                    w = s.heap[fid].f.get(n)
                    if w != v and w in part.get(n, ()):
                        s.heap[fid] = s.heap[fid].setf(n, v)
        fl.normal = self.merge([s for x in out for s in x])
        return fl

    last_cond_labels = EMPTY

    # -------------------------------------------------- loops
    def age(self, st, syms, entry=None):
        """values tied to an earlier iteration of the loop are no longer 'the current row'.

        A value computed inside the loop keeps the fact that it belongs to an earlier row ('a'); storage that
        existed before the loop may have been overwritten since, so nothing is claimed about it ('?');
        the contents of a python sequence are aligned with its positions ('l').
        """
        syms = set(syms)

        def mk(to):
            def fix_label(l):
                if type(l) is tuple and type(l[1]) is tuple and l[1][0] == 'i' and any(
                        s in syms for s in lin_syms(l[1][1])):
                    return (l[0], to)
                return l
            return fix_label

        def fixv(v, fl):
            if not v.idx:
                return v
            atoms = frozenset(
                ('n', a[1], a[2], a[3], None) if a[0] == 'n' and a[4] is not None and any(
                    s in syms for s, _ in a[4][1]) else a for a in v.atoms)
            labels = frozenset(fl(l) for l in v.labels)
            if atoms == v.atoms and labels == v.labels:
                return v
            return V(atoms, labels)

        f_a, f_q, f_l = mk(('a', '%')), mk('?'), mk('l')

        def hit(lin):
            return lin is not None and any(s in syms for s, _ in lin[1])

        for oid, o in list(st.heap.items()):
            old = entry is not None and oid in entry
            fl = f_q if (old and o.kind not in ('frame',)) else f_a
            f2 = None
            for n, v in o.f.items():
                if v.idx:
                    w = fixv(v, fl)
                    if w is not v:
                        if f2 is None:
                            f2 = dict(o.f)
                        f2[n] = w
            a2 = None
            if o.aux:
                if 'items' in o.aux and any(v.idx for v in o.aux['items']):
                    a2 = dict(o.aux)
                    a2['items'] = tuple(fixv(v, fl) for v in o.aux['items'])
                for key in ('elem', 'length'):
                    v = o.aux.get(key)
                    if v is not None and v.idx:
                        a2 = a2 or dict(o.aux)
                        a2[key] = fixv(v, f_l)
                m = o.aux.get('map')
                if m and any(v.idx for v in m.values()):
                    a2 = a2 or dict(o.aux)
                    a2['map'] = {k: fixv(v, fl) for k, v in m.items()}
                lab = o.aux.get('lab')
                if lab and any(_label_idx(l) for l in lab):
                    nl = frozenset(fl(l) for l in lab)
                    if nl != lab:
                        a2 = a2 or dict(o.aux)
                        a2['lab'] = nl
                d = o.aux.get('dims')
                if d and any(hit(x) for x in d):
                    a2 = a2 or dict(o.aux)
                    a2['dims'] = tuple(None if hit(x) else x for x in d)
                vw = o.aux.get('view')
                if vw and any(op[0] == 'idx' and hit(op[2]) for op in vw):
                    a2 = a2 or dict(o.aux)
                    a2['view'] = tuple(('idx', op[1], None) if op[0] == 'idx' and hit(op[2]) else op for op in vw)
                sq = o.aux.get('seq')
                if sq is not None and hit(sq):
                    a2 = a2 or dict(o.aux)
                    a2['seq'] = None
            if f2 is not None or a2 is not None:
                st.heap[oid] = HObj(o.kind, o.cls, f2 if f2 is not None else o.f, a2 if a2 is not None else o.aux, o.multi)
        if st.pc:
            st.pc = frozenset(f_a(l) for l in st.pc)

    def sweep(self, st, entry, node):
        """drop locals that are dead at the loop head, and objects of the finished iteration nobody refers to"""
        fr = self.stack[-1]
        if fr.fn is not None and fr.fid in st.heap and not fr.fid.startswith('comp:'):
            live = live_at_loop(fr.fn.simple, fr.fn.fid, node)
            if live is not None:
                o = st.heap[fr.fid]
                dead = [n for n in o.f if n not in live]
                if dead:
                    st.heap[fr.fid] = HObj(o.kind, o.cls, {n: v for n, v in o.f.items() if n in live}, o.aux, o.multi)
        cand = [k for k in st.heap if k not in entry]
        if not cand:
            return
        seen = set()
        stack = [k for k in st.heap if k in entry]
        for f in self.stack:
            stack.append(f.fid)
        heap = st.heap

        def push(v):
            for a in v.atoms:
                push_atom(a)

        def push_atom(a):
            t = a[0]
            if t == 'o' or t == 'partial':
                stack.append(a[1])
            elif t == 'bm':
                push_atom(a[1])
                push_atom(a[2])
            elif t in ('xm', 'super'):
                push_atom(a[2])
            elif t == 'fn' and a[2] is not None:
                p = a[2]
                while p is not None:
                    stack.append(p)
                    p = self.frame_parent.get(p)

        while stack:
            i = stack.pop()
            if i in seen:
                continue
            o = heap.get(i)
            if o is None:
                continue
            seen.add(i)
            for v in o.f.values():
                push(v)
            aux = o.aux
            if aux:
                for v in aux.get('items', ()):
                    push(v)
                for v in aux.get('args', ()) or ():
                    push(v)
                kw = aux.get('kw')
                if kw:
                    for v in kw.values():
                        push(v)
                e = aux.get('elem')
                if e is not None:
                    push(e)
                m = aux.get('map')
                if m:
                    for v in m.values():
                        push(v)
                for b in aux.get('base', ()):
                    stack.append(b)
        for k in cand:
            if k not in seen:
                del heap[k]

    def x_For(self, node, st):
        itv = self.eval(node.iter, st)
        it = self.lib.iterate(itv, st, node)
        fl = Flow([])
        self.emit('loop', st, node, it=it)
        if it.exact is not None and len(it.exact) <= 8:
            cur = [st]
            broke = []
            for n, ev in enumerate(it.exact):
                nxt = []
                old = self.push_ctx(('unroll', self.site(node), n)) if len(it.exact) > 1 else None
                for s in cur:
                    try:
                        self.assign(node.target, ev, s, node)
                    except Dead:
                        continue
                    r = self.exec_block(node.body, [s])
                    fl.ret.extend(r.ret)
                    broke.extend(r.brk)
                    nxt.extend(r.normal)
                    nxt.extend(r.cont)
                if old is not None:
                    self.ctx = old
                cur = self.merge(nxt)
                if not cur:
                    break
            if node.orelse and cur:
                r = self.exec_block(node.orelse, cur)
                fl.ret.extend(r.ret)
                fl.brk.extend(r.brk)
                fl.cont.extend(r.cont)
                cur = r.normal
            fl.normal = self.merge(cur + broke)
            return fl
        sym = '%%%s#%d' % (self.site(node), self.ctx)
        if it.rng is not None:
            self.sym_lo[sym] = it.rng[0]
        else:
            self.sym_lo[sym] = 0
        lin = lin_sym(sym)

        def step(s):
            ev = it.mk(s, lin)
            self.assign(node.target, ev, s, node)
            return [s]
        return self.loop(node, st, step, it.lo >= 1, [sym], fl)

    def x_While(self, node, st):
        fl = Flow([])
        return self.loop(node, st, None, False, [], fl)

    def loop(self, node, st, step, atleast1, syms, fl):
        pc0 = st.pc
        broke = []
        self.emit('loophead', st, node, step=step is not None)
        peeled = 0
        if step is None:
            # peel iterations while the condition is decided
            cur = st
            while peeled < 6:
                t, f = self.assume(node.test, cur.copy())
                if f or not t:
                    break
                peeled += 1
                old = self.push_ctx(('peel', self.site(node), peeled))
                r = self.exec_block(node.body, self.merge(t))
                self.ctx = old
                fl.ret.extend(r.ret)
                broke.extend(r.brk)
                ends = r.normal + r.cont
                if not ends:
                    cur = None
                    break
                cur = join_list(ends)
            st = cur
        out = []
        if st is not None:
            entry = st.heap
            head = st
            n = 0
            acc = None
            while True:
                n += 1
                s = head.copy()
                if syms:
                    self.age(s, syms, entry)
                exits = []
                if step is None:
                    t, f = self.assume(node.test, s)
                    lab = self.last_cond_labels
                    exits = f
                    body_states = []
                    for x in self.merge(t):
                        if lab:
                            x.pc = pc0 | lab
                        body_states.append(x)
                else:
                    try:
                        body_states = step(s)
                    except Dead:
                        body_states = []
                if len(body_states) > 1:
                    body_states = [join_list(body_states)]
                r = self.exec_block(node.body, body_states) if body_states else Flow([])
                rets = r.ret
                mybroke = r.brk
                ends = r.normal + r.cont
                for x in ends + mybroke:
                    x.pc = pc0
                back = None
                if ends:
                    back = join_list(ends)
                    if len(ends) == 1:
                        back = back.copy()
                    if syms:
                        self.age(back, syms, entry)
                    self.sweep(back, entry, node)
                    acc = join_states(acc, back) if acc is not None else back
                if back is None:
                    new = head
                else:
                    new = join_states(head, back, widen if n >= 3 else join)
                if back is None or state_le(new, head) or n > self.loop_limit:
                    if n > self.loop_limit:
                        self.notes.add('loop limit at ' + self.where(node))
                    fl.ret.extend(rets)
                    broke.extend(mybroke)
                    if step is None:
                        out = list(exits)
                    elif atleast1:
                        out = [acc.copy()] if acc is not None else []
                    else:
                        out = [head.copy()]
                    break
                head = new
        if syms:
            ent = st.heap if st is not None else None
            for x in out + broke:
                self.age(x, syms, ent)
            fl.ret = [(v, x) for v, x in fl.ret]
        for x in out + broke:
            x.pc = pc0
        if node.orelse and out:
            r = self.exec_block(node.orelse, self.merge(out))
            fl.ret.extend(r.ret)
            fl.brk.extend(r.brk)
            fl.cont.extend(r.cont)
            out = r.normal
        fl.normal = self.merge(out + broke)
        if step is None:
            self.emit('while', st, node, exits=bool(out), breaks=bool(broke))
        return fl

    def x_Break(self, node, st):
        fl = Flow([])
        fl.brk.append(st)
        return fl

    def x_Continue(self, node, st):
        fl = Flow([])
        fl.cont.append(st)
        return fl

    # -------------------------------------------------- try / with
    def x_Try(self, node, st):
        fl = Flow([])
        mine = []
        self.handlers.append(mine)
        if node.handlers:
            self.try_depth += 1
            tf = getattr(self, '_try_frames', None)
            if tf is None:
                tf = self._try_frames = []
            tf.append(len(self.stack))
        try:
            body = self.exec_block(node.body, [st])
        finally:
            self.handlers.pop()
            if node.handlers:
                self.try_depth -= 1
                self._try_frames.pop()
        outer = []
        if node.orelse and body.normal:
            self.handlers.append(outer)
            try:
                r = self.exec_block(node.orelse, body.normal)
            finally:
                self.handlers.pop()
            body.normal = r.normal
            body.ret.extend(r.ret)
            body.brk.extend(r.brk)
            body.cont.extend(r.cont)
        flows = [body]
        # dispatch raises
        unhandled = []
        buckets = [[] for _ in node.handlers]
        for ev, s in mine:
            names = self.exc_class_names(ev, s)
            remaining = True
            for hi, h in enumerate(node.handlers):
                if h.type is None:
                    buckets[hi].append((ev, s))
                    remaining = False
                    break
                hv = self.eval(h.type, s.copy())
                hatoms = []
                for a in hv.atoms:
                    if a[0] == 'o':
                        o = s.heap.get(a[1])
                        for it in (o.aux.get('items', ()) if o else ()):
                            hatoms.extend(it.atoms)
                    else:
                        hatoms.append(a)
                res = [self.exc_matches(n, ha) for n in names for ha in hatoms]
                if any(r is True for r in res) and all(any(self.exc_matches(n, ha) is True for ha in hatoms) for n in names):
                    buckets[hi].append((ev, s))
                    remaining = False
                    break
                if any(r is not False for r in res):
                    buckets[hi].append((ev, s.copy()))
            if remaining:
                a = ev.single()
                if not (a is not None and a[0] == 'u'):
                    unhandled.append((ev, s))
        for hi, h in enumerate(node.handlers):
            if not buckets[hi]:
                continue
            hs = join_list([s for _, s in buckets[hi]])
            hs = hs.copy()
            hv = join_all([e for e, _ in buckets[hi]])
            self.handlers.append(outer)
            self.cur_exc.append(hv)
            try:
                if h.name:
                    self.bind_name(h.name, hv, hs, h)
                self.emit('except', hs, h, exc=hv)
                r = self.exec_block(h.body, [hs])
            finally:
                self.handlers.pop()
                self.cur_exc.pop()
            flows.append(r)
        unhandled.extend(outer)
        if node.finalbody:
            def fin(states):
                r = self.exec_block(node.finalbody, states)
                fl.ret.extend(r.ret)
                fl.brk.extend(r.brk)
                fl.cont.extend(r.cont)
                return r.normal
            for f in flows:
                if f.normal:
                    fl.normal.extend(fin(f.normal))
                for v, s in f.ret:
                    for s2 in fin([s]):
                        fl.ret.append((v, s2))
                for s in f.brk:
                    fl.brk.extend(fin([s]))
                for s in f.cont:
                    fl.cont.extend(fin([s]))
            for ev, s in unhandled:
                for s2 in fin([s]):
                    self.handlers[-1].append((ev, s2))
        else:
            for f in flows:
                fl.normal.extend(f.normal)
                fl.ret.extend(f.ret)
                fl.brk.extend(f.brk)
                fl.cont.extend(f.cont)
            self.handlers[-1].extend(unhandled)
        fl.normal = self.merge(fl.normal)
        return fl

    x_TryStar = x_Try

    def x_With(self, node, st):
        # the pseudo switch statement of wai.common
        if len(node.items) == 1:
            ce = node.items[0].context_expr
            cv = self.eval(ce, st)
            a = cv.single()
            if a is not None and a[0] == 'o' and st.heap[a[1]].cls == 'wai.common.switch':
                return self.x_switch(node, st, a[1])
            vals = [cv]
        else:
            vals = [self.eval(i.context_expr, st) for i in node.items]
        ctxs = []
        for i, cv in zip(node.items, vals):
            bound = cv
            for a in cv.atoms:
                if a[0] == 'o' and st.heap[a[1]].kind == 'inst':
                    c, fv = self.class_attr(st, st.heap[a[1]].cls, '__enter__')
                    if fv is not None:
                        bound = self.call_value(self.bind(fv, a, st, node), [], {}, st, node)
                        ctxs.append(a)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, bound, st, node)
        self.emit('with', st, node, values=vals)
        fl = self.exec_block(node.body, [st])
        for a in reversed(ctxs):
            for s in fl.normal + [s for _, s in fl.ret] + fl.brk + fl.cont:
                c, fv = self.class_attr(s, s.heap[a[1]].cls, '__exit__')
                if fv is not None:
                    self.call_value(self.bind(fv, a, s, node), [NONE, NONE, NONE], {}, s, node)
        return fl

    def x_switch(self, node, st, swid):
        self.switches.append(swid)
        mine = []
        self.handlers.append(mine)
        try:
            fl = self.exec_block(node.body, [st])
        finally:
            self.handlers.pop()
            self.switches.pop()
        for ev, s in mine:
            if 'x:wai.common.BreakSwitch' in self.exc_class_names(ev, s):
                fl.normal.append(s)
            else:
                self.handlers[-1].append((ev, s))
        self.emit('switch', st, node, swid=swid, fallout=[s for s in fl.normal])
        fl.normal = self.merge(fl.normal)
        return fl

    def x_Match(self, node, st):
        subj = self.eval(node.subject, st)
        fl = Flow([])
        cur = st
        done = False
        for c in node.cases:
            if cur is None:
                break
            s = cur.copy()
            res = self.match_pat(c.pattern, subj, s, node)
            if res[0]:
                try:
                    tstates = [s]
                    if c.guard is not None:
                        tstates, fstates = self.assume(c.guard, s)
                        res = (res[0], True)
                    if tstates:
                        r = self.exec_block(c.body, tstates)
                        fl.normal.extend(r.normal)
                        fl.ret.extend(r.ret)
                        fl.brk.extend(r.brk)
                        fl.cont.extend(r.cont)
                except Dead:
                    pass
            if not res[1]:
                cur = None
            else:
                if res[2] is not None and c.guard is None:
                    subj = res[2]
                    if isinstance(node.subject, (ast.Name, ast.Attribute)):
                        self.refine_to(node.subject, cur, subj)
        if cur is not None:
            fl.normal.append(cur)
        fl.normal = self.merge(fl.normal)
        return fl

    def match_pat(self, p, subj, s, node):
        """(may match, may not match, remaining subject or None) ; binds names in s"""
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.bind_name(p.name, subj, s, node)
                return True, False, None
            r = self.match_pat(p.pattern, subj, s, node)
            if p.name:
                self.bind_name(p.name, subj, s, node)
            return r
        if isinstance(p, (ast.MatchValue, ast.MatchSingleton)):
            pv = self.eval(p.value, s) if isinstance(p, ast.MatchValue) else const(p.value)
            eq = self.lib.compare('Eq', subj, pv, s, node)
            t, f = truth(eq)
            rest = None
            pa = pv.single()
            if pa is not None and pa in subj.atoms:
                rest = V(subj.atoms - {pa}, subj.labels)
            return t, f, rest
        if isinstance(p, ast.MatchOr):
            t = False
            f = True
            rest = subj
            for q in p.patterns:
                a, b, r = self.match_pat(q, rest, s, node)
                t = t or a
                f = f and b
                if r is not None:
                    rest = r
            return t, f, rest
        for sub in ast.walk(p):
            if isinstance(sub, ast.MatchAs) and sub.name:
                self.bind_name(sub.name, unknown('match'), s, node)
        return True, True, None

    # ------------------------------------------------------------ names and assignment
    def bind_name(self, name, v, st, node):
        fr = self.stack[-1]
        fi = fr.fn
        if st.pc:
            v = v.with_labels(st.pc)
        if fi is not None and name in fi.globals:
            mid = 'mod:' + fr.module
            self.emit('setglobal', st, node, module=fr.module, name=name, value=v)
            st.heap[mid] = st.heap[mid].setf(name, v)
            return
        if fi is not None and name in fi.nonlocals:
            p = fr.parent
            while p is not None and p in st.heap:
                o = st.heap[p]
                if name in o.f:
                    st.heap[p] = o.setf(name, v)
                    return
                p = self.frame_parent.get(p)
            return
        if fi is not None and name not in fi.locals and fr.parent is not None and fr.fid.startswith('comp:'):
            pass
        o = st.heap[fr.fid]
        st.heap[fr.fid] = o.setf(name, v)
        if o.kind == 'module' and self.stack_depth_fn() > 0:
            self.emit('setglobal', st, node, module=fr.module, name=name, value=v)

    def stack_depth_fn(self):
        return sum(1 for f in self.stack if f.fn is not None)

    def lookup(self, name, st, node):
        fr = self.stack[-1]
        fi = fr.fn
        o = st.heap[fr.fid]
        if name in o.f:
            v = o.f[name]
            if UNDEF in v.atoms:
                v = V(v.atoms - {UNDEF}, v.labels)
                if not v.atoms:
                    self.do_raise_named('UnboundLocalError', st, node)
                    raise Dead()
                self.emit('maybe_unbound', st, node, name=name)
            return v
        if o.kind == 'frame' and fi is not None and name in fi.locals and not fr.fid.startswith('comp:'):
            self.emit('unbound', st, node, name=name)
            self.do_raise_named('UnboundLocalError', st, node)
            raise Dead()
        p = fr.parent
        seen = 0
        while p is not None and p in st.heap and seen < 30:
            po = st.heap[p]
            if name in po.f:
                v = po.f[name]
                if UNDEF in v.atoms:
                    v = V(v.atoms - {UNDEF}, v.labels)
                if v.atoms:
                    return v
            p = self.frame_parent.get(p)
            seen += 1
        mo = st.heap['mod:' + fr.module]
        if name in mo.f:
            v = mo.f[name]
            if UNDEF in v.atoms:
                v = V(v.atoms - {UNDEF}, v.labels)
            return v
        if hasattr(_pyb, name):
            return self.lib.symbol('builtins.' + name)
        self.emit('unbound', st, node, name=name)
        self.do_raise_named('NameError', st, node)
        raise Dead()

    frame_parent = {}

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st, node)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, st)
            self.setattr(obj, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            self.lib.setitem(obj, idx, v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            starred = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.lib.unpack(v, n, starred[0] if starred else None, st, node)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    # ------------------------------------------------------------ attributes
    def bind(self, fv, selfatom, st, node):
        """descriptor protocol for a class attribute fetched through an instance"""
        out = set()
        labels = fv.labels
        for a in fv.atoms:
            if a[0] == 'fn':
                out.add(('bm', a, selfatom))
            elif a[0] == 'o' and st.heap[a[1]].kind == 'descr':
                d = st.heap[a[1]]
                if d.cls == 'static':
                    out |= d.f['fn'].atoms
                elif d.cls == 'classm':
                    ca = self.type_atom(selfatom, st)
                    for f in d.f['fn'].atoms:
                        out.add(('bm', f, ca))
                else:
                    r = self.call_value(d.f['fn'], [V((selfatom,))], {}, st, node)
                    out |= r.atoms
                    labels = labels | r.labels
            else:
                out.add(a)
        return V(out, labels)

    def type_atom(self, a, st):
        if a[0] == 'o':
            o = st.heap[a[1]]
            if o.kind == 'inst' or o.kind == 'exc':
                if o.cls and o.cls.startswith('cls:'):
                    return ('c', o.cls)
                return ('x', o.cls or 'object')
            return ('x', 'builtins.' + {'nd': 'ndarray'}.get(o.kind, o.kind))
        if a[0] == 'c':
            return a
        if a[0] == 'e':
            return ('c', a[1])
        if a[0] == 'k':
            return ('x', 'numpy.float64' if a[1] == 'real' else 'builtins.' + a[1])
        if a[0] == 'n':
            return ('x', 'numpy.float64' if a[1] == 'real' else 'builtins.' + a[1])
        if a[0] == 's':
            return ('x', 'builtins.str')
        return ('u', 'type')

    def getattr(self, v, name, st, node, default=None):
        res = []
        for a in sorted(v.atoms, key=repr) if len(v.atoms) > 1 else v.atoms:
            try:
                r = self.getattr_atom(a, name, st, node, len(v.atoms) > 1 or default is not None)
            except Dead:
                if len(v.atoms) == 1:
                    raise
                continue
            if r is None:
                if default is not None:
                    res.append(default)
                else:
                    self.emit('attrerror', st, node, atom=a, attr=name)
                    self.do_raise_named('AttributeError', st, node, may=len(v.atoms) > 1)
            else:
                res.append(r)
        if not res:
            raise Dead()
        r = join_all(res)
        return r.with_labels(v.labels) if v.labels else r

    def getattr_atom(self, a, name, st, node, soft=False):
        k = a[0]
        if k == 'o':
            o = st.heap[a[1]]
            if o.kind in ('inst', 'exc') and o.cls and o.cls.startswith('cls:'):
                c, gv = self.class_attr(st, o.cls, '__getattribute__')
                if gv is not None:
                    return self.call_value(self.bind(gv, a, st, node), [const(name)], {}, st, node)
                return self.getattr_inst(a, name, st, node)
            if o.kind == 'descr':
                if name in ('setter', 'getter', 'deleter'):
                    return V((('xm', name, a),))
                return V((('xm', name, a),))
            return self.lib.getattr_obj(a, o, name, st, node)
        if k == 'c':
            return self.getattr_class(a[1], name, st, node)
        if k == 'm':
            mo = st.heap.get('mod:' + a[1])
            if mo is not None and name in mo.f:
                v = mo.f[name]
                if UNDEF in v.atoms and len(v.atoms) > 1:
                    v = V(v.atoms - {UNDEF}, v.labels)
                return v
            sub = a[1] + '.' + name
            if sub in self.trees:
                return V((('m', sub),))
            return None
        if k == 'x':
            return self.lib.getattr_ext(a[1], name, st, node)
        if k == 'super':
            cid = a[1]
            sa = a[2]
            tcid = None
            if sa[0] == 'o':
                tcid = st.heap[sa[1]].cls
            elif sa[0] == 'c':
                # class method or metaclass method
                if self.is_metaclass(cid):
                    c, fv = self.class_attr(st, cid, name, after=cid)
                    if fv is not None:
                        return self.bind(fv, sa, st, node)
                    return V((('xm', 'type.' + name, sa),))
                tcid = sa[1]
            if tcid is None or not tcid.startswith('cls:'):
                return V((('u', 'super'),))
            c, fv = self.class_attr(st, tcid, name, after=cid)
            if fv is not None:
                return self.bind(fv, sa, st, node)
            return V((('xm', 'object.' + name, sa),))
        if k == 'e':
            members = st.heap[a[1]].aux.get('members', {})
            if name == 'name' or name == '_name_':
                return const(a[2])
            if name == 'value' or name == '_value_':
                return members.get(a[2], unknown('enum value'))
            if name == '__class__':
                return V((('c', a[1]),))
            c, fv = self.class_attr(st, a[1], name)
            if fv is not None:
                return self.bind(fv, a, st, node)
            return unknown('enum attr')
        if k == 'fn':
            fi = self.fns[a[1]]
            if name in ('__name__', '__qualname__'):
                return const(fi.qual.rsplit('.', 1)[-1])
            o = st.heap.get('fnattrs:' + a[1])
            if o is not None and name in o.f:
                return o.f[name]
            if name in ('__doc__', '__module__', '__dict__', '__wrapped__', '__defaults__'):
                return unknown('fnattr')
            return None
        if k == 'bm':
            if name == '__func__':
                return V((a[1],))
            if name == '__self__':
                return V((a[2],))
            return self.getattr_atom(a[1], name, st, node)
        if k == 'undef':
            return None
        return self.lib.getattr_value(a, name, st, node)

    def getattr_inst(self, a, name, st, node):
        o = st.heap[a[1]]
        c, cv = self.class_attr(st, o.cls, name)
        if cv is not None:
            for x in cv.atoms:
                if x[0] == 'o' and st.heap[x[1]].kind == 'descr' and st.heap[x[1]].cls == 'property':
                    return self.bind(cv, a, st, node)
        if name in o.f:
            v = o.f[name]
            if UNDEF in v.atoms:
                rest = v.atoms - {UNDEF}
                if cv is None:
                    if not rest:
                        return None
                    self.do_raise_named('AttributeError', st, node, may=True)
                    v = V(rest, v.labels)
                else:
                    v = join(V(rest, v.labels), self.bind(cv, a, st, node)) if rest else self.bind(cv, a, st, node)
            self.emit('getattr', st, node, oid=a[1], attr=name, value=v)
            return v
        if cv is not None:
            return self.bind(cv, a, st, node)
        if name == '__class__':
            return V((('c', o.cls),))
        if name == '__dict__':
            return self.alloc(st, node, HObj('dict', None, {}, {'map': {self.lib.dict_key(const(k)): x for k, x in o.f.items()},
                                                               'of': a[1]}), 'dict')
        if name == '__doc__':
            return unknown('doc')
        c, gv = self.class_attr(st, o.cls, '__getattr__')
        if gv is not None:
            return self.call_value(self.bind(gv, a, st, node), [const(name)], {}, st, node)
        if o.kind == 'exc':
            return self.lib.getattr_obj(a, o, name, st, node)
        if name in ('__setattr__', '__getattribute__', '__init__', '__str__', '__repr__', '__eq__', '__hash__',
                    '__reduce__', '__sizeof__', '__delattr__', '__ne__', '__new__', '__format__'):
            return V((('xm', 'object.' + name, a),))
        if self.opaque_class(o.cls):
            return unknown('attr')
        if any(b.endswith(('NamedTuple',)) for b in self.ext_bases(o.cls)):
            return unknown('attr')
        return None

    def getattr_class(self, cid, name, st, node):
        if name == '__name__' or name == '__qualname__':
            return const(self.classes[cid]['name'])
        if name == '__module__':
            return const(self.classes[cid]['module'])
        if name == '__mro__' or name == '__bases__':
            return unknown('mro')
        c, cv = self.class_attr(st, cid, name)
        if cv is not None:
            out = set()
            for a in cv.atoms:
                if a[0] == 'o' and st.heap[a[1]].kind == 'descr':
                    d = st.heap[a[1]]
                    if d.cls == 'static':
                        out |= d.f['fn'].atoms
                    elif d.cls == 'classm':
                        for f in d.f['fn'].atoms:
                            out.add(('bm', f, ('c', cid)))
                    else:
                        out.add(a)
                else:
                    out.add(a)
            return V(out, cv.labels)
        if name == '__members__' and self.is_enum(cid):
            return self.alloc(st, node, HObj('dict', None, {}, {'map': {
                n: V((('e', cid, n),)) for n in st.heap[cid].aux.get('members', {})}}), 'members')
        if name in ('__doc__', '__dict__', '__annotations__'):
            return unknown('clsattr')
        exts = self.ext_bases(cid)
        if name in ('__init__', '__setattr__', '__getattribute__', '__new__', '__call__', '__eq__', '__str__', '__repr__'):
            return V((('x', 'builtins.object.' + name),))
        if any(not b.startswith(('builtins.object', 'abc.', 'typing.')) for b in exts):
            return unknown('clsattr')
        return None

    def raw_setattr(self, a, name, v, st, node, weak=False):
        """object.__setattr__"""
        o = st.heap[a[1]]
        if st.pc:
            v = v.with_labels(st.pc)
        self.emit('setattr', st, node, oid=a[1], attr=name, value=v, old=o.f.get(name))
        o = st.heap[a[1]]
        if (o.multi or weak) and name in o.f:
            v = join(o.f[name], v)
        st.heap[a[1]] = o.setf(name, v)

    def setattr(self, objv, name, v, st, node):
        atoms = sorted(objv.atoms, key=repr) if len(objv.atoms) > 1 else list(objv.atoms)
        weak = len(atoms) > 1
        ok = False
        for a in atoms:
            if a[0] == 'o':
                o = st.heap[a[1]]
                if o.cls and isinstance(o.cls, str) and o.cls.startswith('cls:') and o.kind in ('inst', 'exc'):
                    c, sv = self.class_attr(st, o.cls, '__setattr__')
                    if sv is not None:
                        if weak:
                            s2 = st.copy()
                            try:
                                self.call_value(self.bind(sv, a, s2, node), [const(name), v], {}, s2, node)
                                st.assign(join_states(st, s2))
                            except Dead:
                                pass
                        else:
                            self.call_value(self.bind(sv, a, st, node), [const(name), v], {}, st, node)
                        ok = True
                        continue
                    self.object_setattr(a, name, v, st, node, weak)
                elif o.kind == 'nd':
                    self.lib.nd_setattr(a, name, v, st, node)
                else:
                    self.raw_setattr(a, name, v, st, node, weak)
                ok = True
            elif a[0] == 'c':
                self.emit('setclass', st, node, cid=a[1], attr=name, value=v)
                st.heap[a[1]] = st.heap[a[1]].setf(name, v)
                ok = True
            elif a[0] == 'm':
                mid = 'mod:' + a[1]
                self.emit('setglobal', st, node, module=a[1], name=name, value=v)
                if mid in st.heap:
                    st.heap[mid] = st.heap[mid].setf(name, v)
                ok = True
            elif a[0] == 'fn':
                self.emit('setfn', st, node, fn=self.fns[a[1]].qual, attr=name)
                key = 'fnattrs:' + a[1]
                o = st.heap.get(key) or HObj('fnattrs', None, {})
                st.heap[key] = o.setf(name, v)
                ok = True
            elif a[0] == 'x':
                self.emit('setext', st, node, name=a[1] + '.' + name)
                ok = True
            elif a[0] == 'u':
                ok = True
            elif a[0] == 'k' and a[1] == 'NoneType':
                self.do_raise_named('AttributeError', st, node, may=weak)
            else:
                ok = True
        if not ok:
            raise Dead()

    def object_setattr(self, a, name, v, st, node, weak=False):
        """default attribute assignment, honouring property setters"""
        o = st.heap[a[1]]
        c, cv = self.class_attr(st, o.cls, name)
        if cv is not None:
            for x in cv.atoms:
                if x[0] == 'o' and st.heap[x[1]].kind == 'descr' and st.heap[x[1]].cls == 'property':
                    sv = st.heap[x[1]].f.get('setter')
                    if sv is not None:
                        self.call_value(sv, [V((a,)), v], {}, st, node)
                        return
                    self.do_raise_named('AttributeError', st, node)
                    raise Dead()
        self.raw_setattr(a, name, v, st, node, weak)

    # ------------------------------------------------------------ expressions
    def eval(self, node, st):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            self.notes.add('unsupported expression ' + type(node).__name__)
            return unknown(type(node).__name__)
        return m(node, st)

    def eval_multi(self, node, st):
        """[(value, state)] keeping the outcomes of calls apart"""
        if isinstance(node, ast.Call):
            return self.call_node(node, st)
        if isinstance(node, ast.IfExp):
            t, f = self.assume(node.test, st)
            lab = self.last_cond_labels
            outs = []
            for s in self.merge(t):
                try:
                    outs.extend((v.with_labels(lab), x) for v, x in self.eval_multi(node.body, s))
                except Dead:
                    pass
            for s in self.merge(f):
                try:
                    outs.extend((v.with_labels(lab), x) for v, x in self.eval_multi(node.orelse, s))
                except Dead:
                    pass
            return self.partition(outs)
        if isinstance(node, (ast.Compare, ast.BoolOp)) or (
                isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not)):
            s0 = st.copy()
            v = self.eval(node, s0)
            if v.atoms == BOOL.atoms:
                t, f = self.assume(node, st)
                outs = [(TRUE.with_labels(v.labels), s) for s in t] + [(FALSE.with_labels(v.labels), s) for s in f]
                return self.partition(outs)
            st.assign(s0)
            return [(v, st)]
        return [(self.eval(node, st), st)]

    def e_Constant(self, node, st):
        return const(node.value)

    def e_Name(self, node, st):
        return self.lookup(node.id, st, node)

    def e_Attribute(self, node, st):
        v = self.eval(node.value, st)
        return self.getattr(v, node.attr, st, node)

    def e_NamedExpr(self, node, st):
        v = self.eval(node.value, st)
        self.assign(node.target, v, st, node)
        return v

    def e_Tuple(self, node, st):
        return self.seq_literal(node, st, 'tuple')

    def e_List(self, node, st):
        return self.seq_literal(node, st, 'list')

    def e_Set(self, node, st):
        return self.seq_literal(node, st, 'set')

    def seq_literal(self, node, st, kind):
        items = []
        exact = True
        for e in node.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                it = self.lib.iterate(v, st, node)
                if it.exact is not None:
                    items.extend(it.exact)
                else:
                    exact = False
                    items.append(it.mk(st, None))
            else:
                items.append(self.eval(e, st))
        if st.pc:
            items = [v.with_labels(st.pc) for v in items]
        if exact:
            return self.new_list(st, node, items, kind=kind)
        return self.new_list(st, node, elem=join_all(items), length=num('int', 0), kind=kind)

    def e_Dict(self, node, st):
        m = {}
        other = None
        for k, v in zip(node.keys, node.values):
            vv = self.eval(v, st)
            if k is None:
                for a in vv.atoms:
                    if a[0] == 'o' and st.heap[a[1]].kind == 'dict':
                        o = st.heap[a[1]]
                        m.update(o.aux.get('map', {}))
                        if o.aux.get('elem') is not None:
                            other = join(other, o.aux['elem'])
                    else:
                        other = join(other, unknown('dict'))
                continue
            kv = self.eval(k, st)
            key = self.lib.dict_key(kv)
            if key is not None:
                m[key] = vv
            else:
                other = join(other, vv)
        aux = {'map': m}
        if other is not None:
            aux['elem'] = other
        return self.alloc(st, node, HObj('dict', None, {}, aux))

    def e_JoinedStr(self, node, st):
        labels = set()
        parts = []
        for p in node.values:
            if isinstance(p, ast.FormattedValue):
                v = self.eval(p.value, st)
                labels |= self.lib.deep_labels(v, st)
                c, x = v.const()
                parts.append(format(x) if c and p.format_spec is None and isinstance(x, (str, int)) and p.conversion == -1 else None)
            elif isinstance(p, ast.Constant):
                parts.append(str(p.value))
        if all(x is not None for x in parts):
            return const(''.join(parts), frozenset(labels))
        return V((STR_ATOM,), frozenset(labels))

    def e_FormattedValue(self, node, st):
        self.eval(node.value, st)
        return STR

    def e_Lambda(self, node, st):
        return self.make_fn(node, st, '<lambda>')

    def e_IfExp(self, node, st):
        outs = self.eval_multi(node, st)
        if not outs:
            raise Dead()
        st.assign(join_list([s for _, s in outs]))
        return join_all([v for v, _ in outs])

    def e_UnaryOp(self, node, st):
        v = self.eval(node.operand, st)
        if isinstance(node.op, ast.Not):
            t, f = self.truth(v, st, node)
            at = set()
            if f:
                at.add(TRUE_ATOM)
            if t:
                at.add(FALSE_ATOM)
            return V(at, v.labels)
        return self.lib.unop(type(node.op).__name__, v, st, node)

    def truth(self, v, st, node=None):
        t, f = False, False
        for a in v.atoms:
            if a[0] == 'o':
                o = st.heap[a[1]]
                if o.kind in ('list', 'tuple', 'set'):
                    if 'items' in o.aux:
                        if o.aux['items']:
                            t = True
                        else:
                            f = True
                    else:
                        r = [num_range(x) for x in o.aux.get('length', num('int', 0)).atoms if num_range(x)]
                        if r and min(x[1] for x in r) >= 1:
                            t = True
                        else:
                            t = f = True
                elif o.kind == 'dict':
                    t = True
                    if not o.aux.get('map') and o.aux.get('elem') is None:
                        t, f = t and False or t, True
                        f = True
                    else:
                        t = True
                elif o.kind == 'nd':
                    t = f = True
                elif o.kind == 'inst':
                    c, bv = self.class_attr(st, o.cls, '__bool__')
                    if bv is None:
                        c, bv = self.class_attr(st, o.cls, '__len__')
                    if bv is not None:
                        t = f = True
                    else:
                        t = True
                elif o.kind in ('opaque', 'ext', 'iter'):
                    t = f = True
                else:
                    t = True
            else:
                x, y = truth(V((a,)))
                t, f = t or x, f or y
        return t, f

    def e_BinOp(self, node, st):
        a = self.eval(node.left, st)
        b = self.eval(node.right, st)
        if self.listeners and (a.single() or ' ')[0] == 'k' or (b.single() or ' ')[0] == 'k':
            self.emit('constop', st, node, args=[a, b])
        return self.lib.binop(type(node.op).__name__, a, b, st, node)

    def e_BoolOp(self, node, st):
        # value of and/or with short circuit
        isand = isinstance(node.op, ast.And)
        outs = []
        cur = [st]
        labels = EMPTY
        for i, e in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in cur:
                try:
                    if last:
                        v = self.eval(e, s)
                        labels |= v.labels
                        outs.append((v, s))
                    else:
                        s2 = s.copy()
                        v = self.eval(e, s2)
                        labels |= v.labels
                        t, f = self.assume(e, s)
                        stop, go = (f, t) if isand else (t, f)
                        for x in stop:
                            keep = set()
                            for a in v.atoms:
                                ta, fa = self.truth(V((a,)), x)
                                if (fa if isand else ta):
                                    keep.add(a)
                            outs.append((V(keep or v.atoms, v.labels), x))
                        nxt.extend(go)
                except Dead:
                    pass
            cur = [join_list(nxt)] if nxt else []
        if not outs:
            raise Dead()
        st.assign(join_list([s for _, s in outs]))
        return join_all([v for v, _ in outs]).with_labels(labels)

    @staticmethod
    def self_compare(op, left, right, v):
        """a number differs from itself exactly when it is not a number"""
        if op in ('Eq', 'NotEq') and isinstance(left, ast.Name) and isinstance(right, ast.Name) and left.id == right.id \
                and v.atoms and all(a[0] in ('n', 'nan') or a[0] == 'k' and isinstance(a[2], (bool, int, float))
                                    for a in v.atoms):
            return V({(TRUE_ATOM if (a[0] == 'nan' or a[0] == 'k' and a[2] != a[2]) == (op == 'NotEq') else FALSE_ATOM)
                      for a in v.atoms}, v.labels)
        return None

    def e_Compare(self, node, st):
        left = self.eval(node.left, st)
        res = None
        for op, r in zip(node.ops, node.comparators):
            right = self.eval(r, st)
            v = self.self_compare(type(op).__name__, node.left, r, left) if len(node.ops) == 1 else None
            if v is None:
                v = self.lib.compare(type(op).__name__, left, right, st, node)
            if res is None:
                res = v
            else:
                # logical and
                t1, f1 = self.truth(res, st)
                t2, f2 = self.truth(v, st)
                at = set()
                if t1 and t2:
                    at.add(TRUE_ATOM)
                if f1 or f2:
                    at.add(FALSE_ATOM)
                res = V(at, res.labels | v.labels)
            left = right
        return res

    def e_Subscript(self, node, st):
        v = self.eval(node.value, st)
        idx = self.eval_index(node.slice, st)
        return self.lib.getitem(v, idx, st, node)

    def eval_index(self, node, st):
        """index descriptor: list of entries: ('v', V) | ('s', lo, hi, step) | ('e',) | ('n',) ; bool tuple flag"""
        if isinstance(node, ast.Tuple):
            return ('tuple', [self.index_entry(e, st) for e in node.elts])
        e = self.index_entry(node, st)
        if e[0] == 'v':
            a = e[1].single()
            if a is not None and a[0] == 'o' and st.heap[a[1]].kind == 'tuple' and 'items' in st.heap[a[1]].aux:
                return ('tuple', [self.entry_of_value(x, st) for x in st.heap[a[1]].aux['items']], e[1])
        return ('one', [e])

    def entry_of_value(self, v, st):
        a = v.single()
        if a == NONE_ATOM:
            return ('n',)
        if a is not None and a[0] == 'k' and a[1] == 'ellipsis':
            return ('e',)
        if a is not None and a[0] == 'o' and st.heap[a[1]].kind == 'slice':
            o = st.heap[a[1]]
            return ('s', o.f.get('start'), o.f.get('stop'), o.f.get('step'))
        return ('v', v)

    def index_entry(self, e, st):
        if isinstance(e, ast.Slice):
            return ('s', self.eval(e.lower, st) if e.lower else None, self.eval(e.upper, st) if e.upper else None,
                    self.eval(e.step, st) if e.step else None)
        if isinstance(e, ast.Starred):
            return ('v', unknown('star'))
        v = self.eval(e, st)
        if v.atoms == frozenset((('x', 'numpy.newaxis'),)):
            return ('n',)
        return self.entry_of_value(v, st)

    def e_Slice(self, node, st):
        return unknown('slice')

    def e_Starred(self, node, st):
        return self.eval(node.value, st)

    def e_Await(self, node, st):
        return self.eval(node.value, st)

    def e_Yield(self, node, st):
        v = self.eval(node.value, st) if node.value is not None else NONE
        fr = self.stack[-1]
        if fr.yields is not None:
            fr.yields.append(v.with_labels(st.pc))
        return unknown('sent')

    def e_YieldFrom(self, node, st):
        v = self.eval(node.value, st)
        it = self.lib.iterate(v, st, node)
        fr = self.stack[-1]
        if fr.yields is not None:
            fr.yields.append(join_all(it.exact) if it.exact is not None else it.mk(st, None))
        return unknown('sent')

    # -------------------------------------------------- comprehensions
    def comp(self, node, st, elts):
        """returns (list of joined V per elt, exact list or None, length V)"""
        fr = self.stack[-1]
        nf = Frame()
        nf.fid = 'comp:%s#%d' % (self.site(node), self.ctx)
        nf.fn = fr.fn
        nf.module = fr.module
        nf.cls = fr.cls
        # class bodies are not enclosing scopes, but names there are resolved through parent for simplicity
        nf.parent = fr.fid if st.heap[fr.fid].kind in ('frame', 'class') else None
        nf.selfatom = fr.selfatom
        nf.qual = fr.qual
        nf.yields = None
        self.frame_parent[nf.fid] = nf.parent
        self.frame_parent.setdefault(fr.fid, fr.parent)
        st.heap[nf.fid] = HObj('frame', None, {})
        syms = []
        first_it = self.eval(node.generators[0].iter, st)
        pc0 = st.pc
        lens = []
        filtered = [False]

        def run(gi, states, itv=None):
            """yields list of (values, state); exact flag"""
            g = node.generators[gi]
            outs = []
            exact = True
            for s in states:
                v = itv if itv is not None else self.eval(g.iter, s)
                it = self.lib.iterate(v, s, node)
                if gi == 0:
                    lens.append(it.length)
                if it.exact is not None and len(it.exact) <= 8 and gi == 0 or (it.exact is not None and len(it.exact) <= 8 and exact):
                    seq = [(e, False) for e in it.exact]
                else:
                    sym = '%%%s.%d#%d' % (self.site(node), gi, self.ctx)
                    self.sym_lo[sym] = it.rng[0] if it.rng is not None else 0
                    syms.append(sym)
                    seq = [(it.mk(s, lin_sym(sym)), True)]
                    exact = False
                cur = s
                for e, abstract in seq:
                    try:
                        self.assign(g.target, e, cur, node)
                    except Dead:
                        return outs, exact, None
                    ts = [cur]
                    skip = None
                    lab = EMPTY
                    for cond in g.ifs:
                        nt = []
                        for t in ts:
                            a, b = self.assume(cond, t)
                            lab |= self.last_cond_labels
                            nt.extend(a)
                            if b:
                                filtered[0] = True
                                skip = join_states(skip, join_list(b))
                        ts = nt
                    if not ts:
                        if skip is None:
                            return outs, exact, None
                        cur = skip
                        continue
                    if skip is not None:
                        exact = False       # may or may not be selected
                    t = join_list(ts)
                    if gi + 1 < len(node.generators):
                        o2, ex2, t2 = run(gi + 1, [t])
                        exact = exact and ex2
                        outs.extend(o2)
                        t = t2 if t2 is not None else t
                    else:
                        vals = [self.eval(x, t).with_labels(lab) for x in elts]
                        outs.append(vals)
                    cur = join_states(skip, t) if skip is not None else t
                    if abstract:
                        # one more pass so that effects of earlier iterations are seen
                        cur2 = cur.copy()
                        self.age(cur2, syms)
                        cur = join_states(s, cur2) if it.lo < 1 else cur2
                s = cur
            return outs, exact, s

        self.stack.append(nf)
        try:
            outs, exact, s = run(0, [st], first_it)
        finally:
            self.stack.pop()
        if s is None:
            raise Dead()
        if s is not st:
            st.assign(s)
        st.heap.pop(nf.fid, None)
        st.pc = pc0
        self.comp_seq = None
        if len(syms) == 1 and len(outs) == 1 and len(node.generators) == 1 and not filtered[0]:
            a = outs[0][0].single()
            if a is not None and a[0] == 'n' and a[4] is not None and dict(a[4][1]).get(syms[0]) == 1:
                self.comp_seq = lin_add(a[4], lin_sym(syms[0]), -1)
        if syms:
            tmp = 'tmp:comp%s' % self.ctx
            flat = {('%d.%d' % (i, j)): v for i, vals in enumerate(outs) for j, v in enumerate(vals)}
            st.heap[tmp] = HObj('frame', None, flat)
            self.age(st, syms)
            flat = st.heap.pop(tmp).f
            outs = [[flat['%d.%d' % (i, j)] for j in range(len(vals))] for i, vals in enumerate(outs)]
        if st.pc:
            outs = [[v.with_labels(st.pc) for v in vals] for vals in outs]
        length = lens[0] if lens and lens[0] is not None and len(node.generators) == 1 else num('int', 0)
        if filtered[0]:
            length = num('int', 0, INF, None, length.labels)
        if exact:
            return outs, True, const(len(outs))
        return outs, False, length

    def e_ListComp(self, node, st, kind='list'):
        outs, exact, length = self.comp(node, st, [node.elt])
        if exact:
            return self.new_list(st, node, [o[0] for o in outs], kind=kind)
        seq = self.comp_seq
        r = self.new_list(st, node, elem=join_all([self.to_l(o[0]) for o in outs]), length=length, kind=kind)
        if seq is not None:
            oid = r.single()[1]
            st.heap[oid] = st.heap[oid].seta(seq=seq)
        return r

    @staticmethod
    def to_l(v):
        if not v.idx:
            return v
        return V(v.atoms, frozenset((l[0], 'l') if type(l) is tuple and type(l[1]) is tuple and l[1][0] == 'a' else l
                                    for l in v.labels))

    comp_seq = None

    def e_SetComp(self, node, st):
        outs, exact, length = self.comp(node, st, [node.elt])
        return self.new_list(st, node, elem=join_all([o[0] for o in outs]), length=num('int', 0), kind='set')

    def e_GeneratorExp(self, node, st):
        return self.e_ListComp(node, st)

    def e_DictComp(self, node, st):
        outs, exact, length = self.comp(node, st, [node.key, node.value])
        m = {}
        other = None
        for k, v in outs:
            key = self.lib.dict_key(k)
            if key is not None and exact:
                m[key] = v
            else:
                other = join(other, v)
        aux = {'map': m}
        if other is not None:
            aux['elem'] = other
        return self.alloc(st, node, HObj('dict', None, {}, aux))

    # -------------------------------------------------- calls
    def e_Call(self, node, st):
        outs = self.call_node(node, st)
        if not outs:
            raise Dead()
        if len(outs) == 1:
            st.assign(outs[0][1])
            return outs[0][0]
        st.assign(join_list([s for _, s in outs]))
        return join_all([v for v, _ in outs])

    def call_node(self, node, st):
        f = node.func
        # super()
        if isinstance(f, ast.Name) and f.id == 'super':
            fv = self.lookup('super', st, node)
            if ('x', 'builtins.super') in fv.atoms:
                return [(self.make_super(node, st), st)]
        fv = self.eval(f, st)
        args = []
        star = None
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                it = self.lib.iterate(v, st, node)
                if it.exact is not None:
                    args.extend(it.exact)
                else:
                    star = (it.mk(st, None), None)
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        for k in node.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                for a in v.atoms:
                    if a[0] == 'o' and st.heap[a[1]].kind == 'dict':
                        o = st.heap[a[1]]
                        for kk, vv in o.aux.get('map', {}).items():
                            if isinstance(kk, tuple) and kk[0] == 'k' and kk[1] == 'str':
                                kwargs[kk[2]] = vv
                            elif isinstance(kk, str):
                                kwargs[kk] = vv
                        if o.aux.get('elem') is not None:
                            star = ((star or (None, None))[0], o.aux['elem'])
                    else:
                        star = ((star or (None, None))[0], unknown('kw'))
            else:
                kwargs[k.arg] = v
        outs = self.call_multi(fv, args, kwargs, st, node, star)
        return outs

    def make_super(self, node, st):
        fr = self.stack[-1]
        if node.args:
            vs = [self.eval(a, st) for a in node.args]
            c = vs[0].single()
            s = vs[1].single() if len(vs) > 1 else None
            if c is not None and c[0] == 'c' and s is not None:
                return V((('super', c[1], s),))
            return unknown('super')
        if fr.cls is None or fr.selfatom is None:
            return unknown('super')
        out = set()
        for a in fr.selfatom.atoms:
            out.add(('super', fr.cls, a))
        return V(out)

    # ------------------------------------------------------------ conditions
    def assume(self, test, st):
        r = self.assume1(test, st)
        if self.listeners:
            self.emit('cond', st, test, labels=self.last_cond_labels, outcome=(bool(r[0]), bool(r[1])))
        return r

    def assume1(self, test, st):
        """([states where test holds], [states where it does not]); sets last_cond_labels"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.assume(test.operand, st)
            return f, t
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            cur = [st]
            done = []
            labs = EMPTY
            for e in test.values:
                nxt = []
                for s in cur:
                    try:
                        t, f = self.assume(e, s)
                    except Dead:
                        continue
                    labs |= self.last_cond_labels
                    go, stop = (t, f) if isand else (f, t)
                    nxt.extend(go)
                    done.extend(stop)
                cur = self.merge(nxt)
            self.last_cond_labels = drop_roles(labs)
            return (cur, done) if isand else (done, cur)
        if isinstance(test, ast.Call):
            try:
                outs = self.call_node(test, st)
            except Dead:
                self.last_cond_labels = EMPTY
                return [], []
            t, f = [], []
            labs = EMPTY
            for v, s in outs:
                a, b = self.truth(v, s, test)
                labs |= self.lib.cond_labels(v, s)
                if a and b:
                    s1 = s.copy()
                    ok1 = self.refine_call(test, s1, True)
                    ok2 = self.refine_call(test, s, False)
                    if ok1:
                        t.append(s1)
                    if ok2:
                        f.append(s)
                elif a:
                    t.append(s)
                elif b:
                    f.append(s)
            self.last_cond_labels = drop_roles(labs)
            return t, f
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            return self.assume_compare(test, st)
        if isinstance(test, ast.Compare):
            parts = []
            l = test.left
            for op, r in zip(test.ops, test.comparators):
                c = ast.Compare(left=l, ops=[op], comparators=[r])
                parts.append(ast.copy_location(c, test))
                l = r
            return self.assume(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), test), st)
        if isinstance(test, ast.NamedExpr):
            v = self.eval(test, st)
            test = test.target
        else:
            try:
                v = self.eval(test, st)
            except Dead:
                self.last_cond_labels = EMPTY
                return [], []
        a, b = self.truth(v, st, test)
        self.last_cond_labels = drop_roles(self.lib.cond_labels(v, st))
        if a and b:
            s1 = st.copy()
            ok1 = self.refine_truth(test, s1, True)
            ok2 = self.refine_truth(test, st, False)
            return ([s1] if ok1 else []), ([st] if ok2 else [])
        if a:
            return [st], []
        if b:
            return [], [st]
        return [], []

    def refine_call(self, node, st, positive):
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'isinstance' and len(node.args) == 2:
            tgt = node.args[0]
            try:
                cv = self.eval(node.args[1], st)
                cur = self.peek(tgt, st)
            except Dead:
                return True
            if cur is None:
                return True
            keep = set()
            for a in cur.atoms:
                r = self.lib.isinstance_atom(a, cv, st)
                if r is None or r == positive:
                    keep.add(a)
            if not keep:
                return False
            self.refine_to(tgt, st, V(keep, cur.labels))
        return True

    def refine_truth(self, node, st, positive):
        cur = self.peek(node, st)
        if cur is None:
            return True
        keep = set()
        for a in cur.atoms:
            t, f = self.truth(V((a,)), st)
            if (t if positive else f):
                if a[0] == 'n' and not positive and a[2] >= 0:
                    a = ('k', a[1], 0)
                elif a[0] == 'n' and positive and a[1] == 'int' and a[2] == 0:
                    a = ('n', 'int', 1, a[3], a[4])
                keep.add(a)
        if not keep:
            return False
        self.refine_to(node, st, V(keep, cur.labels))
        return True

    def peek(self, node, st):
        """value of a refinable place, without side effects"""
        if isinstance(node, ast.NamedExpr):
            node = node.target
        if isinstance(node, ast.Name):
            fr = self.stack[-1]
            o = st.heap[fr.fid]
            return o.f.get(node.id)
        if isinstance(node, ast.Attribute):
            base = self.peek(node.value, st)
            if base is None:
                return None
            a = base.single()
            if a is None or a[0] != 'o':
                return None
            o = st.heap[a[1]]
            if o.kind != 'inst' or o.multi:
                return None
            if self.class_attr(st, o.cls, '__getattribute__')[1] is not None:
                return None
            return o.f.get(node.attr)
        return None

    def refine_to(self, node, st, v):
        if isinstance(node, ast.NamedExpr):
            node = node.target
        if isinstance(node, ast.Name):
            fr = self.stack[-1]
            o = st.heap[fr.fid]
            if node.id in o.f:
                st.heap[fr.fid] = o.setf(node.id, v)
        elif isinstance(node, ast.Attribute):
            base = self.peek(node.value, st)
            a = base.single()
            if not self.refine_fields and all(is_num_atom(x) for x in v.atoms):
                return
            st.heap[a[1]] = st.heap[a[1]].setf(node.attr, v)

    def assume_compare(self, test, st):
        op = type(test.ops[0]).__name__
        try:
            l = self.eval(test.left, st)
            r = self.eval(test.comparators[0], st)
            own = self.self_compare(op, test.left, test.comparators[0], l)
            res = own if own is not None else self.lib.compare(op, l, r, st, test)
        except Dead:
            self.last_cond_labels = EMPTY
            return [], []
        a, b = self.truth(res, st, test)
        self.last_cond_labels = drop_roles(self.lib.cond_labels(res, st))
        if a and not b:
            return [st], []
        if b and not a:
            return [], [st]
        s1 = st.copy()
        if own is not None:
            cur = self.peek(test.left, st)
            if cur is not None:
                nan = {x for x in cur.atoms if x[0] == 'nan' or x[0] == 'k' and x[2] != x[2]}
                self.refine_to(test.left, s1 if op == 'NotEq' else st, V(nan, cur.labels))
                self.refine_to(test.left, st if op == 'NotEq' else s1, V(cur.atoms - nan, cur.labels))
            return [s1], [st]
        ok1 = self.refine_cmp(test.left, op, r, s1, True) and self.refine_cmp(test.comparators[0], self.flip(op), l, s1, True)
        ok2 = self.refine_cmp(test.left, op, r, st, False) and self.refine_cmp(test.comparators[0], self.flip(op), l, st, False)
        return ([s1] if ok1 else []), ([st] if ok2 else [])

    @staticmethod
    def flip(op):
        return {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op if op in ('Eq', 'NotEq', 'Is', 'IsNot') else 'None')

    NEG = {'Lt': 'GtE', 'GtE': 'Lt', 'Gt': 'LtE', 'LtE': 'Gt', 'Eq': 'NotEq', 'NotEq': 'Eq', 'Is': 'IsNot', 'IsNot': 'Is',
           'In': 'NotIn', 'NotIn': 'In', 'None': 'None'}

    def refine_cmp(self, node, op, other, st, positive):
        cur = self.peek(node, st)
        if cur is None:
            return True
        if not positive:
            nanable = any(a[0] in ('nan', 'u') or (a[0] == 'n' and a[1] != 'int') for a in cur.atoms)
            op = self.NEG[op]
        keep = set()
        oa = other.single()
        for a in cur.atoms:
            if op in ('Is', 'Eq'):
                if oa is not None and oa[0] in ('k', 'e'):
                    r = self.lib.eq_atoms(a, oa, op)
                    if r is False:
                        continue
                    if a[0] == 'n' and oa[0] == 'k' and num_range(oa):
                        keep.add(('n', 'int', oa[2], oa[2], a[4]) if a[4] is not None and a[1] == 'int' and type(oa[2]) is int else ('k', a[1], oa[2]))
                        continue
                    if a[0] == 's' and oa[0] == 'k' and oa[1] == 'str':
                        keep.add(oa)
                        continue
                    if a[0] == 'u' and op == 'Is':
                        keep.add(oa)
                        continue
                keep.add(a)
            elif op in ('IsNot', 'NotEq'):
                if oa is not None and oa[0] in ('k', 'e') and self.lib.eq_atoms(a, oa, 'Is' if op == 'IsNot' else 'Eq') is True:
                    continue
                if a[0] == 'n' and oa is not None and num_range(oa) and a[1] == 'int':
                    c = num_range(oa)[1]
                    if a[2] == c:
                        a = ('n', a[1], c + 1, a[3], a[4])
                    elif a[3] == c:
                        a = ('n', a[1], a[2], c - 1, a[4])
                keep.add(a)
            elif op in ('Lt', 'LtE', 'Gt', 'GtE'):
                rr = num_range(a)
                ors = [num_range(x) for x in other.atoms]
                if rr is None or a[0] == 'k' and a[1] == 'bool' or any(x is None for x in ors) or not ors:
                    if rr is not None and rr[1] == rr[2]:
                        keep.add(a)
                    else:
                        keep.add(a)
                    continue
                t, lo, hi, lin = rr
                olo = min(x[1] for x in ors)
                ohi = max(x[2] for x in ors)
                d = 1 if t == 'int' and all(x[0] == 'int' for x in ors) else 0
                if op == 'Lt':
                    hi = min(hi, ohi - d)
                elif op == 'LtE':
                    hi = min(hi, ohi)
                elif op == 'Gt':
                    lo = max(lo, olo + d)
                else:
                    lo = max(lo, olo)
                if lo > hi:
                    continue
                if op == 'Lt' and d == 0 and lo >= ohi and a[0] == 'k':
                    continue
                if op == 'Gt' and d == 0 and hi <= olo and a[0] == 'k':
                    continue
                if a[0] == 'k':
                    keep.add(a)
                elif lo == hi and abs(lo) != INF and (lin is None or t != 'int'):
                    keep.add(('k', t, lo))
                else:
                    keep.add(('n', t, lo, hi, lin))
            elif op in ('In', 'NotIn'):
                oo = other.single()
                items = None
                if oo is not None and oo[0] == 'o' and 'items' in st.heap[oo[1]].aux:
                    items = [x.single() for x in st.heap[oo[1]].aux['items']]
                elif oo is not None and oo[0] == 'o' and st.heap[oo[1]].kind == 'dict' and st.heap[oo[1]].aux.get('elem') is None:
                    items = [k if isinstance(k, tuple) else ('k', 'str', k) for k in st.heap[oo[1]].aux.get('map', {})]
                if items is not None and all(x is not None and x[0] in ('k', 'e') for x in items):
                    if op == 'In':
                        if a[0] in ('k', 'e'):
                            if not any(self.lib.eq_atoms(a, x, 'Eq') is True for x in items):
                                continue
                            keep.add(a)
                        elif a[0] in ('s', 'u', 'n'):
                            keep |= set(items)
                        else:
                            keep.add(a)
                        continue
                    else:
                        if a[0] in ('k', 'e') and any(self.lib.eq_atoms(a, x, 'Eq') is True for x in items):
                            continue
                keep.add(a)
            else:
                keep.add(a)
        if not keep:
            return False
        v = V(keep, cur.labels)
        if v != cur:
            self.refine_to(node, st, v)
        return True


SELF = frozenset(('<self>',))
from .values import _label_idx  # noqa: E402
