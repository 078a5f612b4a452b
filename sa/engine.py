"""Abstract interpreter for the repository's Python sources.

Nothing is executed: every expression evaluates to a term (terms.py), every
statement transforms an abstract state, branches are joined with gated terms,
loops over unknown iterables are summarised from one symbolic iteration, and
calls into the repository are inlined.  Effects, raises, external calls and
mutations are recorded as events together with the facts that hold whenever
they happen.
"""
import ast
import builtins
import os
import string
import sys

from terms import (prodover, LOOPLV, T, C, K, NONE, TRUE, FALSE, UNDEF, is_c, cv, subterms, subst,
                   add, sub, mul, div, neg, cat, tostr, encode, eq, is_, lt0, le0,
                   lt, le, lnot, land, lor, ite, is_bool, max2, min2, deepcopy, keyroot,
                   keys, setof, setdiff, union, unionover, nonempty, length,
                   elem, idx, item, isin, sumover, manyb, anyover, allover,
                   SEGOPS, CONSTY, DISJOINT, rewrite, contains, children)

sys.setrecursionlimit(20000)

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort',
            'update', 'clear', 'add', 'discard', 'popitem', 'setdefault',
            'fill', 'resize', 'put', 'itemset', 'setflags', 'appendleft',
            'popleft', 'extendleft', 'move_to_end', 'partition', 'difference_update',
            'intersection_update', 'setfield'}


_tsize = {}
_hasref = {}


def tsize(t):
    r = _tsize.get(t)
    if r is None:
        r = _tsize[t] = 1 + sum(tsize(c) for c in children(t))
    return r


def undel(segs):
    """deletions of constant keys taken back into the entries they delete"""
    if not any(s.op == 'del' or s.op == 'g' and s.args[1].op == 'del' for s in segs):
        return segs
    out = []
    for s in segs:
        c, d = (s.args[0], s.args[1]) if s.op == 'g' else (TRUE, s)
        if d.op != 'del' or d.args[0].op not in CONSTY or not all(
                (x.args[1] if x.op == 'g' else x).op == 'kv' and (x.args[1] if x.op == 'g' else x).args[0].op in CONSTY for x in out):
            out.append(s)
            continue
        new = []
        for x in out:
            g, kv = (x.args[0], x.args[1]) if x.op == 'g' else (TRUE, x)
            if kv.args[0] is d.args[0] or is_c(eq(kv.args[0], d.args[0]), True):
                g = land(g, lnot(c))
                if is_c(g, False):
                    continue
                x = kv if is_c(g, True) else T('g', g, kv)
            new.append(x)
        out = new
    return out


class Unsupported(Exception):
    pass


class Obj:
    """abstract heap object; never modified in place"""
    __slots__ = ('kind', 'segs', 'base', 'attrs', 'cls', 'origin')

    def __init__(self, kind, segs=(), base=None, attrs=None, cls=None, origin=None):
        self.kind = kind
        self.segs = segs
        self.base = base
        self.attrs = attrs
        self.cls = cls
        self.origin = origin

    def w(self, **kw):
        o = Obj(self.kind, self.segs, self.base, self.attrs, self.cls, self.origin)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def same(self, o):
        return self is o or (self.kind == o.kind and self.segs == o.segs and self.base is o.base
                             and self.attrs == o.attrs)


_ver = [0]


def newver():
    _ver[0] += 1
    return _ver[0]


class State:
    __slots__ = ('envs', 'heap', 'pc', 'hist', 'may', 'dead', 'ver', 'ret')

    def __init__(self):
        self.envs = []
        self.heap = {}
        self.pc = ()
        self.hist = frozenset()
        self.may = frozenset()
        self.dead = False
        self.ver = 0
        self.ret = None

    def fork(self):
        s = State()
        s.envs = list(self.envs)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.hist = self.hist
        s.may = self.may
        s.dead = self.dead
        s.ver = self.ver
        s.ret = self.ret
        return s

    def become(self, o):
        self.envs = o.envs
        self.heap = o.heap
        self.pc = o.pc
        self.hist = o.hist
        self.may = o.may
        self.dead = o.dead
        self.ver = o.ver
        self.ret = o.ret

    def setvar(self, name, val, depth=-1):
        if self.envs[depth].get(name) is val:
            return
        self.envs[depth] = {**self.envs[depth], name: val}
        self.ver = newver()


class Flow:
    def __init__(self):
        self.rets = []      # states with .ret
        self.brks = []
        self.conts = []
        self.raises = []    # (state, exc term)


class Fn:
    def __init__(self, node, module, cls, closure, qual, kind, defaults, kwdefaults):
        self.node = node
        self.module = module
        self.cls = cls
        self.closure = closure
        self.qual = qual
        self.kind = kind
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.decorators = ()
        if isinstance(node, ast.Lambda):
            self.isgen = False
        else:
            self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(node))


def _own_nodes(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


class Cls:
    def __init__(self, name, qual, module, bases, node):
        self.name = name
        self.qual = qual
        self.module = module
        self.bases = bases      # terms
        self.ns = {}
        self.node = node
        self.ann = []


class Frame:
    def __init__(self, fn, depth, cls=None, selfterm=None):
        self.fn = fn
        self.depth = depth
        self.cls = cls
        self.selfterm = selfterm
        self.module = fn.module if fn else None
        self.globals_decl = set()
        self.nonlocal_decl = set()


class Event:
    __slots__ = ('seq', 'kind', 'd', 'pc', 'loops', 'stack', 'trys', 'hist', 'may', 'file', 'line', 'func', 'heap')

    def __getattr__(self, k):
        try:
            return object.__getattribute__(self, 'd')[k]
        except KeyError:
            raise AttributeError(k)

    @property
    def where(self):
        return '%s:%d (%s)' % (self.file, self.line, self.func)


class Try:
    def __init__(self, depth, classes, snaps):
        self.depth = depth
        self.classes = classes
        self.snaps = snaps
        self.last = None


def copied(t):
    """a deep copy or a part of one"""
    while t.op == 'item':
        t = t.args[0]
    return t.op == 'deepcopy'


class Engine:
    def __init__(self, root='/repo', package='pydarnio'):
        self.root = root
        self.package = package
        self.classes = {}
        self.fns = {}
        self.fnid = {}
        self.modns = {}
        self.modnode = {}
        self.gheap = {}
        self.events = []
        self.frames = []
        self.flows = []
        self.loops = []      # active symbolic loops (lid, I)
        self.loopinfo = {}
        self.trys = []
        self.extra = {}      # top-level modules that live outside the repository
        self.n = 0
        self.chooser = None          # (dict term, key term, [key consts]) -> key const or None
        self.valid = None            # what is known of valid input files: has(container, key), empty(iterable), peel(iterable)
        self.symcls = {}             # opaque class value -> Cls
        self.opaque = set()          # quals never inlined
        self.inlined = set()
        self.files = set()
        self.maxdepth = 60
        self.fncount = 0
        self.fzcache = {}
        self.tryid = {}
        self.depthn = 0
        self.seqbase = 0
        self.warn = []
        self.memo = {}
        self.fzver = None
        self.fzmemo = {}
        self.fzext = frozenset()
        self.touchmemo = {}
        DISJOINT[0] = self.disjoint
        self.load(package)

    # ------------------------------------------------------------ modules
    def modfile(self, mod):
        root = self.extra.get(mod.split('.')[0], self.root)
        p = os.path.join(root, *mod.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load(self, mod):
        if mod in self.modns:
            return
        f = self.modfile(mod)
        if f is None:
            raise Unsupported('module ' + mod)
        if '.' in mod:
            self.load(mod.rsplit('.', 1)[0])
            if mod in self.modns:
                return
        ns = {}
        self.modns[mod] = ns
        src = open(f).read()
        self.files.add(os.path.relpath(f, self.root))
        tree = Mangler().visit(ast.parse(src))
        self.modnode[mod] = tree
        ns['__name__'] = C(mod)
        st = State()
        st.heap = {}
        fn = Fn(ast.parse('def _module_(): pass').body[0], mod, None, None, mod, 'module', [], {})
        fr = Frame(fn, 0)
        fr.ismodule = True
        save = (self.frames, self.flows, self.loops, self.trys)
        self.frames, self.flows, self.loops, self.trys = [fr], [Flow()], [], []
        st.envs = [ns]
        self.exec_block(tree.body, st, toplevel=True)
        self.frames, self.flows, self.loops, self.trys = save
        self.modns[mod] = ns
        for oid, o in st.heap.items():
            if not (o.origin and o.origin[0] in ('global', 'default')):
                o = o.w(origin=('global', mod))
            self.gheap[oid] = o
        if '.' in mod:
            par, nm = mod.rsplit('.', 1)
            self.modns[par].setdefault(nm, T('mod', mod))

    def name_globals(self):
        """give module-level and class-level objects readable origins"""
        for mod, ns in self.modns.items():
            for k, v in ns.items():
                if v.op == 'ref' and v.args[0] in self.gheap:
                    o = self.gheap[v.args[0]]
                    if o.origin[0] == 'global' and len(o.origin) == 2 and '.' not in o.origin[1].replace(mod, '', 1):
                        self.gheap[v.args[0]] = o.w(origin=('global', mod + '.' + k))
        for c in self.classes.values():
            for k, v in c.ns.items():
                if v.op == 'ref' and v.args[0] in self.gheap:
                    self.gheap[v.args[0]] = self.gheap[v.args[0]].w(origin=('global', c.qual + '.' + k))

    # ------------------------------------------------------------ heap
    def alloc(self, st, kind, segs=(), base=None, attrs=None, cls=None, origin=None):
        self.n += 1
        oid = self.n
        st.heap[oid] = Obj(kind, tuple(segs), base, attrs, cls, origin or ('local',))
        return T('ref', oid)

    def obj(self, st, t):
        """heap object behind a value, or None"""
        if t.op == 'ref':
            oid = t.args[0]
            o = st.heap.get(oid)
            return o if o is not None else self.gheap.get(oid)
        o = st.heap.get(t)
        if o is None and t.op == 'cell':
            o = self.cellobj(st, t)
        return o

    nocell = False

    def cellobj(self, st, c):
        """the object a dictionary holds under a symbolic key"""
        p, k = c.args
        o = self.obj(st, p)
        if o is None:
            return None
        save, self.nocell = self.nocell, True
        v = self.dict_get(st, p, o, k, None)
        self.nocell = save
        if v.op == 'dict':
            return Obj('dict', v.args, origin=('local',))
        if v.op == 'list':
            return Obj('list', v.args, origin=('local',))
        if v.op == 'upd':
            return Obj('map', v.args[1], base=v.args[0], attrs={cv(x.args[0]): x.args[1] for x in v.args[2]}, origin=('local',) if p.op == 'ref' else ('ext',))
        return self.obj(st, v) or Obj('map', (), base=v, attrs={}, origin=('ext',))

    def cell(self, st, b, k, v):
        if not self.nocell and v.op in ('dict', 'upd', 'list'):
            return T('cell', b, k)
        return v

    def oobj(self, st, oid):
        """the object at a heap place (itself when nothing is known about it yet)"""
        o = st.heap.get(oid)
        if o is None and not isinstance(oid, T):
            o = self.gheap.get(oid)
        if o is None and isinstance(oid, T) and oid.op == 'cell':
            o = self.cellobj(st, oid)
        return o or Obj('map', (), base=oid, attrs={}, origin=('ext',))

    def put(self, st, t, o):
        st.heap[t.args[0] if t.op == 'ref' else t] = o
        st.ver = newver()

    def extobj(self, st, t):
        o = self.obj(st, t)
        if o is None:
            o = Obj('map', (), base=t, attrs={}, origin=('ext',))
        return o

    def fz(self, st, t, keep=None, _seen=()):
        """structural (heap-free) value of a term"""
        if not isinstance(t, T):
            return t
        if t.op in ('c', 'param', 'ext', 'cls', 'mod', 'fn'):
            return t
        ext = [k for k in st.heap if isinstance(k, T)]
        if not self._hasref(t) and not ext and t.op != 'cell':
            return t
        if keep is None and st.ver:
            if self.fzver != st.ver:
                self.fzver = st.ver
                self.fzmemo = {}
            memo = self.fzmemo
        else:
            memo = {}
        self.fzext = frozenset(ext)
        self.touchmemo = memo.setdefault('touch', {})
        return self._fz(st, t, keep, _seen, memo)

    def _hasref(self, t):
        r = _hasref.get(t)
        if r is None:
            r = _hasref[t] = t.op in ('ref', 'bm', 'cell') or any(self._hasref(c) for c in children(t))
        return r

    def touches(self, t):
        if self._hasref(t):
            return True
        if not self.fzext:
            return False
        r = self.touchmemo.get(t)
        if r is None:
            r = self.touchmemo[t] = t in self.fzext or any(self.touches(c) for c in children(t))
        return r

    def _fz(self, st, t, keep, seen, memo):
        if t.op in ('c', 'param', 'ext', 'cls', 'fn', 'mod') and t not in st.heap:
            return t
        if not self.touches(t):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = self._fz1(st, t, keep, seen, memo)
        if not seen:
            memo[t] = r
        elif not any(s.op == 'cyc' for s in subterms(r)) and t not in seen:
            memo[t] = r
        return r

    def _fz1(self, st, t, keep, seen, memo):
        if t.op == 'ref':
            oid = t.args[0]
            if keep is not None and oid in keep:
                return t
            if oid in seen:
                return T('cyc', len(seen) - seen.index(oid))
            o = self.obj(st, t)
            cs = [c for c in self.fzext if c.op == 'cell' and c.args[0] is t]
            if cs:
                o = o.w(segs=o.segs + tuple(T('kv', c.args[1], c) for c in cs))
            glob = oid in self.gheap and self.gheap[oid] is o
            if glob:
                r = self.fzcache.get(oid)
                if r is not None:
                    return r
            r = self.fzobj(st, o, keep, seen + (oid,), memo)
            if glob:
                self.fzcache[oid] = r
            return r
        if t in st.heap and t not in seen:
            o = st.heap[t]
            cs = [c for c in self.fzext if c.op == 'cell' and c.args[0] is t]
            if cs:
                o = o.w(segs=o.segs + tuple(T('kv', c.args[1], c) for c in cs))
            return self.fzobj(st, o, keep, seen + (t,), memo)
        if t.op == 'item' and copied(t):
            return item(t.args[0], self._fz(st, t.args[1], keep, seen, memo))      # read before the copy was changed
        if t.op == 'upd' and copied(t.args[0]):
            from terms import _mapargs
            return T('upd', t.args[0], *[_mapargs(a, lambda x: self._fz(st, x, keep, seen, memo)) for a in t.args[1:]])
        if t.op == 'cell':
            o = self.cellobj(st, t)
            if o is not None:
                return self.fzobj(st, o, keep, seen + (t,), memo)
            return item(self._fz(st, t.args[0], keep, seen, memo), self._fz(st, t.args[1], keep, seen, memo))
        if t.op in ('c', 'param', 'ext', 'cls', 'fn', 'mod'):
            return t
        if t.op == 'bm':
            return T('bm', t.args[0], self._fz(st, t.args[1], keep, seen, memo) if t.args[1].op != 'ref' else T('self'))
        from terms import _mapargs, build
        args = tuple(_mapargs(a, lambda x: self._fz(st, x, keep, seen, memo)) for a in t.args)
        if args == t.args:
            return t
        return build(t.op, *args)

    def fzobj(self, st, o, keep, seen, memo):
        f = lambda x: self._fz(st, x, keep, seen, memo)
        if o.kind in ('list', 'deque'):
            segs = tuple(f(s) for s in o.segs)
            return self.mklist(segs)
        if o.kind == 'bytearray':
            return self.bytes_of(tuple(f(s) for s in o.segs))
        if o.kind == 'set':
            parts = []
            for s in o.segs:
                s = f(s)
                parts.append(self.setpart(s))
            return union(*parts) if parts else T('setc')
        if o.kind == 'dict':
            segs = tuple(f(s) for s in o.segs)
            if len(segs) == 1 and segs[0].op == 'splat':
                return segs[0].args[0]
            return self.mkdict(segs)
        if o.kind == 'map':
            base = o.base
            if base is not None and base not in seen and not copied(base):
                base = f(base)
            if not o.segs and not (o.attrs):
                return base
            segs = tuple(f(s) for s in o.segs)
            at = tuple(T('kv', C(k), f(v)) for k, v in sorted((o.attrs or {}).items()))
            return T('upd', base, segs, at)
        if o.kind == 'inst':
            cls = o.cls
            return T('inst', cls.qual, tuple(T('kv', C(k), f(v)) for k, v in sorted(o.attrs.items())))
        return T('obj', o.kind)

    def mklist(self, segs):
        segs = tuple(x for s in segs for x in self.flatseg(s))
        if len(segs) == 1 and segs[0].op == 'splat' and segs[0].args[0].op in ('sorted', 'keys', 'rev', 'setof', 'range', 'listof'):
            return segs[0].args[0]
        if len(segs) == 1 and segs[0].op == 'splat':
            return segs[0].args[0]
        if len(segs) == 1 and segs[0].op == 'many' and is_c(segs[0].args[1], True) and segs[0].args[2] is elem(segs[0].args[0]):
            return segs[0].args[0]
        return T('list', *segs)

    def flatseg(self, s):
        if s.op == 'splat' and s.args[0].op in ('list', 'tup'):
            return s.args[0].args
        if s.op == 'g':
            if is_c(s.args[0], True):
                return self.flatseg(s.args[1])
            if is_c(s.args[0], False):
                return ()
            if s.args[1].op == 'many':
                m = s.args[1]
                return (T('many', m.args[0], land(m.args[1], s.args[0]), m.args[2]),)
            if s.args[1].op == 'g':
                return self.flatseg(T('g', land(s.args[0], s.args[1].args[0]), s.args[1].args[1]))
        if s.op == 'many' and s.args[2].op == 'g':
            return (T('many', s.args[0], land(s.args[1], s.args[2].args[0]), s.args[2].args[1]),)
        return (s,)

    def mkdict(self, segs):
        out = []
        for s in (x for s in segs for x in self.flatseg(s)):
            if s.op == 'splat' and s.args[0].op == 'dict':
                out.extend(s.args[0].args)
            else:
                out.append(s)
        out = undel(out)
        # later plain constant-key entries replace earlier ones
        res = []
        allplain = all(s.op == 'kv' and s.args[0].op in CONSTY for s in out)
        if allplain:
            d = {}
            for s in out:
                d[s.args[0]] = s
            return T('dict', *d.values())
        return T('dict', *out)

    def setpart(self, s):
        if s.op == 'splat':
            return setof(s.args[0])
        if s.op == 'many':
            return unionover(s.args[0], s.args[1], self.setpart(s.args[2]))
        if s.op == 'g':
            return ite(s.args[0], self.setpart(s.args[1]), T('setc'))
        if s.op == 'lvseg':
            return T('setof', s)
        return T('setc', s)

    def bytes_of(self, segs):
        parts = []
        for s in segs:
            if s.op == 'splat':
                parts.append(s.args[0])
            elif s.op == 'many':
                parts.append(manyb(s.args[0], s.args[1], self.bytes_of((s.args[2],))))
            elif s.op == 'g':
                parts.append(ite(s.args[0], self.bytes_of((s.args[1],)), C(b'')))
            else:
                parts.append(s)
        return cat(*parts) if parts else C(b'')

    # ------------------------------------------------------------ facts
    def add_fact(self, st, c):
        if is_c(c, True):
            return True
        if is_c(c, False):
            st.dead = True
            return False
        parts = list(c.args) if c.op == 'and' else [c]
        pc = list(st.pc)
        for p in parts:
            d = self.decide(st, p)
            if d is True:
                continue
            if d is False:
                st.dead = True
                return False
            if p.op == 'or':
                ks = [x for x in p.args if self.decide(st, x) is not False]
                p = lor(*ks)
                if p.op == 'and' or len(ks) == 1:
                    if not self.add_fact(st, p):
                        return False
                    pc = list(st.pc)
                    continue
            if p not in pc:
                pc.append(p)
                st.pc = tuple(pc)
        return True

    def decide(self, st, c):
        """True / False when the facts settle the condition, else None"""
        if c.op == 'c':
            return bool(cv(c))
        pcs = st.pc
        if c in pcs:
            return True
        n = lnot(c)
        if n in pcs:
            return False
        if c.op == 'and':
            ds = [self.decide(st, x) for x in c.args]
            if all(d is True for d in ds):
                return True
            if any(d is False for d in ds):
                return False
            return None
        if c.op == 'or':
            ds = [self.decide(st, x) for x in c.args]
            if all(d is False for d in ds):
                return False
            if any(d is True for d in ds):
                return True
            return None
        if c.op in ('eq', 'in', 'not', 'isinstance', 'lt0', 'le0', 'is', 'nonempty'):
            m = {}
            for f in pcs:
                if f.op == 'eq' and f.args[1].op in CONSTY and f.args[0] in subterms(c) and f is not c:
                    m[f.args[0]] = f.args[1]
                elif f.op == 'is' and f.args[1] is NONE and f.args[0] in subterms(c) and f is not c:
                    m[f.args[0]] = NONE
            if m:
                r = subst(c, m)
                if r.op == 'c':
                    return bool(cv(r))
                if r in pcs:
                    return True
                if lnot(r) in pcs:
                    return False
            t = c.args[0] if c.op == 'not' else c
            flip = c.op == 'not'
            if t.op == 'isinstance':
                for f in pcs:
                    if f.op == 'isinstance' and f.args[0] is t.args[0]:
                        if self.disjoint(f.args[1], t.args[1]):
                            return flip
                        if self.subclass(f.args[1], t.args[1]):
                            return not flip
        return None

    def simp(self, st, v):
        """resolve a top-level choice the facts settle"""
        while v.op == 'ite':
            d = self.decide(st, v.args[0])
            if d is None:
                break
            v = v.args[1] if d else v.args[2]
        return v

    # ------------------------------------------------------------ joins
    def gate(self, a, b):
        pa, pb = set(a.pc), set(b.pc)
        common = tuple(f for f in a.pc if f in pb)
        ea = [f for f in a.pc if f not in pb]
        eb = [f for f in b.pc if f not in pa]
        g = None
        for f in ea:
            if lnot(f) in eb:
                g = f
                break
        ca, cb = land(*ea), land(*eb)
        if g is None:
            if ea and not is_c(ca, True):
                g = ca
                if eb and not is_c(cb, True) and tsize(cb) < tsize(ca):
                    g = lnot(cb)
            elif eb:
                g = lnot(cb)
            else:
                self.n += 1
                g = T('phi', self.n)
        extra = lor(ca, cb)
        pc = common if is_c(extra, True) else common + tuple(x for x in ((extra.args if extra.op == 'and' else (extra,))) if x not in common)
        return g, pc

    def join(self, a, b):
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        g, pc = self.gate(a, b)
        s = State()
        s.pc = pc
        s.hist = a.hist & b.hist
        s.may = a.may | b.may
        s.ver = newver()
        s.envs = []
        for ea, eb in zip(a.envs, b.envs):
            if ea is eb:
                s.envs.append(ea)
                continue
            e = {}
            for k in list(ea) + [k for k in eb if k not in ea]:
                va, vb = ea.get(k, UNDEF), eb.get(k, UNDEF)
                e[k] = va if va is vb else ite(g, va, vb)
            s.envs.append(e)
        if a.ret is not None or b.ret is not None:
            ra, rb = a.ret or NONE, b.ret or NONE
            s.ret = ra if ra is rb else ite(g, ra, rb)
        s.heap = self.joinheap(a, b, g)
        return s

    def joinheap(self, a, b, g):
        h = dict(a.heap)
        for oid, ob in b.heap.items():
            oa = h.get(oid)
            if oa is None:
                if isinstance(oid, T):
                    oa = self.oobj(a, oid)
                elif oid in self.gheap:
                    oa = self.gheap[oid]
                else:
                    h[oid] = ob
                    continue
            if oa is ob:
                continue
            h[oid] = self.joinobj(oa, ob, g)
        for oid, oa in a.heap.items():
            if oid not in b.heap:
                if isinstance(oid, T):
                    ob = self.oobj(b, oid)
                elif oid in self.gheap:
                    ob = self.gheap[oid]
                else:
                    continue
                h[oid] = self.joinobj(oa, ob, g)
        return h

    def joinobj(self, a, b, g):
        if a.same(b):
            return a
        if a.kind == 'inst':
            at = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                va = a.attrs.get(k)
                vb = b.attrs.get(k)
                if va is None:
                    va = T('attr', a.base, k) if a.base is not None else UNDEF
                if vb is None:
                    vb = T('attr', a.base, k) if a.base is not None else UNDEF
                at[k] = va if va is vb else ite(g, va, vb)
            return a.w(attrs=at)
        segs = self.joinsegs(a.segs, b.segs, g)
        attrs = a.attrs
        if a.attrs != b.attrs:
            at = {}
            A, B = a.attrs or {}, b.attrs or {}
            for k in list(A) + [k for k in B if k not in A]:
                va = A.get(k) or T('attr', a.base, k)
                vb = B.get(k) or T('attr', a.base, k)
                at[k] = va if va is vb else ite(g, va, vb)
            attrs = at
        base = a.base
        if a.base is not b.base:
            base = ite(g, a.base if a.base is not None else NONE, b.base if b.base is not None else NONE)
        return a.w(segs=segs, attrs=attrs, base=base)

    def joinsegs(self, x, y, g):
        i = 0
        while i < len(x) and i < len(y) and x[i] is y[i]:
            i += 1
        pre, ra, rb = x[:i], x[i:], y[i:]
        if len(ra) == len(rb):
            out = []
            for s, t in zip(ra, rb):
                if s.op == 'kv' and t.op == 'kv' and s.args[0] is t.args[0]:
                    out.append(T('kv', s.args[0], ite(g, s.args[1], t.args[1])))
                elif s.op not in SEGOPS + ('kv',) and t.op not in SEGOPS + ('kv',):
                    out.append(ite(g, s, t))
                elif s is t:
                    out.append(s)
                else:
                    out = None
                    break
            if out is not None:
                return pre + tuple(out)
        # a dict written in different order on the two sides
        if ra and rb and all(s.op == 'kv' and s.args[0].op == 'c' for s in ra + rb):
            da = {s.args[0]: s.args[1] for s in ra}
            db = {s.args[0]: s.args[1] for s in rb}
            if set(da) == set(db):
                return pre + tuple(T('kv', k, ite(g, da[k], db[k])) for k in da)
            out = []
            for k in list(da) + [k for k in db if k not in da]:
                if k in da and k in db:
                    out.append(T('kv', k, ite(g, da[k], db[k])))
                elif k in da:
                    out.append(T('g', g, T('kv', k, da[k])))
                else:
                    out.append(T('g', lnot(g), T('kv', k, db[k])))
            return pre + tuple(out)
        return pre + tuple(y for s in ra for y in self.flatseg(T('g', g, s))) + \
            tuple(y for s in rb for y in self.flatseg(T('g', lnot(g), s)))

    def joinall(self, states):
        out = None
        for s in states:
            if s is None or s.dead:
                continue
            out = s if out is None else self.join(out, s)
        return out

    # ------------------------------------------------------------ events
    def ev(self, kind, st, node, **d):
        if st.dead:
            return None
        e = Event()
        e.seq = len(self.events) + self.seqbase
        e.kind = kind
        e.d = d
        e.pc = st.pc
        e.loops = tuple(self.loops)
        e.stack = tuple(f.fn.qual for f in self.frames)
        e.trys = tuple(t.classes for t in self.trys)
        e.hist = st.hist
        e.may = st.may
        fr = self.frames[-1] if self.frames else None
        e.file = os.path.relpath(self.modfile(fr.module), self.root) if fr else '?'
        e.line = getattr(node, 'lineno', 0)
        e.func = fr.fn.qual if fr else '?'
        st.hist = st.hist | {e.seq}
        st.may = st.may | {e.seq}
        self.events.append(e)
        return e

    # ------------------------------------------------------------ classes
    def mro(self, cls):
        out = [cls]
        for b in cls.bases:
            if b.op == 'cls':
                for c in self.mro(self.classes[b.args[0]]):
                    if c in out:
                        out.remove(c)
                    out.append(c)
            else:
                out.append(b)
        return out

    def lookup(self, cls, name, after=None):
        seen = after is None
        for c in self.mro(cls):
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name], c
        return None, None

    def exttail(self, cls):
        return [c for c in self.mro(cls) if isinstance(c, T)]

    def subclass(self, a, b):
        """a subclass of b, decided (True/False)"""
        if a is b:
            return True
        if a.op == 'cls':
            for c in self.mro(self.classes[a.args[0]]):
                if isinstance(c, Cls):
                    if b.op == 'cls' and b.args[0] == c.qual:
                        return True
                elif self.subclass(c, b):
                    return True
            return b is T('ext', 'builtins.object')
        if a.op == 'ext' and b.op == 'ext':
            pa, pb = self.pyclass(a), self.pyclass(b)
            if pa and pb:
                return issubclass(pa, pb)
            if a.args[0] in NPBASES:
                return b.args[0] in NPBASES[a.args[0]]
        return False

    def disjoint(self, a, b):
        if a.op not in ('cls', 'ext') or b.op not in ('cls', 'ext'):
            return False
        if self.subclass(a, b) or self.subclass(b, a):
            return False
        if a.op == 'cls' and b.op == 'cls':
            return True
        solid = ('builtins.list', 'builtins.str', 'builtins.bytes', 'builtins.dict', 'numpy.ndarray', 'h5py.Empty', 'builtins.tuple', 'builtins.int', 'builtins.float')
        if a.op == 'ext' and b.op == 'ext' and a.args[0] in solid and b.args[0] in solid:
            return True
        return False

    def pyclass(self, t):
        if t.op == 'ext' and t.args[0].startswith('builtins.'):
            c = getattr(builtins, t.args[0][9:], None)
            if isinstance(c, type):
                return c
        return None

    def isexc(self, cls):
        return any(isinstance(c, T) and self.pyclass(c) and issubclass(self.pyclass(c), BaseException) for c in self.mro(cls))

    def isnt(self, cls):
        return any(isinstance(c, T) and c.args[0] in ('typing.NamedTuple',) for c in self.mro(cls))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, toplevel=False):
        for s in stmts:
            if st.dead:
                return
            self.exec_stmt(s, st)

    def snap(self, st):
        for tr in self.trys:
            if tr.last != st.ver:
                tr.last = st.ver
                s = st.fork()
                s.envs = s.envs[:tr.depth]
                tr.snaps.append(s)

    def exec_stmt(self, n, st):
        if not (isinstance(n, (ast.Pass, ast.Break, ast.Continue)) or isinstance(n, ast.Return) and (
                n.value is None or isinstance(n.value, (ast.Name, ast.Constant)))):
            self.snap(st)           # what cannot fail leaves nothing half done
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            self.warn.append('statement %s' % type(n).__name__)
            return
        m(n, st)

    def st_Pass(self, n, st):
        pass

    st_Global = lambda self, n, st: self.frames[-1].globals_decl.update(n.names)
    st_Nonlocal = lambda self, n, st: self.frames[-1].nonlocal_decl.update(n.names)

    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, st)

    def st_Assert(self, n, st):
        c = self.truth(st, self.eval(n.test, st))
        bad = st.fork()
        if self.add_fact(bad, lnot(c)):
            exc = T('excnew', 'AssertionError')
            self.do_raise(bad, T('ext', 'builtins.AssertionError'), exc, n)
        self.add_fact(st, c)

    def st_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                self.del_item(st, b, k, n)
            elif isinstance(t, ast.Name):
                st.setvar(t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                self.ev('setattr', st, n, target=b, name=t.attr, value=UNDEF, how='del')

    def st_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        if st.dead:
            return
        s = st.fork()
        s.ret = v
        self.flows[-1].rets.append(s)
        st.dead = True

    def st_Break(self, n, st):
        self.flows[-1].brks.append(st.fork())
        st.dead = True

    def st_Continue(self, n, st):
        self.flows[-1].conts.append(st.fork())
        st.dead = True

    def st_Import(self, n, st):
        for a in n.names:
            if a.name.split('.')[0] == self.package:
                self.load(a.name)
                v = T('mod', a.name if a.asname else a.name.split('.')[0])
            else:
                v = T('ext', a.name if a.asname else a.name.split('.')[0])
            self.bind_name(st, a.asname or a.name.split('.')[0], v)

    def st_ImportFrom(self, n, st):
        mod = n.module or ''
        if n.level:
            cur = self.frames[-1].module
            f = self.modfile(cur)
            base = cur.split('.')
            if not f.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (n.level - 1)] if n.level > 1 else base
            mod = '.'.join(base + ([mod] if mod else []))
        for a in n.names:
            if mod.split('.')[0] == self.package:
                self.load(mod)
                ns = self.modns[mod]
                if a.name in ns:
                    v = ns[a.name]
                elif self.modfile(mod + '.' + a.name):
                    self.load(mod + '.' + a.name)
                    v = T('mod', mod + '.' + a.name)
                else:
                    if a.name == '*':
                        for k, w in ns.items():
                            if not k.startswith('_'):
                                self.bind_name(st, k, w)
                        continue
                    v = UNDEF
                    self.warn.append('import %s.%s' % (mod, a.name))
                    self.ev('badimport', st, n, name=mod + '.' + a.name)
            else:
                v = T('ext', mod + '.' + a.name)
            self.bind_name(st, a.asname or a.name, v)

    def bind_name(self, st, name, v):
        fr = self.frames[-1]
        if getattr(fr, 'ismodule', False) and len(st.envs) == 1:
            self.modns[fr.module][name] = v
            st.envs[0] = self.modns[fr.module]
            st.ver = newver()
            return
        if name in fr.globals_decl:
            self.ev('setglobal', st, None, name=fr.module + '.' + name, value=v)
            return
        if name in fr.nonlocal_decl:
            for d in range(len(st.envs) - 2, -1, -1):
                if name in st.envs[d]:
                    st.setvar(name, v, d)
                    return
        st.setvar(name, v)

    def st_FunctionDef(self, n, st):
        kind = 'function'
        decs = []
        for d in n.decorator_list:
            dn = ast.unparse(d)
            if dn in ('staticmethod', 'classmethod', 'property'):
                kind = dn
            else:
                decs.append(dn)
        fr = self.frames[-1]
        qual = fr.fn.qual + '.' + n.name
        cls = fr.cls if getattr(fr, 'isclass', False) else None
        dfl = [self.eval(d, st) for d in n.args.defaults]
        kwd = {a.arg: self.eval(d, st) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        for v, a in zip(dfl, (n.args.posonlyargs + n.args.args)[len(n.args.posonlyargs + n.args.args) - len(dfl):]):
            if v.op == 'ref':
                o = self.obj(st, v)
                self.put(st, v, o.w(origin=('default', qual + '(' + a.arg + ')')))
        closure = None
        if not getattr(fr, 'ismodule', False) and not getattr(fr, 'isclass', False):
            closure = self.closure_env(st)
        fn = Fn(n, fr.module, cls if cls else fr.fn.cls if closure is not None else None, closure, qual, kind, dfl, kwd)
        if closure is not None and n.name not in closure:
            pass
        fn.decorators = tuple(decs)
        self.fncount += 1
        fid = qual if closure is None else '%s#%d' % (qual, self.fncount)
        self.fns[fid] = fn
        t = T('fn', fid)
        for d in reversed(n.decorator_list):
            if ast.unparse(d) in ('staticmethod', 'classmethod', 'property'):
                continue
            v = self.eval(d, st)
            if st.dead:
                return
            if v.op in ('fn', 'sm', 'bm', 'partial'):           # a decorator of the package: what it makes of the function
                w = self.call(st, v, [t], {}, d)
                if st.dead:
                    return
                if w.op == 'fn':
                    t, fid = w, w.args[0]
        if kind in ('property',):
            t = T('prop', fid)
        elif kind == 'staticmethod' and cls is not None:
            t = T('sm', fid)
        elif kind == 'classmethod' and cls is not None:
            t = T('cm', fid)
        if closure is not None:
            closure[n.name] = t
        self.bind_name(st, self.mangle(n.name) if cls is not None else n.name, t)

    def closure_env(self, st):
        env = {}
        fr = self.frames[-1]
        if fr.fn.closure:
            env.update(fr.fn.closure)
        env.update(st.envs[-1])
        return env

    def st_ClassDef(self, n, st):
        fr = self.frames[-1]
        qual = fr.fn.qual + '.' + n.name
        bases = [self.eval(b, st) for b in n.bases]
        cls = Cls(n.name, qual, fr.module, bases, n)
        self.classes[qual] = cls
        fn = Fn(ast.parse('def _class_(): pass').body[0], fr.module, cls, None, qual, 'class', [], {})
        f2 = Frame(fn, len(st.envs), cls=cls)
        f2.isclass = True
        self.frames.append(f2)
        st.envs.append({})
        for s in n.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                cls.ann.append(s.target.id)
            self.exec_stmt(s, st)
        ns = st.envs.pop()
        cls.ns = dict(ns)
        self.frames.pop()
        self.bind_name(st, n.name, T('cls', qual))

    def st_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st, n)

    def st_Assign(self, n, st):
        v = self.eval(n.value, st)
        if st.dead:
            return
        for t in n.targets:
            self.assign(t, v, st, n)

    def st_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            v = self.eval(n.value, st)
            self.assign(t, self.augop(st, cur, n.op, v, n), st, n)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            cur = self.getattr(st, b, t.attr, t)
            v = self.eval(n.value, st)
            self.set_attr(st, b, t.attr, self.augop(st, cur, n.op, v, n), n)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            cur = self.getitem(st, b, k, t)
            v = self.eval(n.value, st)
            self.set_item(st, b, k, self.augop(st, cur, n.op, v, n), n)

    def augop(self, st, cur, op, v, n):
        o = self.obj(st, cur)
        if o is not None and o.kind in ('list', 'deque', 'bytearray') and isinstance(op, ast.Add):
            self.obj_method(st, cur, o, 'extend', [v], {}, n)
            return cur
        if o is not None and o.kind in ('set',) and isinstance(op, (ast.BitOr,)):
            self.obj_method(st, cur, o, 'update', [v], {}, n)
            return cur
        if o is not None and o.kind == 'dict' and isinstance(op, ast.BitOr):
            self.obj_method(st, cur, o, 'update', [v], {}, n)
            return cur
        if cur.op not in ('c', 'lin', 'cat', 'str', 'len', 'pack') and not is_bool(cur):
            self.ev('augmut', st, n, target=cur, op=type(op).__name__, value=v)
        if o is not None and o.kind == 'map':
            r = self.binop(st, op, self.fz(st, cur), v, n)
            self.put(st, cur, o.w(base=r, segs=()))
            return cur
        return self.binop(st, op, cur, v, n)

    def assign(self, t, v, st, n):
        if isinstance(t, ast.Name):
            self.bind_name(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(st, self.eval(t.value, st), self.mangle(t.attr), v, n)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            self.set_item(st, b, k, v, n)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                for j, e in enumerate(t.elts[:i]):
                    self.assign(e, self.getitem(st, v, C(j), n), st, n)
                after = len(t.elts) - i - 1
                self.assign(t.elts[i].value, T('starslice', self.fz(st, v), i, after), st, n)
                for j, e in enumerate(t.elts[i + 1:]):
                    self.assign(e, self.getitem(st, v, C(j - after), n), st, n)
            else:
                self.ev('unpack', st, n, value=v, n=len(t.elts))
                for j, e in enumerate(t.elts):
                    self.assign(e, self.getitem(st, v, C(j), n), st, n)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, n)

    def st_If(self, n, st):
        c = self.truth(st, self.eval(n.test, st))
        if st.dead:
            return
        self.branch(st, c, lambda s: self.exec_block(n.body, s), lambda s: self.exec_block(n.orelse, s))

    def branch(self, st, c, fa, fb):
        d = self.decide(st, c)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        a, b = st.fork(), st.fork()
        if self.add_fact(a, c):
            fa(a)
        if self.add_fact(b, lnot(c)):
            fb(b)
        if a.dead and b.dead:
            st.dead = True
            return
        if a.dead:
            st.become(b)
        elif b.dead:
            st.become(a)
        else:
            st.become(self.join(a, b))

    def st_With(self, n, st):
        self.with_items(n.items, n.body, st, n)

    def with_items(self, items, body, st, n):
        if not items:
            self.exec_block(body, st)
            return
        i = items[0]
        v = self.eval(i.context_expr, st)
        self.ev('enter', st, n, value=v)
        if i.optional_vars is not None:
            self.assign(i.optional_vars, v, st, n)
        self.with_items(items[1:], body, st, n)
        if not st.dead:
            self.snap(st)           # leaving may fail
            self.ev('exit', st, n, value=v)

    def st_Raise(self, n, st):
        if n.exc is None:
            cur = st.envs[-1].get('$exc', T('excvar', '?'))
            self.do_raise(st, self.exc_class(st, cur), cur, n, reraise=True)
            return
        v = self.eval(n.exc, st)
        cause = self.eval(n.cause, st) if n.cause is not None else None
        if v.op == 'cls' or (v.op == 'ext'):
            v2 = self.call(st, v, [], {}, n)
        else:
            v2 = v
        self.raise_value(st, v2, n, cause)

    def raise_value(self, st, v, n, cause):
        if v.op == 'ite' and self.exc_class(st, v).op == 'excclass':
            self.branch(st, v.args[0], lambda s: self.raise_value(s, v.args[1], n, cause), lambda s: self.raise_value(s, v.args[2], n, cause))
        else:
            self.do_raise(st, self.exc_class(st, v), v, n, cause=cause)

    def exc_class(self, st, v):
        o = self.obj(st, v)
        if o is not None and o.kind == 'inst':
            return T('cls', o.cls.qual)
        if v.op == 'excnew':
            return T('ext', 'builtins.' + v.args[0])
        if v.op == 'excvar':
            return T('excclass', v)
        if v.op == 'ite':
            a, b = self.exc_class(st, v.args[1]), self.exc_class(st, v.args[2])
            return a if a is b else T('excclass', v)
        if v.op == 'mcall' and v.args[1] == 'with_traceback':
            return self.exc_class(st, v.args[0])
        if v.op == 'call' and v.args[0].op == 'ext':
            return v.args[0]
        return T('excclass', v)

    def do_raise(self, st, cls, exc, n, cause=None, reraise=False):
        if st.dead:
            return
        self.ev('raise', st, n, cls=cls, exc=self.fz(st, exc), cause=cause, reraise=reraise)
        self.flows[-1].raises.append((st.fork(), exc))
        st.dead = True

    def catches(self, hcls, ecls):
        """True / False / None (unknown)"""
        if ecls.op in ('cls', 'ext'):
            if hcls.op == 'ext' and hcls.args[0] in ('builtins.Exception', 'builtins.BaseException'):
                if ecls.op == 'ext' and self.pyclass(ecls) is None:
                    return True
            return self.subclass(ecls, hcls)
        if ecls.op == 'excclass' and ecls.args[0].op == 'excvar':
            cl = ecls.args[0].args[1] if len(ecls.args[0].args) > 1 else ()
            if hcls.op == 'ext' and hcls.args[0] in ('builtins.Exception', 'builtins.BaseException'):
                return True
            rs = [self.catches(hcls, c) for c in cl]
            if rs and all(r is True for r in rs):
                return True
            if rs and all(r is False for r in rs) and not any(self.subclass(hcls, c) for c in cl):
                return False
        if hcls.op == 'ext' and hcls.args[0] in ('builtins.Exception', 'builtins.BaseException'):
            return True
        return None

    def st_Try(self, n, st):
        entry_pc = st.pc
        depth = len(st.envs)
        handlers = []
        for h in n.handlers:
            if h.type is None:
                cl = [T('ext', 'builtins.BaseException')]
            else:
                t = self.eval(h.type, st)
                if t.op == 'ref':
                    t = self.fz(st, t)
                cl = list(t.args) if t.op in ('tup', 'list') else [t]
            handlers.append((h, cl))
        allcls = tuple(c for _, cl in handlers for c in cl)
        flow = self.flows[-1]
        base = len(flow.raises)
        tr = Try(depth, allcls, [])
        if handlers:
            self.trys.append(tr)
        entry = st.fork()
        tr.snaps.append(entry)
        tr.last = st.ver
        body_ev0 = len(self.events)
        self.exec_block(n.body, st)
        if handlers:
            self.trys.pop()
        raised = flow.raises[base:]
        del flow.raises[base:]
        outs = []
        tid = self.tryid.setdefault(id(n), len(self.tryid) + 1)
        excfacts = []
        # which raises does each handler get
        remaining = raised
        for hi, (h, cl) in enumerate(handlers):
            got, rest = [], []
            for s, exc in remaining:
                ec = self.exc_class(s, exc)
                rs = [self.catches(c, ec) for c in cl]
                if any(r is True for r in rs):
                    got.append((s, exc))
                elif any(r is None for r in rs):
                    got.append((s.fork(), exc))
                    rest.append((s, exc))
                else:
                    rest.append((s, exc))
            remaining = rest
            implicit = self.valid is None and any(c.op != 'cls' for c in cl)
            entries = []
            names = tuple(cl)
            if implicit:
                s = self.havoc_join(tr, entry, tid)
                f = T('exc', tid, hi)
                s.pc = entry_pc + (f,)
                excfacts.append(f)
                s.ret = None
                self.hexc(s, h, T('excvar', '%d.%d' % (tid, hi), names))
                entries.append(s)
            if not (implicit and len(got) > 4):
                for s, exc in got:
                    s.envs = s.envs[:depth]
                    self.hexc(s, h, exc)
                    entries.append(s)
            hs = self.joinall(entries)
            if hs is None:
                continue
            self.ev('handler', hs, h, classes=names, implicit=implicit, explicit=len(got))
            self.exec_block(h.body, hs)
            if not hs.dead:
                if h.name:
                    hs.setvar(h.name, UNDEF)
                outs.append(hs)
        for s, exc in remaining:
            flow.raises.append((s, exc))
        if not st.dead:
            for f in excfacts:
                st.pc = st.pc + (lnot(f),)
            self.exec_block(n.orelse, st)
        res = self.joinall([st] + outs)
        if n.finalbody:
            # run the cleanup on the joined normal exit and on abnormal exits
            if res is not None:
                self.exec_block(n.finalbody, res)
            for lst in (flow.raises,):
                for s, exc in lst[base:]:
                    s.envs = s.envs[:depth]
                    self.exec_block(n.finalbody, s)
        if res is None or res.dead:
            st.dead = True
        else:
            st.become(res)

    st_TryStar = st_Try

    def hexc(self, s, h, exc):
        if h.name:
            s.setvar(h.name, exc)
        s.setvar('$exc', exc)

    def havoc_join(self, tr, entry, tid):
        """state at an unknown point of the try body"""
        snaps = tr.snaps
        s = entry.fork()
        s.envs = list(entry.envs[:tr.depth])
        for x in snaps:
            s.may = s.may | x.may
        for d in range(tr.depth):
            e0 = entry.envs[d]
            names = set()
            for x in snaps:
                if x.envs[d] is not e0:
                    for k, v in x.envs[d].items():
                        if e0.get(k, UNDEF) is not v:
                            names.add(k)
            if names:
                e = dict(e0)
                for k in sorted(names):
                    e[k] = T('tryval', tid, k)
                s.envs[d] = e
        oids = []
        for x in snaps:
            for oid, o in x.heap.items():
                if oid in oids:
                    continue
                if entry.heap.get(oid, self.gheap.get(oid) if not isinstance(oid, T) else None) is not o:
                    oids.append(oid)
        for oid in oids:
            o0 = entry.heap.get(oid, self.gheap.get(oid) if not isinstance(oid, T) else None)
            vs = []
            for x in snaps:
                v = x.heap.get(oid)
                if v is not None and v not in vs:
                    vs.append(v)
            if o0 is None and not isinstance(oid, T):
                continue            # made in the body: nothing that is known here refers to it
            if o0 is None:
                o0 = Obj('map', (), base=oid, attrs={}, origin=('ext',))
            last = vs[-1]
            if last.kind == 'inst':
                at = dict(o0.attrs)
                for v in vs:
                    for k, w in v.attrs.items():
                        if at.get(k) is not w and not any(q is not v and False for q in vs):
                            if o0.attrs.get(k) is not w:
                                at[k] = T('tryval', tid, 'o.' + k)
                s.heap[oid] = o0.w(attrs=at)
            else:
                s.heap[oid] = o0.w(segs=o0.segs + (T('splat', T('tryval', tid, 'segs%s' % (oid if not isinstance(oid, T) else ''))),))
        s.ver = newver()
        return s

    # ------------------------------------------------------------ loops
    def st_For(self, n, st):
        it = self.eval(n.iter, st)
        if st.dead:
            return
        flow = self.flows[-1]

        def body(s, v):
            self.assign(n.target, v, s, n)
            self.exec_block(n.body, s)
        brks = self.iterate(st, it, body, n)
        if n.orelse and not st.dead:
            self.exec_block(n.orelse, st)
        r = self.joinall([st] + brks)
        if r is None:
            st.dead = True
        else:
            st.become(r)

    def st_While(self, n, st):
        info = {}

        def body(s, v=None):
            c = self.truth(s, self.eval(n.test, s))
            info['test'] = c
            if not self.add_fact(s, c):
                return
            self.exec_block(n.body, s)

        def after(s):
            return self.truth(s, self.eval(n.test, s))
        brks = self.symloop(st, None, TRUE, body, n, after=after)
        if n.orelse and not st.dead:
            self.exec_block(n.orelse, st)
        r = self.joinall(([] if st.dead else [st]) + brks)
        if r is None:
            st.dead = True
        else:
            st.become(r)

    UNROLL = 400

    def plan(self, st, it):
        """list of ('one', v) | ('many', I, guard, v) | ('g', cond, v)"""
        if self.valid is not None and self.valid.empty(it):
            return []
        if it.op == 'item' and it.args[1].op == 'slice' and it.args[1].args == (NONE, NONE, C(-1)):
            it = T('rev', it.args[0])       # walked backwards, copied or not
        if it.op == 'tup':
            return [('one', x) for x in it.args]
        if it.op == 'nt':
            return [('one', x) for x in it.args[2]]
        if it.op == 'c' and isinstance(cv(it), (str, bytes, tuple)):
            return [('one', C(x)) for x in cv(it)]
        if it.op == 'setc':
            return [('one', x) for x in sorted(it.args, key=lambda x: repr(x))]
        if it.op == 'range' and all(a.op == 'c' for a in it.args):
            r = range(*[cv(a) for a in it.args])
            if len(r) <= self.UNROLL:
                return [('one', C(i)) for i in r]
        if it.op == 'range' and len(it.args) == 2 and is_c(it.args[0], 0) and it.args[1].op == 'len':
            X = it.args[1].args[0]
            return [('many', X, TRUE, idx(X))]
        if it.op == 'enumerate':
            start = it.args[1]
            out = []
            i = start
            pl = self.plan(st, it.args[0])
            for j, p in enumerate(pl):
                if p[0] == 'one':
                    out.append(('one', T('tup', i, p[1])))
                    i = add(i, C(1))
                elif p[0] == 'many' and len(pl) == 1 and is_c(p[2], True):
                    ix = add(idx(p[1]), start)
                    out.append(('many', p[1], p[2], T('tup', ix, p[3])))
                else:
                    self.n += 1
                    out.append((p[0], p[1], p[2], T('tup', T('rank', self.n), p[3])) if p[0] == 'many' else
                               (p[0], p[1], T('tup', T('rank', self.n), p[2])))
            return out
        if it.op == 'zip':
            pls = [self.plan(st, a) for a in it.args]
            if all(all(p[0] == 'one' for p in pl) for pl in pls):
                return [('one', T('tup', *[p[1] for p in row])) for row in zip(*pls)]
            vs = []
            main = None
            for a, pl in zip(it.args, pls):
                if len(pl) == 1 and pl[0][0] == 'many' and main is None:
                    main = pl[0]
            if main is None:
                z = T('zip', *[self.fz(st, a) for a in it.args])
                return [('many', z, TRUE, T('tup', *[item(elem(z), C(i)) for i in range(len(it.args))]))]
            ix = idx(main[1])
            for a, pl in zip(it.args, pls):
                if len(pl) == 1 and pl[0][0] == 'many' and pl[0][1] is main[1]:
                    vs.append(pl[0][3])
                else:
                    fa = self.fz(st, a)
                    if fa.op == 'range' and is_c(fa.args[0], 0) and len(fa.args) == 2:
                        vs.append(ix)
                    elif len(pl) == 1 and pl[0][0] == 'many' and is_c(pl[0][2], True):
                        vs.append(subst(pl[0][3], {elem(pl[0][1]): item(pl[0][1], ix), idx(pl[0][1]): ix}))
                    else:
                        vs.append(item(fa, ix))
            return [('many', main[1], main[2], T('tup', *vs))]
        if it.op in ('items', 'values', 'keys'):
            d = it.args[0]
            o = self.obj(st, d)
            if o is not None and o.kind == 'dict':
                out = []
                eff = self.effective(o.segs)
                home = d if len(eff) == 1 else None
                for s in eff:
                    out.extend(self.planseg(st, s, it.op, home))
                return out
            I = self.fz(st, d)
            if I.op == 'dict':
                out = []
                for s in I.args:
                    out.extend(self.planseg(st, s, it.op))
                return out
            I0 = I
            I = keyroot(I)
            e = elem(I)
            v = {'keys': e, 'values': item(I0, e), 'items': T('tup', e, item(I0, e))}[it.op]
            if o is None and it.op != 'keys':
                w = self.getitem(st, d, e, None)
                v = {'values': w, 'items': T('tup', e, w)}[it.op]
            return [('many', I, TRUE, v)]
        if it.op == 'sorted' and it.args[0].op == 'items':
            d = self.fz(st, it.args[0].args[0])
            I = T('sorted', d)
            return [('many', I, TRUE, T('tup', elem(I), item(d, elem(I))))]
        if it.op == 'ite':
            a, b = it.args[1], it.args[2]
            oa, ob = self.obj(st, a), self.obj(st, b)
            if (oa is not None or a.op in ('tup', 'list')) or (ob is not None or b.op in ('tup', 'list')):
                out = []
                for g, x in ((it.args[0], a), (lnot(it.args[0]), b)):
                    for p in self.plan(st, x):
                        if p[0] == 'one':
                            out.append(('g', g, p[1]))
                        elif p[0] == 'g':
                            out.append(('g', land(g, p[1]), p[2]))
                        else:
                            out.append(('many', p[1], land(g, p[2]), p[3]))
                return out
        o = self.obj(st, it)
        if o is not None and o.kind in ('list', 'deque', 'set'):
            out = []
            for s in o.segs:
                out.extend(self.planseg(st, s, None))
            return out
        if o is not None and o.kind == 'dict':
            out = []
            for s in self.effective(o.segs):
                out.extend(self.planseg(st, s, 'keys'))
            return out
        I = self.fz(st, it)
        if I is not it and I.op in ('list', 'tup', 'setc', 'range', 'ite', 'dict') and I.op != it.op:
            if I.op in ('list',):
                out = []
                for s in I.args:
                    out.extend(self.planseg(st, s, None))
                return out
            if I.op == 'dict':
                out = []
                for s in I.args:
                    out.extend(self.planseg(st, s, 'keys'))
                return out
            if I.op != 'ite':
                return self.plan(st, I)
        if it.op == 'list':
            out = []
            for s in it.args:
                out.extend(self.planseg(st, s, None))
            return out
        if it.op == 'dict':
            out = []
            for s in it.args:
                out.extend(self.planseg(st, s, 'keys'))
            return out
        if I.op == 'keys':
            I = I.args[0]
        if I.op == 'setof':
            I = I.args[0]
        v = elem(I)
        I = keyroot(I)
        if I.op == 'items':
            d = I.args[0]
            I = d
            v = T('tup', elem(d), item(d, elem(d)))
        elif I.op == 'values':
            d = I.args[0]
            I = d
            v = item(d, elem(d))
        return [('many', I, TRUE, v)]

    def effective(self, segs):
        """dict entries with overwritten constant keys dropped (order kept)"""
        if all(s.op == 'kv' and s.args[0].op in CONSTY for s in segs):
            d = {}
            for s in segs:
                d[s.args[0]] = s
            return tuple(d.values())
        return segs

    def planseg(self, st, s, mode, home=None):
        def pick(kv):
            if mode is None or kv.op != 'kv':
                return kv
            if home is not None and mode != 'keys' and s.op == 'many':
                kv = T('kv', kv.args[0], self.cell(st, home, kv.args[0], kv.args[1]))
            return {'keys': kv.args[0], 'values': kv.args[1], 'items': T('tup', *kv.args)}[mode]
        if s.op == 'many':
            return [('many', s.args[0], s.args[1], pick(s.args[2]))]
        if s.op == 'g':
            if s.args[1].op == 'many':
                m = s.args[1]
                return [('many', m.args[0], land(m.args[1], s.args[0]), pick(m.args[2]))]
            if s.args[1].op == 'splat':
                return [('many', p[1], land(s.args[0], p[2]), p[3]) if p[0] == 'many' else
                        ('g', s.args[0], p[1]) if p[0] == 'one' else ('g', land(s.args[0], p[1]), p[2])
                        for p in self.planseg(st, s.args[1], mode)]
            return [('g', s.args[0], pick(s.args[1]))]
        if s.op == 'splat':
            x = s.args[0]
            if mode is None:
                return self.plan(st, x)
            return self.plan(st, T(mode, x))
        if s.op == 'lvseg':
            I = T('lvit', s.args[0], s.args[1])
            e = elem(I)
            if mode is None or mode == 'keys':
                return [('many', I, TRUE, e)]
            return [('many', I, TRUE, {'values': item(I, e), 'items': T('tup', e, item(I, e))}[mode])]
        if s.op == 'del':
            return []
        return [('one', pick(s))]

    def iterate(self, st, it, body, n):
        """run body(state, value) for every element; returns break states"""
        it = self.simp(st, it)
        return self.iterate_plan(st, self.plan(st, it), body, n)

    def iterate_plan(self, st, pl, body, n):
        brks = []
        for p in [p for q in pl for p in self.peeled(q, n)]:
            if st.dead:
                break
            if p[0] in ('one', 'g'):
                flow = self.flows[-1]
                b0, c0 = len(flow.brks), len(flow.conts)
                if p[0] == 'one':
                    body(st, p[1])
                else:
                    self.branch(st, p[1], lambda s: body(s, p[2]), lambda s: None)
                conts = flow.conts[c0:]
                bs = flow.brks[b0:]
                del flow.conts[c0:]
                del flow.brks[b0:]
                brks.extend(bs)
                r = self.joinall([st] + conts)
                if r is None:
                    st.dead = True
                else:
                    st.become(r)
            else:
                I = p[1]
                v = p[3]
                act = [l[1] for l in self.loops]
                if I in act:
                    J = T('again', I, act.count(I))
                    v = subst(v, {elem(I): T('elem', J), idx(I): T('idx', J)})
                    g = subst(p[2], {elem(I): T('elem', J), idx(I): T('idx', J)})
                    I = J
                else:
                    g = p[2]
                if v.op in ('many', 'g', 'seq', 'splat'):
                    # an element that stands for a run of elements
                    parts = [x for y in (v.args if v.op == 'seq' else (v,)) for x in self.planseg(st, y, None)]
                    brks.extend(self.symloop(st, I, g, lambda s: self.iterate_plan(s, parts, body, n), n))
                else:
                    brks.extend(self.symloop(st, I, g, lambda s: body(s, v), n))
        return brks

    def peeled(self, p, n):
        """the first pass of a loop on its own"""
        if self.valid is None or p[0] != 'many' or not isinstance(n, ast.For) or not is_c(p[2], True) or not self.valid.peel(p[1]) \
                or p[1] in [l[1] for l in self.loops] or p[3].op in ('many', 'g', 'seq', 'splat'):
            return [p]
        first = subst(p[3], {elem(p[1]): item(p[1], C(0)), idx(p[1]): C(0)})
        return [('one', first), ('many', p[1], lnot(eq(idx(p[1]), C(0))), p[3])]

    def constkeys(self, o):
        return o is not None and o.kind == 'dict' and bool(o.segs) and all(x.op == 'kv' and x.args[0].op == 'c' for x in o.segs)

    def changed(self, entry, states):
        locs = []

        def note(l):
            if l not in locs:
                locs.append(l)
        for s in states:
            if s is None:
                continue
            for d in range(len(entry.envs)):
                if s.envs[d] is entry.envs[d]:
                    continue
                for k, v in s.envs[d].items():
                    if k.startswith('$'):
                        continue
                    if entry.envs[d].get(k) is not v:
                        note(('v', d, k))
            for oid, o in s.heap.items():
                o0 = entry.heap.get(oid)
                if o0 is None:
                    if isinstance(oid, T):
                        if oid.op == 'cell' and oid.args[0].op == 'ref' and self.obj(entry, oid.args[0]) is None:
                            continue
                        o0 = self.oobj(entry, oid)
                    elif oid in self.gheap:
                        o0 = self.gheap[oid]
                    else:
                        continue
                if o is o0:
                    continue
                if o.kind == 'inst':
                    for k, v in o.attrs.items():
                        if o0.attrs.get(k) is not v:
                            note(('a', oid, k))
                else:
                    if o.segs != o0.segs or o.base is not o0.base:
                        note(('o', oid))
                    for k, v in (o.attrs or {}).items():
                        if (o0.attrs or {}).get(k) is not v:
                            note(('a', oid, k))
        return locs

    def symloop(self, st, I, guard, body, n, after=None):
        self.n += 1
        key = (id(n), tuple(f.fn.qual for f in self.frames))
        lid = self.n
        is_while = I is None
        if is_while:
            I = T('while', lid)
        entry = st.fork()
        flow = self.flows[-1]
        ev0, r0, x0, b0, c0 = len(self.events), len(flow.rets), len(flow.raises), len(flow.brks), len(flow.conts)
        trs = [len(t.snaps) for t in self.trys]
        locs = []
        lv = {}
        bykey = {}
        for attempt in range(6):
            del self.events[ev0:]
            del flow.rets[r0:]
            del flow.raises[x0:]
            del flow.brks[b0:]
            del flow.conts[c0:]
            for t, k in zip(self.trys, trs):
                del t.snaps[k:]
                t.last = None
            s = entry.fork()
            for l in locs:
                if l[0] != 'v' and self.ownplace(entry, l[1], I):
                    continue        # another place in every iteration
                if l[0] == 'v':
                    lv[l] = T('lv', lid, l[2])
                    s.setvar(l[2], lv[l], l[1])
                elif l[0] == 'a':
                    lv[l] = T('lv', lid, '%s.%s' % (l[1] if not isinstance(l[1], T) else l[1].id, l[2]))
                    o = self.oobj(s, l[1])
                    s.heap[l[1]] = o.w(attrs={**(o.attrs or {}), l[2]: lv[l]})
                else:
                    lv[l] = T('lvseg', lid, l[1] if not isinstance(l[1], T) else l[1].id)
                    o = self.oobj(s, l[1])
                    if self.valid is not None and not isinstance(l[1], T) and bykey.get(l[1]) != 0 and self.constkeys(o):
                        bykey[l[1]] = {x.args[0]: T('lv', lid, '%s[%s]' % (l[1], x.args[0])) for x in o.segs}
                        s.heap[l[1]] = o.w(segs=tuple(T('kv', x.args[0], bykey[l[1]][x.args[0]]) for x in o.segs))
                    else:
                        s.heap[l[1]] = o.w(segs=(lv[l],))
            s.ver = newver()
            self.loops.append((lid, I, guard))
            for l in self.loops:
                LOOPLV.setdefault(l[1], set()).add(lid)
            if self.add_fact(s, guard):
                body(s)
            self.loops.pop()
            conts = flow.conts[c0:]
            bs = flow.brks[b0:]
            E = self.joinall([s] + conts)
            new = [l for l in self.changed(entry, [E] + bs) if l not in locs]
            for oid in [k for k in bykey if bykey[k]]:
                if E is not None and (not self.constkeys(E.heap.get(oid)) or [x.args[0] for x in E.heap[oid].segs] != list(bykey[oid])) or bs:
                    bykey[oid] = 0
                    new = new or [None]
            # drop temporaries whose head value is undefined
            if not new:
                break
            locs = locs + [l for l in new if l is not None]
        conts = flow.conts[c0:]
        brks = flow.brks[b0:]
        del flow.conts[c0:]
        del flow.brks[b0:]
        info = {'lid': lid, 'I': I, 'guard': guard, 'while': is_while, 'node': n, 'locs': {},
                'func': self.frames[-1].fn.qual, 'line': getattr(n, 'lineno', 0),
                'pc': entry.pc, 'endpc': E.pc if E is not None else None, 'loops': tuple(self.loops)}
        self.loopinfo[lid] = info
        keep = set(entry.heap) | set(self.gheap)
        res = entry.fork()
        res.ver = newver()
        lvs = set(lv.values()) | {x for d in bykey.values() if d for x in d.values()}
        exitmap = {}
        if E is not None:
            for oid, o in E.heap.items():
                if oid not in res.heap and not isinstance(oid, T) and oid not in self.gheap:
                    res.heap[oid] = o
            res.may = E.may
            self.fold_places(E, entry, res, [l[1] for l in locs if l not in lv], I, guard, brks, lid)
            for l in locs:
                if l not in lv:
                    continue
                L = lv[l]
                if l[0] == 'v':
                    init = entry.envs[l[1]].get(l[2], UNDEF)
                    V = E.envs[l[1]].get(l[2], UNDEF)
                    r = self.close(E, entry, L, init, V, I, guard, lvs, keep, is_while, lid, res)
                    info['locs'][l[2]] = (init, L, V, r)
                    exitmap[L] = r
                    res.setvar(l[2], r, l[1])
                elif l[0] == 'a':
                    o0 = self.oobj(entry, l[1])
                    init = (o0.attrs or {}).get(l[2])
                    if init is None:
                        init = T('attr', o0.base, l[2]) if o0.base is not None else UNDEF
                    V = E.heap[l[1]].attrs.get(l[2], UNDEF)
                    r = self.close(E, entry, L, init, V, I, guard, lvs, keep, is_while, lid, res)
                    info['locs']['%s.%s' % (o0.cls.name if o0.cls else '', l[2])] = (init, L, V, r)
                    exitmap[L] = r
                    o = res.heap.get(l[1]) or o0
                    res.heap[l[1]] = o.w(attrs={**(o.attrs or {}), l[2]: r})
                elif bykey.get(l[1]):
                    o0, oe = self.oobj(entry, l[1]), E.heap[l[1]]
                    segs = tuple(T('kv', x.args[0], self.close(E, entry, bykey[l[1]][x.args[0]], x.args[1], y.args[1], I, guard, lvs, keep, is_while, lid, res))
                                 for x, y in zip(o0.segs, oe.segs))
                    o = res.heap.get(l[1]) or o0
                    res.heap[l[1]] = o.w(segs=segs)
                else:
                    o0 = self.oobj(entry, l[1])
                    oe = E.heap[l[1]]
                    segs, base = self.close_segs(E, o0, oe, L, I, guard, lvs, keep, lid)
                    o = res.heap.get(l[1]) or o0
                    res.heap[l[1]] = o.w(segs=segs, base=base)
                    info['locs'][l] = (o0.segs, L, oe.segs, segs)
            # facts established by every iteration
            extra = [f for f in E.pc if f not in entry.pc and f not in (guard.args if guard.op == 'and' else (guard,))]
            extra = [f for f in extra if not any(x in lvs for x in subterms(f))]
            if extra and not is_while and not brks:
                f = allover(I, lor(lnot(guard), land(*extra)))
                self.add_fact(res, f)
        else:
            # the body never completes normally
            res.may = entry.may
            if not is_while and not brks:
                f = allover(I, lnot(guard))
                self.add_fact(res, f)
            for l in locs:
                if l in lv:
                    exitmap[lv[l]] = lv[l]
        if is_while:
            for l in locs:
                pass
            c = after(res) if after else FALSE
            if is_c(c, True):
                res.dead = True
            else:
                self.add_fact(res, lnot(c))
            info['exit'] = c
        # exits from inside the loop happened in some iteration
        def lift(s):
            ex = [f for f in s.pc if f not in entry.pc]
            base = tuple(f for f in s.pc if f in entry.pc)
            cond = land(*ex) if ex else TRUE
            s.pc = base + ((anyover(I, cond),) if not is_c(cond, True) else ())
        for s in flow.rets[r0:]:
            lift(s)
            if s.ret is not None:
                s.ret = self.fz(s, s.ret, keep) if s.ret.op == 'ref' and s.ret.args[0] not in keep and False else s.ret
        for s, exc in flow.raises[x0:]:
            lift(s)
        for s in brks:
            lift(s)
            if lvs:
                m = {L: T('lvx', *L.args) for L in lvs if L.op == 'lv'}
                for d in range(len(s.envs)):
                    if s.envs[d] is not entry.envs[d]:
                        s.envs[d] = {k: subst(v, m) for k, v in s.envs[d].items()}
        st.become(res)
        return brks

    def ownplace(self, entry, oid, I):
        """a place inside a collection that differs from iteration to iteration"""
        if not isinstance(oid, T) or oid.op not in ('cell', 'item'):
            return False
        p, k = oid.args
        e, i = elem(I), idx(I)
        if not any(x is e or x is i for x in subterms(oid)):
            return False
        if any(x is e or x is i for x in subterms(p)):
            return k.op == 'c' and self.ownplace(entry, p, I)
        if k is e or k is i:
            return True
        o = self.obj(entry, p)
        return o is not None and o.kind in ('dict', 'map') and any(s.op == 'many' and s.args[0] is I and s.args[2].op == 'kv' and s.args[2].args[0] is k for s in o.segs)

    def fold_places(self, E, entry, res, oids, I, guard, brks, lid):
        """what a pass did to the members of a collection, written back to the collection"""
        oids = list(dict.fromkeys(oids))
        depth = lambda t: 1 + depth(t.args[0]) if isinstance(t, T) and t.op in ('cell', 'item') else 0
        for oid in sorted(oids, key=depth, reverse=True):
            p, k = oid.args
            if oid not in E.heap:
                continue
            v = self.fz(E, oid)
            E.heap = dict(E.heap)
            del E.heap[oid]
            E.ver = newver()
            if self.ownplace(entry, p, I):
                self.dict_set(E, p, self.oobj(E, p), k, v)
                if p not in oids:
                    o = self.oobj(res, p)
                    self.fold_places(E, entry, res, [p], I, guard, brks, lid)
                continue
            o = self.obj(res, p) or Obj('map', (), base=p, attrs={}, origin=('ext',))
            if brks:
                segs = o.segs + (T('splat', T('lvx', lid, 'segs')),)
            else:
                segs = self.overlay(o.segs, I, guard, k, v)
            res.heap.pop(oid, None)
            self.put(res, p, o.w(segs=segs))

    def overlay(self, segs, I, guard, k, v):
        segs = list(segs)
        for j in range(len(segs) - 1, -1, -1):
            s = segs[j]
            if s.op == 'many' and s.args[0] is I and s.args[2].op == 'kv' and s.args[2].args[0] is k:
                g = s.args[1]
                if g is guard or is_c(guard, True):
                    segs[j] = T('many', I, g if g is guard else TRUE, T('kv', k, v))
                    return tuple(segs)
                if is_c(g, True):
                    segs[j] = T('many', I, TRUE, T('kv', k, ite(guard, v, s.args[2].args[1])))
                    return tuple(segs)
                break
            if s.op not in ('many', 'kv'):
                break
        return tuple(segs) + (T('many', I, guard, T('kv', k, v)),)

    def close(self, E, entry, L, init, V, I, guard, lvs, keep, is_while, lid, res):
        if V is L:
            return init
        Vf = V
        o = self.obj(E, V)
        if V.op == 'ref' and V.args[0] not in keep:
            if o.kind in ('list', 'bytearray') and o.segs and o.segs[0].op == 'splat' and o.segs[0].args[0] is L:
                # x = x + [..]
                segs = tuple(self.fz(E, s, keep) for s in o.segs[1:])
                if not any(x in lvs for s in segs for x in subterms(s)) and not is_while:
                    r = self.alloc(res, o.kind, (T('splat', init),) + self.manysegs(I, guard, segs))
                    io = self.obj(entry, init)
                    if io is not None and io.kind == o.kind:
                        self.put(res, r, self.obj(res, r).w(segs=io.segs + self.manysegs(I, guard, segs)))
                    return r
            Vf = self.fz(E, V, keep)
            if not (L in subterms(Vf)):
                return T('last', I, Vf, init) if not is_while else T('lvx', *L.args)
        else:
            Vf = self.fz(E, V, keep) if V.op != 'ref' else V
        if L not in subterms(Vf):
            if any(x in lvs for x in subterms(Vf)):
                return T('lvx', *L.args)
            # same value in every iteration
            if is_while:
                return T('lvx', *L.args)
            dep = any(x.op in ('elem', 'idx', 'lv') for x in subterms(Vf) if x.op == 'lv' or x.args and x.args[0] is I) or guard is not TRUE
            if is_bool(Vf) and init.op == 'c' and isinstance(cv(init), bool):
                pass
            return T('last', I, Vf, init)
        if self.valid is not None and Vf.op == 'ite' and T('len', L) in subterms(Vf):
            # the number of dimensions, when every value it can have has as many
            n = self.valid.ndim(init)
            if n and all(x is L or self.valid.ndim(x) == n for x in Vf.args[1:]):
                Vf = subst(Vf, {T('len', L): C(n)})
                if L not in subterms(Vf):
                    return T('last', I, Vf, init)
        r = self.fold(L, Vf, I, guard, lvs)
        if r is None:
            return T('lvx', *L.args)
        kind, e = r
        if is_while:
            return T('lvx', *L.args)
        fi = self.fz(entry, init)
        if kind == 'same':
            return init
        if kind == 'sum':
            return add(init, sumover(I, guard, e))
        if kind == 'bytes':
            return cat(init, manyb(I, guard, e))
        if kind == 'prod':
            p = prodover(I, guard, e)
            return mul(init, p)
        if kind in ('maxdims', 'mindims'):
            return T(kind, I, guard, e, init)
        if kind == 'max':
            return max2(init, T('maxover', I, guard, e)) if not (is_c(init, None) or is_c(init, 0)) else T('maxover', I, guard, e)
        if kind == 'min':
            return min2(init, T('minover', I, guard, e))
        if kind == 'or':
            return lor(init, anyover(I, land(guard, e)))
        if kind == 'and':
            return land(init, allover(I, lor(lnot(guard), e)))
        if kind == 'union':
            return union(fi, unionover(I, guard, e))
        if kind == 'last':
            return T('last', I, e, init)
        if kind == 'lastif':
            return T('lastif', I, land(guard, e[0]), e[1], init)
        return T('lvx', *L.args)

    IDENT = {'sum': C(0), 'bytes': C(b''), 'or': FALSE, 'and': TRUE, 'union': T('setc'), 'prod': C(1)}

    def fold(self, L, V, I, guard, lvs):
        """(kind, contribution) when V = L op contribution"""
        free = lambda e: not any(x in lvs for x in subterms(e))
        if V.op == 'lin':
            d = dict(V.args[1])
            if d.get(L) == 1:
                e = sub(V, L)
                if free(e):
                    return 'sum', e
        if V.op == 'add' and V.args[0] is L and free(V.args[1]):
            return 'sum', V.args[1]
        if V.op == 'cat' and V.args[0] is L:
            e = cat(*V.args[1:])
            if free(e):
                return 'bytes', e
        if V.op == 'prod' and V.args[0].count(L) == 1:
            e = C(1)
            for f in V.args[0]:
                if f is not L:
                    e = mul(e, f)
            if free(e):
                return 'prod', e
        if V.op in ('max2', 'min2') and L in V.args:
            e = V.args[0] if V.args[1] is L else V.args[1]
            if free(e):
                return V.op[:3], e
        if V.op == 'or' and L in V.args:
            e = lor(*[x for x in V.args if x is not L])
            if free(e):
                return 'or', e
        if V.op == 'and' and L in V.args:
            e = land(*[x for x in V.args if x is not L])
            if free(e):
                return 'and', e
        if V.op == 'union':
            for x in V.args:
                if x is T('setof', L) or x is L:
                    e = union(*[y for y in V.args if y is not x])
                    if free(e):
                        return 'union', e
        x = V
        while x.op in ('tupof', 'listof') or x.op in ('list', 'tup') and len(x.args) == 1:
            x = x.args[0]
        if x.op == 'many' and is_c(x.args[1], True) and x.args[2].op in ('max2', 'min2') and x is not V:
            J, _, m = x.args
            for p, q in (m.args, m.args[::-1]):
                if J is L and p is elem(L) and q.op == 'item' and q.args[1] is idx(L) and free(q.args[0]):
                    return m.op[:3] + 'dims', q.args[0]
                if p.op == 'item' and p.args[0] is L and p.args[1] is idx(J) and q is elem(J) and free(J):
                    return m.op[:3] + 'dims', J
        if self.valid is not None and x is not V and (x is L or x.op == 'splat' and x.args[0] is L):
            return 'same', None
        if self.valid is not None and x.op == 'many' and is_c(x.args[1], True) and x is not V and x.args[2].op in ('elem', 'item'):
            # dimensions taken over one by one, of the one or of the other
            J, _, m = x.args
            if m is elem(L) and J is L:
                return 'same', None
            if m.op == 'item' and m.args[1] is idx(L) and J is L and free(m.args[0]):
                return 'last', m.args[0]
        if V.op == 'ite':
            c, a, b = V.args
            if not free(c):
                # if L < e: L = e
                return None
            fa = ('id', None) if a is L else self.fold(L, a, I, guard, lvs)
            fb = ('id', None) if b is L else self.fold(L, b, I, guard, lvs)
            if fa is None and L not in subterms(a) and free(a) and fb and fb[0] == 'id':
                if is_bool(a):
                    if is_c(a, False):
                        return 'and', lnot(c)
                    if is_c(a, True):
                        return 'or', c
                    return None
                return 'lastif', (c, a)
            if fb is None and L not in subterms(b) and free(b) and fa and fa[0] == 'id':
                if is_c(b, False):
                    return 'and', c
                if is_c(b, True):
                    return 'or', lnot(c)
                return None if is_bool(b) else ('lastif', (lnot(c), b))
            if fa is None or fb is None:
                return None
            k = fa[0] if fa[0] != 'id' else fb[0]
            if k == 'id' or (fa[0] not in ('id', k)) or (fb[0] not in ('id', k)):
                return None
            if k in self.IDENT:
                ident = self.IDENT[k]
                return k, ite(c, fa[1] if fa[0] != 'id' else ident, fb[1] if fb[0] != 'id' else ident)
            if k == 'lastif':
                ca, va = fa[1] if fa[0] == k else (FALSE, None)
                cb, vb = fb[1] if fb[0] == k else (FALSE, None)
                return k, (lor(land(c, ca), land(lnot(c), cb)), va if vb is None else vb if va is None else ite(c, va, vb))
            if k in ('max', 'min'):
                return k, ite(c, fa[1] if fa[0] != 'id' else T('none'), fb[1] if fb[0] != 'id' else T('none'))
        return None

    def manysegs(self, I, guard, segs):
        out = []
        if len(segs) > 1 and not all(s.op in ('kv',) for s in segs):
            return (T('many', I, guard, T('seq', *segs)),)
        for s in segs:
            if s.op == 'g':
                out.append(T('many', I, land(guard, s.args[0]), s.args[1]))
            else:
                out.append(T('many', I, guard, s))
        return tuple(out)

    def close_segs(self, E, o0, oe, L, I, guard, lvs, keep, lid):
        base = oe.base if oe.base is o0.base else self.fz(E, oe.base, keep) if oe.base is not None else None
        if oe.segs and oe.segs[0] is L:
            new = tuple(self.fz(E, s, keep) for s in oe.segs[1:])
            if not any(x is L for s in new for x in subterms(s)):
                if oe.kind == 'bytearray' and len(new) > 1:
                    new = (self.bytes_of(new),)
                if oe.kind in ('dict', 'map'):
                    segs = ()
                    for s in new:
                        segs += self.manysegs(I, guard, (s,))
                    if not o0.segs and len(segs) == 1 and I.op == 'sorted' and segs[0] is T('many', I, TRUE, T('kv', elem(I), item(I.args[0], elem(I)))):
                        segs = (T('splat', T('sorted', T('items', I.args[0]))),)        # d[k] = D[k] for k in sorted(D)
                    return o0.segs + segs, base
                return o0.segs + self.manysegs(I, guard, new), base
        if L not in oe.segs and not any(L in subterms(s) for s in oe.segs):
            # rebuilt in every iteration
            return (T('splat', T('last', I, self.mklist(tuple(self.fz(E, s, keep) for s in oe.segs)), self.mklist(o0.segs))),), base
        return (T('splat', T('lvx', lid, 'segs')),), base

    # ------------------------------------------------------------ expressions
    def eval(self, n, st):
        if st.dead:
            return UNDEF
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            self.warn.append('expression %s' % type(n).__name__)
            self.n += 1
            return T('unk', self.n)
        return m(n, st)

    def ex_Constant(self, n, st):
        return C(n.value)

    def ex_Name(self, n, st):
        name = n.id
        fr = self.frames[-1]
        v = None
        if name not in fr.globals_decl:
            v = st.envs[-1].get(name)
            if v is None and name in fr.nonlocal_decl:
                for d in range(len(st.envs) - 2, -1, -1):
                    if name in st.envs[d]:
                        v = st.envs[d][name]
                        break
            if v is None and fr.fn is not None and fr.fn.closure:
                v = fr.fn.closure.get(name)
        if v is None:
            if getattr(fr, 'isclass', False) and len(st.envs) >= 2:
                v = self.modns[fr.module].get(name)
            else:
                v = self.modns[fr.module].get(name)
        if v is None:
            if hasattr(builtins, name):
                return T('ext', 'builtins.' + name)
            self.ev('undef', st, n, name=name)
            return T('undefname', name)
        v = self.simp(st, v)
        if v is UNDEF or (v.op == 'ite' and UNDEF in (v.args[1], v.args[2])):
            self.ev('undef' if v is UNDEF else 'maybe_undef', st, n, name=name)
        return v

    def mangle(self, name):
        return name                 # done once, on the syntax tree

    def ex_Attribute(self, n, st):
        b = self.eval(n.value, st)
        return self.getattr(st, b, self.mangle(n.attr), n)

    def ex_Subscript(self, n, st):
        b = self.eval(n.value, st)
        k = self.eval(n.slice, st)
        return self.getitem(st, b, k, n)

    def ex_Slice(self, n, st):
        a = [self.fz(st, self.eval(x, st)) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
        return self.mkslice(*a)

    def mkslice(self, a, b, c):
        if is_c(c, 1):
            c = NONE
        return T('slice', a, b, c)

    def ex_Tuple(self, n, st):
        vs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                pl = self.plan(st, v)
                if all(p[0] == 'one' for p in pl):
                    vs.extend(p[1] for p in pl)
                else:
                    vs.append(T('splat', self.fz(st, v)))
            else:
                vs.append(self.eval(e, st))
        return T('tup', *vs)

    def ex_List(self, n, st):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs.extend(self.segs_of(st, self.eval(e.value, st)))
            else:
                segs.append(self.eval(e, st))
        return self.alloc(st, 'list', segs)

    def ex_Set(self, n, st):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs.extend(self.segs_of(st, self.eval(e.value, st)))
            else:
                segs.append(self.eval(e, st))
        return self.alloc(st, 'set', segs)

    def ex_Dict(self, n, st):
        segs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                segs.extend(self.dictsegs_of(st, self.eval(v, st)))
            else:
                kk = self.fz(st, self.eval(k, st))
                vv = self.eval(v, st)
                dup = [i for i, s in enumerate(segs) if s.op == 'kv' and s.args[0] is kk]
                if dup:
                    self.ev('dupkey', st, n, key=kk)
                    segs[dup[0]] = T('kv', kk, vv)
                else:
                    segs.append(T('kv', kk, vv))
        return self.alloc(st, 'dict', segs)

    def segs_of(self, st, v):
        """segments contributed by splicing an iterable"""
        v = self.simp(st, v)
        out = []
        for p in self.plan(st, v):
            if p[0] == 'one':
                out.append(p[1])
            elif p[0] == 'g':
                out.append(T('g', p[1], p[2]))
            elif is_c(p[2], True) and p[3] is elem(p[1]):
                out.append(T('splat', v if v.op not in ('ref', 'keys', 'items', 'values') and p[1].op in ('sorted', 'setof') else p[1]))
            else:
                out.append(T('many', p[1], p[2], p[3]))
        return out

    def dictsegs_of(self, st, v):
        v = self.simp(st, v)
        o = self.obj(st, v)
        if o is not None and o.kind == 'dict':
            return list(o.segs)
        if v.op == 'dict':
            return list(v.args)
        f = self.fz(st, v)
        if f.op == 'dict':
            return list(f.args)
        pl = self.plan(st, v) if (o is not None and o.kind in ('list',)) or v.op in ('items', 'zip', 'list') else None
        if pl is not None:
            out = []
            for p in pl:
                val = p[1] if p[0] == 'one' else p[2] if p[0] == 'g' else p[3]
                kv = T('kv', self.fz(st, item(val, C(0))), item(val, C(1)))
                out.append(kv if p[0] == 'one' else T('g', p[1], kv) if p[0] == 'g' else T('many', p[1], p[2], kv))
            if len(out) == 1 and out[0].op == 'many' and is_c(out[0].args[1], True) and out[0].args[2].args[0] is elem(out[0].args[0]) \
                    and out[0].args[2].args[1] is item(out[0].args[0], elem(out[0].args[0])):
                return [T('splat', out[0].args[0])]
            return out
        return [T('splat', f)]

    def ex_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.fz(st, self.eval(v.value, st))
                if v.conversion == 114:
                    x = T('repr', x)
                spec = self.eval(v.format_spec, st) if v.format_spec is not None else None
                parts.append(T('fmt', x, spec) if spec is not None and not is_c(spec, '') else tostr(x))
        return cat(*parts) if parts else C('')

    def ex_FormattedValue(self, n, st):
        return tostr(self.fz(st, self.eval(n.value, st)))

    def ex_IfExp(self, n, st):
        c = self.truth(st, self.eval(n.test, st))
        out = {}

        def fa(s):
            out['a'] = self.eval(n.body, s)
            s.setvar('$v', out['a'])

        def fb(s):
            out['b'] = self.eval(n.orelse, s)
            s.setvar('$v', out['b'])
        self.branch(st, c, fa, fb)
        if st.dead:
            return UNDEF
        return self.poptmp(st)

    def poptmp(self, st):
        e = dict(st.envs[-1])
        v = e.pop('$v', UNDEF)
        st.envs[-1] = e
        return v

    def ex_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        v = self.eval(n.values[0], st)
        for rest in n.values[1:]:
            if st.dead:
                return UNDEF
            c = self.truth(st, v)
            d = self.decide(st, c)
            if d is (not isand):
                return C(d) if is_bool(v) or v is c else v
            if d is isand:
                v = self.eval(rest, st)
                continue

            def go(s):
                s.setvar('$v', self.eval(rest, s))

            def stop(s):
                s.setvar('$v', C(not isand) if is_bool(v) else v)
            if isand:
                self.branch(st, c, go, stop)
            else:
                self.branch(st, c, stop, go)
            v = self.poptmp(st)
        return v

    def ex_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            return lnot(self.truth(st, v))
        f = self.fz(st, v)
        if isinstance(n.op, ast.USub):
            if f.op == 'c' and isinstance(cv(f), (int, float, complex)):
                return C(-cv(f))
            return neg(f)
        if isinstance(n.op, ast.UAdd):
            return f
        if f.op == 'c' and isinstance(cv(f), int):
            return C(~cv(f))
        return T('inv', f)

    def ex_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        if st.dead:
            return UNDEF
        return self.binop(st, n.op, a, b, n)

    def binop(self, st, op, a, b, n):
        a, b = self.simp(st, a), self.simp(st, b)
        if isinstance(op, ast.Add):
            oa, ob = self.obj(st, a), self.obj(st, b)
            la = oa is not None and oa.kind == 'list' or a.op == 'list'
            lb = ob is not None and ob.kind == 'list' or b.op == 'list'
            if la or lb:
                return self.alloc(st, 'list', self.segs_of(st, a) + self.segs_of(st, b))
            if a.op == 'tup' and b.op == 'tup':
                return T('tup', *(a.args + b.args))
        fa, fb = self.fz(st, a), self.fz(st, b)
        if isinstance(op, ast.Mod) and fa.op in ('c', 'cat') and (fa.op == 'cat' or isinstance(cv(fa), (str, bytes))):
            return self.percent(fa, fb)
        if fa.op == 'c' and fb.op == 'c':
            try:
                r = PYOPS[type(op)](cv(fa), cv(fb))
                if isinstance(r, (int, float, str, bytes, bool, complex)) and (not isinstance(r, (str, bytes)) or len(r) < 10000):
                    return C(r)
            except Exception:
                pass
        if isinstance(op, ast.Add):
            return add(fa, fb)
        if isinstance(op, ast.Sub):
            if fa.op == 'ref' or fb.op == 'ref':
                return T('sub', fa, fb)
            return sub(fa, fb)
        if isinstance(op, ast.Mult):
            for x, y in ((fa, fb), (fb, fa)):
                if x.op == 'list':
                    if y.op == 'c' and isinstance(cv(y), int) and len(x.args) * cv(y) < 1000:
                        return self.alloc(st, 'list', list(x.args) * cv(y))
                    if len(x.args) == 1:
                        I = T('range', C(0), y)
                        return self.alloc(st, 'list', [T('many', I, TRUE, x.args[0])])
            return mul(fa, fb)
        if isinstance(op, ast.Div):
            return div(fa, fb)
        if isinstance(op, ast.BitAnd) and is_bool(fa) and is_bool(fb):
            return land(fa, fb)
        if isinstance(op, ast.BitOr) and is_bool(fa) and is_bool(fb):
            return lor(fa, fb)
        if isinstance(op, ast.BitOr):
            if fa.op in ('setof', 'setdiff', 'setc', 'union', 'unionover'):
                return union(fa, fb)
            if fa.op == 'dict' or fb.op == 'dict':
                return self.alloc(st, 'dict', self.dictsegs_of(st, a) + self.dictsegs_of(st, b))
        nm = {ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow', ast.BitOr: 'bitor', ast.BitAnd: 'bitand',
              ast.BitXor: 'bitxor', ast.LShift: 'lshift', ast.RShift: 'rshift', ast.MatMult: 'matmul'}[type(op)]
        if nm == 'lshift' and fb.op != 'c' or nm == 'lshift' and fa.op != 'c':
            return T('lshift', fa, fb)
        return T(nm, fa, fb)

    def percent(self, f, args):
        if f.op != 'c' or not isinstance(cv(f), str):
            return T('fmt', f, args)
        s = cv(f)
        vals = list(args.args) if args.op == 'tup' else [args]
        out = []
        i = 0
        buf = ''
        vi = 0
        while i < len(s):
            if s[i] == '%' and i + 1 < len(s):
                ch = s[i + 1]
                if ch == '%':
                    buf += '%'
                    i += 2
                    continue
                if ch in 'sdi' and vi < len(vals):
                    out.append(C(buf))
                    buf = ''
                    out.append(tostr(vals[vi]))
                    vi += 1
                    i += 2
                    continue
                return T('fmt', f, args)
            buf += s[i]
            i += 1
        out.append(C(buf))
        return cat(*out)

    def ex_Compare(self, n, st):
        left = self.eval(n.left, st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            if st.dead:
                return UNDEF
            right = self.eval(r, st)
            out.append(self.compare(st, op, left, right))
            left = right
        return land(*out) if len(out) > 1 else out[0]

    def compare(self, st, op, a, b):
        a, b = self.simp(st, a), self.simp(st, b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a.op == 'ref' and b.op == 'ref':
                r = C(a is b)
            else:
                r = is_(a if a.op == 'ref' else self.fz(st, a), b if b.op == 'ref' else self.fz(st, b))
            return lnot(r) if isinstance(op, ast.IsNot) else r
        fa, fb = self.fz(st, a), self.fz(st, b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(fa, fb)
            return lnot(r) if isinstance(op, ast.NotEq) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(fa, fb)
            return lnot(r) if isinstance(op, ast.NotIn) else r
        if fa.op == 'c' and fb.op == 'c':
            try:
                return C({ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y,
                          ast.GtE: lambda x, y: x >= y}[type(op)](cv(fa), cv(fb)))
            except TypeError:
                pass
        if isinstance(op, ast.Lt):
            return lt(fa, fb)
        if isinstance(op, ast.LtE):
            return le(fa, fb)
        if isinstance(op, ast.Gt):
            return lt(fb, fa)
        return le(fb, fa)

    def equal(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x in (T('list'), T('dict'), C(''), T('tup')) and y.op in ('list', 'dict', 'cat', 'tup', 'elem', 'param', 'attr', 'ite', 'item', 'upd') and y is not x:
                if y.op in ('list', 'dict', 'tup', 'cat'):
                    return lnot(nonempty(y)) if y.op != 'cat' else T('eq', y, x)
                if y.op == 'ite':
                    return ite(y.args[0], self.equal(y.args[1], x), self.equal(y.args[2], x))
        for x, y in ((a, b), (b, a)):
            if x.op == 'type' and y.op in CONSTY:
                t = self.typeof(x.args[0])
                if t is not None:
                    return C(t is y or (t.args == y.args))
        if a.op == 'dict' and b.op == 'dict':
            A = {e.args[0]: e.args[1] for e in a.args if e.op == 'kv'}
            B = {e.args[0]: e.args[1] for e in b.args if e.op == 'kv'}
            if len(A) == len(a.args) and len(B) == len(b.args) and all(k.op in CONSTY for k in list(A) + list(B)):
                if set(A) != set(B):
                    return FALSE
                return land(*[self.equal(A[k], B[k]) for k in A])
        if a.op == 'list' and b.op == 'list' and not any(s.op in SEGOPS for s in a.args + b.args):
            if len(a.args) != len(b.args):
                return FALSE
            return land(*[self.equal(x, y) for x, y in zip(a.args, b.args)])
        return eq(a, b)

    def contains(self, x, coll):
        if coll.op in ('list', 'tup') and not any(s.op in SEGOPS for s in coll.args) and any(s.op in ('dict', 'list') for s in coll.args):
            return lor(*[self.equal(x, e) for e in coll.args])
        if coll.op in ('list', 'tup') and any(s.op in SEGOPS for s in coll.args):
            out = []
            plain = [s for s in coll.args if s.op not in SEGOPS]
            if plain:
                out.append(isin(x, T('list', *plain)))
            for s in coll.args:
                if s.op == 'splat':
                    out.append(self.contains(x, s.args[0]))
                elif s.op == 'many':
                    out.append(anyover(s.args[0], land(s.args[1], self.equal(x, s.args[2]))))
                elif s.op == 'g':
                    if s.args[1].op in SEGOPS:
                        return T('in', x, coll)
                    out.append(land(s.args[0], self.equal(x, s.args[1])))
                elif s.op not in SEGOPS:
                    pass
                else:
                    return T('in', x, coll)
            return lor(*out)
        if coll.op == 'dict' and any(s.op != 'kv' for s in coll.args):
            out = []
            for s in coll.args:
                if s.op == 'kv':
                    out.append(self.equal(x, s.args[0]))
                elif s.op == 'g' and s.args[1].op == 'kv':
                    out.append(land(s.args[0], self.equal(x, s.args[1].args[0])))
                elif s.op == 'many' and s.args[2].op == 'kv':
                    out.append(anyover(s.args[0], land(s.args[1], self.equal(x, s.args[2].args[0]))))
                elif s.op == 'splat':
                    out.append(self.contains(x, s.args[0]))
                else:
                    return T('in', x, coll)
            return lor(*out)
        if coll.op == 'upd':
            out = [isin(x, coll.args[0])]
            for s in coll.args[1]:
                if s.op == 'kv':
                    out.append(self.equal(x, s.args[0]))
                elif s.op == 'g' and s.args[1].op == 'kv':
                    out.append(land(s.args[0], self.equal(x, s.args[1].args[0])))
                else:
                    return T('in', x, coll)
            return lor(*out)
        return isin(x, coll)

    def truth(self, st, v):
        v = self.simp(st, v)
        o = self.obj(st, v)
        if o is not None:
            if o.kind == 'inst':
                return TRUE
            return nonempty(self.fz(st, v))
        v = self.fz(st, v)
        return self.truthy(v)

    def truthy(self, v):
        if is_bool(v):
            return v
        if v.op == 'c':
            return C(bool(cv(v)))
        if v.op == 'len':
            return nonempty(v.args[0])
        if v.op in ('setdiff', 'union', 'setc', 'unionover', 'setof', 'list', 'dict', 'keys'):
            return nonempty(v)
        if v.op == 'sumover' and v.args[2].op == 'c' and cv(v.args[2]) > 0:
            return anyover(v.args[0], v.args[1])
        if v.op == 'ite':
            return ite(v.args[0], self.truthy(v.args[1]), self.truthy(v.args[2]))
        if v.op in ('fn', 'cls', 'bm', 'ext', 'nt', 'mod'):
            return TRUE
        if v.op == 'tup':
            return C(bool(v.args))
        if v.op == 'lin' or v.op == 'prod':
            return lnot(eq(v, C(0)))
        if v.op == 'call' and v.args[0] is T('ext', 'builtins.bool'):
            return v.args[1][0]
        return T('truth', v)

    def ex_Lambda(self, n, st):
        fr = self.frames[-1]
        self.fncount += 1
        qual = fr.fn.qual + '.<lambda>'
        dfl = [self.eval(d, st) for d in n.args.defaults]
        kwd = {a.arg: self.eval(d, st) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        closure = None if getattr(fr, 'ismodule', False) else self.closure_env(st)
        fn = Fn(n, fr.module, fr.cls or fr.fn.cls, closure, qual, 'function', dfl, kwd)
        fid = '%s#%d' % (qual, self.fncount)
        self.fns[fid] = fn
        return T('fn', fid)

    def ex_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def ex_Starred(self, n, st):
        return T('splat', self.fz(st, self.eval(n.value, st)))

    def ex_Await(self, n, st):
        return self.eval(n.value, st)

    def ex_Yield(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        acc = st.envs[-1].get('$yield')
        if acc is not None:
            self.obj_method(st, acc, self.obj(st, acc), 'append', [v], {}, n)
        return NONE

    def ex_YieldFrom(self, n, st):
        v = self.eval(n.value, st)
        acc = st.envs[-1].get('$yield')
        if acc is not None:
            self.obj_method(st, acc, self.obj(st, acc), 'extend', [v], {}, n)
        return NONE

    # comprehensions run like loops over a hidden accumulator
    def comp(self, n, st, kind, add1):
        acc = self.alloc(st, kind)
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        depth = len(st.envs) - 1
        saved = {k: st.envs[-1].get(k) for k in names}

        def level(i, s):
            if i == len(n.generators):
                add1(s, acc)
                return
            g = n.generators[i]
            it = self.eval(g.iter, s)

            def body(s2, v):
                self.assign(g.target, v, s2, n)

                def conds(j, s3):
                    if s3.dead:
                        return
                    if j == len(g.ifs):
                        level(i + 1, s3)
                        return
                    c = self.truth(s3, self.eval(g.ifs[j], s3))
                    self.branch(s3, c, lambda q: conds(j + 1, q), lambda q: None)
                conds(0, s2)
            self.iterate(s, it, body, n)
        level(0, st)
        if not st.dead:
            e = dict(st.envs[-1])
            for k, v in saved.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
            st.envs[-1] = e
        return acc

    def ex_ListComp(self, n, st, kind='list'):
        def add1(s, acc):
            v = self.eval(n.elt, s)
            if s.dead:
                return
            o = self.obj(s, acc)
            self.put(s, acc, o.w(segs=o.segs + (v,)))
        return self.comp(n, st, kind, add1)

    def ex_SetComp(self, n, st):
        return self.ex_ListComp(n, st, 'set')

    ex_GeneratorExp = ex_ListComp

    def ex_DictComp(self, n, st):
        def add1(s, acc):
            k = self.fz(s, self.eval(n.key, s))
            v = self.eval(n.value, s)
            if s.dead:
                return
            self.dict_set(s, acc, self.obj(s, acc), k, v)
        return self.comp(n, st, 'dict', add1)

    # ------------------------------------------------------------ attributes and items
    def split(self, st, v, fn):
        """apply fn(state, value) to each alternative of a choice of objects"""
        v = self.simp(st, v)
        if v.op == 'ite' and (self.isheapy(st, v.args[1]) or self.isheapy(st, v.args[2])):
            def fa(s):
                s.setvar('$v', self.split(s, v.args[1], fn))

            def fb(s):
                s.setvar('$v', self.split(s, v.args[2], fn))
            self.branch(st, v.args[0], fa, fb)
            if st.dead:
                return UNDEF
            return self.poptmp(st)
        return fn(st, v)

    def isheapy(self, st, v):
        if v.op in ('ref', 'fn', 'bm', 'cls', 'nt', 'tup', 'cm', 'sm', 'list', 'dict', 'mod', 'sym'):
            return True
        if v in self.symcls:
            return True
        if v.op == 'ite':
            return self.isheapy(st, v.args[1]) or self.isheapy(st, v.args[2])
        return False

    def bindattr(self, st, v, owner, selfv, clsterm, n):
        """descriptor binding of a class attribute"""
        if v.op == 'fn':
            return T('bm', v, selfv) if selfv is not None else v
        if v.op == 'sm':
            return T('fn', v.args[0])
        if v.op == 'cm':
            return T('bm', T('fn', v.args[0]), clsterm)
        if v.op == 'prop':
            if selfv is None:
                return v
            return self.call_fn(st, v.args[0], [selfv], {}, n)
        return v

    def getattr(self, st, b, name, n):
        return self.split(st, b, lambda s, v: self.getattr1(s, v, name, n))

    def getattr1(self, st, b, name, n):
        if b.op == 'mod':
            ns = self.modns[b.args[0]]
            if name in ns:
                return ns[name]
            if self.modfile(b.args[0] + '.' + name):
                self.load(b.args[0] + '.' + name)
                return T('mod', b.args[0] + '.' + name)
            self.ev('noattr', st, n, base=b, name=name)
            return T('attr', b, name)
        if b.op == 'ext':
            return T('ext', b.args[0] + '.' + name)
        o = self.obj(st, b)
        if o is not None and o.kind == 'inst':
            if name in o.attrs:
                v = self.simp(st, o.attrs[name])
                if v is UNDEF or (v.op == 'ite' and UNDEF in (v.args[1], v.args[2])):
                    self.ev('noattr', st, n, base=b, name=name, cls=o.cls.qual, maybe=v is not UNDEF)
                return v
            if name == '__class__':
                return T('cls', o.cls.qual)
            if name == '__dict__':
                return T('attr', b, name)
            v, owner = self.lookup(o.cls, name)
            if v is not None:
                return self.bindattr(st, v, owner, b, T('cls', o.cls.qual), n)
            if o.base is not None:
                return T('attr', o.base, name)
            if self.exttail(o.cls):
                return T('attr', self.fz(st, b), name)
            self.ev('noattr', st, n, base=b, name=name, cls=o.cls.qual, maybe=False)
            return T('attr', T('inst', o.cls.qual), name)
        if b.op == 'cls':
            c = self.classes[b.args[0]]
            if name == '__name__':
                return C(c.name)
            v, owner = self.lookup(c, name)
            if v is not None:
                return self.bindattr(st, v, owner, None, b, n)
            if name in ('__doc__', '__module__', '__qualname__', '__mro__', '__bases__'):
                return T('attr', b, name)
            if self.isnt(c) and name in ('_fields', '_make', '_replace'):
                return T('attr', b, name)
            if not self.exttail(c):
                self.ev('noattr', st, n, base=b, name=name, cls=c.qual, maybe=False)
            return T('attr', b, name)
        if b in self.symcls:
            base, overridden = self.symcls[b]
            v, owner = self.lookup(base, name)
            if v is not None and name not in overridden:
                return self.bindattr(st, v, owner, None if v.op != 'prop' else b, b, n)
            return T('attr', b, name)
        if b.op == 'nt':
            if name in b.args[1]:
                return b.args[2][b.args[1].index(name)]
            if name == '_replace':
                return T('attr', b, name)
            return T('attr', b, name)
        if b.op == 'super':
            cls = self.classes[b.args[0]]
            selfv = b.args[1]
            so = self.obj(st, selfv)
            start = so.cls if so is not None and so.kind == 'inst' else self.classes[selfv.args[0]] if selfv.op == 'cls' else cls
            v, owner = self.lookup(start, name, after=cls)
            if v is None and start is not cls:
                v, owner = self.lookup(cls, name, after=cls)
            if v is None:
                return T('attr', b, name)
            clsterm = T('cls', so.cls.qual) if so is not None and so.kind == 'inst' else selfv
            return self.bindattr(st, v, owner, selfv, clsterm, n)
        if b.op in ('fn', 'bm'):
            return T('attr', b, name)
        if o is not None and (o.attrs or {}).get(name) is not None:
            return o.attrs[name]
        if o is not None and o.kind in ('list', 'dict', 'set', 'deque', 'bytearray'):
            if o.kind == 'map':
                return T('attr', b, name)
            return T('meth', b, name)
        f = b if b.op == 'ref' else self.fz(st, b) if False else b
        if b.op == 'c' and isinstance(cv(b), str):
            return T('meth', b, name)
        if o is not None and o.kind == 'map':
            if name in ('real', 'imag', 'T') or name in ('shape', 'size', 'dtype', 'ndim', 'attrs'):
                return self.attrterm(self.fz(st, b), name)
            return T('meth', b, name)
        if b.op == 'excvar' or b.op == 'tryval':
            return T('attr', b, name)
        r = self.attrterm(b, name)
        if isinstance(r, T) and st.heap.get(r) is not None:
            return r
        return r

    def attrterm(self, b, name):
        if b.op == 'ite' and (b.args[1].op in ('nt',) or b.args[2].op in ('nt',)):
            return ite(b.args[0], self.attrterm(b.args[1], name), self.attrterm(b.args[2], name))
        if b.op == 'nt' and name in b.args[1]:
            return b.args[2][b.args[1].index(name)]
        if name == 'shape' and b.op == 'upd':
            return T('attr', b.args[0], 'shape')
        if name == 'ndim' and self.valid is not None and self.valid.rank(b):
            return C(self.valid.rank(b))
        return T('attr', b, name)

    def getitem(self, st, b, k, n):
        return self.split(st, b, lambda s, v: self.getitem1(s, v, k, n))

    def getitem1(self, st, b, k, n):
        b = self.simp(st, b)
        k = self.simp(st, k)
        kf = self.fz(st, k)
        if kf.op == 'deepcopy':
            kf = kf.args[0]
        if n is not None and not (b.op in ('tup', 'nt') and kf.op == 'c'):
            self.ev('sub', st, n, base=b, key=kf)
        o = self.obj(st, b)
        if o is not None and o.kind in ('list', 'deque', 'bytearray'):
            return self.list_get(st, b, o, kf)
        if o is not None and o.kind in ('dict', 'map'):
            return self.dict_get(st, b, o, kf, n)
        if self.valid is not None and b.op == 'tup' and kf.op == 'c' and isinstance(cv(kf), int) and not any(x.op in SEGOPS for x in b.args) and -len(b.args) <= cv(kf) < len(b.args):
            return b.args[cv(kf)]
        if b.op == 'nt' and kf.op == 'c':
            try:
                return b.args[2][cv(kf)]
            except Exception:
                pass
        if kf.op == 'slice':
            return self.sliceterm(self.fz(st, b), kf)
        if b.op == 'attr' and b.args[1] == '__dict__':
            pass
        f = self.fz(st, b)
        if self.valid is not None and self.valid.has(f, kf) is False:
            self.do_raise(st, T('ext', 'builtins.KeyError'), T('call', T('ext', 'builtins.KeyError'), (kf,), ()), n)
            return UNDEF
        if kf.op == 'ite' and (kf.args[1].op == 'c' or kf.args[2].op == 'c') and f.op == 'dict':
            return ite(kf.args[0], self.getitem1(st, b, kf.args[1], None), self.getitem1(st, b, kf.args[2], None))
        r = self.choose(st, f, kf)
        if r is not None:
            return r
        return item(f, kf)

    def choose(self, st, f, kf):
        if self.chooser is not None and f.op == 'dict' and kf.op not in CONSTY and all(e.op == 'kv' and e.args[0].op in CONSTY for e in f.args):
            pick = self.chooser(f, kf, [e.args[0] for e in f.args])
            if pick is not None:
                self.add_fact(st, eq(kf, pick))
                return item(f, pick)
        return None

    def sliceterm(self, f, s):
        if s.args == (NONE, NONE, NONE) and f.op in ('tup', 'list', 'cat'):
            return f
        if f.op == 'c' and isinstance(cv(f), (str, bytes)) and all(a.op == 'c' for a in s.args):
            return C(cv(f)[cv(s.args[0]):cv(s.args[1]):cv(s.args[2])])
        if f.op == 'tup' and all(a.op == 'c' for a in s.args):
            return T('tup', *f.args[cv(s.args[0]):cv(s.args[1]):cv(s.args[2])])
        if s.args[0].op == 'c' and is_c(s.args[0], 0) and is_c(s.args[2], None):
            s = T('slice', NONE, s.args[1], NONE)
        return T('item', f, s)

    def list_get(self, st, b, o, k):
        plain = all(s.op not in SEGOPS for s in o.segs)
        if k.op == 'c' and isinstance(cv(k), int):
            i = cv(k)
            if plain and -len(o.segs) <= i < len(o.segs):
                return o.segs[i]
            if i >= 0 and all(s.op not in SEGOPS for s in o.segs[:i + 1]) and len(o.segs) > i:
                return o.segs[i]
            if i < 0 and all(s.op not in SEGOPS for s in o.segs[i:]) and len(o.segs) >= -i:
                return o.segs[i]
        if k.op == 'slice' and plain and all(a.op == 'c' for a in k.args):
            return self.alloc(st, o.kind, o.segs[cv(k.args[0]):cv(k.args[1]):cv(k.args[2])])
        if k.op == 'slice' and k.args == (NONE, NONE, NONE):
            return self.alloc(st, o.kind, o.segs)
        if k.op == 'slice' and k.args == (NONE, NONE, C(-1)) and o.kind == 'list':
            return self.alloc(st, 'list', (T('splat', T('rev', self.fz(st, b))),))
        f = self.fz(st, b)
        if k.op == 'slice':
            return T('item', f, k)
        if len(o.segs) == 1 and o.segs[0].op == 'many' and is_c(o.segs[0].args[1], True):
            I, g, v = o.segs[0].args
            if k.op == 'idx' and (k is idx(I) or k.args[0] is f):
                return v
        return item(f, k)

    def keyeq(self, a, b):
        """True/False/None: equality of dict keys"""
        if a is b:
            return True
        if a.op in CONSTY and b.op in CONSTY:
            return False
        if a.op == 'slice' or b.op == 'slice':
            return None
        e = eq(a, b)
        if e.op == 'c':
            return cv(e)
        return None

    def dict_get(self, st, b, o, k, n):
        if o.kind == 'map' and k.op == 'slice' and not o.segs:
            f = self.fz(st, b)
            return self.sliceterm(f, k)
        res = []      # pending guarded values
        for s in reversed(o.segs):
            g = TRUE
            if s.op == 'g':
                g, s = s.args
            if s.op == 'kv':
                d = self.keyeq(s.args[0], k)
                if d is None:
                    dd = self.decide(st, eq(s.args[0], k)) if s.args[0].op != 'slice' and k.op != 'slice' else None
                    d = dd
                if d is True:
                    if is_c(g, True) or self.decide(st, g) is True:
                        v = s.args[1]
                        for gg, vv in reversed(res):
                            v = ite(gg, vv, v)
                        return self.simp(st, v)
                    if self.decide(st, g) is False:
                        continue
                    res.append((g, s.args[1]))
                    continue
                if d is False:
                    continue
                break
            if s.op == 'many' and s.args[2].op == 'kv':
                I, g2, kv = s.args
                kk = kv.args[0]
                if kk is k:
                    v = kv.args[1]
                    if not is_c(g2, True) and self.decide(st, g2) is not True:
                        break
                    if not res:
                        v = self.cell(st, b, k, v)
                    for gg, vv in reversed(res):
                        v = ite(gg, vv, v)
                    return self.simp(st, v)
                if kk is elem(I) and k.op == 'elem' and k.args[0].op == 'again' and k.args[0].args[0] is I:
                    v = subst(kv.args[1], {elem(I): k})
                    return self.simp(st, self.cell(st, b, k, v))
                if kk is elem(I) and (k.op not in ('c',)) and self.decide(st, isin(k, I)) is True and is_c(g2, True):
                    v = subst(kv.args[1], {elem(I): k})
                    if not res:
                        v = self.cell(st, b, k, v)
                    for gg, vv in reversed(res):
                        v = ite(gg, vv, v)
                    return self.simp(st, v)
                break
            if s.op == 'splat' and s.args[0].op == 'dict':
                break
            if s.op == 'splat' and len(o.segs) == 1:
                return self.getitem1(st, s.args[0], k, None)
            break
        else:
            if o.kind == 'map' and o.base is not None:
                if isinstance(o.base, T) and o.base is b:
                    v = item(b, k) if k.op != 'slice' else self.sliceterm(b, k)
                else:
                    v = item(self.fz(st, o.base), k) if k.op != 'slice' else self.sliceterm(self.fz(st, o.base), k)
                for gg, vv in reversed(res):
                    v = ite(gg, vv, v)
                return self.simp(st, v)
            if res:
                # past this point the key was there (else KeyError)
                v = res[-1][1]
                for gg, vv in reversed(res[:-1]):
                    v = ite(gg, vv, v)
                self.add_fact(st, lor(*[gg for gg, vv in res]))
                return self.simp(st, v)
        f = self.fz(st, b)
        r = self.choose(st, f, k)
        if r is not None:
            return r
        return item(f, k) if k.op != 'slice' else self.sliceterm(f, k)

    def dict_set(self, st, b, o, k, v):
        segs = list(o.segs)
        for i in range(len(segs) - 1, -1, -1):
            s = segs[i]
            if s.op == 'kv':
                d = self.keyeq(s.args[0], k)
                if d is True:
                    segs[i] = T('kv', k, v)
                    self.put(st, b, o.w(segs=tuple(segs)))
                    return
                if d is False:
                    continue
                break
            break
        segs.append(T('kv', k, v))
        self.put(st, b, o.w(segs=tuple(segs)))

    def set_item(self, st, b, k, v, n):
        def go(s, bb):
            self.set_item1(s, bb, k, v, n)
            return NONE
        self.split(st, b, go)

    def set_item1(self, st, b, k, v, n):
        kf = self.fz(st, k)
        if kf.op == 'deepcopy':
            kf = kf.args[0]
        c = T('cell', b, kf)
        if c in st.heap:
            del st.heap[c]
            st.ver = newver()
        o = self.obj(st, b)
        self.ev('setitem', st, n, target=b, key=kf, value=v, frozen=self.fz(st, v), origin=o.origin if o else ('ext',), okind=o.kind if o else None)
        if o is None:
            if b.op in ('c', 'tup'):
                return
            o = Obj('map', (), base=b, attrs={}, origin=('ext',))
        if o.kind in ('list', 'bytearray', 'deque'):
            if kf.op == 'c' and isinstance(cv(kf), int) and all(s.op not in SEGOPS for s in o.segs) and -len(o.segs) <= cv(kf) < len(o.segs):
                segs = list(o.segs)
                segs[cv(kf)] = v
                self.put(st, b, o.w(segs=tuple(segs)))
            else:
                f = self.fz(st, b)
                self.put(st, b, o.w(segs=(T('splat', T('upd', f, (T('kv', kf, self.fz(st, v)),), ())),)))
            return
        if kf.op == 'slice' and kf.args == (NONE, NONE, NONE) and o.kind == 'map':
            self.put(st, b, o.w(segs=(T('kv', kf, v),)))
            return
        self.dict_set(st, b, o, kf, v)

    def del_item(self, st, b, k, n):
        kf = self.fz(st, k)
        o = self.obj(st, b)
        self.ev('setitem', st, n, target=b, key=kf, value=UNDEF, frozen=UNDEF, origin=o.origin if o else ('ext',), okind=o.kind if o else None)
        if o is not None and o.kind == 'dict':
            self.dict_del(st, b, o, kf)
        elif o is not None and o.kind == 'map' or o is None:
            o = o or Obj('map', (), base=b, attrs={}, origin=('ext',))
            self.put(st, b, o.w(segs=o.segs + (T('del', kf),)))

    def dict_del(self, st, b, o, kf):
        if all(s.op == 'kv' and s.args[0].op in CONSTY for s in o.segs) and kf.op in CONSTY:
            self.put(st, b, o.w(segs=tuple(s for s in o.segs if s.args[0] is not kf)))
        else:
            self.put(st, b, o.w(segs=o.segs + (T('del', kf),)))

    def set_attr(self, st, b, name, v, n):
        def go(s, bb):
            self.set_attr1(s, bb, name, v, n)
            return NONE
        self.split(st, b, go)

    def set_attr1(self, st, b, name, v, n):
        o = self.obj(st, b)
        if o is not None and o.kind == 'inst':
            cv_, owner = self.lookup(o.cls, name)
            if cv_ is not None and cv_.op == 'prop':
                self.ev('setprop', st, n, target=b, name=name, cls=o.cls.qual)
            self.ev('setattr', st, n, target=b, name=name, value=v, cls=o.cls.qual, origin=o.origin, base=o.base)
            self.put(st, b, o.w(attrs={**o.attrs, name: v}))
            return
        self.ev('setattr', st, n, target=b, name=name, value=v, cls=None, origin=o.origin if o else ('ext',), base=None)
        if b.op == 'cls':
            return
        o = o or Obj('map', (), base=b, attrs={}, origin=('ext',))
        self.put(st, b, o.w(attrs={**(o.attrs or {}), name: v}))


import operator
PYOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
         ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
         ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
         ast.MatMult: operator.matmul}
NPBASES = {'numpy.str_': ('builtins.str', 'numpy.character', 'numpy.flexible', 'numpy.generic'),
           'numpy.bytes_': ('builtins.bytes', 'numpy.character', 'numpy.flexible', 'numpy.generic'),
           'numpy.bool_': ('numpy.generic',), 'numpy.generic': ()}
for _kind, _bases in (('int8 int16 int32 int64 intc int_ longlong', 'signedinteger integer number'), ('uint8 uint16 uint32 uint64 uintc uint ulonglong', 'unsignedinteger integer number'),
                      ('float16 float32 float64 double', 'floating inexact number'), ('complex64 complex128', 'complexfloating inexact number'),
                      ('signedinteger unsignedinteger', 'integer number'), ('floating complexfloating', 'inexact number'), ('integer inexact', 'number'), ('number', ''),
                      ('character', 'flexible'), ('flexible', '')):
    for _n in _kind.split():
        NPBASES['numpy.' + _n] = tuple('numpy.' + b for b in _bases.split()) + ('numpy.generic',)
NPBASES['numpy.float64'] += ('builtins.float',)
NPBASES['numpy.double'] += ('builtins.float', 'numpy.float64')
NPBASES['numpy.complex128'] += ('builtins.complex',)
PYTYPES = {'builtins.float': 'numpy.float64', 'builtins.int': 'numpy.int64', 'builtins.str': 'numpy.str_', 'builtins.bytes': 'numpy.bytes_',
           'builtins.bool': 'numpy.bool_', 'builtins.complex': 'numpy.complex128'}

from calls import Calls  # noqa: E402


class Mangler(ast.NodeTransformer):
    """private name mangling, as the compiler does it"""

    def __init__(self):
        self.cls = []

    def name(self, x):
        if self.cls and x and x.startswith('__') and not x.endswith('__') and self.cls[-1]:
            return '_%s%s' % (self.cls[-1], x)
        return x

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(d) for d in n.bases]
        n.keywords = [self.visit(d) for d in n.keywords]
        self.cls.append(n.name.lstrip('_'))
        n.body = [self.visit(x) for x in n.body]
        self.cls.pop()
        return n

    def visit_Name(self, n):
        n.id = self.name(n.id)
        return n

    def visit_FunctionDef(self, n):
        n.name = self.name(n.name)
        return self.generic_visit(n)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Attribute(self, n):
        n.attr = self.name(n.attr)
        return self.generic_visit(n)

    def visit_arg(self, n):
        n.arg = self.name(n.arg)
        return self.generic_visit(n)

    def visit_keyword(self, n):
        n.arg = self.name(n.arg)
        return self.generic_visit(n)


class Analyzer(Calls, Engine):
    pass
