"""Calls: repository functions are inlined, the library functions the
repository uses are given their meaning on terms, everything else is opaque."""
import ast
import builtins
import string

from terms import (prodover, T, C, NONE, mkpack, issetty, TRUE, FALSE, UNDEF, is_c, cv, subterms, subst, add, sub, mul, div, cat,
                   tostr, encode, eq, lt, lnot, land, lor, ite, is_bool, max2, min2, deepcopy, keys, setof,
                   setdiff, union, unionover, nonempty, length, elem, idx, item, isin, sumover, manyb, anyover,
                   allover, SEGOPS, CONSTY, SETTY)

SIGS = {
    'numpy.frombuffer': ['buffer', 'dtype', 'count', 'offset'],
    'numpy.empty': ['shape', 'dtype', 'order'],
    'numpy.zeros': ['shape', 'dtype', 'order'],
    'numpy.ones': ['shape', 'dtype', 'order'],
    'numpy.full': ['shape', 'fill_value', 'dtype', 'order'],
    'numpy.array': ['object', 'dtype', 'copy', 'order'],
    'numpy.asarray': ['a', 'dtype', 'order'],
    'numpy.reshape': ['a', 'newshape', 'order'],
    'numpy.minimum': ['x1', 'x2', 'out'],
    'numpy.maximum': ['x1', 'x2', 'out'],
    'numpy.clip': ['a', 'a_min', 'a_max', 'out'],
    'numpy.fmod': ['x1', 'x2', 'out'],
    'struct.unpack_from': ['format', 'buffer', 'offset'],
    'struct.unpack': ['format', 'buffer'],
    'builtins.open': ['file', 'mode', 'buffering', 'encoding'],
    'h5py.File': ['name', 'mode'],
    'datetime.datetime.utcfromtimestamp': ['timestamp'],
    'datetime.datetime.fromtimestamp': ['timestamp', 'tz'],
}
MSIGS = {
    'create_dataset': ['name', 'shape', 'dtype', 'data'],
    'create_group': ['name'],
    'astype': ['dtype', 'order', 'casting', 'subok', 'copy'],
    'decode': ['encoding', 'errors'],
    'encode': ['encoding', 'errors'],
    'view': ['dtype'],
    'flatten': ['order'],
    'ravel': ['order'],
    'strftime': ['format'],
    'newbyteorder': ['new_order'],
}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort', 'update', 'clear', 'add', 'discard',
            'popitem', 'setdefault', 'fill', 'resize', 'put', 'itemset', 'setflags', 'appendleft', 'popleft',
            'extendleft', 'move_to_end', 'partition', 'difference_update', 'intersection_update', 'setfield',
            'writelines', 'write', 'symmetric_difference_update'}
NPSCALARS = {'numpy.' + x for x in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16',
                                    'float32', 'float64', 'complex64', 'complex128', 'str_', 'bytes_', 'bool_', 'intc', 'int_')}
FRESHMAPS = {'numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.array', 'numpy.empty_like',
             'numpy.zeros_like', 'numpy.full_like', 'numpy.ones_like', 'numpy.copy', 'numpy.concatenate', 'numpy.stack'}


def kw(t, name, default=None):
    """keyword / named argument of a call or mcall term"""
    for k in t.args[-1]:
        if k.args[0] == name:
            return k.args[1]
    return default


FROZEN = ('write_records', 'write_arrays')   # calls whose arguments are kept as they were then


class Calls:
    # ------------------------------------------------------------ call expressions
    def ex_Call(self, n, st):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in st.envs[-1]:
            fr = self.frames[-1]
            if not n.args:
                return T('super', (fr.cls or fr.fn.cls).qual, fr.selfterm)
            c = self.eval(n.args[0], st)
            s = self.eval(n.args[1], st)
            return T('super', c.args[0], s)
        fv = self.eval(f, st)
        args = []
        kws = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                for s in self.segs_of(st, v):
                    args.append(s if s.op in SEGOPS else s)
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            if k.arg is None:
                v = self.eval(k.value, st)
                for s in self.dictsegs_of(st, v):
                    if s.op == 'kv' and s.args[0].op == 'c':
                        kws[cv(s.args[0])] = s.args[1]
                    elif s.op == 'g' and s.args[1].op == 'kv' and s.args[1].args[0].op == 'c':
                        kws[cv(s.args[1].args[0])] = ite(s.args[0], s.args[1].args[1], UNDEF)
                    else:
                        kws.setdefault('**', []).append(s)
                if '**' in kws and isinstance(kws['**'], list):
                    kws['**'] = T('kwsplat', *kws['**'])
            else:
                kws[k.arg] = self.eval(k.value, st)
        if st.dead:
            return UNDEF
        return self.call(st, fv, args, kws, n)

    def call(self, st, f, args, kws, n):
        if st.dead:
            return UNDEF
        f = self.simp(st, f)
        if f.op == 'fn':
            return self.call_fn(st, f.args[0], args, kws, n)
        if f.op == 'bm':
            return self.call_fn(st, f.args[0].args[0], [f.args[1]] + args, kws, n)
        if f.op == 'cls':
            return self.instantiate(st, self.classes[f.args[0]], args, kws, n)
        if f.op == 'ite' and all(x.op in ('ite', 'meth', 'bm', 'fn', 'cls', 'ext', 'attr') or self.isheapy(st, x) for x in f.args[1:]):
            return self.split_call(st, f, args, kws, n)
        if f.op == 'meth':
            b = f.args[0]
            o = self.obj(st, b)
            if o is not None:
                if o.kind == 'map':
                    return self.map_method(st, b, o, f.args[1], args, kws, n)
                return self.obj_method(st, b, o, f.args[1], args, kws, n)
            return self.term_method(st, b, f.args[1], args, kws, n)
        if f.op == 'ext':
            return self.call_ext(st, f.args[0], args, kws, n)
        if f.op == 'attr':
            return self.term_method(st, f.args[0], f.args[1], args, kws, n)
        if f.op == 'sym':
            return T('call', f, tuple(self.fz(st, a) for a in args), self.kwt(st, kws))
        fa = [self.fz(st, a) for a in args]
        self.ev('callval', st, n, fn=f, args=fa, kws={k: self.fz(st, v) for k, v in kws.items()})
        return T('call', f, tuple(fa), self.kwt(st, kws))

    def split_call(self, st, f, args, kws, n):
        def fa(s):
            s.setvar('$v', self.call(s, f.args[1], args, kws, n))

        def fb(s):
            s.setvar('$v', self.call(s, f.args[2], args, kws, n))
        self.branch(st, f.args[0], fa, fb)
        return UNDEF if st.dead else self.poptmp(st)

    def kwt(self, st, kws):
        return tuple(T('kw', k, self.fz(st, v)) for k, v in sorted(kws.items()))

    # ------------------------------------------------------------ repository functions
    def call_fn(self, st, fid, args, kws, n):
        fn = self.fns[fid]
        node = fn.node
        opq = fn.qual in self.opaque
        depth = sum(1 for f in self.frames if f.fn is fn)
        if depth >= 3 or len(self.frames) > self.maxdepth:
            opq = True
        self.ev('inline', st, n, fn=fn.qual, args=args, kws=kws, fargs=tuple(self.fz(st, x) for x in args) + tuple(self.fz(st, x) for x in kws.values()) if getattr(node, 'name', '') in FROZEN else None)
        if opq:
            return T('call', T('fn', fid), tuple(self.fz(st, a) for a in args), self.kwt(st, kws))
        self.inlined.add(fn.qual)
        a = node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        rest = []
        extra_splat = [x for x in args if x.op in SEGOPS]
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
            else:
                rest.append(v)
        if a.vararg:
            env[a.vararg.arg] = T('tup', *rest)
        elif rest:
            self.ev('badcall', st, n, fn=fn.qual, why='%d positional arguments for %d parameters' % (len(args), len(pos)))
        kwextra = {}
        for k, v in kws.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in env and k in pos[:len(args)]:
                    self.ev('badcall', st, n, fn=fn.qual, why='argument %s given twice' % k)
                env[k] = v
            else:
                kwextra[k] = v
        if a.kwarg:
            segs = []
            for k, v in kwextra.items():
                if k == '**':
                    segs.extend(v.args)
                else:
                    segs.append(T('kv', C(k), v))
            env[a.kwarg.arg] = self.alloc(st, 'dict', segs)
        elif kwextra:
            if '**' in kwextra:
                for p in pos[len(args):]:
                    env.setdefault(p, T('kwarg', kwextra['**'], p))
            bad = [k for k in kwextra if k != '**']
            if bad:
                self.ev('badcall', st, n, fn=fn.qual, why='unexpected keyword ' + ', '.join(bad))
        nd = len(fn.defaults)
        for i, p in enumerate(pos):
            if p not in env or (env[p].op == 'ite' and UNDEF in env[p].args[1:]):
                j = i - (len(pos) - nd)
                if j >= 0:
                    dv = fn.defaults[j]
                else:
                    dv = T('missingarg', fn.qual, p)
                    if p not in env:
                        self.ev('badcall', st, n, fn=fn.qual, why='missing argument ' + p)
                if p in env:
                    x = env[p]
                    env[p] = ite(x.args[0], dv if x.args[1] is UNDEF else x.args[1], dv if x.args[2] is UNDEF else x.args[2])
                else:
                    env[p] = dv
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in fn.kwdefaults:
                    env[x.arg] = fn.kwdefaults[x.arg]
                else:
                    self.ev('badcall', st, n, fn=fn.qual, why='missing argument ' + x.arg)
                    env[x.arg] = T('missingarg', fn.qual, x.arg)
        selfterm = env.get(pos[0]) if pos and fn.cls is not None else None
        if isinstance(node, ast.Lambda):
            return self.run_lambda(st, fn, env, n)
        key = None
        if fn.closure is None and not fn.isgen and all(v.op in ('c', 'cls', 'ext') for v in env.values()) \
                and all(v.op in ('c', 'cls', 'ext') for v in fn.defaults):
            key = (fid, tuple(sorted((k, v.id) for k, v in env.items())))
            r = self.memo.get(key)
            if r is not None:
                return self.thaw(st, r)
        e0 = len(self.events)
        h0, pc0 = st.heap, st.pc
        v = self.run_fn(st, fn, env, selfterm, n)
        if key is not None and not st.dead and st.pc == pc0 and self.pure_since(e0) and \
                all(st.heap.get(k) is o for k, o in h0.items()):
            f = self.fz(st, v)
            if self.thawable(f) and not self.aliases_global(st, v):
                self.memo[key] = f
        return v

    def pure_since(self, e0):
        for e in self.events[e0:]:
            if e.kind in ('raise', 'setglobal', 'augmut', 'callval', 'bad', 'badcall', 'noattr', 'undef', 'maybe_undef'):
                return False
            if e.kind in ('mut', 'setitem', 'setattr') and e.d.get('origin') != ('local',):
                return False
            if e.kind == 'call' and not str(e.d.get('fn')).startswith('builtins.'):
                return False
        return True

    def aliases_global(self, st, v, depth=0):
        if v.op == 'ref':
            if v.args[0] in self.gheap:
                return True
            o = self.obj(st, v)
            if o is None or o.kind not in ('list', 'dict'):
                return o is not None
            return any(self.aliases_global(st, s, depth + 1) for s in o.segs)
        if v.op in ('c', 'cls', 'ext', 'fn', 'bm'):
            return False
        return any(isinstance(x, T) and self.aliases_global(st, x) for x in v.args)

    def thawable(self, f):
        if f.op in ('c', 'cls', 'ext', 'fn', 'bm'):
            return True
        if f.op == 'dict':
            return all(s.op == 'kv' and self.thawable(s.args[0]) and self.thawable(s.args[1]) for s in f.args)
        if f.op in ('list', 'tup'):
            return all(self.thawable(s) for s in f.args)
        return False

    def thaw(self, st, f):
        if f.op == 'dict':
            return self.alloc(st, 'dict', [T('kv', s.args[0], self.thaw(st, s.args[1])) for s in f.args])
        if f.op == 'list':
            return self.alloc(st, 'list', [self.thaw(st, s) for s in f.args])
        if f.op == 'tup':
            return T('tup', *[self.thaw(st, s) for s in f.args])
        return f

    def run_lambda(self, st, fn, env, n):
        depth = len(st.envs)
        st.envs = st.envs + [env]
        fr = ast_frame(self, fn, depth)
        self.frames.append(fr)
        v = self.eval(fn.node.body, st)
        self.frames.pop()
        st.envs = st.envs[:depth]
        return v

    def run_fn(self, st, fn, env, selfterm, n):
        from engine import Flow
        depth = len(st.envs)
        if fn.isgen:
            env = dict(env)
            env['$yield'] = self.alloc(st, 'list')
        st.envs = st.envs + [env]
        fr = ast_frame(self, fn, depth, selfterm)
        self.frames.append(fr)
        flow = Flow()
        self.flows.append(flow)
        saveret = st.ret
        st.ret = None
        self.exec_block(fn.node.body, st)
        self.flows.pop()
        self.frames.pop()
        outs = []
        for s in flow.rets:
            if not s.dead:
                outs.append(s)
        if not st.dead:
            s = st.fork()
            s.ret = NONE
            outs.append(s)
        # abrupt exits propagate
        for s, exc in flow.raises:
            s.envs = s.envs[:depth]
            s.ret = saveret
            self.flows[-1].raises.append((s, exc))
        r = self.joinall(outs)
        if r is None:
            st.dead = True
            return UNDEF
        val = r.ret if r.ret is not None else NONE
        if fn.isgen:
            val = r.envs[-1].get('$yield')
        r.envs = r.envs[:depth]
        r.ret = saveret
        st.become(r)
        return self.simp(st, val)

    def instantiate(self, st, cls, args, kws, n):
        if self.isnt(cls):
            names = list(cls.ann)
            vals = {}
            for k, v in zip(names, args):
                vals[k] = v
            if len(args) > len(names):
                self.ev('badcall', st, n, fn=cls.qual, why='%d arguments for %d fields' % (len(args), len(names)))
            for k, v in kws.items():
                if k not in names:
                    self.ev('badcall', st, n, fn=cls.qual, why='unexpected keyword ' + k)
                vals[k] = v
            for k in names:
                if k not in vals:
                    if k in cls.ns:
                        vals[k] = cls.ns[k]
                    else:
                        self.ev('badcall', st, n, fn=cls.qual, why='missing argument ' + k)
                        vals[k] = UNDEF
            v = T('nt', cls.qual, tuple(names), tuple(vals[k] for k in names))
            self.ev('new', st, n, cls=cls.qual, value=v)
            return v
        ref = self.alloc(st, 'inst', attrs={}, cls=cls)
        init, owner = self.lookup(cls, '__init__')
        self.ev('new', st, n, cls=cls.qual, value=ref)
        if init is not None and init.op == 'fn':
            self.call_fn(st, init.args[0], [ref] + args, kws, n)
        elif not self.exttail(cls) and (args or kws):
            self.ev('badcall', st, n, fn=cls.qual, why='takes no arguments')
        elif args:
            o = self.obj(st, ref)
            self.put(st, ref, o.w(attrs={**o.attrs, 'args': T('tup', *args)}))
        return ref

    # ------------------------------------------------------------ heap object methods
    def obj_method(self, st, b, o, name, args, kws, n):
        a = [self.simp(st, x) for x in args]
        if name in MUTATORS:
            self.ev('mut', st, n, target=b, how=name, args=a, frozen=[self.fz(st, x) for x in a], origin=o.origin, okind=o.kind)
        if o.kind in ('list', 'deque'):
            if name == 'append':
                self.put(st, b, o.w(segs=o.segs + (a[0],)))
                return NONE
            if name == 'extend':
                self.put(st, b, o.w(segs=o.segs + tuple(self.segs_of(st, a[0]))))
                return NONE
            if name in ('insert',) and a[0].op == 'c' and (cv(a[0]) == 0 or all(s.op not in SEGOPS for s in o.segs)):
                i = cv(a[0])
                segs = list(o.segs)
                if i < 0:
                    i += len(segs)
                segs.insert(i, a[1])
                self.put(st, b, o.w(segs=tuple(segs)))
                return NONE
            if name == 'appendleft':
                self.put(st, b, o.w(segs=(a[0],) + o.segs))
                return NONE
            if name == 'pop':
                i = cv(a[0]) if a and a[0].op == 'c' else (-1 if not a else None)
                if i is not None and o.segs and all(s.op not in SEGOPS for s in o.segs):
                    segs = list(o.segs)
                    v = segs.pop(i)
                    self.put(st, b, o.w(segs=tuple(segs)))
                    return v
                if i == -1 and o.segs and o.segs[-1].op not in SEGOPS:
                    self.put(st, b, o.w(segs=o.segs[:-1]))
                    return o.segs[-1]
                f = self.fz(st, b)
                ix = a[0] if a else C(-1)
                v = item(f, ix)
                self.put(st, b, o.w(segs=(T('splat', T('popped', f, ix)),)))
                return v
            if name == 'popleft':
                f = self.fz(st, b)
                self.put(st, b, o.w(segs=(T('splat', T('popped', f, C(0))),)))
                return item(f, C(0))
            if name == 'reverse':
                if all(s.op not in SEGOPS for s in o.segs):
                    self.put(st, b, o.w(segs=tuple(reversed(o.segs))))
                else:
                    self.put(st, b, o.w(segs=(T('splat', T('rev', self.fz(st, b))),)))
                return NONE
            if name == 'sort':
                f = self.fz(st, b)
                if not kws:
                    self.put(st, b, o.w(segs=tuple(self.sorted_segs(st, f))))
                else:
                    self.put(st, b, o.w(segs=(T('splat', T('call', T('ext', 'builtins.sorted'), (f,), self.kwt(st, kws))),)))
                return NONE
            if name == 'copy':
                return self.alloc(st, o.kind, o.segs)
            if name == 'clear':
                self.put(st, b, o.w(segs=()))
                return NONE
            if name == 'remove' and a[0].op in CONSTY and all(s.op in CONSTY for s in o.segs):
                if a[0] in o.segs:
                    segs = list(o.segs)
                    segs.remove(a[0])
                    self.put(st, b, o.w(segs=tuple(segs)))
                    return NONE
                exc = T('excnew', 'ValueError')
                self.do_raise(st, T('ext', 'builtins.ValueError'), exc, n)
                return UNDEF
            if name == 'index' and a[0].op in CONSTY and all(s.op in CONSTY for s in o.segs) and a[0] in o.segs:
                return C(o.segs.index(a[0]))
            if name in ('index', 'count'):
                return T('mcall', self.fz(st, b), name, tuple(self.fz(st, x) for x in a), ())
            if name in MUTATORS:
                f = self.fz(st, b)
                self.put(st, b, o.w(segs=(T('splat', T('mutd', name, f, *[self.fz(st, x) for x in a])),)))
                return NONE
        if o.kind == 'bytearray':
            if name in ('extend',):
                x = self.bytes_val(st, a[0])
                self.put(st, b, o.w(segs=o.segs + (x,)))
                return NONE
            if name == 'append':
                self.put(st, b, o.w(segs=o.segs + (T('pack', C('B'), self.fz(st, a[0])),)))
                return NONE
            if name == 'clear':
                self.put(st, b, o.w(segs=()))
                return NONE
            if name in MUTATORS:
                f = self.fz(st, b)
                self.put(st, b, o.w(segs=(T('mutd', name, f, *[self.fz(st, x) for x in a]),)))
                return NONE
            return T('mcall', self.fz(st, b), name, tuple(self.fz(st, x) for x in a), self.kwt(st, kws))
        if o.kind == 'dict':
            if name in ('keys', 'values', 'items'):
                return T(name, b)
            if name == 'get':
                k = self.fz(st, a[0])
                dflt = a[1] if len(a) > 1 else kws.get('default', NONE)
                return self.get_default(st, b, o, k, dflt, n)
            if name == 'update':
                segs = list(o.segs)
                new = self.dictsegs_of(st, a[0]) if a else []
                for k, v in kws.items():
                    new.append(T('kv', C(k), v))
                for s in new:
                    cur = self.obj(st, b)
                    if s.op == 'kv':
                        self.dict_set(st, b, cur, s.args[0], s.args[1])
                    else:
                        self.put(st, b, cur.w(segs=cur.segs + (s,)))
                return NONE
            if name == 'copy':
                return self.alloc(st, 'dict', o.segs)
            if name == 'clear':
                self.put(st, b, o.w(segs=()))
                return NONE
            if name == 'pop':
                k = self.fz(st, a[0])
                v = self.dict_get(st, b, o, k, n) if len(a) == 1 else self.get_default(st, b, o, k, a[1], n)
                self.dict_del(st, b, self.obj(st, b), k)
                return v
            if name == 'setdefault':
                k = self.fz(st, a[0])
                v = self.get_default(st, b, o, k, a[1] if len(a) > 1 else NONE, n)
                self.dict_set(st, b, self.obj(st, b), k, v)
                return v
            if name in MUTATORS:
                f = self.fz(st, b)
                self.put(st, b, o.w(segs=(T('splat', T('mutd', name, f, *[self.fz(st, x) for x in a])),)))
                return T('mcall', f, name, tuple(self.fz(st, x) for x in a), ())
        if o.kind == 'set':
            f = self.fz(st, b)
            if name == 'add':
                self.put(st, b, o.w(segs=o.segs + (a[0],)))
                return NONE
            if name == 'update':
                segs = o.segs
                for x in a:
                    fx = self.fz(st, x)
                    segs = segs + ((T('splat', fx),) if fx.op in SETTY else tuple(self.segs_of(st, x)))
                self.put(st, b, o.w(segs=segs))
                return NONE
            if name == 'union':
                return union(f, *[setof(self.fz(st, x)) for x in a])
            if name == 'difference':
                for x in a:
                    f = setdiff(f, self.fz(st, x))
                return f
            if name == 'copy':
                return self.alloc(st, 'set', o.segs)
            if name in MUTATORS:
                self.put(st, b, o.w(segs=(T('splat', T('mutd', name, f, *[self.fz(st, x) for x in a])),)))
                return NONE
            return T('mcall', f, name, tuple(self.fz(st, x) for x in a), self.kwt(st, kws))
        return T('mcall', self.fz(st, b), name, tuple(self.fz(st, x) for x in a), self.kwt(st, kws))

    def get_default(self, st, b, o, k, dflt, n):
        f = self.fz(st, b)
        c = self.contains(k, f)
        d = self.decide(st, c)
        if d is True:
            return self.getitem1(st, b, k, None)
        if d is False:
            return dflt
        return ite(c, self.getitem1(st, b, k, None), dflt)

    def map_method(self, st, b, o, name, args, kws, n):
        """methods of tracked external objects (arrays made by numpy)"""
        if name in ('fill',):
            self.ev('mut', st, n, target=b, how=name, args=args, frozen=[self.fz(st, x) for x in args], origin=o.origin, okind='map')
            self.put(st, b, o.w(segs=(T('kv', T('slice', NONE, NONE, NONE), args[0]),)))
            return NONE
        return self.term_method(st, b, name, args, kws, n)

    def bytes_val(self, st, v):
        o = self.obj(st, v)
        f = self.fz(st, v)
        if o is not None and o.kind == 'list' or f.op == 'list':
            return T('bytesof', f)
        return f

    # ------------------------------------------------------------ methods of plain terms
    def term_method(self, st, b, name, args, kws, n):
        if b.op == 'ite' and b not in self.symcls and (b.args[1].op == 'c' or self.isheapy(st, b.args[1]) or self.isheapy(st, b.args[2])):
            def mk(x):
                def go(s):
                    m = self.getattr1(s, self.simp(s, x), name, n)
                    s.setvar('$v', self.call(s, m, args, kws, n))
                return go
            self.branch(st, b.args[0], mk(b.args[1]), mk(b.args[2]))
            return UNDEF if st.dead else self.poptmp(st)
        f = self.fz(st, b)
        fa = [self.fz(st, x) for x in args]
        if name in MSIGS and fa:
            sig = MSIGS[name]
            if len(fa) <= len(sig):
                kws = {**{sig[i]: v for i, v in enumerate(args)}, **kws}
                fa = []
        fk = {k: self.fz(st, v) for k, v in kws.items()}
        kt = tuple(T('kw', k, v) for k, v in sorted(fk.items()))
        self.ev('mcall', st, n, obj=f, raw=b, name=name, args=fa, kws=fk)
        if name in MUTATORS and not (f.op == 'c'):
            self.ev('mut', st, n, target=b, how=name, args=args, frozen=fa, origin=('ext',), okind=None)
        # strings
        if f.op == 'c' and isinstance(cv(f), (str, bytes)) and name not in ('format', 'join') and all(x.op == 'c' for x in fa) and all(v.op == 'c' for v in fk.values()):
            try:
                r = getattr(cv(f), name)(*[cv(x) for x in fa], **{k: cv(v) for k, v in fk.items()})
                return self.lift(st, r)
            except Exception:
                pass
        if name == 'format' and f.op == 'c' and isinstance(cv(f), str):
            return self.format(st, cv(f), fa, fk)
        if name == 'join' and f.op in ('c',) and args:
            return self.join_str(st, f, args[0])
        if name == 'encode' and (not fk or all(is_c(v, 'utf-8') or is_c(v, 'utf8') for v in fk.values())):
            return encode(f)
        if name == 'decode' and (not fk or (set(fk) == {'encoding'} and (is_c(fk['encoding'], 'utf-8') or is_c(fk['encoding'], 'utf8')))):
            if f.op == 'encode':
                return f.args[0]
            return T('decode', f)
        if name == 'decode':
            return T('decode', f, *kt)
        if name == 'keys' and not fa:
            return T('keys', b) if b.op != 'ref' else keys(f)
        if name in ('items', 'values') and not fa:
            return T(name, b)
        if name == 'get' and fa:
            c = self.contains(fa[0], f)
            dflt = args[1] if len(args) > 1 else NONE
            d = self.decide(st, c)
            v = self.getitem1(st, b, fa[0], None)
            return v if d is True else dflt if d is False else ite(c, v, dflt)
        if name == 'copy' and not fa:
            return T('call', T('ext', 'copy.copy'), (f,), ())
        setty = issetty(f)
        if name == 'union' and setty:
            return union(f, *[setof(x) for x in fa])
        if name == 'difference' and setty:
            for x in fa:
                f = setdiff(f, x)
            return f
        if name == 'issubset' and fa and setty:
            return lnot(nonempty(setdiff(f, fa[0])))
        if name == 'count' or name == 'index':
            return T('mcall', f, name, tuple(fa), kt)
        if name == 'append' or name == 'extend':
            o = self.obj(st, b)
            return NONE
        # arrays
        if name == 'reshape':
            shp = fa[0] if len(fa) == 1 else T('tup', *fa) if fa else fk.get('shape')
            return self.reshape(f, shp, fk.get('order'))
        if name == 'transpose' and not fa:
            return T('attr', f, 'T')
        if name == 'with_traceback':
            return b
        if name == '_replace' and f.op == 'nt':
            vals = [fk.get(k, v) for k, v in zip(f.args[1], f.args[2])]
            return T('nt', f.args[0], f.args[1], tuple(vals))
        if name == 'update' and fa or name in ('pop', 'setdefault', 'clear', 'popitem'):
            self.ext_mutate(st, b, name, args, fa, fk)
            if name == 'update':
                return NONE
        return T('mcall', f, name, tuple(fa), kt)

    def ext_mutate(self, st, b, name, args, fa, fk):
        from engine import Obj
        o = self.obj(st, b)
        if o is None:
            o = Obj('map', (), base=b, attrs={}, origin=('ext',))
        if o.kind != 'map':
            return
        if name == 'update':
            for s in self.dictsegs_of(st, args[0]):
                cur = self.obj(st, b) or o
                if s.op == 'kv':
                    self.dict_set(st, b, cur, s.args[0], s.args[1])
                else:
                    self.put(st, b, cur.w(segs=cur.segs + (s,)))
        elif name == 'pop' and fa:
            self.put(st, b, o.w(segs=o.segs + (T('del', fa[0]),)))
        else:
            self.put(st, b, o.w(segs=o.segs + (T('mutd', name, *fa),)))

    def lift(self, st, r):
        if isinstance(r, (list,)):
            return self.alloc(st, 'list', [self.lift(st, x) for x in r])
        if isinstance(r, tuple):
            return T('tup', *[self.lift(st, x) for x in r])
        if isinstance(r, set):
            return T('setc', *sorted((C(x) for x in r), key=lambda x: x.id))
        if isinstance(r, dict):
            return self.alloc(st, 'dict', [T('kv', C(k), self.lift(st, v)) for k, v in r.items()])
        return C(r)

    def format(self, st, s, args, kws):
        out = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    out.append(C(lit))
                if field is None:
                    continue
                name = field
                tail = ''
                for i, ch in enumerate(field):
                    if ch in '.[':
                        name, tail = field[:i], field[i:]
                        break
                if name == '':
                    v = args[auto]
                    auto += 1
                elif name.isdigit():
                    v = args[int(name)]
                else:
                    v = kws[name]
                if tail or spec or conv:
                    v = T('fmt', v, C(tail + (('!' + conv) if conv else '') + (':' + spec if spec else '')))
                else:
                    v = tostr(v)
                out.append(v)
        except (IndexError, KeyError) as e:
            self.ev('badformat', st, None, text=s, why=repr(e))
            return T('fmt', C(s), *args)
        except ValueError:
            return T('fmt', C(s), *args)
        return cat(*out) if out else C('')

    def join_str(self, st, sep, it):
        f = it
        segs = self.segs_of(st, it)
        isb = isinstance(cv(sep), bytes)
        if all(s.op not in SEGOPS for s in segs):
            parts = []
            for i, s in enumerate(segs):
                if i:
                    parts.append(sep)
                parts.append(self.fz(st, s))
            if all(p.op == 'c' for p in parts):
                try:
                    return C(cv(sep).join(cv(p) for p in parts[::2]))
                except TypeError:
                    pass
            return cat(*parts) if parts else sep
        if len(cv(sep)) == 0:
            out = []
            for s in segs:
                s = self.fz(st, s)
                if s.op == 'many':
                    out.append(manyb(*s.args))
                elif s.op == 'splat':
                    out.append(T('joined', s.args[0]))
                elif s.op == 'g':
                    out.append(ite(s.args[0], self.bytes_of((s.args[1],)), C(type(cv(sep))())))
                else:
                    out.append(s)
            return cat(*out)
        return T('mcall', sep, 'join', (self.fz(st, it),), ())

    def reshape(self, a, shape, order=None):
        if order is not None and is_c(order, 'C'):
            order = None
        return T('reshape', a, shape) if order is None else T('reshape', a, shape, order)

    # ------------------------------------------------------------ types
    def typeof(self, v):
        if v.op == 'c':
            x = cv(v)
            return T('ext', 'builtins.' + type(x).__name__) if x is not None else T('ext', 'builtins.NoneType')
        if v.op in ('cat', 'str', 'fmt', 'repr'):
            if v.op == 'cat' and any(p.op == 'c' and isinstance(cv(p), bytes) or p.op in ('pack', 'encode', 'manyb') for p in v.args):
                return T('ext', 'builtins.bytes')
            return T('ext', 'builtins.str')
        if v.op in ('encode', 'pack'):
            return T('ext', 'builtins.bytes')
        if v.op == 'nt':
            return T('cls', v.args[0])
        if v.op == 'list':
            return T('ext', 'builtins.list')
        if v.op == 'dict':
            return T('ext', 'builtins.dict')
        if v.op == 'tup':
            return T('ext', 'builtins.tuple')
        if v.op in SETTY:
            return T('ext', 'builtins.set')
        if v.op == 'len' or v.op == 'idx':
            return T('ext', 'builtins.int')
        if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in NPSCALARS:
            a = v.args[1][0] if v.args[1] else None
            if a is not None:
                ta = self.typeof(a)
                if ta is not None and ta.args[0] in ('builtins.list', 'builtins.tuple', 'numpy.ndarray'):
                    return T('ext', 'numpy.ndarray')
                if ta is None and a.op not in ('elem', 'item', 'lin', 'mul', 'call', 'param', 'attr', 'idx', 'maxover', 'add'):
                    return None
            return v.args[0]
        if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in FRESHMAPS:
            return T('ext', 'numpy.ndarray')
        if v.op == 'upd':
            return self.typeof(v.args[0])
        if v.op == 'mcall' and v.args[1] == 'astype':
            return T('ext', 'numpy.ndarray')
        if v.op == 'inst':
            return T('cls', v.args[0])
        if is_bool(v):
            return T('ext', 'builtins.bool')
        return None

    def isinst(self, st, v, c):
        if c.op in ('tup',):
            return lor(*[self.isinst(st, v, x) for x in c.args])
        o = self.obj(st, v)
        if o is not None:
            if o.kind == 'inst':
                return C(self.subclass(T('cls', o.cls.qual), c))
            k = {'list': 'builtins.list', 'dict': 'builtins.dict', 'set': 'builtins.set', 'bytearray': 'builtins.bytearray', 'deque': 'collections.deque'}.get(o.kind)
            if k:
                return C(self.subclass(T('ext', k), c) or (k == 'builtins.dict' and c.args[0].endswith('OrderedDict')))
        f = self.fz(st, v)
        return self.isinst_t(f, c)

    def isinst_t(self, f, c):
        if f.op == 'ite':
            return ite(f.args[0], self.isinst_t(f.args[1], c), self.isinst_t(f.args[2], c))
        t = self.typeof(f)
        if t is not None and c.op in ('ext', 'cls'):
            if self.subclass(t, c):
                return TRUE
            if t.op == 'cls' or c.op == 'cls' or self.pyclass(t) is not None:
                return FALSE
            if t.args[0] in NPSCALARS | {'numpy.ndarray'} and (c.args[0] in NPSCALARS | {'numpy.ndarray', 'builtins.list', 'builtins.dict', 'builtins.str', 'builtins.bytes', 'builtins.tuple'}):
                return FALSE
        return T('isinstance', f, c)

    def call_ext(self, st, name, args, kws, n):
        args = [self.simp(st, a) for a in args]
        h = getattr(self, 'x_' + name.replace('.', '__'), None)
        if h is not None:
            r = h(st, args, kws, n)
            if r is not None:
                return r
        return self.ext_generic(st, name, args, kws, n)

    def ext_generic(self, st, name, args, kws, n):
        if name in SIGS and not any(a.op in SEGOPS for a in args):
            sig = SIGS[name]
            if len(args) <= len(sig):
                kws = {**{sig[i]: v for i, v in enumerate(args)}, **kws}
                args = []
        fa = [self.fz(st, a) for a in args]
        fk = {k: self.fz(st, v) for k, v in kws.items()}
        order = SIGS.get(name, [])
        kt = tuple(T('kw', k, fk[k]) for k in sorted(fk, key=lambda k: (order.index(k) if k in order else 99, k)))
        self.ev('call', st, n, fn=name, args=fa, kws=fk, raw=args, rawkws=kws)
        r = T('call', T('ext', name), tuple(fa), kt)
        if name in FRESHMAPS:
            return self.alloc(st, 'map', base=r, attrs={})
        return r

    # ------------------------------------------------------------ builtins
    def x_builtins__len(self, st, a, k, n):
        v = a[0]
        if v.op in ('keys', 'items', 'values'):
            v = v.args[0]
        t = self.fz(st, v)
        if self.valid is not None and t.op == 'attr' and t.args[1] in ('shape', C('shape')) and self.valid.rank(t.args[0]):
            return C(self.valid.rank(t.args[0]))
        return length(t)

    def x_builtins__range(self, st, a, k, n):
        f = [self.fz(st, x) for x in a]
        if len(f) == 1:
            return T('range', C(0), f[0])
        if len(f) == 3 and is_c(f[2], 1):
            f = f[:2]
        return T('range', *f)

    def x_builtins__enumerate(self, st, a, k, n):
        start = a[1] if len(a) > 1 else k.get('start', C(0))
        return T('enumerate', a[0], start)

    def x_builtins__zip(self, st, a, k, n):
        if any(x.op in SEGOPS for x in a):
            return T('call', T('ext', 'builtins.zip'), tuple(self.fz(st, x) for x in a), ())
        return T('zip', *a)

    def x_builtins__reversed(self, st, a, k, n):
        pl = self.plan(st, a[0])
        if all(p[0] == 'one' for p in pl):
            return T('tup', *[p[1] for p in reversed(pl)])
        return T('rev', self.fz(st, a[0]))

    def x_builtins__list(self, st, a, k, n):
        return self.alloc(st, 'list', self.segs_of(st, a[0]) if a else ())

    def x_collections__deque(self, st, a, k, n):
        return self.alloc(st, 'deque', self.segs_of(st, a[0]) if a else ())

    def x_builtins__tuple(self, st, a, k, n):
        if not a:
            return T('tup')
        segs = self.segs_of(st, a[0])
        if all(s.op not in SEGOPS for s in segs):
            return T('tup', *segs)
        f = self.fz(st, a[0])
        return T('tupof', f) if f.op != 'tupof' else f

    def x_builtins__set(self, st, a, k, n):
        if not a:
            return self.alloc(st, 'set')
        v = a[0]
        if v.op in ('keys',):
            v = v.args[0]
        return setof(self.fz(st, v))

    x_builtins__frozenset = x_builtins__set

    def x_builtins__set__union(self, st, a, k, n):
        parts = []
        for x in a:
            x = self.fz(st, x)
            if x.op == 'many':
                parts.append(unionover(x.args[0], x.args[1], setof(x.args[2])))
            elif x.op == 'g':
                parts.append(ite(x.args[0], setof(x.args[1]), T('setc')))
            elif x.op == 'splat':
                parts.append(unionover(x.args[0], TRUE, setof(elem(x.args[0]))))
            else:
                parts.append(setof(x))
        return union(*parts)

    def x_builtins__dict(self, st, a, k, n):
        segs = self.dictsegs_of(st, a[0]) if a else []
        ref = self.alloc(st, 'dict', ())
        for s in segs:
            o = self.obj(st, ref)
            if s.op == 'kv':
                self.dict_set(st, ref, o, s.args[0], s.args[1])
            else:
                self.put(st, ref, o.w(segs=o.segs + (s,)))
        for kk, v in k.items():
            self.dict_set(st, ref, self.obj(st, ref), C(kk), v)
        return ref

    x_collections__OrderedDict = x_builtins__dict

    def x_collections__defaultdict(self, st, a, k, n):
        return self.alloc(st, 'dict', ())

    def x_builtins__str(self, st, a, k, n):
        if not a:
            return C('')
        if len(a) == 1 and not k:
            f = self.fz(st, a[0])
            return tostr(f)

    def x_builtins__repr(self, st, a, k, n):
        return T('repr', self.fz(st, a[0]))

    def x_builtins__int(self, st, a, k, n):
        if not a:
            return C(0)
        f = self.fz(st, a[0])
        if f.op == 'c' and len(a) == 1:
            try:
                return C(int(cv(f)))
            except (ValueError, TypeError):
                pass
        if f.op == 'len':
            return f

    def x_builtins__float(self, st, a, k, n):
        if a and a[0].op == 'c':
            try:
                return C(float(cv(a[0])))
            except (ValueError, TypeError):
                pass

    def x_builtins__bool(self, st, a, k, n):
        return self.truth(st, a[0]) if a else FALSE

    def x_builtins__bytes(self, st, a, k, n):
        if not a:
            return C(b'')
        f = self.fz(st, a[0])
        o = self.obj(st, a[0])
        if (o is not None and o.kind == 'bytearray') or f.op in ('cat', 'pack', 'encode', 'manyb'):
            return f
        if f.op in ('list', 'tup') and len(f.args) == 1 and f.args[0].op not in SEGOPS:
            return T('pack', C('B'), f.args[0])

    def x_builtins__bytearray(self, st, a, k, n):
        if not a:
            return self.alloc(st, 'bytearray')
        f = self.fz(st, a[0])
        return self.alloc(st, 'bytearray', (f,) if f.op != 'cat' else f.args)

    def x_builtins__memoryview(self, st, a, k, n):
        return T('memoryview', self.fz(st, a[0]))

    def x_builtins__type(self, st, a, k, n):
        if len(a) == 1:
            o = self.obj(st, a[0])
            if o is not None and o.kind == 'inst':
                return T('cls', o.cls.qual)
            f = self.fz(st, a[0])
            t = self.typeof(f)
            return t if t is not None else T('type', f)

    def x_builtins__isinstance(self, st, a, k, n):
        c = a[1]
        if c.op == 'ref':
            c = self.fz(st, c)
        return self.isinst(st, a[0], c)

    def x_builtins__issubclass(self, st, a, k, n):
        x, c = a[0], self.fz(st, a[1])
        if x.op in ('ext', 'cls') and c.op in ('ext', 'cls'):
            return C(self.subclass(x, c))
        if c.op == 'tup' and x.op in ('ext', 'cls'):
            return C(any(self.subclass(x, y) for y in c.args))
        return T('issubclass', self.fz(st, x), c)

    def x_builtins__getattr(self, st, a, k, n):
        if a[1].op == 'c':
            if len(a) == 2:
                return self.getattr(st, a[0], cv(a[1]), n)
            o = self.obj(st, a[0])
            if o is not None and o.kind == 'inst':
                if cv(a[1]) in o.attrs or self.lookup(o.cls, cv(a[1]))[0] is not None:
                    return self.getattr(st, a[0], cv(a[1]), n)
            if a[0].op == 'cls' and self.lookup(self.classes[a[0].args[0]], cv(a[1]))[0] is not None:
                return self.getattr(st, a[0], cv(a[1]), n)
            return T('getattr', self.fz(st, a[0]), a[1], self.fz(st, a[2]))

    def x_builtins__setattr(self, st, a, k, n):
        if a[1].op == 'c':
            self.set_attr(st, a[0], cv(a[1]), a[2], n)
            return NONE

    def x_builtins__hasattr(self, st, a, k, n):
        o = self.obj(st, a[0])
        if a[1].op == 'c' and o is not None and o.kind == 'inst' and o.base is None and not self.exttail(o.cls):
            return C(cv(a[1]) in o.attrs or self.lookup(o.cls, cv(a[1]))[0] is not None)
        return T('truth', T('hasattr', self.fz(st, a[0]), a[1]))

    def sorted_segs(self, st, f):
        if f.op in ('list', 'tup', 'setc') and all(x.op == 'c' for x in f.args):
            try:
                return sorted(f.args, key=lambda x: cv(x))
            except TypeError:
                pass
        if f.op in ('setof', 'keys'):
            f = f.args[0]
        return [T('splat', f if f.op == 'sorted' else T('sorted', f))]

    def x_builtins__sorted(self, st, a, k, n):
        if k:
            return None
        v = a[0]
        o = self.obj(st, v)
        if v.op == 'items':
            return T('sorted', v)
        f = self.fz(st, v)
        if f.op == 'dict':
            f = T('list', *[e.args[0] if e.op == 'kv' else e for e in f.args]) if all(e.op == 'kv' for e in f.args) else f
        return self.alloc(st, 'list', self.sorted_segs(st, f))

    def fold_segs(self, st, v, one, many, empty, comb):
        out = []
        for p in self.plan(st, v):
            if p[0] == 'one':
                out.append(one(p[1]))
            elif p[0] == 'g':
                out.append(many(None, p[1], p[2]))
            else:
                out.append(many(p[1], p[2], p[3]))
        if not out:
            return empty
        r = out[0]
        for x in out[1:]:
            r = comb(r, x)
        return r

    def x_builtins__any(self, st, a, k, n):
        t = lambda x: self.truth(st, x)
        return self.fold_segs(st, a[0], t, lambda I, g, v: land(g, t(v)) if I is None else anyover(I, land(g, t(v))), FALSE, lor)

    def x_builtins__all(self, st, a, k, n):
        t = lambda x: self.truth(st, x)
        return self.fold_segs(st, a[0], t, lambda I, g, v: lor(lnot(g), t(v)) if I is None else allover(I, lor(lnot(g), t(v))), TRUE, land)

    def x_builtins__sum(self, st, a, k, n):
        f = lambda x: self.fz(st, x)
        r = self.fold_segs(st, a[0], f, lambda I, g, v: ite(g, f(v), C(0)) if I is None else sumover(I, g, f(v)), C(0), add)
        return add(r, a[1]) if len(a) > 1 else r

    def minmax(self, which, st, a, k, n):
        f = lambda x: self.fz(st, x)
        two = max2 if which == 'max' else min2
        if 'key' in k:
            return None
        if len(a) >= 2:
            r = f(a[0])
            for x in a[1:]:
                r = two(r, f(x))
            return r
        if len(a) == 1:
            pl = self.plan(st, a[0])
            if any(p[0] == 'g' for p in pl) or not pl:
                return None
            r = None
            for p in pl:
                x = f(p[1]) if p[0] == 'one' else T(which + 'over', p[1], p[2], f(p[3]))
                r = x if r is None else two(r, x)
            if 'default' in k:
                d = f(k['default'])
                r = two(d, r)
            return r

    def x_builtins__max(self, st, a, k, n):
        return self.minmax('max', st, a, k, n)

    def x_builtins__min(self, st, a, k, n):
        return self.minmax('min', st, a, k, n)

    def mapcall(self, st, a, n, filt=False):
        acc = self.alloc(st, 'list')
        its = a[1:]
        it = its[0] if len(its) == 1 else T('zip', *its)
        from engine import Flow
        self.flows.append(Flow())

        def body(s, v):
            vs = [v] if len(its) == 1 else [item(v, C(i)) for i in range(len(its))]
            r = self.call(s, a[0], vs, {}, n)
            if s.dead:
                return
            if filt:
                c = self.truth(s, r)

                def put(q):
                    o = self.obj(q, acc)
                    self.put(q, acc, o.w(segs=o.segs + (v,)))
                self.branch(s, c, put, lambda q: None)
            else:
                o = self.obj(s, acc)
                self.put(s, acc, o.w(segs=o.segs + (r,)))
        self.iterate(st, it, body, n)
        fl = self.flows.pop()
        self.flows[-1].raises.extend(fl.raises)
        return acc

    def x_builtins__map(self, st, a, k, n):
        return self.mapcall(st, a, n)

    def x_builtins__filter(self, st, a, k, n):
        return self.mapcall(st, a, n, filt=True)

    def x_functools__reduce(self, st, a, k, n):
        self.n += 1
        L = T('lv', 'red%d' % self.n, 'acc')
        pl = self.plan(st, a[1])
        if len(a) > 2:
            acc = a[2]
        elif pl and pl[0][0] == 'one':
            acc = pl[0][1]
            pl = pl[1:]
        else:
            acc = None
        for p in pl:
            if p[0] == 'one':
                acc = self.call(st, a[0], [acc, p[1]], {}, n) if acc is not None else p[1]
            elif p[0] == 'many':
                r = self.fz(st, self.call(st, a[0], [L, p[3]], {}, n))
                fo = self.fold(L, r, p[1], p[2], {L})
                if fo is None or fo[0] not in ('sum', 'prod', 'union'):
                    return T('call', T('ext', 'functools.reduce'), (self.fz(st, a[0]), self.fz(st, a[1])), ())
                kind, e = fo
                if kind == 'sum':
                    t = sumover(p[1], p[2], e)
                    acc = t if acc is None else add(acc, t)
                elif kind == 'union':
                    t = unionover(p[1], p[2], e)
                    acc = t if acc is None else union(acc, t)
                else:
                    t = prodover(p[1], p[2], e)
                    acc = t if acc is None else mul(acc, t)
            else:
                return T('call', T('ext', 'functools.reduce'), (self.fz(st, a[0]), self.fz(st, a[1])), ())
        return acc if acc is not None else NONE

    def x_builtins__chr(self, st, a, k, n):
        f = self.fz(st, a[0])
        if f.op == 'c' and isinstance(cv(f), int):
            return C(chr(cv(f)))
        return T('chr', f)

    def x_builtins__ord(self, st, a, k, n):
        f = self.fz(st, a[0])
        if f.op == 'c':
            return C(ord(cv(f)))

    def x_builtins__abs(self, st, a, k, n):
        return T('call', T('ext', 'numpy.abs'), (self.fz(st, a[0]),), ())

    def x_numpy__absolute(self, st, a, k, n):
        return T('call', T('ext', 'numpy.abs'), (self.fz(st, a[0]),), ())

    def x_builtins__slice(self, st, a, k, n):
        f = [self.fz(st, x) for x in a]
        if len(f) == 1:
            return self.mkslice(NONE, f[0], NONE)
        s = self.mkslice(*(f + [NONE] * (3 - len(f))))
        if is_c(s.args[0], 0) and is_c(s.args[2], None):
            return T('slice', NONE, s.args[1], NONE)
        return s

    def x_builtins__iter(self, st, a, k, n):
        return a[0] if len(a) == 1 else None

    def x_builtins__next(self, st, a, k, n):
        f = self.fz(st, a[0])
        if len(a) == 1:
            if f.op in ('list', 'tup') and f.args and f.args[0].op not in SEGOPS:
                return f.args[0]
            return T('first', f) if f.op in ('list', 'tup') else item(f, C(0)) if f.op not in ('keys',) else item(f, C(0))
        pl = self.plan(st, a[0])
        if len(pl) == 1 and pl[0][0] == 'many':
            return ite(anyover(pl[0][1], pl[0][2]), T('first', pl[0][1], pl[0][2], self.fz(st, pl[0][3])), a[1])
        return T('next', f, self.fz(st, a[1]))

    def x_builtins__print(self, st, a, k, n):
        return NONE

    def x_builtins__super(self, st, a, k, n):
        return T('super', a[0].args[0], a[1])

    # ------------------------------------------------------------ struct
    def x_struct__pack(self, st, a, k, n):
        fmt = self.fz(st, a[0])
        vals = [self.fz(st, x) for x in a[1:]]
        self.ev('call', st, n, fn='struct.pack', args=[fmt] + vals, kws={}, raw=a, rawkws=k)
        return mkpack(fmt, *vals)

    def x_struct__unpack_from(self, st, a, k, n):
        return None

    # ------------------------------------------------------------ copy, arrays
    def x_copy__deepcopy(self, st, a, k, n):
        return self.deep(st, a[0], {})

    def deep(self, st, v, memo):
        if v.op == 'ref':
            oid = v.args[0]
            if oid in memo:
                return memo[oid]
            o = self.obj(st, v)
            r = self.alloc(st, o.kind, (), o.base, None, o.cls)
            memo[oid] = r
            segs = tuple(self.deep(st, s, memo) for s in o.segs)
            attrs = {k: self.deep(st, x, memo) for k, x in (o.attrs or {}).items()} if o.attrs is not None else None
            self.put(st, r, self.obj(st, r).w(segs=segs, attrs=attrs))
            return r
        if v.op in SEGOPS + ('kv', 'tup', 'seq', 'nt'):
            from terms import _mapargs
            if any(s.op == 'ref' for s in subterms(v)):
                return T(v.op, *[_mapargs(x, lambda y: self.deep(st, y, memo)) for x in v.args])
            if v.op == 'splat':
                return T('splat', deepcopy(v.args[0]))
            if v.op == 'kv':
                return T('kv', v.args[0], self.deep(st, v.args[1], memo))
            return v
        if v.op in ('ite',):
            return ite(v.args[0], self.deep(st, v.args[1], memo), self.deep(st, v.args[2], memo))
        f = self.fz(st, v)
        return deepcopy(f)

    def x_copy__copy(self, st, a, k, n):
        o = self.obj(st, a[0])
        if o is not None and o.kind in ('list', 'dict', 'set', 'deque'):
            return self.alloc(st, o.kind, o.segs)

    def out_ufunc(self, st, name, a, k, n):
        names = ['x1', 'x2', 'out']
        d = {names[i]: v for i, v in enumerate(a)}
        d.update(k)
        out = d.pop('out', None)
        x, y = self.fz(st, d['x1']), self.fz(st, d['x2'])
        r = T('call', T('ext', name), (), (T('kw', 'x1', x), T('kw', 'x2', y)))
        self.ev('call', st, n, fn=name, args=[], kws={'x1': x, 'x2': y}, raw=a, rawkws=k)
        if out is not None:
            o = self.obj(st, out)
            self.ev('mut', st, n, target=out, how='out=', args=[], frozen=[r], origin=o.origin if o else ('ext',), okind='map')
            if o is not None and o.kind == 'map':
                self.put(st, out, o.w(base=r, segs=()))
            return out
        return self.alloc(st, 'map', base=r, attrs={}) if False else r

    def x_numpy__minimum(self, st, a, k, n):
        return self.out_ufunc(st, 'numpy.minimum', a, k, n)

    def x_numpy__maximum(self, st, a, k, n):
        return self.out_ufunc(st, 'numpy.maximum', a, k, n)

    def x_numpy__clip(self, st, a, k, n):
        names = ['a', 'a_min', 'a_max', 'out']
        d = {names[i]: v for i, v in enumerate(a)}
        d.update(k)
        if 'a' not in d or 'a_min' not in d or 'a_max' not in d:
            return None
        r = self.out_ufunc(st, 'numpy.minimum', [d['a'], d['a_max']], {}, n)
        return self.out_ufunc(st, 'numpy.maximum', [r, d['a_min']], {'out': d['out']} if 'out' in d else {}, n)

    def x_numpy__reshape(self, st, a, k, n):
        d = {['a', 'newshape', 'order'][i]: v for i, v in enumerate(a)}
        d.update(k)
        shp = d.get('newshape', d.get('shape'))
        if 'a' in d and shp is not None:
            self.ev('call', st, n, fn='numpy.reshape', args=[], kws={x: self.fz(st, v) for x, v in d.items()}, raw=a, rawkws=k)
            return self.reshape(self.fz(st, d['a']), self.fz(st, shp), self.fz(st, d['order']) if 'order' in d else None)

    def x_numpy__shape(self, st, a, k, n):
        return T('attr', self.fz(st, a[0]), 'shape')

    def x_numpy__ndim(self, st, a, k, n):
        return self.attrterm(self.fz(st, a[0]), 'ndim')

    def x_numpy__size(self, st, a, k, n):
        if len(a) == 1:
            return T('attr', self.fz(st, a[0]), 'size')

    def x_numpy__dtype(self, st, a, k, n):
        if len(a) == 1 and not k:
            return T('call', T('ext', 'numpy.dtype'), (self.fz(st, a[0]),), ())

    def x_numpy__issubdtype(self, st, a, k, n):
        if len(a) != 2 or k:
            return None
        from engine import NPBASES, PYTYPES
        x, y = (self.fz(st, v) for v in a)
        x, y = (T('ext', PYTYPES[v.args[0]]) if v.op == 'ext' and v.args[0] in PYTYPES else v for v in (x, y))
        if x.op == 'ext' and y.op == 'ext' and x.args[0] in NPBASES and y.args[0] in NPBASES:
            return C(x is y or y.args[0] in NPBASES[x.args[0]])

    def x_numpy__prod(self, st, a, k, n):
        if len(a) == 1:
            pl = self.plan(st, a[0])
            if len(pl) == 1 and pl[0][0] == 'many':
                return prodover(pl[0][1], pl[0][2], self.fz(st, pl[0][3]))

    x_math__prod = x_numpy__prod

    def x_logging__getLogger(self, st, a, k, n):
        return T('logger')


def ast_frame(an, fn, depth, selfterm=None):
    from engine import Frame
    return Frame(fn, depth, cls=fn.cls, selfterm=selfterm)
