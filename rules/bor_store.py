"""B09: what is written to a Borealis file is what is read back."""
from rules.base import T, C, cv, is_c, subterms, TRUE, FALSE, an, P, short, unsure, Run
from rules import entries as E
from rules.bor_checks import SPEC, types_of
from rules.prop import implies
from terms import subst, rewrite, ite, build, land, lor

STR, NUM, ARR = 'text', 'number', 'array'
V = P('?value')
RESERVED = ('CLASS', 'TITLE', 'VERSION', 'DEEPDISH_IO_VERSION', 'PYTABLES_FORMAT_VERSION')
NPTEXT = {'numpy.bytes_', 'numpy.string_'}


def is_file(t):
    return t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'h5py.File'


def arg(t, i, name):
    """an argument of a call or method call term"""
    pos, kws = (t.args[1], t.args[2]) if t.op == 'call' else (t.args[2], t.args[3])
    for k in kws:
        if k.args[0] == name or isinstance(k.args[0], T) and is_c(k.args[0]) and cv(k.args[0]) == name:
            return k.args[1]
    return pos[i] if i is not None and i < len(pos) else None


def peel(t):
    """the collection behind sorted(x), list(x), x.keys(), x.items()"""
    while True:
        if t.op in ('sorted', 'items', 'keys', 'listof', 'tupof', 'setof', 'iter') and len(t.args) >= 1:
            t = t.args[0]
        else:
            return t


class Field:
    """a field of known name and type: what conditions and conversions on its value come to"""

    def __init__(self, name, kind, dtype, stored=None, form=None):
        self.name, self.kind, self.dtype, self.stored, self.form = name, kind, dtype, stored, form

    def isinstance(self, x, cls):
        names = [c.args[0] for c in (cls.args if cls.op in ('tup', 'setc', 'list') else [cls]) if isinstance(c, T) and c.op in ('ext', 'cls')]
        if not names:
            return None
        res = [self.isinst1(x, n.replace('builtins.', '')) for n in names]
        return True if True in res else None if None in res else False

    def isinst1(self, x, n):
        if is_c(x) and isinstance(cv(x), (str, bytes)):
            return n == type(cv(x)).__name__ if n in ('str', 'bytes', 'h5py.Empty', 'numpy.ndarray') else None
        if x == V:
            if self.kind == ARR:
                return {'numpy.ndarray': True, 'str': False, 'bytes': False, 'h5py.Empty': False, 'numpy.generic': False, 'list': False, 'tuple': False, 'dict': False, 'numpy.bytes_': False, 'numpy.str_': False}.get(n)
            if self.kind == STR:
                return {'str': True, 'bytes': False, 'numpy.ndarray': False, 'numpy.generic': False, 'h5py.Empty': False, 'numpy.bytes_': False, 'list': False}.get(n)
            return {'str': False, 'bytes': False, 'numpy.ndarray': False, 'h5py.Empty': False, 'numpy.generic': True, 'numpy.bytes_': False, 'numpy.str_': False, 'list': False}.get(n)
        if x == BYTES:
            return {'bytes': self.form != 'empty', 'numpy.bytes_': self.form != 'empty', 'h5py.Empty': self.form == 'empty', 'str': False, 'numpy.ndarray': False, 'numpy.str_': False}.get(n)
        return None

    def step(self, t):
        """one bottom-up step of evaluation"""
        op = t.op
        if op == 'isinstance':
            b = self.isinstance(t.args[0], t.args[1])
            if b is not None:
                return C(b)
        elif op == 'in':
            k, s = t.args
            if is_c(k) and s.op in ('setc', 'tup', 'list', 'dict'):
                ks = [x.args[0] if x.op == 'kv' else x for x in s.args]
                if all(is_c(x) for x in ks):
                    return C(cv(k) in [cv(x) for x in ks])
            if is_c(k) and self.stored is not None and s == DATTRS:
                return C(k in self.stored.attrs)
        elif op == 'attr':
            o, n = t.args
            n = cv(n) if isinstance(n, T) else n
            if n == 'type' and o.op == 'attr' and o.args[0] in (V, BYTES) and (o.args[1] == 'dtype' or o.args[1] == C('dtype')):
                if o.args[0] == BYTES:
                    return T('ext', 'numpy.bytes_')
                if self.kind != STR:
                    return T('ext', 'numpy.' + self.dtype)
            if n == 'kind' and o.op == 'attr' and o.args[0] == V and self.dtype in KIND:
                return C(KIND[self.dtype])
            if o == BYTES and n in ('itemsize', 'size') and self.form in ('blank', 'full') and n == 'itemsize':
                return C(0) if self.form == 'blank' else t
            if o == DSET and n == 'attrs':
                return DATTRS
        elif op == 'type' and t.args[0] == V and self.kind != ARR:
            return T('ext', 'builtins.str' if self.kind == STR else 'numpy.' + self.dtype)
        elif op == 'eq':
            a, b = t.args
            if a.op in ('ext', 'c') and b.op in ('ext', 'c'):
                return C(a == b)
            for x, y in ((a, b), (b, a)):
                if is_c(y) and x.op == 'attr' and x.args[0] == BYTES and self.form == 'full' and x.args[1] in ('itemsize', C('itemsize')):
                    return C(False) if cv(y) == 0 else t
                if is_c(y, '') and x == V and self.kind == STR:
                    return t
        elif op == 'lt0' or op == 'le0':
            for s in subterms(t):
                if s.op == 'attr' and s.args[0] == BYTES and self.form == 'full' and s.args[1] in ('itemsize', C('itemsize')):
                    from rules.prop import canon
                    lo = subst(t, {s: C(1)})
                    hi = subst(t, {s: C(1000000)})
                    if is_c(lo) and is_c(hi) and cv(lo) == cv(hi):
                        return lo
        elif op == 'item' and self.stored is not None:
            o, k = t.args
            if o == DSET and (k.op == 'slice' and all(is_c(x, None) for x in k.args) or k.op == 'tup' and not k.args or is_c(k, ()) or is_c(k, Ellipsis)):
                return self.stored.value
            if o == DATTRS and k in self.stored.attrs:
                return self.stored.attrs[k]
        elif op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in NPTEXT and not t.args[1] and not t.args[2]:
            return C(b'')
        elif op == 'mcall':
            o, n = t.args[0], t.args[1]
            if n == 'view' and self.dtype == 'str_':
                dt = arg(t, 0, 'dtype')
                if o.op == 'mcall' and o.args[1] == 'view' and o.args[0] == V and arg(o, 0, 'dtype') == T('ext', 'numpy.uint8') and dt is not None:
                    if dt.op == 'tup' and len(dt.args) == 2 and dt.args[0] in (T('ext', 'numpy.str_'), T('ext', 'builtins.str')):
                        w = T('attr', T('attr', V, 'dtype'), 'itemsize')
                        wide = dt.args[1]
                        while wide.op == 'int' or wide.op == 'call' and wide.args[0] == T('ext', 'builtins.int') and len(wide.args[1]) == 1:
                            wide = wide.args[0] if wide.op == 'int' else wide.args[1][0]
                        if wide == build('floordiv', w, C(4)):
                            return V
                        return T('wrongwidth', wide) if {s.op for s in subterms(wide)} <= {'attr', 'param', 'c', 'floordiv', 'mul', 'add', 'div', 'truediv', 'mod'} else t
                    if dt == T('attr', V, 'dtype'):
                        return V
            if n == 'type' and not t.args[2] and not t.args[3] and o == T('attr', BYTES, 'dtype'):
                return C(b'')
            if n in ('tobytes', 'decode', 'item') and o == BYTES:
                return (t if n != 'decode' else TEXT(self)) if n != 'tobytes' else T('raw', BYTES)
            if n == 'decode' and is_c(o):
                return C(cv(o).decode()) if isinstance(cv(o), bytes) else t
        elif op == 'decode':
            x = t.args[0]
            if is_c(x) and isinstance(cv(x), bytes):
                return C(cv(x).decode())
            if x == BYTES or x == T('raw', BYTES):
                return TEXT(self)
        return t


KIND = {'str_': 'U', 'bytes_': 'S', 'float32': 'f', 'float64': 'f', 'int16': 'i', 'int32': 'i', 'int64': 'i', 'uint8': 'u', 'uint16': 'u', 'uint32': 'u', 'uint64': 'u', 'complex64': 'c', 'bool_': 'b'}
BYTES, DSET, DATTRS, ATTRS = P('?bytes'), P('?dataset'), P('?dattrs'), P('?attrs')


def TEXT(f):
    return V if f.form == 'full' else C('')


def fields(key, structure):
    single, arrays = types_of(key, structure)
    for n, t in sorted(single.items()):
        yield n, STR if t == 'str' else NUM, t
    for n, t in sorted(arrays.items()):
        yield n, ARR, 'str_' if t == 'str' else t


class Stored:
    def __init__(self, attr, value, e, attrs=None, name=None):
        self.attr, self.value, self.e, self.attrs, self.name = attr, value, e, attrs or {}, name


# ---------------------------------------------------------------- writing

def elems(loops, own):
    """the key of the arbitrary field in loops over own"""
    return [T('elem', l[1]) for l in loops if peel(l[1]) == own]


def stores(r, own, group):
    """(event, is attribute, key, value, kws) of everything written below the group; group(term) tells the group"""
    out = []
    for e in r.events:
        if e.kind == 'setitem' and e.target.op == 'attr' and e.target.args[1] in ('attrs', C('attrs')):
            if group(e.target.args[0]):
                out.append((e, True, e.key, e.value if isinstance(e.value, T) and e.value.op != 'ref' else e.frozen, None))
        elif e.kind == 'mcall' and e.name in ('create_dataset', 'require_dataset') and group(e.obj):
            kw = dict(e.kws)
            for i, n in enumerate(('name', 'shape', 'dtype', 'data')):
                if i < len(e.args):
                    kw.setdefault(n, e.args[i])
            out.append((e, False, kw.get('name'), kw.get('data'), kw))
        elif e.kind == 'mcall' and e.name in ('create', 'modify', 'update') and e.obj.op == 'attr' and e.obj.args[1] in ('attrs', C('attrs')) and group(e.obj.args[0]):
            kw = dict(e.kws)
            a = list(e.args) + [None, None]
            out.append((e, True, kw.get('name', a[0]), kw.get('data', kw.get('value', a[1])), None if e.name != 'update' else {'?': None}))
        elif e.kind == 'setitem' and group(e.target):
            out.append((e, False, e.key, e.value if isinstance(e.value, T) and e.value.op != 'ref' else e.frozen, {}))
    return out


def notes(r, e):
    """the attributes given to the data set made by event e: (event, key, value)"""
    out = []
    for x in r.events:
        if x.kind == 'setitem' and x.seq > e.seq and x.target.op == 'attr' and x.target.args[1] in ('attrs', C('attrs')):
            o = x.target.args[0]
            if o.op == 'mcall' and o.args[1] == e.name and o.args[0] == e.obj and all(arg(o, None, k) == v for k, v in e.kws.items()) and list(o.args[2]) == list(e.args):
                out.append((x, x.key, x.value))
    return out


def write_side(ctx, key, structure, r, name):
    """what is stored for every field: {field: Stored}"""
    a = an(key)
    root = P('R' if structure == 'site' else 'A')
    opened = [e for e in r.events if e.kind == 'call' and e.fn == 'h5py.File']
    if len(opened) != 1:
        ctx.undecided('written', name, 'the file is not opened once but %d times' % len(opened))
        return {}
    base = set(opened[0].pc)
    if structure == 'site':
        gs = [e for e in r.events if e.kind == 'mcall' and e.name in ('create_group', 'require_group') and is_file(e.obj)]
        own = None
        for e in gs:
            for l in e.loops:
                if peel(l[1]) == root:
                    k = T('elem', l[1])
                    own = build('item', root, k)
                    got = e.kws.get('name', e.args[0] if e.args else None)
                    ctx.judge(got in (k, build('str', k), T('str', k)), [got], 'group', name, lambda: 'the group of record %s is named %s' % (short(k), short(got)), e.where)
                    more = [p for p in e.pc if p not in base and p != l[2]]
                    ctx.tri(True if not more and is_c(l[2], True) else None if any(unsure(p) for p in more) else False, 'every-record', name, lambda: 'a record is written only if %s' % ' & '.join(short(p) for p in more), e.where)
        if own is None:
            ctx.undecided('group', name, 'no group is made for each record')
            return {}
        isgroup = lambda t: t.op == 'mcall' and t.args[1] in ('create_group', 'require_group') and is_file(t.args[0])
    else:
        own = root
        isgroup = is_file
    all_ = stores(r, own, isgroup)
    out = {}
    known = {n for n, _, _ in fields(key, structure)}
    for e, isattr, k, val, kw in all_:
        if k is not None and is_c(k) and not any(l[1].op in ('setc', 'tup', 'list', 'dict') for l in e.loops):
            ctx.ok(cv(k) in known or isattr and cv(k) in RESERVED, 'extra', '%s writes %s' % (name, cv(k)), '%s is not a field of the format' % cv(k), e.where)
    for n, kind, dt in fields(key, structure):
        f = Field(n, kind, dt)
        c = '%s field %s' % (name, n)
        hits, maybe = [], []
        for e, isattr, k, val, kw in all_:
            ks = elems(e.loops, own)
            if structure == 'site':
                outer = {build('item', root, T('elem', l[1])) for l in e.loops if peel(l[1]) == root}
                if own not in outer and outer:
                    maybe.append((e, 'another record'))
                    continue
            to = {x: C(n) for x in ks}
            for l in e.loops:
                if l[1].op in ('setc', 'tup', 'list', 'dict') and all(is_c(x.args[0] if x.op == 'kv' else x) for x in l[1].args):
                    to[T('elem', l[1])] = C(n)
            if k is None or val is None:
                maybe.append((e, 'unknown key'))
                continue
            k1 = subst(k, to)
            if k1 != C(n):
                if not is_c(k1):
                    maybe.append((e, 'under the name %s' % short(k1)))
                continue
            src = next((l[1] for l in e.loops if T('elem', l[1]) in to and peel(l[1]) != own), None)
            if src is not None and C(n) not in [x.args[0] if x.op == 'kv' else x for x in src.args]:
                continue
            to2 = dict(to)
            field = build('item', own, C(n))
            both = lambda t: subst(subst(t, to2), {field: V})
            q = [rewrite(both(p), f.step) for p in e.pc if p not in base]
            if any(is_c(p, False) for p in q):
                continue
            hits.append((e, isattr, rewrite(both(val), f.step), kw, both, land(*q)))
        if maybe:
            ctx.undecided('written', c, '%d writes; %s' % (len(hits), '; '.join(w for _, w in maybe[:3])))
            continue
        if not hits:
            ctx.ok(False, 'written', c, 'the field is not written')
            continue
        cover = lor(*[h[5] for h in hits])
        if len(hits) > 1 or not is_c(cover, True):
            try:
                full = implies(TRUE, cover)
            except Exception:
                full = None
            if not full:
                ctx.judge(False, [cover] if full is False else [T('unk', 0)], 'written', c, lambda: 'the field is written only if %s' % short(cover, 120), hits[0][0].where)
                continue
            if len({(h[1], h[2]) for h in hits}) > 1:
                ctx.undecided('written', c, 'written in %d ways' % len(hits))
                continue
        e, isattr, val, kw, both, _ = hits[0]
        attrs, bad = {}, None
        if not isattr:
            for k in kw:
                if k not in ('name', 'data', 'compression', 'compression_opts', 'shuffle', 'chunks', 'fletcher32', 'maxshape', 'track_times'):
                    bad = k
            for x, k, v in notes(r, e):
                if x.pc[:len(e.pc)] != e.pc[:len(e.pc)]:
                    bad = 'attributes'
                g = [rewrite(both(p), f.step) for p in x.pc if p not in base]
                if any(is_c(p, False) for p in g):
                    continue
                if any(not is_c(p, True) for p in g):
                    bad = 'attributes'
                attrs[k] = both(v)
        if bad:
            ctx.undecided('written', c, 'stored with %s' % bad)
            continue
        ctx.ok(True, 'written', c, '', e.where)
        if not isattr and 'compressed' in name:
            z = kw.get('compression', C(None))
            ctx.judge(z == P('z'), [z], 'compression', c, lambda: 'stored with compression %s, not the one asked for' % short(z), e.where)
        out[n] = Stored(isattr, val, e, attrs)
    return out


# ---------------------------------------------------------------- reading

def parts(t):
    """the entries of a dictionary term"""
    out = []
    for s in t.args:
        if s.op in ('dict', 'spread') and s.args and isinstance(s.args[0], T):
            out += parts(s)
        else:
            out.append(s)
    return out


def read_field(f, segs, G):
    """what the reader makes of the field: a term, None when it does not read it, or False when it cannot be told"""
    res = None
    for s in segs:
        if s.op == 'g':
            if s.args[1].op == 'kv' and is_c(s.args[1].args[0]) and cv(s.args[1].args[0]) != f.name:
                continue
            return False
        if s.op == 'kv':
            if is_c(s.args[0]):
                if cv(s.args[0]) != f.name:
                    continue
                return False
            return False
        if s.op != 'many' or s.args[2].op != 'kv':
            return False
        src, cond, kv = s.args
        base = peel(src)
        if base == G:
            isattr = False
        elif base == T('attr', G, 'attrs') or base == build('attr', G, 'attrs'):
            isattr = True
        else:
            return False
        k = T('elem', src)
        if subst(kv.args[0], {k: C(f.name)}) != C(f.name):
            return False
        if isattr != f.stored.attr:
            continue
        place = build('item', base if isattr else G, C(f.name))
        form = DSET if not isattr else {STR: BYTES}.get(f.kind, V) if f.stored.value != V else V
        both = lambda t: rewrite(subst(subst(t, {k: C(f.name)}), {place: form}), f.step)
        c = both(cond)
        if is_c(c, False):
            continue
        res = both(kv.args[1])
        if not is_c(c, True):
            if unsure(c):
                return False
            return T('onlyif', c, res)
    return res


def plain(t):
    """the term with the constructs written out that only look unfamiliar"""
    def f(x):
        if x.op == 'mcall' and x.args[1] == 'view':
            return T('viewed', x.args[0], arg(x, 0, 'dtype') or C(None))
        if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in NPTEXT | {'h5py.File'}:
            return T('made', x.args[0], *[y for y in x.args[1]])
        return x
    return rewrite(t, f)


def verdict(ctx, cond, terms, *a):
    ctx.judge(cond, [plain(t) for t in terms if t is not None], *a)


def textual(v):
    """the forms in which HDF5 holds a string as bytes"""
    if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in NPTEXT and len(v.args[1]) == 1 and v.args[1][0] == V:
        return True
    return v.op == 'encode' and v.args[0] == V or v.op == 'mcall' and v.args[1] == 'encode' and v.args[0] == V


def back(ctx, key, structure, stored, name):
    a = an(key)
    r = E.b_read(key, structure)
    if r.dead:
        ctx.undecided('read', name, 'reading ends in an error')
        return
    t = r.fz(getter(a, r, structure))
    while t.op in ('sorted', 'items', 'ordered') or t.op == 'dict' and len(t.args) == 1 and t.args[0].op in ('sorted', 'items', 'spread', 'dict'):
        t = t.args[0]
    if structure == 'site':
        if t.op != 'dict' or len(t.args) != 1 or t.args[0].op != 'many' or t.args[0].args[2].op != 'kv':
            ctx.undecided('read', name, 'records of unfamiliar form: %s' % short(t, 120))
            return
        src, cond, kv = t.args[0].args
        k = T('elem', src)
        F = peel(src)
        if F.op == 'item' and F.args[1].op == 'slice' and all(is_c(x) for x in F.args[1].args) and is_file(peel(F.args[0])):
            ctx.ok(all(cv(x) is None for x in F.args[1].args[:2]), 'every-record', name + ' read', 'only the groups %s are read' % short(F.args[1]))
            return
        if not is_file(F):
            ctx.undecided('read', name, 'records from %s' % short(src, 120))
            return
        ctx.tri(True if is_c(cond, True) else None if unsure(cond) else False, 'every-record', name + ' read', lambda: 'a group is read only if %s' % short(cond))
        ctx.judge(kv.args[0] == k, [kv.args[0]], 'group', name + ' read', lambda: 'the record is named %s' % short(kv.args[0]))
        G, t = build('item', F, k), kv.args[1]
    else:
        G = next((peel(s.args[0]) for s in parts(t) if s.op == 'many' and is_file(peel(s.args[0]))), None) if t.op == 'dict' else None
        if G is None:
            ctx.undecided('read', name, 'arrays of unfamiliar form: %s' % short(t, 120))
            return
    if t.op != 'dict':
        ctx.undecided('read', name, 'fields of unfamiliar form: %s' % short(t, 120))
        return
    segs = parts(t)
    for n, kind, dt in fields(key, structure):
        st = stored.get(n)
        if st is None:
            continue
        c = '%s field %s' % (name, n)
        if n == 'pulse_phase_offset':
            segs_ = [s for s in segs if not (s.op == 'g' and s.args[1].op == 'kv' and is_c(s.args[1].args[0], n))]
        else:
            segs_ = segs
        if kind == STR and st.value != V and not textual(st.value) or kind == NUM and st.value != V or kind == ARR and st.attr:
            verdict(ctx, False, [st.value], 'stored', c, 'stored as %s' % short(st.value), st.e.where)
            continue
        if kind == STR and st.value == V and st.attr:
            bad = next((e for e in r.events if e.kind == 'mcall' and e.d.get('name') == 'decode' and not e.pc and e.d['obj'].op == 'item' and is_c(e.d['obj'].args[1], n)), None)
            if bad is not None:
                ctx.ok(False, 'same', c, 'stored as text, but reading decodes it as bytes (%s)' % bad.where, st.e.where)
                continue
        if kind == STR and st.value == V and not st.attr:
            ctx.undecided('stored', c, 'text in a data set')
            continue
        if kind == ARR and dt == 'str_' and st.value == V:
            ctx.ok(False, 'stored', c, 'HDF5 cannot hold arrays of text', st.e.where)
            continue
        for form in (('full', 'blank', 'empty') if kind == STR and st.value != V else ('full',)):
            f = Field(n, kind, dt, st, form)
            v = read_field(f, segs_, G)
            want = V if form == 'full' else C('')
            if v is False:
                ctx.undecided('same', c, 'the way the field is read cannot be followed')
                break
            ok = v == want
            verdict(ctx, ok, [v], 'same', c, lambda: 'a %s %s is stored as %s and read back as %s' % (
                form if form != 'full' else '', kind, short(st.value, 100), short(v, 160) if v is not None else 'nothing'), st.e.where)


def getter(a, r, structure):
    return r.get(r.get(r.o, '_reader'), '_records' if structure == 'site' else '_arrays')


def b09k(ctx, key):
    for s in ('site', 'array'):
        if s == 'array' and not E.has_arrays(key):
            continue
        name = '%s %s %s' % (key + (s,))
        r = E.b_write(key, s)
        st = write_side(ctx, key, s, r, name)
        back(ctx, key, s, st, name)
        write_side(ctx, key, s, E.b_stored(key, s), name + ' compressed')


def b09(ctx):
    ctx.fan(b09k, E.KEYS)
