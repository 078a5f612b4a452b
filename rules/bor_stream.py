"""B06: restructuring a file gives what restructuring its data in memory gives."""
from rules.base import T, C, cv, is_c, subterms, TRUE, FALSE, an, Run, P, short, unsure, dict_items
from rules import entries as E
from rules.bor_checks import SPEC, types_of
from rules.bor_memory import (A, R, RI, NDARRAY, ANY, DESCR, COUNTS, misplaced, one_array, count_array, parse_store, dimkey, shape_of, own_field, fields_of, prep, kinds_of, fields_of, one_field, record_key, not_lists, a_field, a_dimkey, unshared, pure, strip, subterms_, plain)
from terms import rewrite, subst, eq, idx, elem, lnot

STRTYPES = ('numpy.str_', 'builtins.str')


def is_file(t):
    """the input file, opened"""
    return t.op == 'call' and t.args[0] is T('ext', 'h5py.File') and P('fn') in t.args[1] + tuple(k.args[1] for k in t.args[2])


def whole(ix):
    """an index that takes everything: [:], [()], [...]"""
    return ix.op == 'slice' and all(is_c(x, None) for x in ix.args) or ix.op == 'tup' and not ix.args or is_c(ix, ()) or is_c(ix, Ellipsis)


def argof(call, i, name):
    pos, kws = (call.args[1], call.args[2]) if call.op == 'call' else (call.args[2], call.args[3])
    for k in kws:
        if k.args[0] == name or isinstance(k.args[0], T) and is_c(k.args[0], name):
            return k.args[1]
    return pos[i] if len(pos) > i else None


def attrs_of(t):
    """the object whose HDF5 attributes these are"""
    return t.args[0] if t.op == 'attr' and t.args[1] in ('attrs', C('attrs')) else None


def stored(group, own, single, arrays):
    """terms over an HDF5 group, as terms over the data stored there: group(term) tells the group, own(term, field) is the field's value.
    Text is RAW until it is decoded (attributes) or viewed as text (data sets)."""
    def f(x):
        if x.op == 'item' and is_c(x.args[1]) and isinstance(cv(x.args[1]), str):
            n, o = cv(x.args[1]), x.args[0]
            if group(o) and n in arrays:
                v = own(o, n)
                return T('raw', v) if arrays[n] in ('str', 'str_') else v
            if attrs_of(o) is not None and group(attrs_of(o)) and n in single:
                v = own(attrs_of(o), n)
                return T('raw', v) if single[n] in ('str', 'str_') else v
        elif x.op == 'item' and whole(x.args[1]) and (x.args[0].op == 'raw' or own(x.args[0], None)):
            return x.args[0]
        elif x.op == 'isinstance' and x.args[1].op == 'ext':
            v, cls = x.args[0], x.args[1].args[0]
            if v.op == 'raw' and field_of(v.args[0], own) in single:
                return C(cls in ('builtins.bytes', 'numpy.bytes_')) if cls in ('builtins.bytes', 'numpy.bytes_', 'builtins.str', 'h5py.Empty', 'numpy.ndarray') else x
            n = field_of(v, own)
            if n in single and single[n] not in ('str', 'str_') and cls in ('builtins.bytes', 'numpy.bytes_', 'builtins.str', 'h5py.Empty', 'numpy.ndarray'):
                return FALSE
        elif x.op == 'decode' and x.args[0].op == 'raw' and field_of(x.args[0].args[0], own) in single:
            return x.args[0].args[0]
        elif x.op == 'mcall' and x.args[0].op == 'raw':
            v = x.args[0].args[0]
            n = field_of(v, own)
            if x.args[1] == 'decode' and n in single:
                return v
            if x.args[1] == 'view' and n in arrays:
                dt = argof(x, 0, 'dtype')
                if dt is not None and dt.op == 'tup' and len(dt.args) == 2 and dt.args[0].op == 'ext' and dt.args[0].args[0] in STRTYPES:
                    w = dt.args[1]
                    if w.op == 'item' and is_c(w.args[1], 'itemsize') and attrs_of(w.args[0]) is x.args[0]:
                        return v
        elif x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in STRTYPES and len(x.args[1]) == 1 and not x.args[2]:
            n = field_of(x.args[1][0], own)
            if n in single and single[n] in ('str', 'str_'):
                return x.args[1][0]
        return x
    return f


def field_of(v, own):
    return cv(v.args[1]) if v.op in ('item', 'val') and is_c(v.args[1]) and own(v, None) else None


def fix(t, f):
    for _ in range(8):
        n = rewrite(t, f)
        if n is t:
            return t
        t = n
    return t


def not_negative(x):
    """dimensions are not negative"""
    if x.op == 'eq':
        for a, b in (x.args, x.args[::-1]):
            if is_c(b) and isinstance(cv(b), int) and cv(b) < 0 and a_dimkey(a) is not None:
                return FALSE
    if x.op in ('lt0', 'le0') and x.op == 'lt0' and a_dimkey(x.args[0]) is not None and not is_c(x.args[0]):
        return FALSE
    return x


def written(r, name):
    """the writes of whole structures to the output"""
    return [e for e in r.events if e.kind == 'inline' and e.fn.split('.')[-1] == name]


def raw_left(ctx, f, v, c):
    if any(s.op == 'raw' for s in subterms(v)):
        w = [s.args[0] for s in subterms(v) if s.op == 'raw']
        if all(s.op in ('raw', 'item', 'c', 'param', 'recidx', 'elem', 'ite', 'isinstance', 'ext', 'slice', 'idx', 'mcall', 'call', 'tup', 'attr', 'deepcopy') for s in subterms(v)):
            ctx.ok(False, 'text', c, 'the text is left as it is stored: ' + short(v))
        else:
            ctx.undecided('text', c, short(v))
        return True
    return False


def to_site(ctx, key):
    name = '%s %s' % key
    r = E.b_restructure(key, 'site')
    single, arrays = types_of(key, 'array')
    es = written(r, 'write_records')
    c0 = name + ' file to records'
    if not es:
        ctx.undecided('written', c0, 'no records are written')
        return
    if len(es) != 1:
        ctx.undecided('written', c0, '%d places write records' % len(es))
        return
    e = es[0]

    def own(o, n):
        if n is None:
            return o.op == 'item' and o.args[0] is A
        return T('item', A, C(n))
    h5 = stored(is_file, own, single, arrays)

    def clean(t):
        t = fix(t, h5)
        t = prep(t, A, kinds_of(key, 'array'))
        t = fix(rewrite(t, h5), not_lists)
        return rewrite(fix(t, not_negative), lambda x: x)
    args = [a for a in e.fargs]
    out, recs = args[1], args[2]
    ctx.tri(True if out is P('out') else False if pure(out) else None, 'written', c0, 'the records are written to ' + short(out))
    # one write per row
    loops = [l for l in e.loops]
    if len(loops) != 1:
        ctx.undecided('records', c0, '%d loops around the write' % len(loops))
        return
    over, cond = clean(loops[0][1]), clean(loops[0][2])
    g = a_field(over)
    if g:
        ctx.ok(g in unshared(key), 'records', c0, 'makes one record for each entry of field ' + g)
    elif over.op == 'range' and len(over.args) == 2 and is_c(over.args[0], 0):
        k = a_dimkey(over.args[1])
        ctx.tri(None if k is None else k[0] == 'shape' and k[1] in unshared(key) and k[2] == 0, 'records', c0, lambda: 'makes one record for each of %s' % (k,))
    else:
        ctx.undecided('records', c0, 'records for ' + short(over))
    if not is_c(cond, True):
        ctx.tri(False if pure(cond) else None, 'records', c0, 'makes a record only if ' + short(cond))
    recs = clean(recs)
    segs = strip(recs.args) if recs.op == 'dict' else []
    if len(segs) != 1 or segs[0].op != 'kv':
        ctx.undecided('records', c0, 'not one record for each row: ' + short(recs))
        return
    record_key(ctx, name, segs[0].args[0])
    d = dict_items(segs[0].args[1])
    if d is None:
        ctx.undecided('fields', name, short(segs[0].args[1]))
        return
    spec = SPEC[name]
    want = set(spec['site_single']) | set(spec['site_arrays'])
    for f in sorted(want | set(d)):
        c = '%s field %s of the records' % (name, f)
        if f not in want:
            ctx.ok(False, 'fields', c, 'the records get a field their format does not have')
        elif f not in d:
            ctx.ok(False, 'fields', c, 'the records lack this field of their format')
        elif f == 'pulse_phase_offset':
            ctx.undecided('per-record', c, short(d[f]))
        elif not raw_left(ctx, f, d[f], c):
            one_field(ctx, key, f, d[f], c, over)


class Valid:
    """a valid site file: groups of the format's fields, nothing at the top level beside them"""

    def __init__(self, key):
        self.single, self.arrays = types_of(key, 'site')
        self.dims = fields_of(key)[0]

    def group(self, t):
        return t.op == 'item' and is_file(t.args[0]) and not (is_c(t.args[1]) and isinstance(cv(t.args[1]), str))

    def rank(self, v):
        """the number of dimensions of a field that is not stored flat"""
        while v.op == 'item' and whole(v.args[1]):
            v = v.args[0]
        if v.op == 'item' and is_c(v.args[1]) and self.group(v.args[0]) and cv(v.args[1]) not in ('data', 'main_acfs', 'intf_acfs', 'xcfs'):
            w = self.dims.get(cv(v.args[1]))
            return len(w) if w else None
        return None

    def ndim(self, t):
        return self.rank(shaped(t)) if shaped(t) is not None else None

    def has(self, o, k):
        if not is_c(k) or not isinstance(cv(k), str):
            return None
        if self.group(o):
            return cv(k) in self.arrays
        if attrs_of(o) is not None and self.group(attrs_of(o)):
            return cv(k) in self.single
        return None

    def empty(self, it):
        while it.op in ('keys', 'items', 'sorted', 'listof', 'iter') and it.args:
            it = it.args[0]
        return attrs_of(it) is not None and is_file(attrs_of(it))

    def peel(self, it):
        while it.op in ('rev', 'sorted', 'keys', 'listof', 'iter') and it.args or it.op == 'item' and it.args[1].op == 'slice':
            it = it.args[0]
        return is_file(it)


def stream(key):
    a = an(key + ('valid',))
    a.valid = Valid(key)
    with Run(a) as r:
        r.call(E.BP + 'borealis_restructure.BorealisRestructure', P('fn'), P('out'), C(key[1]), C('array'))
    return r


FIRSTPASS = eq(idx(R), C(0))
LATER = lnot(FIRSTPASS)


def later(I):
    return lnot(eq(idx(I), C(0)))


def first_of(t, I=R):
    return subst(t, {elem(I): T('item', I, C(0)), idx(I): C(0), T('recidx'): C(0)} if I is not R else {elem(R): T('item', R, C(0)), idx(R): C(0)})


def inert(x):
    """guards that hold, taken off"""
    return x.args[1] if x.op == 'g' and is_c(x.args[0], True) else x


def lookup(single, arrays, group):
    """the value a record read whole from the file has for a field"""
    def f(x):
        if x.op != 'item' or x.args[0].op != 'dict' or not is_c(x.args[1]) or not isinstance(cv(x.args[1]), str):
            return x
        k = x.args[1]
        for s in reversed(x.args[0].args):
            s = inert(s)
            if s.op == 'kv' and is_c(s.args[0]):
                if s.args[0] is k:
                    return s.args[1]
            elif s.op == 'many' and s.args[2].op == 'kv':
                src, cond, kv = s.args
                own = src
                while own.op in ('keys', 'sorted', 'listof', 'iter') and own.args:
                    own = own.args[0]
                e = elem(src)
                if kv.args[0] is not e:
                    return x
                if attrs_of(own) is not None and group(attrs_of(own)):
                    there = cv(k) in single
                elif group(own):
                    there = cv(k) in arrays
                else:
                    return x
                if not there:
                    continue
                c = subst(cond, {e: k})
                if is_c(c, True):
                    return subst(kv.args[1], {e: k})
                if not is_c(c, False):
                    return x
            else:
                return x
        return x
    return f


def merge(x):
    """what the first pass and the later passes do alike, as one"""
    if x.op in ('maxdims', 'mindims') and len(x.args) == 4 and x.args[1] is later(x.args[0]) and x.args[3] is first_of(x.args[2], x.args[0]):
        return T(x.op, x.args[0], TRUE, x.args[2])
    if x.op in ('last', 'maxover', 'minover', 'maxdims', 'mindims') and x.args[0].op == 'sorted' and x.args[0].args[0] is R:
        return subst(x, {x.args[0]: R})         # record names are kept in order
    if x.op in ('maxover', 'minover', 'maxdims', 'mindims') and x.args[0].op == 'rev' and x.args[0].args[0] is R and is_c(x.args[1], True) \
            and idx(x.args[0]) not in subterms(x.args[2]):
        return subst(x, {x.args[0]: R})
    if x.op == 'max2':
        for a, b in (x.args, x.args[::-1]):
            if b.op == 'maxover' and b.args[1] is later(b.args[0]):
                w = first_of(b.args[2], b.args[0])
                if a is w or a.op == 'max2' and w in a.args and C(0) in a.args:
                    return T('maxover', b.args[0], TRUE, b.args[2])
            if is_c(a, 0) and (b.op == 'maxover' or dimkey(b) and dimkey(b)[0] == 'firstshape'):
                return b
    if x.op == 'item' and is_c(x.args[1], 0) and x.args[0].op in ('list', 'tup') and len(x.args[0].args) == 1:
        m = x.args[0].args[0]
        if m.op == 'many' and m.args[0] is R and m.args[1] is FIRSTPASS:
            return first_of(m.args[2])
    if x.op == 'upd':
        ws, out = [inert(w) for w in strip(list(x.args[1]))], []
        for w in ws:
            if w.op == 'many' and w.args[1] in (LATER, later(w.args[0])) and w.args[2].op == 'kv' and out and out[-1].op == 'kv' \
                    and out[-1] is first_of(w.args[2], w.args[0]):
                out[-1] = T('many', w.args[0], TRUE, w.args[2])
            else:
                out.append(w)
        if list(x.args[1]) != out:
            return T('upd', x.args[0], tuple(out), *x.args[2:])
    return x


def rooms(rank):
    """the dimensions of the longest record one by one"""
    def f(x):
        if x.op in ('list', 'tup') and any(s.op in ('many', 'splat') for s in x.args):
            out = []
            for s in x.args:
                m = s.args[0] if s.op in ('many', 'splat') else None
                if m is not None and m.op in ('maxdims', 'mindims') and (s.op == 'splat' or is_c(s.args[1], True) and s.args[2] is elem(m)):
                    n = rank(shaped(m.args[2]))
                    if n is None:
                        return x
                    out += [T(m.op[:3] + 'over', m.args[0], m.args[1], T('item', m.args[2], C(i))) for i in range(n)]
                elif m is not None and m.op == 'last' and s.op == 'splat' and rank(shaped(m.args[1])):
                    out += [T('last', m.args[0], T('item', m.args[1], C(i)), T('item', m.args[2], C(i))) for i in range(rank(shaped(m.args[1])))]
                elif m is not None and (s.op == 'splat' or is_c(s.args[1], True) and s.args[2] is elem(m)) and rank(shaped(m)):
                    out += [T('item', m, C(i)) for i in range(rank(shaped(m)))]
                else:
                    out.append(s)
            return T(x.op, *out)
        return x
    return f


def shaped(m):
    return m.args[0] if m.op == 'shape' or m.op == 'attr' and m.args[1] in ('shape', C('shape')) else None


def to_array(ctx, key):
    name = '%s %s' % key
    c0 = name + ' file to arrays'
    r = stream(key)
    es = written(r, 'write_arrays')
    if len(es) != 1 or r.dead:
        ctx.undecided('written', c0, '%d places write the arrays' % len(es))
        return
    e = es[0]
    single, arrays = types_of(key, 'site')
    out, d = e.fargs[1], e.fargs[2]
    ctx.tri(True if out is P('out') else False if pure(out) else None, 'written', c0, 'the arrays are written to ' + short(out))
    if e.loops:
        ctx.undecided('written', c0, 'the arrays are written in a loop')
    files = {s for s in subterms(d) if is_file(s)}
    if len(files) > 1:
        ctx.undecided('arrays', c0, 'the file is opened in several ways')
        return
    d = subst(d, {f: R for f in files})

    def group(t):
        return t.op == 'item' and t.args[0] is R and not (is_c(t.args[1]) and isinstance(cv(t.args[1]), str))

    def own(o, n):
        return T('val', o, C(n)) if n is not None else o.op == 'val'

    h5, look, kinds = stored(group, own, single, arrays), lookup(single, arrays, group), kinds_of(key)
    tidy = plain(kinds)

    def rank(v):
        f = field_of(v, own) if v is not None else None
        w = fields_of(key)[0].get(f)
        return len(w) if w is not None and f not in ('data', 'main_acfs', 'intf_acfs', 'xcfs') else None

    DIMS = len(DESCR[key[1]]) - 1

    def isarray(x):
        """which fields are arrays"""
        v = None
        if x.op == 'eq' and NDARRAY in x.args:
            y = x.args[0] if x.args[1] is NDARRAY else x.args[1]
            v = y.args[0] if y.op == 'type' else None
        elif x.op == 'isinstance' and x.args[1] is NDARRAY:
            v = x.args[0]
        if v is not None:
            v = v.args[0] if v.op == 'raw' else v
            f = field_of(v, own)
            if f is not None:
                return C(f in arrays)
            if v.op == 'reshape':
                return TRUE
        n = None
        if x.op == 'attr' and x.args[1] in ('ndim', C('ndim')):
            v = x.args[0]
            n = rank(v) or (DIMS if v.op == 'reshape' and fields_of(key)[1] == field_of(v.args[1], own) else None)
        elif x.op == 'len' and shaped(x.args[0]) is not None:
            n = rank(shaped(x.args[0]))
        return C(n) if n else x

    def back(x):
        return T('item', *x.args) if x.op == 'val' else x

    def clean(t):
        for _ in range(12):
            n = fix(t, look)
            n = fix(n, h5)
            n = rewrite(tidy(n), isarray)
            n = fix(n, lambda x: merge(inert(x)))
            if n is t:
                break
            t = n
        t = rewrite(rewrite(t, rooms(rank)), back)
        return rewrite(prep(t, R, kinds), merge)
    segs = [inert(s) for s in d.args] if d.op == 'dict' else None
    if not segs or any(s.op != 'kv' or not is_c(s.args[0]) for s in segs):
        ctx.undecided('fields', c0, 'the result is not a dictionary of fields: ' + short(d))
        return
    got = {cv(s.args[0]): s.args[1] for s in segs}
    spec = SPEC[name]
    want = set(spec['array_single']) | set(spec['array_arrays'])
    for f in sorted(want | set(got)):
        c = '%s field %s of the arrays' % (name, f)
        if f not in want:
            ctx.ok(False, 'fields', c, 'the arrays get a field their format does not have')
        elif f not in got:
            ctx.ok(False, 'fields', c, 'the arrays lack this field of their format')
        elif f == 'pulse_phase_offset' and f in unshared(key):
            ctx.undecided('per-record', c, short(got[f]))
        else:
            v = clean(got[f])
            if f in COUNTS and f not in spec['site_single']:
                counts(ctx, f, v, c)
                continue
            if f in unshared(key) and single.get(f) in ('str', 'str_'):
                v = rewrite(v, lambda x: x.args[0] if x.op == 'raw' else x)     # stored text becomes text in an array of text
            if not raw_left(ctx, f, v, c):
                one_array(ctx, key, f, v, c)


def counts(ctx, f, v, c):
    if misplaced(ctx, v, c):
        return
    p = parse_store(v)
    if p is None:
        count_array(ctx, f, v, c)
        return
    shape, dt, fill, st = p
    if len(shape) == 1 and dimkey(shape[0]) is not None:
        ctx.ok(dimkey(shape[0]) == ('records',), 'room', c, 'the array is made for %s' % (dimkey(shape[0]),))
    else:
        ctx.undecided('room', c, 'shape ' + ', '.join(map(short, shape)))
    if dt is not None and dt.op == 'ext':
        ctx.ok(dt.args[0] == 'numpy.uint32', 'type', c, 'made as %s, the format has uint32' % dt.args[0])
    if not st:
        ctx.ok(False, 'count', c, 'no record is counted')
    for ix, val, over in st[-1:]:
        w, k = shape_of(val)
        if w is None and val.op == 'attr' and val.args[1] in ('size', C('size')):
            w, k = val.args[0], 0
        g = own_field(w, ANY) if w is not None else None
        if g:
            ctx.ok(g in COUNTS[f] and k == 0, 'count', c, 'counts field %s of each record' % g)
        else:
            ctx.tri(False if pure(val) and R in subterms_(val) else None, 'count', c, 'counts ' + short(val))
        ctx.tri(True if ix and ix[0] is RI and len(ix) == 1 else False if ix and pure(*ix) else None, 'own-row', c, 'stored at ' + ', '.join(map(short, ix)))


def b06(ctx):
    ctx.fan(both, [k for k in E.KEYS if E.restructurable(k)])


def both(ctx, key):
    to_site(ctx, key)
    to_array(ctx, key)
