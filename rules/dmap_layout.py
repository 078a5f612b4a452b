"""D01: the bytes the DMAP writer emits are the bytes the reader consumes."""
import struct

from rules.base import T, C, cv, is_c, TRUE, FALSE, an, Run, P, short, Broken
from terms import subst, length, add, sub, cat, item, elem, mul
from rules.prop import implies, equiv

READERS = [('pydarnio.dmap.dmap.DmapRead', 'read_records')] + [
    ('pydarnio.dmap.superdarn.SDarnRead', 'read_' + t) for t in ('iqdat', 'rawacf', 'fitacf', 'snd', 'grid', 'map')]
WRITERS = [('pydarnio.dmap.dmap.DmapWrite', 'write_dmap_stream'), ('pydarnio.dmap.dmap.DmapWrite', 'write_dmap')] + [
    ('pydarnio.dmap.superdarn.SDarnWrite', 'write_' + t) for t in ('iqdat', 'rawacf', 'fitacf', 'snd', 'grid', 'map')]
SCALAR_FMTS = 'chifdsqBHIQ'
ARRAY_FMTS = 'chifdqBHIQ'


def chunks(t):
    return list(t.args) if t.op == 'cat' else [t]


def written(cls, meth):
    """(bytes term, run) of one writer entry point for records already in DMAP form"""
    a = an()
    with Run(a) as r:
        w = r.call(cls, P('R'), P('fn'))
        r.set(w, 'dmap_records', P('R'))
        n0 = len(a.events)
        r.method(w, meth)
        r.w = w
        r.after = n0
        out = r.fz(r.get(w, 'dmap_bytearr'))
    return out, r


def payload(r):
    """what a write method hands to the file, if it opens one"""
    for e in r.events:
        if e.kind == 'mcall' and e.name == 'write' and e.args:
            yield e


def check_writer(ctx, name, B):
    """obligations on one writer's byte term; returns ({fmt: scalar chunks}, {fmt: array chunks})"""
    ctx.anchor(B.op in ('manyb', 'cat', 'bytes', 'c', 'ite', 'param', 'attr'), '%s: bytes %s' % (name, B.op))
    if not ctx.judge(B.op == 'manyb' and B.args[0] is P('R') and is_c(B.args[1], True), (B,), 'one-block-per-record', name,
                  'the output is not exactly one block per record, in record order: %s' % short(B)):
        return None
    body = chunks(B.args[2])
    packs = body[:4]
    rest = body[4:]
    okp = len(packs) == 4 and all(p.op == 'pack' and is_c(p.args[0]) and cv(p.args[0]) in ('i', '=i', '<i') for p in packs)
    if not ctx.judge(okp, packs, 'header-words', name, 'a block does not start with four 32-bit words: %s' % [short(p, 60) for p in packs]):
        return None
    vals = [p.args[1] for p in packs]
    ctx.judge(is_c(vals[0], 65537), vals[:1], 'encoding-id', name, 'the block marker is %s, not 65537' % short(vals[0]))
    total = C(16)
    for c in rest:
        total = add(total, length(c))
    ctx.judge(total is vals[1], (total, vals[1]), 'block-size', name,
           lambda: 'the announced block size is not the number of bytes of the block: announced %s ; emitted %s' % (short(vals[1], 500), short(total, 500)))
    shape = len(rest) == 2 and all(s.op == 'manyb' for s in rest) and rest[0].args[0] is rest[1].args[0]
    if not ctx.judge(shape, rest, 'scalars-then-arrays', name, 'after the header come %s, not all scalars then all arrays' % [short(s, 80) for s in rest]):
        return None
    I = rest[0].args[0]
    v = item(I, elem(I))
    isS, isA = [T('isinstance', v, T('cls', 'pydarnio.dmap.datastructures.Dmap' + k)) for k in ('Scalar', 'Array')]
    ctx.judge(I is elem(P('R')), (I,), 'every-field', name, 'fields are taken from %s, not from the record' % short(I))
    gS, gA = rest[0].args[1], rest[1].args[1]
    # instances are scalars or arrays: everything else was refused before
    given = [T('or', *sorted((isS, isA), key=lambda t: t.id)), T('not', T('and', *sorted((isS, isA), key=lambda t: t.id)))]
    ctx.tri(equiv(gS, isS, given), 'scalar-section', name, 'the first section holds fields with %s' % short(gS))
    ctx.tri(equiv(gA, isA, given), 'array-section', name, 'the second section holds fields with %s' % short(gA))
    for k, g, word in ((2, gS, 'scalar-count'), (3, gA, 'array-count')):
        want = T('sumover', I, g, C(1))
        ctx.judge(vals[k] is want, (vals[k],), word, name, lambda: 'header count %s is not the number of entries that follow (%s)' % (short(vals[k]), short(want)))
    fmt = T('attr', v, 'data_type_fmt')
    val, nm, typ = [T('attr', v, x) for x in ('value', 'name', 'data_type')]
    out = ({}, {})
    for f in SCALAR_FMTS:
        seg = chunks(subst(rest[0].args[2], {fmt: C(f)}))
        good = len(seg) >= 4 and seg[0] is T('encode', T('str', nm)) and is_c(seg[1], b'\0') and seg[2] is T('pack', C('b'), typ)
        if good and f == 's':
            good = len(seg) == 5 and seg[3] is T('encode', T('str', val)) and is_c(seg[4], b'\0')
        elif good:
            p = seg[3]
            good = len(seg) == 4 and p.op == 'pack' and p.args[0].op == 'c' and struct.calcsize(cv(p.args[0])) == struct.calcsize(f.replace('c', 'b')) \
                and (p.args[1] is val or (p.args[1].op == 'call' and p.args[1].args[1:] == ((val,), ())))
        ctx.judge(good, seg, 'scalar-entry', '%s fmt %s' % (name, f),
               lambda: 'a scalar of format %s is written as %s' % (f, [short(x, 80) for x in seg]))
        out[0][f] = seg
    shp, dim = T('attr', v, 'shape'), T('attr', v, 'dimension')
    rev = T('rev', shp)
    for f in ARRAY_FMTS:
        seg = chunks(subst(rest[1].args[2], {fmt: C(f)}))
        good = len(seg) == 6 and seg[0] is T('encode', T('str', nm)) and is_c(seg[1], b'\0') and seg[2] is T('pack', C('b'), typ) \
            and seg[3].op == 'pack' and is_c(seg[3].args[0]) and cv(seg[3].args[0]) in ('i', '=i', '<i') and seg[3].args[1] is dim \
            and seg[4] is T('manyb', rev, TRUE, T('pack', C('i'), elem(rev)))
        ctx.judge(good, seg, 'array-entry', '%s fmt %s' % (name, f),
               lambda: 'an array of format %s is written as %s' % (f, [short(x, 90) for x in seg]))
        if good:
            ctx.judge(native_bytes(seg[5], val), seg[5:], 'array-data', '%s fmt %s' % (name, f),
                   lambda: 'array data are not the values in row order and native byte order: %s' % short(seg[5]))
        out[1][f] = seg
    return out


def native_bytes(t, val):
    """t is val's elements, C order, native byte order"""
    native = False
    if not (t.op == 'mcall' and t.args[1] in ('tobytes',) and all(order_c(k) for k in t.args[3]) and all(is_c(x, 'C') for x in t.args[2])):
        return False
    t = t.args[0]
    while t is not val:
        if t.op == 'mcall' and t.args[1] in ('flatten', 'ravel') and all(is_c(x, 'C') for x in t.args[2]) and all(order_c(k) for k in t.args[3]):
            t = t.args[0]
        elif t.op == 'mcall' and t.args[1] == 'astype':
            d = (list(t.args[2]) + [k.args[1] for k in t.args[3] if k.args[0] == 'dtype'])[:1]
            if not d or not (d[0].op == 'mcall' and d[0].args[1] == 'newbyteorder' and d[0].args[0].op == 'attr' and d[0].args[0].args[1] == 'dtype'):
                return False
            o = list(d[0].args[2]) + [k.args[1] for k in d[0].args[3]]
            if not o or not is_c(o[0]) or cv(o[0]) not in ('=', 'N', '<', 'native', 'L', 'little'):
                return False
            native = True
            t = t.args[0]
        else:
            return False
    return native


def order_c(k):
    return k.args[0] != 'order' or is_c(k.args[1], 'C')


# ------------------------------------------------------------------ reader

def unpack(t):
    """(format, offset) of an expression that unpacks one value from the buffer"""
    if t.op == 'item' and is_c(t.args[1], 0):
        t = t.args[0]
        if t.op == 'call' and t.args[0].args[0] == 'struct.unpack_from':
            k = {x.args[0]: x.args[1] for x in t.args[2]}
            return k.get('format'), k.get('offset', C(0)), k.get('buffer')
    return None


def text(t):
    if t.op == 'decode':
        u = unpack(t.args[0])
        if u and u[0].op == 'cat' and len(u[0].args) == 2 and is_c(u[0].args[1], 's') and u[0].args[0].op == 'str':
            return u[0].args[0].args[0], u[1], u[2]
    return None


def records_read(cls, meth):
    a = an()
    with Run(a) as r:
        o = r.call(cls, P('B'), C(True))
        r.method(o, meth)
        r.o = o
        out = r.fz(r.get(o, '_dmap_records')), r
    return out


def codetable(t):
    """the type table a format expression indexes: item(item(dict, code), 0)"""
    if t.op == 'item' and is_c(t.args[1], 0) and t.args[0].op == 'item' and t.args[0].args[0].op == 'dict':
        return t.args[0].args[0], t.args[0].args[1]
    return None, None


def check_reader(ctx, name, D):
    a = an()

    def J(cond, terms, rule, construct, message):
        return ctx.judge(bool(cond), terms if isinstance(terms, tuple) else (terms,), rule, construct, message, lvx=False)
    ok = D.op in ('list', 'deque') and len(D.args) == 1 and D.args[0].op == 'many' and D.args[0].args[0].op == 'while'
    ctx.anchor(ok, '%s: records read are %s' % (name, short(D)))
    lid = D.args[0].args[0].args[0]
    J(is_c(D.args[0].args[1], True), D.args[0].args[1], 'every-record-kept', name, 'records are kept only if %s' % short(D.args[0].args[1]))
    rec = D.args[0].args[2]
    if not J(rec.op == 'dict' and len(rec.args) == 2 and all(s.op == 'many' and s.args[2].op == 'kv' for s in rec.args), rec, 'record-sections', name,
                  'a record is read as %s' % short(rec)):
        return
    cname, c0 = cursor_of(a, lid)
    segS, segA = rec.args
    nS, nA = [s.args[0].args[-1] if s.args[0].op == 'range' else None for s in (segS, segA)]
    for k, (n, off, what) in enumerate(((nS, 8, 'scalar-count'), (nA, 12, 'array-count'))):
        u = n is not None and unpack(n)
        if n is None and (segS, segA)[k].args[0].op == 'while':
            ctx.undecided('reader-' + what, name, 'the section is read until %s' % short((segS, segA)[k].args[0]))
            continue
        J(u and is_c(u[0]) and cv(u[0]) in ('i', '=i', '<i') and sub(u[1], c0) is C(off) and is_c((segS, segA)[k].args[1], True),
               (segS, segA)[k].args[0], 'reader-' + what, name, lambda: 'the section length is %s, not the 32-bit word at offset %d' % (short(n) if n is not None else '?', off))
    kvS, kvA = segS.args[2], segA.args[2]
    prev = add(c0, C(16))
    for which, kv in (('scalar', kvS), ('array', kvA)):
        nt = kv.args[1]
        if not J(nt.op == 'nt' and nt.args[0].endswith('Dmap' + which.capitalize()), nt, 'reader-%s-kind' % which, name, 'section %s holds %s' % (which, short(nt, 90))):
            return
        f = dict(zip(nt.args[1], nt.args[2]))
        tx = text(f['name'])
        if not J(tx is not None and kv.args[0] is f['name'], kv.args[0], 'reader-name', '%s %s' % (name, which), lambda: 'the entry name is %s under key %s' % (short(f['name']), short(kv.args[0]))):
            return
        Z, c1, _ = tx
        ctx.anchor(c1.op == 'lv', '%s: %s loop reads at %s' % (name, which, short(c1)))
        info = a.loopinfo[c1.args[0]]
        init, L, V, X = loc(info, c1)
        J(init is prev, init, 'reader-section-start', '%s %s' % (name, which), lambda: 'the %s section is read from %s, not %s' % (which, short(init), short(prev)))
        prev = X
        ut = unpack(f['data_type'])
        J(ut and is_c(ut[0], 'b') and sub(sub(ut[1], c1), Z) is C(1), f['data_type'], 'reader-type-byte', '%s %s' % (name, which), lambda: 'type code read as %s' % short(f['data_type']))
        tbl, code = codetable(f['data_type_fmt'])
        if not J(tbl is not None and code is f['data_type'], f['data_type_fmt'], 'reader-format', '%s %s' % (name, which), lambda: 'format is %s' % short(f['data_type_fmt'])):
            return
        rows = {cv(s.args[1].args[0]): (s.args[0], s.args[1]) for s in tbl.args}
        if which == 'array':
            ur = unpack(f['dimension'])
            J(ur and is_c(ur[0]) and cv(ur[0]) in ('i', '=i', '<i') and sub(sub(ur[1], c1), Z) is C(2), f['dimension'], 'reader-rank', name, lambda: 'array rank read as %s' % short(f['dimension']))
            rank = f['dimension']
            sizes = size_loop(ctx, name, a, f['shape'], rank, add(add(c1, Z), C(6)))
        for ft in (SCALAR_FMTS if which == 'scalar' else ARRAY_FMTS):
            if not J(ft in rows, tbl, 'reader-knows-format', '%s %s %s' % (name, which, ft), 'no type code for format %s' % ft):
                continue
            m = {f['data_type']: rows[ft][0]}
            val = reduce_(f['value'], m)
            adv = sub(sub(reduce_(V, m), c1), Z)
            con = '%s %s %s' % (name, which, ft)
            if which == 'scalar':
                if ft == 's':
                    t2 = text(val)
                    good = t2 is not None and sub(sub(t2[1], c1), Z) is C(2)
                    J(good and adv is add(C(3), t2[0]), (val, adv), 'reader-scalar', con, lambda: 'text read as %s and the cursor moved by %s' % (short(val), short(adv)))
                else:
                    u = unpack(val)
                    w = struct.calcsize(ft)
                    good = u and is_c(u[0]) and cv(u[0]) == (ft if ft != 'c' else 'b') and sub(sub(u[1], c1), Z) is C(2)
                    J(good and adv is C(2 + w), (val, adv), 'reader-scalar', con, lambda: 'value read as %s and the cursor moved by %s after the name' % (short(val), short(adv)))
            elif sizes:
                w = struct.calcsize(ft)
                good, why = array_value(a, val, f['shape'], ft, add(add(c1, Z), add(C(6), mul(C(4), rank))))
                J(good, val, 'reader-array', con, lambda: 'array read as %s (%s)' % (short(val, 400), why))
                if good:
                    # the cursor moves past the sizes and count * width bytes
                    J(adv is add(add(C(6), mul(C(4), rank)), mul(why, C(w))), adv, 'reader-array-advance', con,
                           lambda: 'after an array the cursor moves by %s' % short(adv, 400))


def reduce_(t, m):
    return subst(t, m)


def cursor_of(a, lid):
    for k, v in a.loopinfo[lid]['locs'].items():
        if isinstance(k, str) and k.endswith('cursor'):
            return k, v[1]
    raise Broken('record loop has no cursor')


def loc(info, L):
    for k, v in info['locs'].items():
        if len(v) == 4 and v[1] is L:
            return v
    raise Broken('loop does not move %s' % L)


def size_loop(ctx, name, a, shape, rank, start):
    """the array sizes: rank words read in order, taken last first"""
    def J(cond, terms, rule, construct, message):
        return ctx.judge(bool(cond), (terms,), rule, construct, message, lvx=False)
    parts = flatten(shape, TRUE)
    good = bool(parts)
    for g, kind, m in parts:
        if kind != 'many' or m.args[0] is not T('range', C(0), rank):
            good = False
            continue
        u = unpack(m.args[2])
        if not (u and is_c(u[0]) and cv(u[0]) in ('i', '=i', '<i') and u[1].op == 'lv'):
            good = False
            continue
        init, L, V, X = loc(a.loopinfo[u[1].args[0]], u[1])
        good = good and init is start and sub(V, L) is C(4)
    J(good, shape, 'reader-sizes', name, lambda: 'array sizes are read as %s' % short(shape, 400))
    if not good:
        return False
    plain = [g for g, k, m, r in parts_rev(shape) if not r]
    small = T('le0', sub(rank, C(1)))
    v = True
    for g in plain:
        r = implies(g, small)
        v = v and r
    ctx.tri(v, 'reader-sizes-reversed', name, lambda: 'array sizes are not taken in reversed order for every rank above one: %s' % short(shape, 400))
    return True


def parts_rev(t, g=TRUE, r=False):
    from terms import land
    out = []
    if t.op == 'rev':
        return parts_rev(t.args[0], g, not r)
    if t.op in ('list', 'tup'):
        for s in t.args:
            out += parts_rev(s, g, r)
    elif t.op == 'g':
        out += parts_rev(t.args[1], land(g, t.args[0]), r)
    elif t.op == 'splat':
        out += parts_rev(t.args[0], g, r)
    elif t.op == 'many':
        out.append((land(g, t.args[1]), 'many', t, r))
    elif t.op == 'ite':
        from terms import lnot
        out += parts_rev(t.args[1], land(g, t.args[0]), r) + parts_rev(t.args[2], land(g, lnot(t.args[0])), r)
    else:
        out.append((g, t.op, t, r))
    return out


def flatten(t, g):
    return [(x, k, m) for x, k, m, r in parts_rev(t, g)]


def array_value(a, val, shape, ft, start):
    """(True, element count) when val is the elements at start, reshaped in row order"""
    if val.op != 'reshape' or len(val.args) != 2 or val.args[1] is not shape:
        return False, 'not reshaped to the shape read'
    x = val.args[0]
    if x.op != 'call' or x.args[0].args[0] != 'numpy.frombuffer':
        return False, 'not taken from the buffer'
    k = {q.args[0]: q.args[1] for q in x.args[2]}
    dt = k.get('dtype')
    okd = (ft == 'c' and (dt is T('ext', 'numpy.int8') or is_c(dt, 'b'))) or (ft != 'c' and is_c(dt) and cv(dt) == ft)
    if not okd:
        return False, 'element type %s' % short(dt)
    if k.get('offset') is not start:
        return False, 'offset %s' % short(k.get('offset'))
    cnt = k.get('count')
    if cnt is None:
        return False, 'no count'
    if not all_sizes(cnt, shape):
        return False, 'count %s' % short(cnt)
    return True, cnt


def all_sizes(cnt, shape):
    """cnt is the product of the entries of shape, on every branch"""
    facs = cnt.args[0] if cnt.op == 'prod' and isinstance(cnt.args[0], tuple) else cnt.args if cnt.op == 'prod' else (cnt,)
    want = {(m.args[0], m.args[2]) for g, k, m in flatten(shape, TRUE)}
    gs = []
    for f in facs:
        if not isinstance(f, T) or f.op != 'prodover':
            return False
        I, g, e = f.args
        while I.op == 'rev':
            e = subst(e, {elem(I): elem(I.args[0])})
            I = I.args[0]
        if I.op == 'list' and len(I.args) == 1 and I.args[0].op == 'many' and is_c(I.args[0].args[1], True):
            e = subst(e, {T('elem', I): I.args[0].args[2]})
            I = I.args[0].args[0]
        if (I, e) not in want:
            return False
        gs.append(g)
    if gs == [TRUE]:
        return True
    from terms import lor, land
    some = FALSE
    for g in gs:
        if equiv(land(some, g), FALSE) is not True:
            return False
        some = lor(some, g)
    return equiv(some, TRUE) is True


def d01(ctx):
    outs = {}
    for cls, m in WRITERS:
        with ctx.part(m):
            name = cls.rsplit('.', 1)[1] + '.' + m
            B, r = written(cls, m)
            ctx.anchor(not r.dead, name + ' never returns')
            seg = check_writer(ctx, name, B)
            for e in payload(r):
                w = r.fz(e.frozen[0]) if hasattr(e, 'frozen') else e.args[0]
                ctx.judge(w is B, (w,), 'file-gets-the-blocks', name, lambda: 'the file receives %s' % short(w))
            outs[name] = seg
    for cls, m in READERS:
        with ctx.part(m):
            D, r = records_read(cls, m)
            ctx.anchor(not r.dead, m + ' never returns')
            check_reader(ctx, cls.rsplit('.', 1)[1] + '.' + m, D)
