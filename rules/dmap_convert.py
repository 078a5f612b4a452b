"""D02: plain dictionaries and DMAP records are converted into each other without loss."""
import os
import struct

from rules.base import T, C, cv, is_c, subterms, TRUE, FALSE, an, Run, P, short
from terms import subst, elem, item, land, lor, lnot
from rules.prop import equiv
from rules.dmap_layout import READERS, codetable, SCALAR_FMTS

# DMAP type codes of RST (dmap.h): char 1, short 2, int 3, float 4, double 8, string 9, long 10, uchar 16 ... ulong 19
CODES = {'c': 1, 'h': 2, 'i': 3, 'f': 4, 'd': 8, 's': 9, 'q': 10, 'B': 16, 'H': 17, 'I': 18, 'Q': 19}
NUMPY = {'c': 'int8', 'h': 'int16', 'i': 'int32', 'f': 'float32', 'd': 'float64', 'q': 'int64', 'B': 'uint8', 'H': 'uint16', 'I': 'uint32', 'Q': 'uint64'}
PYTHON = {'int': 'i', 'float': 'f', 'str': 's'}


def table(t):
    """(mapping of python values, key term) of a lookup in a constant table"""
    if t.op == 'item' and t.args[0].op == 'dict' and all(k.op == 'kv' and k.args[0].op in ('c', 'ext') for k in t.args[0].args):
        d = {}
        for k in t.args[0].args:
            key = cv(k.args[0]) if k.args[0].op == 'c' else k.args[0].args[0].rsplit('.', 1)[1]
            v = k.args[1]
            d[key] = cv(v) if v.op == 'c' else v.args[0].rsplit('.', 1)[1] if v.op == 'ext' else v
        return d, t.args[1]
    return None, None


def d02(ctx):
    a = an()
    tabs = []
    for cls, how in (('pydarnio.dmap.dmap.DmapWrite', 'DmapWrite'), ('pydarnio.dmap.superdarn.SDarnWrite', 'SDarnWrite'), (None, 'dict2dmap'), ('pydarnio.dmap.dmap.DmapWrite', 'write_dmap_stream')):
        with ctx.part(how):
            with Run(a) as r:
                if cls is None:
                    v = r.fz(r.call('pydarnio.dict2dmap', P('R')))
                elif how == 'write_dmap_stream':
                    o = r.call(cls)
                    r.method(o, how, P('R'))
                    v = r.fz(r.get(o, 'dmap_records'))
                else:
                    o = r.call(cls, P('R'), P('fn'))
                    v = r.fz(r.get(o, 'dmap_records'))
            ctx.anchor(not r.dead, how + ' never returns')
            tabs += to_dmap(ctx, how, v, cls is not None)
    casts = []
    with Run(a) as r:
        v = r.fz(r.call('pydarnio.dmap2dict', P('D')))
    casts += to_dict(ctx, 'dmap2dict', v, P('D'))
    ref = v
    # every reader returns exactly the converted records, and get_records hands out the same
    for cls, meth in READERS:
        name = cls.rsplit('.', 1)[1] + '.' + meth
        with Run(a) as r:
            o = r.call(cls, P('B'), C(True))
            v = r.method(o, meth)
            D = r.get(o, '_dmap_records')
            want = r.fz(r.call('pydarnio.dmap2dict', D))
            got = r.fz(v)
            rec = r.fz(r.get(o, 'get_records'))
            dm = r.fz(r.get(o, 'get_dmap_records'))
            D = r.fz(D)
        ctx.anchor(not r.dead, name + ' never returns')
        ctx.judge(same(got, want), (got,), 'reader-returns-all', name, lambda: 'the records returned are not the converted records read: %s' % short(got, 500), lvx=False)
        ctx.judge(same(rec, want), (rec,), 'get-records', name, lambda: 'get_records gives %s' % short(rec, 500), lvx=False)
        ctx.judge(dm is D, (dm,), 'get-dmap-records', name, lambda: 'get_dmap_records gives %s' % short(dm, 300), lvx=False)
    # reading side: type codes and widths
    from rules.dmap_layout import records_read
    D, r = records_read(*READERS[0])
    for s in D.args[0].args[2].args:
        if s.op == 'many' and s.args[2].op == 'kv' and s.args[2].args[1].op == 'nt':
            nt = s.args[2].args[1]
            f = dict(zip(nt.args[1], nt.args[2]))
            tbl, code = codetable(f['data_type_fmt'])
            if tbl is None:
                ctx.undecided('reader-types', nt.args[0], 'format %s' % short(f['data_type_fmt']))
                continue
            which = nt.args[0].rsplit('.', 1)[1]
            rows = {cv(k.args[1].args[0]): (cv(k.args[0]), cv(k.args[1].args[1])) for k in tbl.args}
            for fmt, c in CODES.items():
                ctx.ok(rows.get(fmt, (None,))[0] == c, 'reader-type-code', '%s %s' % (which, fmt), lambda: 'format %s read for code %r, written as %d' % (fmt, rows.get(fmt), c))
                w = struct.calcsize('=' + fmt)
                ctx.ok(fmt in rows and rows[fmt][1] == w, 'reader-type-width', '%s %s' % (which, fmt), lambda: 'format %s taken to be %r bytes' % (fmt, rows.get(fmt)))
    # converting back gives the type that was read
    for fm, co in tabs:
        for fmt in CODES:
            ctx.ok(co.get(fmt) == CODES[fmt], 'written-type-code', fmt, 'format %s is written with code %r' % (fmt, co.get(fmt)))
        for fmt, n in NUMPY.items():
            ctx.ok(fm.get(n) == fmt, 'numpy-type-format', n, '%s values are written as %r' % (n, fm.get(n)))
        for p, fmt in PYTHON.items():
            ctx.ok(fm.get(p) == fmt, 'python-type-format', p, '%s values are written as %r' % (p, fm.get(p)))
        for k, fmt in fm.items():
            ok = fmt in CODES and (k in PYTHON or k in NUMPY.values() or fits(k, fmt))
            ctx.ok(ok, 'other-type-format', str(k), 'values of type %s are written as %r' % (k, fmt))
        for ca in casts:
            for fmt in CODES:
                ctx.ok(fm.get(ca.get(fmt)) == fmt, 'round-trip-type', fmt, 'a scalar of format %s is returned as %s, which is written back as %r' % (fmt, ca.get(fmt), fm.get(ca.get(fmt))))


def fits(k, fmt):
    """other keys may map only to a format that holds every value of the type"""
    return {'bool': 'cB', 'bool_': 'cB', 'str_': 's', 'bytes': 's', 'float16': 'fd', 'longlong': 'q', 'ulonglong': 'Q', 'intc': 'i', 'uintc': 'I', 'short': 'h',
            'byte': 'c', 'ubyte': 'B', 'ushort': 'H', 'single': 'f', 'double': 'd', 'int_': 'q', 'uint': 'Q'}.get(k, '').find(fmt) >= 0


def same(x, y):
    x, y = strip(x), strip(y)
    return x is y


def strip(t):
    """deque(...) or list(...) over the same entries"""
    if t.op == 'deque':
        return T('list', *t.args)
    return t


def leaves(v, g):
    """(condition, value) of every branch of a conditional value"""
    if v.op == 'ite':
        return leaves(v.args[1], land(g, v.args[0])) + leaves(v.args[2], land(g, lnot(v.args[0])))
    return [(g, v)]


def to_dmap(ctx, how, v, cond):
    """obligations on the conversion of plain records; the tables used"""
    R = P('R')
    name = how
    if cond:
        # records already in DMAP form are taken as they are
        v = subst(v, {s: FALSE for s in subterms(v) if s.op == 'exc'})      # nothing is raised while there is a record to look at
        ways = leaves(v, TRUE)
        kept = [g for g, x in ways if x is R]
        made = {x for g, x in ways if x is not R}
        if not ctx.judge(kept and len(made) == 1, (v,), 'dmap-records-kept', name, lambda: 'the records held are %s' % short(v)):
            return []
        c, other = lor(*kept), made.pop()
        isin = [s for s in subterms(c) if s.op == 'isinstance']
        kinds = {s.args[1].args[0].rsplit('.', 1)[1] for s in isin if s.args[1].op == 'cls'}
        vals = {s.args[0] for s in isin}
        ctx.ok(kinds == {'DmapScalar', 'DmapArray'} and len(vals) == 1, 'dmap-records-recognised', name, lambda: 'records are taken as they are if %s' % short(c))
        pos = subst(c, {s: TRUE for s in isin})
        neg = subst(c, {s: FALSE for s in isin})
        ctx.judge(is_c(pos, True), (pos,), 'dmap-records-not-converted', name, lambda: 'DMAP records are taken as they are only if %s' % short(pos))
        ctx.judge(not is_c(neg, True), (neg,), 'plain-records-converted', name, 'plain records are never converted')
        v = other
    ok = v.op in ('list', 'deque') and len(v.args) == 1 and v.args[0].op == 'many' and v.args[0].args[0] is R and is_c(v.args[0].args[1], True)
    if not ctx.judge(ok, (v,), 'every-record-converted', name, lambda: 'the records converted are %s' % short(v)):
        return []
    d = v.args[0].args[2]
    I = elem(R)
    ok = d.op == 'dict' and len(d.args) == 1 and d.args[0].op == 'many' and d.args[0].args[0] is I and is_c(d.args[0].args[1], True) and d.args[0].args[2].op == 'kv'
    if not ctx.judge(ok, (d,), 'every-field-converted', name, lambda: 'a record is converted to %s' % short(d)):
        return []
    kv = d.args[0].args[2]
    key, val = elem(I), item(I, elem(I))
    ctx.judge(kv.args[0] is key, (kv.args[0],), 'field-names-kept', name, lambda: 'a field is stored under %s' % short(kv.args[0]))
    isl, isa = T('isinstance', val, T('ext', 'builtins.list')), T('isinstance', val, T('ext', 'numpy.ndarray'))
    tabs = []
    for label, m in (('array', {isl: FALSE, isa: TRUE}), ('list', {isl: TRUE, isa: FALSE}), ('scalar', {isl: FALSE, isa: FALSE})):
        nt = subst(kv.args[1], m)
        con = '%s %s' % (name, label)
        want = 'DmapScalar' if label == 'scalar' else 'DmapArray'
        if not ctx.judge(nt.op == 'nt' and nt.args[0].rsplit('.', 1)[1] == want, (nt,), 'entry-kind', con, lambda: 'converted to %s' % short(nt)):
            continue
        f = dict(zip(nt.args[1], nt.args[2]))
        x = f['value']
        ctx.judge(f['name'] is key, (f['name'],), 'entry-name', con, lambda: 'named %s' % short(f['name']))
        if label == 'list':
            ctx.judge(as_array(x, val), (x,), 'entry-value', con, lambda: 'a list is stored as %s' % short(x))
        else:
            ctx.judge(x is val, (x,), 'entry-value', con, lambda: 'stored value %s' % short(x))
        t1, code = table(f['data_type'])
        t2, typ = table(f['data_type_fmt'])
        if t1 is None or t2 is None:
            ctx.undecided('entry-type', con, 'type %s, format %s' % (short(f['data_type']), short(f['data_type_fmt'])))
            continue
        ctx.judge(code is f['data_type_fmt'], (code,), 'entry-type-of-format', con, lambda: 'type code looked up for %s' % short(code))
        wt = T('type', val) if label == 'scalar' else T('attr', T('attr', x, 'dtype'), 'type')
        ctx.judge(typ is wt or (typ.op == 'attr' and typ.args[0] is val and typ.args[1] == '__class__'), (typ,), 'entry-format-of-value', con, lambda: 'format looked up for %s' % short(typ))
        tabs.append((t2, t1))
        if label != 'scalar':
            ctx.judge(f['dimension'] in (T('attr', x, 'ndim'), T('len', T('attr', x, 'shape'))), (f['dimension'],), 'entry-dimension', con, lambda: 'rank %s' % short(f['dimension']))
            ctx.judge(f['shape'] in (T('attr', x, 'shape'), T('list', T('splat', T('attr', x, 'shape')))), (f['shape'],), 'entry-shape', con, lambda: 'shape %s' % short(f['shape']))
    return tabs


def as_array(x, val):
    return x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('numpy.array', 'numpy.asarray') and (
        list(x.args[1]) == [val] and not x.args[2] or not x.args[1] and [(k.args[0], k.args[1]) for k in x.args[2]] in ([('object', val)], [('a', val)]))


def to_dict(ctx, name, v, D):
    ok = v.op in ('list', 'deque') and len(v.args) == 1 and v.args[0].op == 'many' and v.args[0].args[0] is D and is_c(v.args[0].args[1], True)
    if not ctx.judge(ok, (v,), 'every-record-returned', name, lambda: 'returned records are %s' % short(v)):
        return []
    d = v.args[0].args[2]
    I = elem(D)
    ok = d.op == 'dict' and len(d.args) == 1 and d.args[0].op == 'many' and d.args[0].args[0] is I and is_c(d.args[0].args[1], True) and d.args[0].args[2].op == 'kv'
    if not ctx.judge(ok, (d,), 'every-field-returned', name, lambda: 'a record is returned as %s' % short(d)):
        return []
    kv = d.args[0].args[2]
    ctx.judge(kv.args[0] is elem(I), (kv.args[0],), 'returned-under-its-name', name, lambda: 'a field is returned under %s' % short(kv.args[0]))
    dat = item(I, elem(I))
    val = T('attr', dat, 'value')
    isa = T('isinstance', val, T('ext', 'numpy.ndarray'))
    alt = T('isinstance', dat, T('cls', 'pydarnio.dmap.datastructures.DmapArray'))
    als = T('isinstance', dat, T('cls', 'pydarnio.dmap.datastructures.DmapScalar'))
    arr = subst(kv.args[1], {isa: TRUE, alt: TRUE, als: FALSE})
    sca = subst(kv.args[1], {isa: FALSE, alt: FALSE, als: TRUE})
    ctx.judge(arr is val, (arr,), 'array-returned', name, lambda: 'an array is returned as %s' % short(arr))
    if not (sca.op == 'call' and sca.args[1] == (val,) and not sca.args[2]):
        ctx.judge(False, (sca,), 'scalar-returned', name, lambda: 'a scalar is returned as %s' % short(sca))
        return []
    t, k = table(sca.args[0])
    if not ctx.judge(t is not None and k is T('attr', dat, 'data_type_fmt'), (), 'scalar-cast', name, lambda: 'a scalar is cast with %s' % short(sca.args[0])):
        return []
    return [t]
