"""D03: malformed DMAP data are refused, before anything outside the buffer is touched."""
import struct

from rules.base import T, C, cv, is_c, subterms, TRUE, FALSE, an, Run, P, short
from terms import subst, length, add, sub, elem, mul, neg, eq, lt, le, lnot, lor, land, rewrite, anyover
from rules.dmap_layout import READERS, unpack, cursor_of, flatten, codetable, all_sizes, loc
from rules.lin import Facts

B = P('B')
LEN = length(B)
DOC = 'pydarnio.exceptions.'


def unshape(t):
    """any over range(0, n) of list[i], n the length of list  ->  any over the list"""
    def f(x):
        if x.op == 'list' and len(x.args) == 1 and x.args[0].op == 'splat':
            return x.args[0].args[0]
        if x.op == 'any' and x.args[0].op == 'range' and is_c(x.args[0].args[0], 0):
            i = T('elem', x.args[0])
            its = {s for s in subterms(x.args[1]) if s.op == 'item' and s.args[1] is i}
            if len(its) == 1:
                it = its.pop()
                body = subst(x.args[1], {it: T('elem', it.args[0])})
                if i not in subterms(body) and (length(it.args[0]) is x.args[0].args[1]):
                    return anyover(it.args[0], body)
        return x
    return rewrite(t, f)


def cases(facts, n):
    """the facts for rank > 1 and for rank <= 1"""
    out = []
    one, many = sub(n, C(1)), sub(C(1), n)
    for b in (TRUE, FALSE):
        m = {T('lt0', many): b, T('le0', one): lnot(b), T('le0', add(many, C(1))): b, T('lt0', sub(one, C(1))): lnot(b)}
        fs = []
        for f in facts:
            fs.append(unshape(segs(subst(f, m))))
        out.append((fs, m))
    return out


def segs(t):
    def f(x):
        if x.op in ('list', 'tup'):
            out = []
            for s in x.args:
                if s.op == 'g' and is_c(s.args[0]):
                    if cv(s.args[0]):
                        out.append(s.args[1])
                elif s.op == 'many' and is_c(s.args[1], False):
                    pass
                else:
                    out.append(s)
            if len(out) == 1 and out[0].op == 'splat':
                return out[0].args[0]
            return T(x.op, *out)
        return x
    return rewrite(t, f)


def rows_of(*ts):
    """the uses of a type table in ts: the tables and the codes that index them"""
    out = []
    for s in subterms(T('tup', *ts)):
        if s.op == 'item' and s.args[0].op == 'dict' and s.args[0].args and all(
                k.op == 'kv' and k.args[1].op == 'tup' and len(k.args[1].args) == 2 for k in s.args[0].args):
            if (s.args[0], s.args[1]) not in out:
                out.append((s.args[0], s.args[1]))
    return out


def split_types(e_terms, pc):
    """ways to split into one case per row of a type table (one case only if none is used)"""
    uses = rows_of(*e_terms) or rows_of(*pc)
    if not uses:
        yield [('', e_terms, pc)]
    for tbl, code in uses:
        rows = []
        for kv in tbl.args:
            m = {code: kv.args[0]}
            fs = [subst(p, m) for p in pc]
            if any(is_c(f, False) for f in fs):
                continue
            rows.append((cv(kv.args[1].args[0]), [subst(t, m) for t in e_terms], fs))
        yield rows


def within(ctx, name, e, what):
    """an access at e reads inside the buffer"""
    kw = e.kws
    off = kw.get('offset', C(0))
    if e.fn == 'struct.unpack_from':
        terms = [kw['format'], off]
    else:
        terms = [kw.get('dtype', C('d')), off, kw.get('count', C(-1))]
    for rows in split_types(terms, e.pc):
        res = [bounded(name, what, e, *x) for x in rows]
        if all(r[0] for r in res):
            break
    for good, goal, rule, con, msg in res:
        if good is None:
            ctx.undecided(rule, con, msg)
        else:
            ctx.judge(good, goal, rule, con, msg, e.where, lvx=False)
    return sum(1 for r in res if r[2] == 'inside-buffer' and r[0] is not None)


def bounded(name, what, e, row, ts, pc):
    f = Facts(pc)
    con = '%s %s' % (name, what)
    if e.fn == 'struct.unpack_from':
        fm = ts[0]
        if is_c(fm):
            try:
                w = C(struct.calcsize(cv(fm)))
            except struct.error:
                return False, (), 'format-known', con, lambda: 'unpack with format %r' % cv(fm)
        elif fm.op == 'cat' and fm.args[0].op == 'str' and is_c(fm.args[1], 's'):
            w = fm.args[0].args[0]
        else:
            return None, (), 'inside-buffer', con, 'format %s' % short(fm)
    else:
        d = ts[0]
        it = {'numpy.int8': 1, 'numpy.uint8': 1}.get(d.args[0]) if d.op == 'ext' else None
        if is_c(d):
            try:
                it = struct.calcsize(cv(d))
            except struct.error:
                it = None
        if it is None:
            return None, (), 'inside-buffer', con, 'element type %s' % short(d)
        w = mul(ts[2], C(it))
    goal = sub(add(ts[1], w), LEN)
    return (f.le0(goal), (goal,), 'inside-buffer', '%s %s' % (con, row),
            lambda: 'an access of %s bytes at %s is not shown to stay inside the data' % (short(w, 120), short(ts[1], 160)))

def rank_of(t):
    return None


def d03(ctx):
    a = an()
    for cls, meth in READERS:
        with ctx.part(cls + meth):
            name = cls.rsplit('.', 1)[1] + '.' + meth
            with Run(a) as r:
                o = r.call(cls, B, C(True))
                r.method(o, meth)
                D = r.fz(r.get(o, '_dmap_records'))
            ctx.anchor(not r.dead, name + ' never returns')
            reader(ctx, a, name, D, r)
    # files of every kind are opened the same way
    for cls in ('pydarnio.dmap.dmap.DmapRead', 'pydarnio.dmap.superdarn.SDarnRead'):
        for stream in (False, True):
            with Run(a) as r:
                r.call(cls, P('F'), C(stream))
            src = LENF = None
            what = 'stream' if stream else 'file'
            emp = [e for e in r.evs('raise') if e.cls.args[0].endswith('EmptyFileError')]
            ctx.ok(bool(emp), 'empty-refused', '%s %s' % (cls.rsplit('.', 1)[1], what), 'an empty %s is not refused' % what)
            if stream:
                f = Facts(r.st.pc)
                ctx.judge(f.holds(T('nonempty', P('F'))) or f.le0(sub(C(1), length(P('F')))), (), 'empty-refused-always', cls.rsplit('.', 1)[1] + ' ' + what,
                          'an empty stream gets past the constructor')
    integrity(ctx, a)


def integrity(ctx, a):
    with Run(a) as r:
        o = r.call('pydarnio.dmap.dmap.DmapRead', B, C(True))
        r.method(o, 'test_initial_data_integrity')
        cur = r.fz(r.get(o, 'cursor'))
    name = 'DmapRead.test_initial_data_integrity'
    raises(ctx, name, r)
    lids = sorted({l[0] for e in r.events for l in e.loops})
    ctx.anchor(lids, name + ': no loop')
    info = a.loopinfo[lids[0]]
    cname, c0 = cursor_of(a, lids[0])
    for e in r.events:
        if e.kind == 'call' and e.fn in ('struct.unpack_from', 'numpy.frombuffer'):
            within(ctx, name, e, 'word')
    blk = word(add(c0, C(4)))
    f = Facts(info['endpc'])
    V = info['locs'][cname][2]
    ctx.judge(f.le0(sub(C(1), blk)), (), 'block-size-positive', name, 'a block size of zero or below passes')
    ctx.judge(sub(V, c0) is blk, (V,), 'next-block', name, lambda: 'the next block is looked for %s bytes on, not one block size' % short(sub(V, c0)), lvx=False)
    ctx.judge(f.le0(sub(c0, V)) and f.le0(add(sub(c0, V), C(1))), (V,), 'progress', name, 'the scan may not move forward')
    tot = [v for k, v in info['locs'].items() if len(v) == 4 and sub(v[2], v[1]) is blk and k != cname]
    if ctx.ok(len(tot) == 1 and is_c(tot[0][0], 0), 'total-accumulated', name, 'the block sizes are not added up from zero'):
        t = tot[0]
        ctx.judge(f.le0(sub(t[2], LEN)), (), 'total-bounded', name, 'the announced sizes may exceed the data without an error')
        g = Facts(r.st.pc)
        ctx.judge(g.holds(T('eq', *sorted((t[3], LEN), key=lambda x: x.id))) or g.holds(eq(t[3], LEN)), (), 'total-exact', name,
                  lambda: 'the check passes though the announced sizes do not add up to the data')
    ctx.ok(is_c(cur, 0), 'cursor-restored', name, 'the cursor is left at %s' % short(cur))


def word(off):
    return T('item', T('call', T('ext', 'struct.unpack_from'), (), (T('kw', 'format', C('i')), T('kw', 'buffer', T('memoryview', B)), T('kw', 'offset', off))), C(0))


def raises(ctx, name, r):
    for e in r.evs('raise'):
        c = e.cls.args[0] if e.cls.op in ('cls', 'ext') else short(e.cls)
        if any(t for t in e.trys if caught(t, c)):
            continue
        ctx.ok(c.startswith(DOC + 'dmap_exceptions.') or c.startswith(DOC + 'superdarn_exceptions.'), 'documented-error', '%s %s' % (name, e.func.rsplit('.', 1)[-1]),
               'refuses with %s' % c, e.where)


def caught(t, c):
    return False


def reader(ctx, a, name, D, r):
    raises(ctx, name, r)
    ctx.anchor(D.op in ('list', 'deque') and len(D.args) == 1 and D.args[0].op == 'many' and D.args[0].args[0].op == 'while', '%s: no record loop' % name)
    lid = D.args[0].args[0].args[0]
    n = 0
    for e in r.events:
        if e.kind == 'call' and e.fn in ('struct.unpack_from', 'numpy.frombuffer') and (e.kws.get('buffer') is not None):
            n += within(ctx, name, e, 'unpack' if 'unpack' in e.fn else 'array') or 0
            # text that is not UTF-8 is refused with a documented error
    ctx.anchor(n >= 12, '%s: only %d buffer accesses' % (name, n))
    for e in r.events:
        if e.kind == 'decode' or (e.kind == 'mcall' and e.name == 'decode'):
            hs = [h for t in e.trys for h in handler_names(t)]
            ctx.ok(any(h in ('builtins.UnicodeDecodeError', 'builtins.ValueError', 'builtins.UnicodeError', 'builtins.Exception') for h in hs) or lenient(e), 'text-refusal', name,
                   'bytes that are not text raise outside any handler (%s)' % hs, e.where)
    info = a.loopinfo[lid]
    cname, c0 = cursor_of(a, lid)
    init, L, V, X = info['locs'][cname]
    ctx.ok(is_c(init, 0), 'from-the-start', name, 'records are read from %s' % short(init))
    end = info['endpc']
    f = Facts(end)
    blk, ns, na = word(add(c0, C(4))), word(add(c0, C(8))), word(add(c0, C(12)))

    def need(goal, rule, msg, facts=f):
        ctx.judge(facts.holds(goal), (goal,), rule, name, msg, lvx=False)
    need(T('le0', sub(C(1), blk)), 'block-size-positive', 'a record whose block size is zero or negative is accepted')
    need(T('le0', sub(add(c0, blk), LEN)), 'block-inside-data', 'a record announcing more bytes than remain is accepted')
    need(T('le0', sub(C(1), ns)), 'scalar-count-positive', 'a record announcing no scalars is accepted')
    need(T('le0', sub(C(1), na)), 'array-count-positive', 'a record announcing no arrays is accepted')
    need(T('le0', sub(add(ns, na), blk)), 'counts-below-block', 'a record announcing more entries than bytes is accepted')
    ctx.judge(f.le0(sub(sub(V, c0), blk)) and f.le0(sub(blk, sub(V, c0))), (V,), 'block-consumed', name,
              'a record is accepted though the bytes it used differ from its block size', lvx=False)
    ctx.judge(f.le0(add(sub(c0, V), C(1))), (V,), 'progress', name, 'reading may not move forward', lvx=False)
    g = Facts(r.st.pc)
    ctx.judge(g.le0(sub(X, LEN)) or f.le0(sub(V, LEN)), (), 'end-inside-data', name, 'reading may end past the data')
    ctx.judge(g.le0(sub(LEN, X)), (), 'to-the-end', name, 'reading stops before the end of the data')
    rec = D.args[0].args[2]
    if not (rec.op == 'dict' and len(rec.args) == 2):
        ctx.undecided('sections', name, 'record is %s' % short(rec))
        return
    for which, s in zip(('scalar', 'array'), rec.args):
        if s.op != 'many' or s.args[2].op != 'kv' or s.args[2].args[1].op != 'nt':
            ctx.undecided('sections', name, 'section is %s' % short(s))
            continue
        nt = s.args[2].args[1]
        fl = dict(zip(nt.args[1], nt.args[2]))
        tbl, code = codetable(fl['data_type_fmt'])
        lids = {l[0]: l for e in r.events for l in e.loops if l[1] is s.args[0]}
        li = [a.loopinfo[l] for l in lids if a.loopinfo[l]['endpc'] and any(len(v) == 4 and k == cname for k, v in a.loopinfo[l]['locs'].items())]
        if not li or tbl is None:
            ctx.undecided('sections', name, 'no reading loop for %s' % which)
            continue
        li = li[-1]
        lf = Facts(li['endpc'])
        keys = T('setc', *sorted({k.args[0] for k in tbl.args}, key=lambda t: t.id))
        con = '%s %s' % (name, which)
        ctx.judge(lf.holds(T('in', code, keys)), (code,), 'type-code-known', con, 'an entry with an unknown type code is accepted', lvx=False)
        # codes without a value format are refused
        for kv in tbl.args:
            ft = cv(kv.args[1].args[0])
            if ft == '' or (which == 'array' and ft == 's'):
                fs = [subst(p, {code: kv.args[0]}) for p in li['endpc']]
                ctx.judge(any(is_c(p, False) for p in fs), (code,), 'type-without-value', '%s %r' % (con, ft), 'an entry of format %r is accepted' % ft, lvx=False)
        ini, LL, VV, XX = li['locs'][cname]
        if which == 'scalar':
            continue
        rank, shape, nm = fl['dimension'], fl['shape'], fl['name']
        for fs, m in cases(li['endpc'], rank):
            cf = Facts(fs)
            big = is_c(m[T('lt0', sub(C(1), rank))], True)
            con2 = '%s rank %s' % (name, '>1' if big else '1')
            sh = segs(subst(shape, m))
            base = sh.args[0] if sh.op == 'rev' else sh
            if not (base.op == 'list' and len(base.args) == 1 and base.args[0].op == 'many'):
                ctx.undecided('array-sizes', con2, 'shape %s' % short(base))
                continue
            I, G, w = base.args[0].args

            def none(c):
                return lnot(anyover(I, c))

            def need2(goal, rule, msg):
                ctx.judge(cf.holds(goal), (goal,), rule, con2, msg, lvx=False)
            need2(T('le0', sub(C(1), rank)), 'rank-positive', 'an array of rank zero or below is accepted')
            need2(none(T('lt0', w)), 'size-not-negative', 'an array with a negative size is accepted')
            need2(lor(eq(nm, C('slist')), none(eq(w, C(0)))), 'size-zero-only-slist', 'an empty array that is not slist is accepted')
            ok = cf.holds(none(le(blk, w))) or cf.holds(none(lt(blk, w)))
            ctx.judge(ok, (w,), 'size-below-block', con2, 'an array size beyond its record is accepted', lvx=False)
            cells = [s for p in fs for s in subterms(p) if s.op in ('prod', 'prodover')]
            good = False
            for c in cells:
                if all_sizes(subst(c, m), sh) or all_sizes(c, shape) or cellsok(c, base):
                    good = good or cf.le0(sub(c, blk))
            ctx.judge(good, (), 'cells-below-block', con2, 'an array with more elements than its record has bytes is accepted', lvx=False)


def cellsok(c, base):
    J, G, w = base.args[0].args
    for s in (c.args[0] if c.op == 'prod' and isinstance(c.args[0], tuple) else (c,)):
        if s.op != 'prodover':
            return False
        I, g, e = s.args
        while I.op == 'rev':
            e = subst(e, {elem(I): elem(I.args[0])})
            I = I.args[0]
        if I is base:
            e = subst(e, {T('elem', I): w})
            I = J
        if is_c(g, False):
            continue
        if I is not J or e is not w or not is_c(g, True):
            return False
    return True


def handler_names(t):
    """dotted names of the exception classes a try block catches"""
    if t is None:
        return ['builtins.BaseException']
    out = []
    for h in (t if isinstance(t, (tuple, list)) else [t]):
        if isinstance(h, (tuple, list)):
            out += handler_names(h)
        elif isinstance(h, T):
            out.append(h.args[0] if isinstance(h.args[0], str) else short(h))
        else:
            out.append(str(h))
    return out


def lenient(e):
    k = getattr(e, 'kws', {}) or {}
    return 'errors' in k and is_c(k['errors']) and cv(k['errors']) in ('replace', 'ignore', 'backslashreplace')
