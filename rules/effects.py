"""D07-D09: what the library does to files, to its caller's objects and to its own shared state."""
import re

from rules.base import T, C, cv, is_c, subterms, TRUE, FALSE, an, Run, P, short, unsure
from rules import entries as E

READ_MODES = {'r', 'rb', 'rt', 'br', 'r+b'[:1]}
FILECALLS = ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.truncate', 'os.rmdir', 'os.mkdir', 'os.makedirs', 'os.system', 'os.link', 'os.symlink',
             'os.open', 'os.chmod', 'os.popen', 'shutil.', 'subprocess.', 'numpy.save', 'numpy.savez', 'numpy.savetxt', 'tempfile.')
FILEMETH = {'tofile', 'write_bytes', 'write_text', 'unlink', 'touch', 'rename', 'rmdir'}


def opens(r):
    """(event, file name, mode term) of every call that opens a file; other calls that change files have mode None"""
    for e in r.events:
        if e.kind == 'call' and e.fn in ('builtins.open', 'io.open', 'h5py.File'):
            kw = dict(e.kws)
            nm = kw.get('name', kw.get('file', e.args[0] if e.args else None))
            md = kw.get('mode', e.args[1] if len(e.args) > 1 else C('r'))
            yield e, nm, md
        elif e.kind == 'call' and isinstance(e.fn, str) and e.fn.startswith(FILECALLS):
            yield e, (e.args[0] if e.args else next(iter(e.kws.values()), None)), None
        elif e.kind == 'mcall' and e.name in FILEMETH:
            yield e, e.obj, None


def writes(r):
    for e, nm, md in opens(r):
        if md is None or not (is_c(md) and cv(md) in READ_MODES):
            yield e, nm, md


def params(t):
    return {s.args[0] for s in subterms(t) if s.op == 'param'}


def after_open(r, e, sx):
    """raises that can happen once the file of event e is open"""
    for x in r.evs('raise'):
        if x.seq <= e.seq and not same_loop(e, x):
            continue
        if e.seq not in x.may and not same_loop(e, x):
            continue
        if any(h.seq > e.seq and h.seq in x.hist for h in r.evs('handler')):
            continue            # reporting a failure of the file system itself
        yield x


def same_loop(e, x):
    return bool({l[0] for l in e.loops} & {l[0] for l in x.loops}) and x.seq < e.seq and any(
        l[0] in {m[0] for m in e.loops} for l in x.loops)


def wr(ctx, r, sources):
    """obligations of one writing entry point"""
    key = '' if r.key is None else '%s %s ' % r.key
    name = key + r.name
    n = 0
    for e, nm, md in writes(r):
        n += 1
        bad = list(after_open(r, e, sources))
        ctx.ok(not bad, 'refuse-before-open', '%s in %s' % (name, e.func), lambda: 'after the file is opened at %s a refusal is still possible: %s at %s' % (
            e.where, short(bad[0].cls), ', '.join(sorted({x.where for x in bad})[:4])), e.where)
        if nm is not None:
            ps = params(nm)
            ctx.judge(bool(ps) and ps <= sources, (nm,), 'writes-named-output', '%s in %s' % (name, e.func), 'the file written is %s' % short(nm), e.where)
        if md is None:
            ctx.ok(False, 'no-other-file-effect', '%s in %s' % (name, e.func), 'it also changes files with %s(%s)' % (e.d.get('fn', e.d.get('name')), short(nm) if nm is not None else ''), e.where)
        elif is_c(md):
            ctx.ok(cv(md) in ('wb', 'w', 'a'), 'write-mode', '%s in %s' % (name, e.func), 'the file is opened with mode %r' % cv(md), e.where)
    return n


def ro(ctx, r):
    key = '' if r.key is None else '%s %s ' % r.key
    w = list(writes(r))
    ctx.ok(not w, 'reading-writes-nothing', key + r.name, lambda: 'reading opens %s for writing at %s' % (short(w[0][1]) if w[0][1] is not None else '?', w[0][0].where), w[0][0].where if w else '')


def d07(ctx):
    for r in E.dmap_writes():
        n = wr(ctx, r, {'fn', 'out'})
        if 'stream' in r.name:
            ctx.ok(n == 0, 'stream-writes-no-file', r.name, 'a file is written')
        else:
            ctx.ok(n >= 1, 'one-output', r.name, '%d places write files' % n)
        ctx.ok(not r.dead, 'can-return', r.name, 'no path returns')
    for r in E.dmap_reads() + E.dmap_utils():
        ro(ctx, r)
    ctx.fan(d07b, E.KEYS)
    ctx.fan(d07c, [(v, f) for v in E.VERSIONS for f in ('bfiq', 'rawacf')])


def d07b(ctx, key):
    for s in ('site', 'array'):
        ro(ctx, E.b_read(key, s))
        r = E.b_write(key, s)
        n = wr(ctx, r, {'fn'})
        want = 1 if s == 'site' or E.has_arrays(key) else 0
        ctx.ok((n > 0) == (want > 0), 'one-output', '%s %s %s' % (key + (r.name,)), '%d places write files' % n)
    if E.restructurable(key):
        for w in ('_site_to_array', '_array_to_site'):
            ro(ctx, E.b_memory(key, w))


def d07c(ctx, key):
    r = E.b_convert(key)
    n = wr(ctx, r, {'out'})
    ctx.ok(n >= 1, 'one-output', '%s %s %s' % (key + (r.name,)), '%d places write files' % n)


# ---------------------------------------------------------------- objects

VIEWS = {'view', 'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'diagonal', 'get', 'setdefault', 'pop', 'values', 'items', 'popitem'}
VIEWF = {'numpy.asarray', 'numpy.reshape', 'numpy.squeeze', 'numpy.transpose', 'numpy.ravel', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.swapaxes'}
SHALLOW = {'copy.copy', 'builtins.dict', 'collections.OrderedDict', 'builtins.list', 'builtins.tuple', 'builtins.sorted'}
OWN = {'R', 'A', 'B'}


def owner(t):
    """the parameters whose own objects (not copies) the term may denote"""
    if not isinstance(t, T):
        return set()
    if t.op == 'param':
        return {t.args[0]}
    if t.op in ('item', 'attr', 'elem', 'rev', 'values', 'items', 'upd'):
        b = t.args[0]
        if t.op in ('item', 'elem') and b.op == 'call' and b.args[0].op == 'ext' and b.args[0].args[0] in SHALLOW and b.args[1]:
            return owner(b.args[1][0])      # a shallow copy holds the original's members
        if t.op in ('item', 'elem') and b.op == 'mcall' and b.args[1] == 'copy' and b.args[0].op in ('param', 'item') and (
                b.args[0].op == 'param' or b.args[0].args[0] is P('R')):
            return owner(b.args[0])
        return owner(b)
    if t.op == 'ite':
        return owner(t.args[1]) | owner(t.args[2])
    if t.op in ('lv', 'phi'):
        return set()
    if t.op == 'mcall' and t.args[1] in VIEWS:
        return owner(t.args[0])
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in VIEWF:
        a = list(t.args[1]) + [k.args[1] for k in t.args[2]]
        return set().union(*[owner(x) for x in a[:4]]) if a else set()
    return set()


def fieldtype(t):
    """constant key the term was looked up with"""
    while t.op in ('item', 'attr', 'mcall'):
        if t.op == 'item' and t.args[1].op == 'c' and isinstance(cv(t.args[1]), str):
            return cv(t.args[1])
        t = t.args[0]
    return None


def touched(r):
    """(event, target) of every in-place change"""
    for e in r.events:
        if e.kind in ('mut', 'setitem', 'setattr'):
            yield e, e.target
        elif e.kind == 'augmut':
            yield e, e.target


def keyname(r):
    return ('' if r.key is None else '%s %s ' % r.key) + r.name


def arrays_of(key):
    if key is None:
        return set()
    a = an(key)
    with Run(a) as r:
        c = E.fmt_class(key)
        out = set()
        for m in ('site_array_dtypes', 'array_dtypes', 'array_array_dtypes'):
            try:
                d = r.fz(r.call(r.get(c, m)))
            except Exception:
                continue
            if d.op == 'dict':
                out |= {cv(k.args[0]) for k in d.args if k.op == 'kv' and k.args[0].op == 'c'}
    return out


def own(ctx, r, arr):
    n = 0
    for e, t in touched(r):
        ps = owner(t) & OWN
        if e.kind == 'augmut':
            ps = ps if ps and fieldtype(t) in arr else set()
        n += 1
        if ps:
            ctx.ok(False, 'callers-data-untouched', '%s at %s' % (keyname(r), e.func), 'it changes the caller\'s data in place: %s of %s' % (
                e.d.get('how') or e.kind, short(t, 160)), e.where)
    ctx.ok(True, 'callers-data-untouched', '%s (%d in-place changes)' % (keyname(r), n), '')


def d08(ctx):
    for r in E.dmap_reads() + E.dmap_writes() + E.dmap_utils():
        own(ctx, r, set())
    W, S = 'pydarnio.dmap.dmap.DmapWrite', 'pydarnio.dmap.superdarn.SDarnWrite'
    for cls, m, args in [(W, 'write_dmap', ['out']), (W, 'write_dmap_stream', [])] + [(S, 'write_' + t, ['out']) for t in E.STYPES]:
        a = an()
        with Run(a) as r:
            o = r.call(cls, P('R'), P('fn'))
            r.set(o, 'dmap_records', P('R'))
            got = []
            for i in range(3):
                n0 = len(a.events)
                # a refused write (third round: with anything a refused one leaves behind) does not change what the next one emits
                v = r.method(o, m, *[P(x) for x in args])
                pay = [e.frozen[0] for e in a.events[n0:] if e.kind == 'mut' and e.how == 'write' and e.frozen]
                got.append((pay, r.fz(v) if isinstance(v, T) else v, r.fz(r.get(o, 'dmap_bytearr'))))
            name = '%s.%s' % (cls.rsplit('.', 1)[1], m)
            for i in (1, 2):
                same = len(got[0][0]) == len(got[i][0]) and all(x is y for x, y in zip(got[0][0], got[i][0])) and got[0][1] is got[i][1] and got[0][2] is got[i][2]
                ctx.judge(same, [t for g in (got[0], got[i]) for t in g[0] + [g[1]] if isinstance(t, T)], 'same-output-again', '%s round %d' % (name, i + 1),
                          lambda: 'writing again emits %s, first %s' % (short(got[i][2], 300), short(got[0][2], 300)), lvx=False)
            ctx.judge(fresh(a, r, o, m, args, got), [got[0][2]], 'starts-empty', name, 'what is written depends on what the buffer held before', lvx=False)
    ctx.fan(d08b, E.KEYS)
    ctx.fan(d08c, [(v, f) for v in E.VERSIONS for f in ('bfiq', 'rawacf')])


def fresh(a, r, o, m, args, got):
    """a buffer left half filled by a refused write must not show in the next one"""
    b = a.alloc(r.st, 'list', segs=(), origin=('local',))
    r.set(o, 'dmap_bytearr', P('leftover'))
    v = r.method(o, m, *[P(x) for x in args])
    return 'leftover' not in params(r.fz(r.get(o, 'dmap_bytearr'))) and 'leftover' not in params(r.fz(v) if isinstance(v, T) else v)


def d08b(ctx, key):
    arr = arrays_of(key)
    for r in E.b_all(key) + [E.b_memory(key, w) for w in ('reshape_site_arrays', 'flatten_site_arrays')]:
        own(ctx, r, arr)


def d08c(ctx, key):
    own(ctx, E.b_convert(key), arrays_of(key))


MEMO = re.compile(r'(^|\.)(lru_cache|cache|cached_property|memoize\w*)\b')
OUTSIDE = {'h5py.File', 'builtins.open', 'bz2.open', 'bz2.BZ2File', 'os.path.getsize', 'os.path.exists', 'os.path.isfile', 'os.stat', 'numpy.fromfile'}


def shared(ctx, r):
    n = 0
    memo = {f.qual for f in r.eng.fns.values() if any(MEMO.search(d) for d in f.decorators)}
    for e in r.events:
        if memo and e.kind == 'call' and isinstance(e.fn, str) and e.fn in OUTSIDE:
            for q in memo & ({e.func} | set(e.stack)):
                ctx.ok(False, 'no-shared-state', '%s at %s' % (keyname(r), q), 'the result of an earlier call is kept, although it comes from a file (%s)' % e.fn, e.where)
        if e.kind == 'setglobal':
            ctx.ok(False, 'no-shared-state', '%s at %s' % (keyname(r), e.func), 'it rebinds the module variable %s' % e.name, e.where)
        if e.kind in ('mut', 'setitem', 'setattr', 'augmut'):
            n += 1
            o = e.d.get('origin')
            if o is None and e.kind == 'augmut':
                ob = r.eng.gheap.get(e.target.args[0]) if e.target.op == 'ref' else None
                o = ob.origin if ob is not None else None
            if o and o[0] in ('global', 'default'):
                ctx.ok(False, 'no-shared-state', '%s at %s' % (keyname(r), e.func), 'it changes %s, which every later call shares (%s)' % (' '.join(map(str, o)), e.d.get('how') or e.kind), e.where)
            if e.kind == 'setattr' and isinstance(e.target, T) and e.target.op == 'cls':
                ctx.ok(False, 'no-shared-state', '%s at %s' % (keyname(r), e.func), 'it changes the attribute %s of class %s' % (e.name, e.target.args[0]), e.where)
            if isinstance(e.target, T) and e.target.op in ('glob', 'mod'):
                ctx.ok(False, 'no-shared-state', '%s at %s' % (keyname(r), e.func), 'it changes %s' % short(e.target), e.where)
    ctx.ok(True, 'no-shared-state', '%s (%d in-place changes)' % (keyname(r), n), '')


def d09(ctx):
    for r in E.dmap_reads() + E.dmap_writes() + E.dmap_utils():
        shared(ctx, r)
    ctx.fan(d09b, E.KEYS)
    ctx.fan(d09c, [(v, f) for v in E.VERSIONS for f in ('bfiq', 'rawacf')])


def d09b(ctx, key):
    for r in E.b_all(key):
        shared(ctx, r)


def d09c(ctx, key):
    shared(ctx, E.b_convert(key))
