"""B11: a restructuring that fails is reported as such, whatever went wrong."""
from rules.base import T, C, cv, is_c, subterms, P, short, an
from rules import entries as E
from rules.errors import with_run

WORK = ('sub', 'call', 'mcall', 'unpack', 'inline', 'raise', 'setitem')
PLACES = ('pydarnio.borealis.base_format.', 'pydarnio.borealis.borealis_formats.', 'pydarnio.borealis.borealis_utilities.')
HARMLESS = {'is_restructureable', 'unshared_fields', 'shared_fields', 'single_element_types', 'array_dtypes', 'site_single_element_types', 'site_array_dtypes',
            'array_single_element_types', 'array_array_dtypes', 'array_only_fields', 'site_only_fields', 'single_element_types_fields'}
WIDE = {'Exception', 'BaseException'}
ERR = 'BorealisRestructureError'


def last(x):
    return str(x.args[0] if isinstance(x, T) and x.args else x).split('.')[-1]


def wide(e):
    return any(last(c) in WIDE for cl in e.trys for c in cl)


def guarded(ctx, key, name, evs, what):
    """everything that works on the data happens where a failure becomes a BorealisRestructureError"""
    a = an(key)
    n = {}
    for e in evs:
        if e.kind not in WORK or not e.func.startswith(PLACES) or last(e.func) in HARMLESS:
            continue
        if e.kind == 'sub' and table(a, e):
            continue
        k = e.func
        n.setdefault(k, [0, None])
        n[k][0] += 1
        if not wide(e) and n[k][1] is None:
            n[k][1] = e
    for f, (_, e) in sorted(n.items()):
        c = '%s in %s' % (name, f)
        ctx.ok(e is None, 'covered', c, lambda: 'a failure of the %s at %s is not turned into a %s' % (e.kind, e.where, ERR), e.where if e else '')
    return bool(n)


def table(a, e):
    """a look-up in a table of the package, which does not depend on data"""
    ts = [x for x in e.d.values() if isinstance(x, T)]
    return not any(s.op in ('param', 'call', 'elem', 'lv') for t in ts for s in subterms(t))


def handlers(ctx, name, evs, upto):
    """what leaves the operation is a BorealisRestructureError"""
    seen = set()
    for e in evs:
        if e.kind != 'raise' or wide(e):
            continue
        c = '%s raises %s in %s' % (name, last(e.cls), e.func)
        if c in seen:
            continue
        seen.add(c)
        ctx.ok(last(e.cls) == ERR, 'error', c, 'a failure leaves as %s' % last(e.cls), e.where)
    ctx.ok(any(c for c in seen), 'error', name + ' reports failures', 'no failure is reported')


def onfile(e):
    """the event touches a file or what is read from one"""
    if e.kind == 'raise':
        return True
    if e.kind == 'call' and e.fn == 'h5py.File':
        return True
    ts = [x for v in e.d.values() for x in (v if isinstance(v, (list, tuple)) else v.values() if isinstance(v, dict) else [v]) if isinstance(x, T)]
    return any(s.op == 'call' and s.args[0] == T('ext', 'h5py.File') for t in ts for s in subterms(t))


def views(ctx, key):
    a = an(key)
    for s in ('site', 'array'):
        if s == 'array' and not E.has_arrays(key):
            continue
        for r in (E.b_read(key, s), E.b_write(key, s)):
            if r.dead:
                continue
            base = r.st
            r.st = base.fork()
            n0 = len(a.events)
            res = []
            with_run(a, r, lambda: res.append(r.get(r.o, 'arrays' if s == 'site' else 'records')))
            dead = r.st.dead
            r.st = base
            evs = a.events[n0:]
            name = '%s %s ' % key + '%s of %s' % ('arrays' if s == 'site' else 'records', r.name)
            if not E.restructurable(key):
                ctx.tri(True if dead else None, 'refused', name, 'the file type has no other structure, but one is returned')
            elif not guarded(ctx, key, name, evs, s):
                ctx.undecided('covered', name, 'no restructuring is seen')
            handlers(ctx, name, evs, n0)


IDENTIFY = {'get_record_names', 'get_borealis_structure', 'get_borealis_version'}


def identifying(e):
    """before the restructuring: what the file is, is being found out"""
    names = [last(q) for q in e.stack]
    own = {last(q) for q in e.stack if q.startswith('pydarnio.borealis.borealis_restructure.')}
    return bool(IDENTIFY & set(names)) or own <= {'__init__'}


def files(ctx, key):
    if not E.restructurable(key):
        return
    a = an(key)
    for s in ('array', 'site'):
        r = E.b_restructure(key, s)
        name = '%s %s ' % key + r.name
        evs = r.events
        work = [e for e in evs if e.kind in ('call', 'sub', 'setitem', 'raise') and last(e.func) in ('_site_to_array_restructure', '_array_to_site_restructure') and not (e.kind == 'sub' and table(a, e)) and not (e.kind == 'raise' and last(e.cls) == ERR) and onfile(e)]
        if not work:
            ctx.undecided('covered', name, 'no restructuring is seen')
        bad = [e for e in work if not wide(e)]
        ctx.ok(not bad, 'covered', name, lambda: 'a failure of the %s at %s is not turned into a %s' % (bad[0].kind, bad[0].where, ERR), bad[0].where if bad else '')
        guarded(ctx, key, name, [e for e in evs if not identifying(e)], s)
        for e in evs:
            if e.kind == 'raise' and not wide(e) and last(e.func) in ('_site_to_array_restructure', '_array_to_site_restructure', 'restructure'):
                ctx.ok(last(e.cls) == ERR, 'error', '%s raises %s in %s' % (name, last(e.cls), e.func), 'a failure leaves as %s' % last(e.cls), e.where)


def b11k(ctx, key):
    views(ctx, key)
    files(ctx, key)


def b11(ctx):
    ctx.fan(b11k, E.KEYS)
