"""B10: the format, structure and version of Borealis data are recognised, or the data are refused."""
from rules.base import T, C, cv, is_c, subterms, TRUE, FALSE, NONE, an, P, short, unsure, Run
from rules import entries as E
from rules.errors import with_run
from terms import subst, rewrite, land

TABLE = {'v0.2': '_v0_4', 'v0.3': '_v0_4', 'v0.4': '_v0_4', 'v0.5': '_v0_5', 'v0.6': '_v0_6', 'v0.7': ''}
READ = {'bfiq', 'antennas_iq', 'rawacf', 'rawrf'}
RESTR = {'bfiq', 'antennas_iq', 'rawacf'}
FALLBACK = {'BorealisExtraFieldError', 'BorealisFieldMissingError', 'BorealisStructureError'}
HASH = 'borealis_git_hash'


def last(x):
    return str(x.args[0] if isinstance(x, T) and x.args else x).split('.')[-1]


def cls_of(fn):
    """the class whose constructor is run"""
    p = str(fn).split('.')
    return p[-2] if p[-1] == '__init__' else None


# ---------------------------------------------------------------- versions

def text(t):
    """decode(x) and x.decode(): the text of an attribute"""
    return t.args[0] if t.op == 'decode' or t.op == 'mcall' and t.args[1] == 'decode' else t


def mc(t, name):
    return t.op == 'mcall' and t.args[1] == name


def a1(t, i=0):
    return t.args[2][i] if len(t.args[2]) > i else None


def version_of(t):
    """the text whose first two parts (before '-') make the version; None for other terms"""
    if not (mc(t, 'join') and is_c(t.args[0], '.') and a1(t) is not None):
        return None
    s = a1(t)
    if s.op != 'item' or s.args[1].op != 'slice':
        return None
    lo, hi, st = s.args[1].args
    if not ((is_c(lo, None) or is_c(lo, 0)) and is_c(hi, 2) and (is_c(st, None) or is_c(st, 1))):
        return None
    x = s.args[0]
    if not (mc(x, 'split') and is_c(a1(x) if a1(x) is not None else C(0), '.')):
        return None
    y = x.args[0]
    if y.op == 'item' and is_c(y.args[1], 0) and mc(y.args[0], 'split') and a1(y.args[0]) is not None and is_c(a1(y.args[0]), '-'):
        return y.args[0].args[0]
    return None


def known_version(t):
    """the steps are all familiar, so that a difference is one of meaning"""
    ops = {'mcall', 'item', 'c', 'slice', 'attr', 'call', 'kw', 'param', 'decode', 'sorted', 'ext', 'ite', 'and', 'or', 'not', 'in', 'exc', 'tup', 'listof', 'list', 'keys'}
    return all(s.op in ops for s in subterms(t)) and all(s.args[1] in ('join', 'split', 'decode', 'rsplit', 'lower', 'strip', 'partition', 'replace') for s in subterms(t) if s.op == 'mcall')


def source(t, what):
    """the hash is that of the file (its first record, for site files) or of the data (their first record)"""
    t = text(t)
    if what == 'restructure':
        if t.op == 'ite':
            cond, x, y = t.args
            arr = rewrite(subst(cond, {}), lambda s: C(True) if s.op in ('in',) and is_c(s.args[0], HASH) and s.args[1].op == 'attr' else C(False) if s.op == 'exc' or s.op == 'in' and is_c(s.args[0], HASH) else s)
            sit = rewrite(subst(cond, {}), lambda s: C(False) if s.op in ('in', 'exc') else s)
            if is_c(arr, True) and is_c(sit, False):
                return source(x, 'array file') and source(y, 'site file')
            return None
        return None
    if t.op != 'item' or not is_c(t.args[1], HASH):
        return None
    o = t.args[0]
    if what == 'array data':
        return o == P('D') or o == P('A')
    if what == 'array file':
        return o.op == 'attr' and last(o.args[1]) == 'attrs' and isfile(o.args[0])
    if what == 'site file':
        return o.op == 'attr' and last(o.args[1]) == 'attrs' and o.args[0].op == 'item' and isfile(o.args[0].args[0]) and firstkey(o.args[0].args[1], o.args[0].args[0])
    if what == 'site data':
        return o.op == 'item' and o.args[0].op == 'param' and firstkey(o.args[1], o.args[0])


def isfile(t):
    return t.op == 'call' and t.args[0] == T('ext', 'h5py.File')


def firstkey(t, of):
    """the name of a record of the collection: its first"""
    if t.op == 'item' and is_c(t.args[1], 0):
        x = t.args[0]
        while x.op in ('sorted', 'listof', 'list', 'keys', 'tupof') and x.args and isinstance(x.args[0], T):
            if x.op == 'list' and x.args[0].op == 'many':
                x = x.args[0].args[0]
            else:
                x = x.args[0]
        return x == of
    return t.op == 'minover' or None


def versions(ctx, key, r, what, name):
    """the version text and what is done with it"""
    seen = {}
    for e in r.events:
        for p in e.pc:
            for q in (p.args if p.op in ('and', 'or') else (p,)):
                if q.op == 'eq' and any(is_c(x, key[0]) for x in q.args):
                    x = [y for y in q.args if not is_c(y, key[0])]
                    if x:
                        seen.setdefault(x[0], e)
    for e in r.events:
        if e.kind == 'raise' and last(e.cls) == 'BorealisVersionError':
            for p in e.pc:
                if p.op == 'not' and p.args[0].op == 'in' and p.args[0].args[1].op in ('setc', 'dict'):
                    seen.setdefault(p.args[0].args[0], e)
                    S = {cv(y.args[0] if y.op == 'kv' else y) for y in p.args[0].args[1].args}
                    ctx.ok(S == set(TABLE), 'versions', name, lambda: 'accepts the versions %s' % sorted(map(str, S)), e.where)
    if not seen:
        ctx.undecided('version', name, 'the version is not compared')
    for x, e in seen.items():
        h = version_of(x)
        c = '%s in %s' % (name, e.func)
        ctx.tri(True if h is not None else False if known_version(x) else None, 'version', c, lambda: 'the version is taken as %s' % short(x, 300), e.where)
        if h is not None:
            ctx.tri(source(h, what), 'version-source', c, lambda: 'the version is that of %s' % short(h, 300), e.where)


# ---------------------------------------------------------------- file types

def types(ctx, key, what, want):
    r = E.b_type(key, what)
    name = 'any file type, %s' % what
    t = P('type')
    hit = None
    for e in r.events:
        if e.kind == 'raise' and last(e.cls) == 'BorealisFileTypeError':
            cond = land(*[p for p in e.pc if t in subterms(p)])
            S = at(cond, want)
            hit = e
            ctx.tri(S, 'type', '%s in %s' % (name, e.func), lambda: 'refused if %s' % short(cond), e.where)
            caught = [c for cl in e.trys for c in cl if last(c) in ('BorealisFileTypeError', 'Exception', 'BaseException')]
            ctx.tri(None if caught else True, 'type-escape', '%s in %s' % (name, e.func), 'the refusal may be handled', e.where)
            break
    if hit is None:
        ctx.ok(False, 'type', name, 'no file type is refused')
        return
    for e in r.events:
        if e.kind == 'call' and e.fn in ('h5py.File', 'builtins.open'):
            # reached with a foreign type?
            ok = reach(e.pc, t, C('?'))
            ctx.tri(not ok if ok is not None else None, 'type-first', '%s in %s' % (name, e.func), 'a file is opened although the file type is unknown', e.where)


def at(cond, want):
    """cond holds for exactly the values that are not wanted"""
    t = P('type')
    for x in sorted(READ | {'nosuch', ''}):
        v = rewrite(subst(cond, {t: C(x)}), lambda s: member(s))
        if not is_c(v):
            return None
        if bool(cv(v)) == (x in want):
            return False
    return True


def member(s):
    if s.op == 'in' and is_c(s.args[0]) and s.args[1].op in ('setc', 'tup', 'list', 'dict'):
        ks = [x.args[0] if x.op == 'kv' else x for x in s.args[1].args]
        if all(is_c(x) for x in ks):
            return C(any(cv(s.args[0]) == cv(x) for x in ks))
    if s.op in ('eq', 'is') and all(is_c(x) for x in s.args):
        return C(cv(s.args[0]) == cv(s.args[1]))
    if s.op == 'isnone' and is_c(s.args[0]):
        return C(cv(s.args[0]) is None)
    return s


def reach(pc, t, v):
    """can the point be reached with option t of value v: False no, True as far as t goes, None unclear"""
    for p in pc:
        if t in subterms(p):
            q = rewrite(subst(p, {t: v}), member)
            if is_c(q, False):
                return False
    return True


# ---------------------------------------------------------------- structures

def structures(ctx, key):
    t = P('structure')
    for what, classes in (('read as', ('BorealisSiteRead', 'BorealisArrayRead')), ('write as', ('BorealisSiteWrite', 'BorealisArrayWrite'))):
        r = E.b_open(key, what)
        made = [e for e in r.events if e.kind == 'inline' and cls_of(e.fn) in classes]
        refuse = [e for e in r.events if e.kind == 'raise' and last(e.cls) == 'BorealisStructureError' and e.func.startswith('pydarnio.borealis.borealis.') and reach(e.pc, t, C('?other'))]
        for v, want in (('site', classes[0]), ('array', classes[1]), ('?other', None)):
            c = '%s %s, %s' % (key + ('%s structure %s' % (what, v),))
            got = {cls_of(e.fn) for e in made if reach(e.pc, t, C(v))}
            ctx.ok(got == ({want} if want else set()), 'structure', c, lambda: 'handled by %s' % (', '.join(sorted(got)) or 'nothing'), made[0].where if made else '')
            if want is None:
                ctx.ok(bool(refuse), 'structure-refused', c, 'an unknown structure is not refused')
        fallback(ctx, key, r, what, made, classes, t)


def fallback(ctx, key, r, what, made, classes, t):
    """without a structure: as arrays first, as records only after a refusal that says these are not arrays"""
    c = '%s %s, ' % key + what.replace(' as', '') + ' without structure'
    mine = [e for e in made if reach(e.pc, t, NONE)]
    order = [cls_of(e.fn) for e in mine]
    ctx.ok(order == [classes[1], classes[0]], 'fallback', c, lambda: 'tried in the order %s' % order, mine[0].where if mine else '')
    if order != [classes[1], classes[0]]:
        return
    first, second = mine
    caught = {last(x) for cl in first.trys for x in cl}
    ctx.ok(caught == FALLBACK, 'fallback-on', c, lambda: 'records are tried after %s' % sorted(caught), first.where)
    for e, nm in ((first, 'arrays'), (second, 'records')):
        args = [x for x in e.args if not (isinstance(x, T) and x.op == 'ref')]
        want = [P('fn')] + ([P('D')] if what.startswith('write') else []) + [C(key[1])]
        ctx.judge(args[:len(want)] == want, args[:len(want)], 'fallback-args', '%s as %s' % (c, nm), lambda: 'called with %s' % [short(x, 60) for x in args], e.where)
        if what.startswith('write'):
            z = e.kws.get('hdf5_compression', args[len(want)] if len(args) > len(want) else None) if hasattr(e, 'kws') else None
            ctx.tri(z == P('z') if z is not None else None if not isinstance(e.kws, dict) or any(not isinstance(k, str) or k == '**' for k in e.kws) else False, 'fallback-args', '%s as %s, compression' % (c, nm), 'the compression asked for is not handed on', e.where)


def views(ctx, key):
    """what the object says about itself"""
    for s in ('site', 'array'):
        if s == 'array' and not E.has_arrays(key):
            continue
        for r, what, data in ((E.b_read(key, s), 'read', None), (E.b_write(key, s), 'write', P('R' if s == 'site' else 'A'))):
            if r.dead:
                continue
            a = an(key)
            name = '%s %s ' % key + what + ' ' + s

            def get(n):
                base = r.st
                r.st = base.fork()
                out = []
                with_run(a, r, lambda: out.append(r.fz(r.get(r.o, n))))
                dead = r.st.dead
                r.st = base
                return None if dead or not out else out[0]
            v = get('borealis_file_structure')
            ctx.judge(v == C(s), [v], 'says', name + ' borealis_file_structure', lambda: 'is %s' % short(v, 100)) if v is not None else None
            v = get('format')
            w = E.fmt_class(key)
            ctx.judge(v == w, [v], 'says', name + ' format', lambda: 'is %s, not %s' % (short(v, 100), short(w, 100))) if v is not None else None
            v = get('software_version')
            if v is not None:
                h = version_of(v)
                ctx.tri(True if h is not None or is_c(v, key[0]) else False if known_version(v) else None, 'says', name + ' software_version', lambda: 'is %s' % short(v, 200))
            if data is not None:
                v = get('records' if s == 'site' else 'arrays')
                if v is not None:
                    ctx.judge(v == data, [v], 'says', name + ' data', lambda: 'holds %s, not the data given' % short(v, 200))
            if s == 'site':
                v, w = get('record_names'), get('records')
                if v is not None and w is not None:
                    names = v
                    while names.op in ('sorted', 'listof', 'keys') or names.op == 'list' and len(names.args) == 1 and names.args[0].op in ('sorted', 'spread'):
                        names = names.args[0]
                    src = w
                    while src.op in ('sorted', 'items') or src.op == 'dict' and len(src.args) == 1 and src.args[0].op in ('sorted', 'items', 'many'):
                        src = src.args[0]
                    if src.op == 'many':
                        src = src.args[0]
                        while src.op in ('sorted', 'listof', 'keys'):
                            src = src.args[0]
                    ctx.tri(True if names in (w, src) and v.op != 'many' else None, 'says', name + ' record_names', lambda: 'are %s' % short(v, 200))


def tables(ctx):
    a = an(None)
    with Run(a) as r:
        d = r.fz(a.find(E.BP + 'borealis_formats.borealis_version_dict'))
    if d.op != 'dict':
        ctx.undecided('table', 'borealis_version_dict', 'of unfamiliar form')
        return
    top = {cv(s.args[0]): s.args[1] for s in d.args if s.op == 'kv' and is_c(s.args[0])}
    for v, suf in TABLE.items():
        sub = top.get(v)
        got = {cv(s.args[0]): s.args[1] for s in sub.args if s.op == 'kv' and is_c(s.args[0])} if sub is not None and sub.op == 'dict' else {}
        for t in sorted(READ):
            want = {'bfiq': 'BorealisBfiq', 'rawacf': 'BorealisRawacf', 'antennas_iq': 'BorealisAntennasIq', 'rawrf': 'BorealisRawrf'}[t] + suf.replace('_v', 'v')
            c = 'borealis_version_dict[%r][%r]' % (v, t)
            x = got.get(t)
            ctx.ok(x is not None and last(x) == want, 'table', c, lambda: 'is %s, not %s' % (last(x) if x is not None else 'missing', want))
    ctx.ok(set(top) == set(TABLE), 'table', 'versions known', lambda: 'are %s' % sorted(map(str, top)))


def b10k(ctx, key):
    if key is None:
        tables(ctx)
        k = ('v0.6', 'rawacf')
        for what, want in (('read', READ), ('write', READ), ('restructure', RESTR), ('convert', READ)):
            types(ctx, k, what, want)
        return
    structures(ctx, key)
    views(ctx, key)
    nm = '%s %s ' % key
    versions(ctx, key, E.b_read(key, 'site'), 'site file', nm + 'read site')
    versions(ctx, key, E.b_write(key, 'site'), 'site data', nm + 'write site')
    versions(ctx, key, E.b_read(key, 'array'), 'array file', nm + 'read array')
    versions(ctx, key, E.b_write(key, 'array'), 'array data', nm + 'write array')
    if E.restructurable(key):
        r = E.b_open(key, 'restructure')
        versions(ctx, key, r, 'restructure', nm + 'restructure')
        t = P('structure')
        for v in ('site', 'array', '?other'):
            go = [e for e in r.events if e.kind == 'call' and e.fn == 'h5py.File' and reach(e.pc, t, C(v))]
            c = nm + 'restructure structure %s' % v
            ctx.ok(bool(go) == (v != '?other'), 'structure', c, 'goes on' if go else 'does not go on')
        for e in r.events:
            if e.kind == 'inline' and last(e.fn) in ('_site_to_array_restructure', '_array_to_site_restructure'):
                want = 'array' if last(e.fn).startswith('_site') else 'site'
                got = [v for v in ('site', 'array') if reach(e.pc, t, C(v))]
                ctx.ok(got == [want], 'direction', nm + last(e.fn), lambda: 'made for structure %s' % got, e.where)


def b10(ctx):
    ctx.fan(b10k, E.KEYS + [None])
