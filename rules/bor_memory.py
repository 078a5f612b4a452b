"""B04, B05: in-memory restructuring keeps every record's data in its place."""
import json
import os
from collections import Counter

from rules.base import T, C, cv, is_c, subterms, TRUE, FALSE, an, Run, P, short, unsure, dict_items, judge
from rules import entries as E
from rules.bor_checks import SPEC, HERE, ext
from terms import lnot, lor, land, subst, eq, rewrite, elem, idx

NDARRAY = T('ext', 'numpy.ndarray')
SCALAR_OPS = {'maxover', 'len', 'lin', 'add', 'sumover', 'idx', 'max'}


def plain(kinds):
    """terms without copies, with the tests decided that the record checks and the format decide: kinds maps fields to 'array' or 'single'"""
    def f(x):
        if x.op == 'deepcopy' or x.op == 'mcall' and x.args[1] == 'copy' and not x.args[2]:
            return x.args[0]
        if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('numpy.copy', 'copy.copy') and len(x.args[1]) == 1:
            return x.args[1][0]
        if x.op == 'isinstance' and x.args[1].op == 'ext' and x.args[1].args[0] == 'builtins.list':
            a = x.args[0]
            if scalar(a, kinds):
                return FALSE
            if a.op in ('list',):
                return TRUE
        if x.op == 'eq' and NDARRAY in x.args:
            y = x.args[0] if x.args[1] is NDARRAY else x.args[1]
            if y.op == 'type':
                return isarr(y.args[0], kinds, x)
        if x.op == 'isinstance' and x.args[1] is NDARRAY:
            return isarr(x.args[0], kinds, x)
        return x
    def g(t):
        for _ in range(4):
            n = rewrite(t, f)
            if n is t:
                return t
            t = n
        return t
    return g


def scalar(a, kinds):
    if a.op in SCALAR_OPS or a.op == 'c':
        return True
    if a.op == 'item' and is_c(a.args[1]):
        return isinstance(cv(a.args[1]), int) or kinds.get(cv(a.args[1])) == 'single'
    return a.op == 'last' and scalar(a.args[1], kinds)


def isarr(v, kinds, x):
    if v.op == 'deepcopy':
        v = v.args[0]
    if v.op == 'reshape' or v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in ('numpy.array', 'numpy.zeros', 'numpy.reshape'):
        return TRUE
    if v.op == 'item' and is_c(v.args[1]) and cv(v.args[1]) in kinds:
        return C(kinds[cv(v.args[1])] == 'array')
    return x


def kinds_of(key, structure='site'):
    s = SPEC['%s %s' % key]
    k = {f: 'single' for f in s[structure + '_single']}
    k.update({f: 'array' for f in s[structure + '_arrays']})
    return k


def result(key, method):
    r = E.b_memory(key, method)
    return r, (None if r.dead else r.fz(r.ret))


# ---------------------------------------------------------------- the record index, shapes and slices in one form

RI = T('recidx')
R, A = P('R'), P('A')
SINGLES = {'num_sequences', 'num_slices', 'int_time', 'scan_start_marker', 'slice_interfacing', 'agc_status_word', 'lp_status_word', 'gps_locked', 'gps_to_system_time_diff'}
SEQ = {('max', 'num_sequences'), ('longest', 'sqn_timestamps'), ('longest', 'noise_at_freq')}
BEAM = {('longest', 'beam_nums'), ('longest', 'beam_azms')}
BLANK = {('longest', 'blanked_samples')}
PURE = {'item', 'c', 'param', 'elem', 'idx', 'recidx', 'shape', 'attr', 'len', 'maxover', 'reshape', 'add', 'lin', 'mul', 'ext', 'many', 'slice', 'g'}


def fields_of(key):
    """{field: (is single, per record?)} by comparing the two published structures; dims of the per-record arrays"""
    dims = 'correlation_dimensions' if key[1] == 'rawacf' and key[0] != 'v0.7' else 'data_dimensions'

    def d(i):
        return {('first', dims, i), ('firstshape', 'data', i)}
    out = {'sqn_timestamps': [SEQ], 'noise_at_freq': [SEQ], 'beam_nums': [BEAM], 'beam_azms': [BEAM], 'blanked_samples': [BLANK],
           'tx_antenna_phases': [{('firstshape', 'tx_antenna_phases', 0), ('longest', 'tx_antenna_phases')}], 'pulse_phase_offset': None,
           'main_acfs': [BEAM | {('maxdim', dims, 0)}, d(1), d(2)]}
    out['intf_acfs'] = out['xcfs'] = out['main_acfs']
    seq = SEQ | {('maxdim', dims, 1)}
    out['data'] = [d(0), seq, d(2)] if key[1] == 'antennas_iq' else [d(0), seq, BEAM | {('maxdim', dims, 2)}, d(3)]
    if key[0] == 'v0.4' and key[1] == 'antennas_iq':
        out.pop('blanked_samples')
    for f in SINGLES:
        out[f] = []
    return out, dims


def unshared(key):
    """fields whose value differs by record: single in the records and an array over the records in the arrays, or one dimension more"""
    s = SPEC['%s %s' % key]
    site = {f: s['site_single'][f] for f in s['site_single']}
    out = {f for f in site if f in s['array_arrays'] and f in SINGLES}
    for f in s['site_arrays']:
        if f in s['array_arrays'] and f in PER_RECORD[key[0]]:
            out.add(f)
    return out


PER_RECORD = {'v0.4': {'sqn_timestamps', 'noise_at_freq', 'beam_nums', 'beam_azms', 'data', 'main_acfs', 'intf_acfs', 'xcfs'}}
PER_RECORD['v0.5'] = PER_RECORD['v0.4'] | {'blanked_samples'}
PER_RECORD['v0.6'] = PER_RECORD['v0.5'] | {'pulse_phase_offset'}
PER_RECORD['v0.7'] = PER_RECORD['v0.6'] | {'tx_antenna_phases'}


def recidx(own):
    """the running record index as one term, whatever the loop runs over"""
    def f(x):
        if x.op == 'idx' and (x.args[0] is own or x.args[0].op == 'item' and x.args[0].args[0] is own):
            return RI
        if x.op == 'elem' and x.args[0].op in ('range', 'rng'):
            return RI
        return x
    return f


def strip(segs):
    """the parts of a tuple that are really there"""
    out = []
    for s in segs:
        if s.op == 'g':
            if is_c(s.args[0], False):
                continue
            if is_c(s.args[0], True):
                s = s.args[1]
            out.append(s)
        elif s.op == 'many' and is_c(s.args[1], False):
            continue
        else:
            out.append(s)
    return out


def flat(x):
    """the entries of a tuple-like term"""
    if x.op in ('tup', 'list'):
        return strip(x.args)
    if x.op == 'tupof':
        return flat(x.args[0])
    if x.op == 'add' and all(y.op in ('tup', 'list', 'tupof', 'add') for y in x.args):
        return [z for y in x.args for z in flat(y)]
    return [x]


def own_field(x, at=None):
    """the field of item(item(R, at), field)"""
    if x.op == 'item' and is_c(x.args[1]) and x.args[0].op == 'item' and x.args[0].args[0] is R and (at is None or x.args[0].args[1] is at):
        return cv(x.args[1])
    return None


ANY, FIRST = elem(R), T('item', R, C(0))


def shape_of(x):
    """(value, k) of value.shape[k] or len(value)"""
    if x.op == 'len':
        return x.args[0], 0
    if x.op == 'item' and is_c(x.args[1]):
        s = x.args[0]
        if s.op == 'shape' or s.op == 'attr' and s.args[1] in ('shape', C('shape')):
            return s.args[0], cv(x.args[1])
    return None, None


def dimkey(x):
    if x.op == 'len' and x.args[0] is R:
        return ('records',)
    if x.op == 'maxover' and x.args[0] is R and is_c(x.args[1], True):
        y = x.args[2]
        f = own_field(y, ANY)
        if f:
            return ('max', f)
        v, k = shape_of(y)
        if v is not None and own_field(v, ANY):
            return ('longest', own_field(v, ANY)) if k == 0 else ('maxshape', own_field(v, ANY), k)
        if y.op == 'attr' and y.args[1] in ('size', C('size')) and own_field(y.args[0], ANY):
            return ('longest', own_field(y.args[0], ANY))
        if y.op == 'item' and is_c(y.args[1]) and own_field(y.args[0], ANY):
            return ('maxdim', own_field(y.args[0], ANY), cv(y.args[1]))
        return None
    if x.op == 'minover' and x.args[0] is R and is_c(x.args[1], True):
        return ('least', *(dimkey(T('maxover', *x.args)) or ()))
    if x.op in ('maxover', 'minover', 'last') and x.args[0] is not R:
        I = x.args[0]
        if I.op == 'item' and I.args[0] is R and I.args[1].op == 'slice' and not all(is_c(q, None) or is_c(q, 0) for q in I.args[1].args[:2]):
            return ('some', short(I))
    if x.op == 'last' and x.args[0] is R:
        y = x.args[1]
        v, k = shape_of(y)
        return ('last', own_field(y if v is None else v, ANY)) if own_field(y if v is None else v, ANY) else None
    v, k = shape_of(x)
    if v is not None and own_field(v, FIRST_KEY):
        return ('firstshape', own_field(v, FIRST_KEY), k)
    if v is not None and own_field(v, ANY):
        return ('thisshape', own_field(v, ANY), k)
    if x.op == 'item' and is_c(x.args[1]) and own_field(x.args[0], FIRST_KEY):
        return ('first', own_field(x.args[0], FIRST_KEY), cv(x.args[1]))
    f = own_field(x, FIRST_KEY)
    if f:
        return ('firstvalue', f)
    if x.op == 'c':
        return ('const', cv(x))
    return None


FIRST_KEY = T('item', R, C(0))


def pure(*ts):
    return all(s.op in PURE for t in ts for s in subterms(t))


def prep(t, own, kinds):
    return rewrite(plain(kinds)(t), recidx(own))


def call_args(call):
    pos, kw = list(call.args[1]), {}
    for a in call.args[2] if len(call.args) > 2 else ():
        kw[cv(a.args[0]) if isinstance(a.args[0], T) else a.args[0]] = a.args[1]
    return pos, kw


def arg(call, n, name):
    pos, kw = call_args(call)
    return kw.get(name) if name in kw else pos[n] if len(pos) > n else None


def parse_store(v):
    """(shape entries, dtype, fill, [(index entries, value, over)]) of an array made empty and filled record by record"""
    if v.op != 'upd':
        return None
    base, writes = v.args[0], v.args[1]
    if base.op != 'call' or base.args[0].op != 'ext' or base.args[0].args[0] not in ('numpy.empty', 'numpy.zeros', 'numpy.full', 'numpy.ones'):
        return None
    kind = base.args[0].args[0]
    sh = arg(base, 0, 'shape')
    if sh is None:
        return None
    fill = {'numpy.zeros': C(0), 'numpy.ones': C(1)}.get(kind)
    dt = arg(base, 2 if kind == 'numpy.full' else 1, 'dtype')
    if kind == 'numpy.full':
        fill = arg(base, 1, 'fill_value')
    if len(v.args) > 2 and strip(list(v.args[2])):
        return None
    st = []
    for w in strip(list(writes)):
        if w.op == 'kv':
            ix = flat(w.args[0])
            if len(ix) == 1 and ix[0].op in ('slice',) and all(is_c(q, None) for q in ix[0].args) or len(ix) == 1 and is_c(ix[0], Ellipsis):
                if st:
                    return None
                fill = w.args[1]
                continue
            return None
        if w.op == 'many' and is_c(w.args[1], True) and w.args[2].op == 'kv':
            st.append((flat(w.args[2].args[0]), w.args[2].args[1], w.args[0]))
            continue
        return None
    return flat(sh), dt, fill, st


def misplaced(ctx, v, c):
    """rows stored while the records are gone through in another order, or some of them left out"""
    if v.op != 'upd':
        return False
    for w in strip(list(v.args[1])):
        if w.op != 'many' or w.args[2].op != 'kv':
            continue
        I, g, kv = w.args
        ix = flat(kv.args[0])
        if not ix:
            continue
        if I is not R and (I.op == 'rev' and I.args[0] is R or I.op == 'item' and I.args[0] is R and I.args[1].op == 'slice'
                           and not is_c(I.args[1].args[0], None) and not is_c(I.args[1].args[0], 0)):
            if ix[0] in (idx(I), RI) and T('item', R, elem(I)) in subterms_(kv.args[1]):
                ctx.ok(False, 'own-row', c, 'the record %s is stored at row %s' % (short(elem(I), 100), short(idx(I), 100)))
                return True
        if I is R and not is_c(g, True) and ix[0] in (idx(R), RI):
            h = subst(g, {idx(R): C('any'), RI: C('any')})
            if R not in subterms_(h) and all(x.op not in ('in', 'par', 'elem', 'item') for x in subterms_(h)) and pure(h):
                ctx.ok(False, 'own-row', c, 'stored only for records of ' + short(g))
                return True
    return False


# ---------------------------------------------------------------- B04: records to arrays

DESCR = {'antennas_iq': ['num_records', 'num_antennas', 'max_num_sequences', 'num_samps'],
         'bfiq': ['num_records', 'num_antenna_arrays', 'max_num_sequences', 'max_num_beams', 'num_samps'],
         'rawacf': ['num_records', 'max_num_beams', 'num_ranges', 'num_lags']}
COUNTS = {'num_beams': {'beam_nums', 'beam_azms'}, 'num_blanked_samples': {'blanked_samples'}}
FILLS = {'int64': -1, 'uint32': 0, 'uint8': 0}


def site_to_array(ctx, key):
    name = '%s %s' % key
    r, t = result(key, '_site_to_array')
    if t is None or t.op == 'undef':
        ctx.undecided('records-to-arrays', name, 'restructuring records to arrays never gives a result')
        return
    t = prep(t, R, kinds_of(key))
    d = dict_items(t)
    if d is None:
        ctx.undecided('records-to-arrays', name, 'the result is not a dictionary of fields: ' + short(t))
        return
    spec = SPEC[name]
    want = set(spec['array_single']) | set(spec['array_arrays'])
    for f in sorted(want | set(d)):
        c = '%s field %s' % (name, f)
        if f not in want:
            ctx.ok(False, 'fields', c, 'the arrays get a field their format does not have')
        elif f not in d:
            ctx.ok(False, 'fields', c, 'the arrays lack this field of their format')
        else:
            one_array(ctx, key, f, d[f], c)
    view(ctx, key, 'site')


def view(ctx, key, structure):
    """a reader shows its file in the other structure by this restructuring of what it read"""
    name = '%s %s' % key
    r = E.b_view(key, structure)
    other = 'arrays' if structure == 'site' else 'records'
    c = '%s BorealisRead(%s).%s' % (name, structure, other)
    if r.dead or r.view is None:
        ctx.undecided('reader', c, 'never gives a result')
        return
    if r.view is r.mem:
        ctx.ok(True, 'reader', c, '')
        return
    a, b = dict_items(r.view), dict_items(r.mem)
    if a is None or b is None:
        judge(ctx, False, [r.view, r.mem], 'reader', c, 'is ' + short(r.view))
        return
    for f in sorted(set(a) | set(b)):
        if f not in a or f not in b:
            ctx.ok(False, 'reader', '%s field %s' % (c, f), 'the field is %s by the reader only' % ('left out' if f in b else 'made'))
        else:
            judge(ctx, a[f] is b[f], [a[f], b[f]], 'reader', '%s field %s' % (c, f), lambda: 'is ' + short(a[f]))


def one_array(ctx, key, f, v, c):
    dims, dfield = fields_of(key)
    if f in ('data_descriptors', 'correlation_descriptors'):
        x = v
        while x.op == 'call' and (x.args[1] or len(x.args) > 2 and x.args[2]):
            x = arg(x, 0, 'object') or x.args[1][0]
        if x.op in ('list', 'tup') and all(is_c(y) for y in x.args):
            got = [cv(y) for y in x.args]
            got = [g.decode() if isinstance(g, bytes) else g for g in got]
            ctx.ok(got == DESCR[key[1]], 'descriptors', c, 'the dimensions are described as %s, not %s' % (got, DESCR[key[1]]))
        else:
            ctx.undecided('descriptors', c, short(v))
        return
    if f in COUNTS and not (f in SPEC['%s %s' % key]['site_single']):
        count_array(ctx, f, v, c)
        return
    if f not in unshared(key):
        x = unwrap(v)
        g = own_field(x)
        if g:
            ctx.ok(g == f, 'shared', c, 'filled from field %s of the records' % g)
        elif pure(x):
            ctx.ok(False, 'shared', c, 'is not the value of the records: ' + short(v))
        else:
            ctx.undecided('shared', c, short(v))
        return
    # one entry per record: numpy.array([record[f] for record in ...]) for single values
    if not dims[f] and dims[f] is not None and v.op == 'call' and v.args[0] is T('ext', 'numpy.array'):
        src = arg(v, 0, 'object')
        if src is not None and src.op == 'list':
            src = strip(src.args)
            if len(src) == 1 and src[0].op == 'many' and src[0].args[0] is R and is_c(src[0].args[1], True):
                g = own_field(unwrap(src[0].args[2]), ANY)
                if g:
                    ctx.ok(g == f, 'per-record', c, 'filled from field %s of the records' % g)
                    return
        ctx.undecided('per-record', c, short(v))
        return
    if misplaced(ctx, v, c):
        return
    p = parse_store(v)
    if p is None:
        x = unwrap(v)
        if own_field(x) or v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in ('numpy.empty', 'numpy.zeros', 'numpy.full') \
                or v.op == 'upd' and not [w for w in strip(list(v.args[1])) if w.op == 'many']:
            ctx.ok(False, 'per-record', c, 'the records\' values are not put in place: ' + short(v))
        else:
            ctx.undecided('per-record', c, short(v))
        return
    shape, dt, fill, st = p
    # 1. one row per record, and room for the longest record
    if dims[f] is not None and all(x.op not in ('g', 'many') for x in shape):
        ks = [dimkey(x) for x in shape]
        if ks[0] is None or any(k is None for k in ks[1:]):
            ctx.undecided('room', c, 'shape ' + ', '.join(short(x, 80) for x in shape))
        else:
            good = ks[0] == ('records',) and len(ks) == 1 + len(dims[f]) and all(k in w for k, w in zip(ks[1:], dims[f]))
            ctx.ok(good, 'room', c, lambda: 'the array is made for shape (%s)' % ', '.join(' '.join(map(str, k)) for k in ks))
    else:
        if is_c(shape[0]) or dimkey(shape[0]) not in (None, ('records',)):
            ctx.ok(False, 'room', c, 'the first dimension is not the records: ' + short(shape[0]))
        else:
            ctx.undecided('room', c, 'shape ' + ', '.join(short(x, 80) for x in shape))
    # 2. each record's own value, in its own row, from the start of every other dimension
    if not st:
        ctx.ok(False, 'per-record', c, 'no record is stored')
    for ix, val, over in st[-1:]:
        x = unwrap(val)
        shaped = None
        if x.op == 'reshape':
            shaped, x = x.args[1], unwrap(x.args[0])
        g = own_field(x, ANY)
        if g is None:
            if pure(x) and R in subterms_(x):
                ctx.ok(False, 'per-record', c, 'what is stored for a record is ' + short(val))
            else:
                ctx.undecided('per-record', c, 'what is stored for a record is ' + short(val))
            continue
        if not ctx.ok(g == f, 'per-record', c, 'filled from field %s of the records' % g):
            continue
        if f in ('data', 'main_acfs', 'intf_acfs', 'xcfs') and key != ('v0.7', 'rawacf'):
            if shaped is None:
                ctx.ok(False, 'own-shape', c, 'the flat values of a record are stored without their dimensions')
            else:
                h = own_field(unwrap(shaped), ANY)
                if h or pure(shaped):
                    ctx.ok(h == dfield, 'own-shape', c, 'the values of a record are reshaped by ' + short(shaped))
                else:
                    ctx.undecided('own-shape', c, short(shaped))
        if over is not R:
            ctx.undecided('own-row', c, 'stored in a loop over ' + short(over))
            continue
        if not ix or ix[0] is not RI:
            if ix and pure(ix[0]):
                ctx.ok(False, 'own-row', c, 'stored at row ' + short(ix[0]))
            else:
                ctx.undecided('own-row', c, 'stored at ' + ', '.join(short(y, 80) for y in ix))
            continue
        rest = ix[1:]
        bad, ok = None, True
        for n, y in enumerate(rest):
            if y.op == 'many' and is_c(y.args[1], True) and y.args[2].op == 'slice':
                lo, hi, stp = y.args[2].args
                over_shape = y.args[0].op == 'attr' and y.args[0].args[1] == 'shape' and unwrap(y.args[0].args[0]) is unwrap(val)
                if (is_c(lo, None) or is_c(lo, 0)) and is_c(stp, None) and hi is elem(y.args[0]) and over_shape and n == len(rest) - 1:
                    continue
                (bad, ok) = (short(y), False) if pure(y) else (bad, None)
            elif y.op == 'slice':
                lo, hi, stp = y.args
                v2, k = shape_of(hi)
                if (is_c(lo, None) or is_c(lo, 0)) and is_c(stp, None) and v2 is not None and unwrap(v2) is unwrap(val) and k == n:
                    continue
                if dims[f] is not None and n < len(dims[f]) and is_c(lo, None) and is_c(hi, None) and is_c(stp, None) and not padded(dims[f][n]):
                    continue
                (bad, ok) = (short(y), False) if pure(y) else (bad, None)
            elif is_c(y):
                bad, ok = short(y), False
            else:
                ok = None
        if not rest and dims[f]:
            ok, bad = (None, None) if not any(padded(w) for w in dims[f]) else (False, 'the whole row')
        ctx.tri(ok, 'own-row', c, 'stored at %s of its row' % (bad or ', '.join(short(y, 80) for y in rest)))
    # 3. what is left over is marked as such
    if fill is not None and (fill is T('ext', 'numpy.nan') or is_c(fill) and cv(fill) != cv(fill)) and dt is not None and dt.op == 'ext' \
            and dt.args[0].startswith(('numpy.int', 'numpy.uint')):
        ctx.ok(False, 'padding', c, 'the %s array is filled with NaN, which it cannot hold' % dt.args[0])
    if dims[f] is None or any(padded(w) for w in dims[f]):
        dtn = dt.args[0].replace('numpy.', '') if dt is not None and dt.op == 'ext' else None
        if dtn is None or fill is None or not (is_c(fill) or fill is T('ext', 'numpy.nan')):
            ctx.undecided('padding', c, 'fill %s type %s' % (fill and short(fill), dt and short(dt)))
        elif dtn in FILLS:
            ctx.ok(is_c(fill) and cv(fill) == FILLS[dtn], 'padding', c, 'the room a record leaves in the %s array is filled with %s' % (dtn, short(fill)))
        else:
            ctx.ok(fill is T('ext', 'numpy.nan') or is_c(fill) and cv(fill) != cv(fill), 'padding', c, 'the room a record leaves in the %s array is filled with %s' % (dtn, short(fill)))
    # 4. the type the format gives the field
    want = SPEC['%s %s' % key]['array_arrays'][f]
    if dt is not None and dt.op == 'ext' and dt.args[0].startswith('numpy.'):
        ctx.ok(dt.args[0] == 'numpy.' + want, 'type', c, 'made as %s, the format has %s' % (dt.args[0], want))
    elif dt is not None and is_c(dt):
        ctx.ok(want.startswith('str') and str(cv(dt)).strip('|<').startswith('U'), 'type', c, 'made as %s, the format has %s' % (cv(dt), want))
    else:
        ctx.undecided('type', c, 'type ' + (short(dt) if dt is not None else 'not given'))


def padded(w):
    return bool(w & (SEQ | BEAM | BLANK))


def subterms_(t):
    return list(subterms(t))


def unwrap(x):
    """without conversions that keep values: array(x), asarray(x)"""
    while x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('numpy.array', 'numpy.asarray') and len(x.args[1]) + len(x.args[2] if len(x.args) > 2 else ()) == 1:
        y = arg(x, 0, 'object') or arg(x, 0, 'a')
        if y is None:
            break
        x = y
    return x


def count_array(ctx, f, v, c):
    x = v
    if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('numpy.array', 'numpy.asarray', 'numpy.fromiter'):
        dt = arg(x, 1, 'dtype')
        if dt is not None and dt.op == 'ext':
            ctx.ok(dt.args[0] == 'numpy.uint32', 'type', c, 'made as %s, the format has uint32' % dt.args[0])
        src = arg(x, 0, 'object') or arg(x, 0, 'a') or arg(x, 0, 'iter')
        segs = strip(src.args) if src is not None and src.op in ('list', 'tup') else None
        if segs and len(segs) == 1 and segs[0].op == 'many' and segs[0].args[0] is R and is_c(segs[0].args[1], True):
            w, k = shape_of(segs[0].args[2])
            if w is None and segs[0].args[2].op == 'attr' and segs[0].args[2].args[1] == 'size':
                w, k = segs[0].args[2].args[0], 0
            g = own_field(unwrap(w), ANY) if w is not None else None
            if g:
                ctx.ok(g in COUNTS[f] and k == 0, 'count', c, 'counts field %s of each record' % g)
                return
            if pure(segs[0].args[2]):
                ctx.ok(False, 'count', c, 'counts ' + short(segs[0].args[2]))
                return
    ctx.undecided('count', c, short(v))


def b04(ctx):
    keys = [k for k in E.KEYS if E.restructurable(k)]
    ctx.fan(site_to_array, keys)
    ctx.ob_done = len(ctx.obs)


# ---------------------------------------------------------------- B05: arrays to records

SITE_DESCR = {'antennas_iq': ['num_antennas', 'num_sequences', 'num_samps'],
              'bfiq': ['num_antenna_arrays', 'num_sequences', 'num_beams', 'num_samps'],
              'rawacf': ['num_beams', 'num_ranges', 'num_lags']}


def a_field(x, at=None):
    """the field of item(A, field), or of item(item(A, field), at)"""
    if at is not None:
        if x.op != 'item' or x.args[1] is not at:
            return None
        x = x.args[0]
    if x.op == 'item' and x.args[0] is A and is_c(x.args[1]):
        return cv(x.args[1])
    return None


def a_dimkey(x):
    """how many of a record's values a dimension has"""
    while x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('builtins.int', 'numpy.int64', 'numpy.uint32') and len(x.args[1]) == 1:
        x = x.args[1][0]
    f = a_field(x, RI)
    if f:
        return ('own', f)
    v, k = shape_of(x)
    if v is not None and a_field(v):
        return ('shape', a_field(v), k)
    if v is not None and a_field(v, RI):
        return ('shape', a_field(v, RI), k + 1)
    if x.op == 'c':
        return ('const', cv(x))
    f = a_field(x)
    if f:
        return ('whole', f)
    if x.op == 'item' and x.args[0].op == 'item' and a_field(x.args[0]):
        return ('other', a_field(x.args[0]))
    return None


def array_kinds(key):
    k = kinds_of(key, 'array')
    return k


def not_lists(x):
    """an element of an array is never a list"""
    if x.op == 'isinstance' and x.args[1].op == 'ext' and x.args[1].args[0] == 'builtins.list' and x.args[0].op == 'item' and a_field(x.args[0].args[0]):
        return FALSE
    return x


def site_dims(key):
    rows = {'sqn_timestamps': ['num_sequences'], 'noise_at_freq': ['num_sequences'], 'beam_nums': ['num_beams'], 'beam_azms': ['num_beams'],
            'blanked_samples': ['num_blanked_samples'], 'tx_antenna_phases': [('tx_antenna_phases', 1)], 'pulse_phase_offset': None,
            'main_acfs': ['num_beams', ('main_acfs', 2), ('main_acfs', 3)]}
    rows['intf_acfs'] = rows['xcfs'] = rows['main_acfs']
    rows['data'] = [('data', 1), 'num_sequences', ('data', 3)] if key[1] == 'antennas_iq' else [('data', 1), 'num_sequences', 'num_beams', ('data', 4)]
    return rows


def dim_ok(k, want):
    if isinstance(want, tuple):
        return k[0] == 'shape' and k[2] == want[1] and (k[1] == want[0] or {k[1], want[0]} <= {'main_acfs', 'intf_acfs', 'xcfs'})
    return k == ('own', want)


def array_to_site(ctx, key):
    name = '%s %s' % key
    r, t = result(key, '_array_to_site')
    if t is None or t.op == 'undef':
        ctx.undecided('arrays-to-records', name, 'restructuring arrays to records never gives a result')
        return
    t = rewrite(prep(t, A, array_kinds(key)), not_lists)
    segs = strip(t.args) if t.op == 'dict' else None
    if not segs or len(segs) != 1 or segs[0].op != 'many' or segs[0].args[2].op != 'kv':
        ctx.undecided('arrays-to-records', name, 'not one record for each row: ' + short(t))
        return
    over, cond, kv = segs[0].args
    g = a_field(over)
    if g:
        ctx.ok(g in unshared(key), 'records', name, 'makes one record for each entry of field ' + g)
    elif over.op == 'range' and len(over.args) == 2 and is_c(over.args[0], 0):
        k = a_dimkey(over.args[1])
        if k is None:
            ctx.undecided('records', name, 'records for ' + short(over))
        else:
            ctx.ok(k[0] == 'shape' and k[1] in unshared(key) and k[2] == 0, 'records', name, 'makes one record for each of ' + ' '.join(map(str, k)))
    else:
        ctx.undecided('records', name, 'records for ' + short(over))
    if not is_c(cond, True):
        ctx.tri(False if pure(cond) and A in subterms_(cond) else None, 'records', name, 'makes a record only if ' + short(cond))
    record_key(ctx, name, kv.args[0])
    d = dict_items(kv.args[1])
    if d is None:
        ctx.undecided('fields', name, short(kv.args[1]))
        return
    spec = SPEC[name]
    want = set(spec['site_single']) | set(spec['site_arrays'])
    for f in sorted(want | set(d)):
        c = '%s field %s' % (name, f)
        if f not in want:
            ctx.ok(False, 'fields', c, 'the records get a field their format does not have')
        elif f not in d:
            ctx.ok(False, 'fields', c, 'the records lack this field of their format')
        else:
            one_field(ctx, key, f, d[f], c, over)
    view(ctx, key, 'array')


def record_key(ctx, name, k):
    """milliseconds since the epoch of the record's first sequence"""
    first = T('item', T('item', T('item', A, C('sqn_timestamps')), RI), C(0))

    def f(x):
        if x.op == 'elem' and a_field(x.args[0]):
            return T('item', x.args[0], RI)
        if x.op == 'item' and x.args[1] is T('tup', RI, C(0)):
            return T('item', T('item', x.args[0], RI), C(0))
        if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('datetime.datetime.utcfromtimestamp', 'datetime.datetime.fromtimestamp') \
                and len(x.args[1]) + len(x.args[2]) == 1:
            return T('utc', arg(x, 0, 'timestamp'))
        return x
    k = rewrite(k, f)
    ts = [s for s in subterms(k) if s.op == 'item' and s.args[0].op == 'item' and a_field(s.args[0].args[0])]
    utc = [s.args[0] for s in subterms(k) if s.op == 'utc']
    if not utc or not all(pure(u) for u in utc) or not any(u is C(0) for u in utc):
        ctx.undecided('record-name', name, short(k))
        return
    ctx.ok(first in utc, 'record-name', name, 'a record is named by ' + ', '.join(short(u) for u in utc if u is not C(0)))
    ms = [s for s in subterms(k) if s.op == 'mcall' and s.args[1] == 'total_seconds']
    if len(ms) == 1:
        m = T('param', 'secs')
        q = subst(k, {ms[0]: m})
        want = subst(T('call', T('ext', 'builtins.str'), (), ()), {})
        inner = q
        while inner.op in ('call', 'str', 'int', 'fmt') and inner is not m:
            xs = [y for y in inner.args if isinstance(y, T) and y.op != 'ext'] + [y for z in inner.args if isinstance(z, tuple) for y in z if isinstance(y, T)]
            if len(xs) != 1:
                break
            inner = xs[0]
        rounded = [y.args[0].args[0] for y in subterms(q) if y.op == 'call' and y.args[0].op == 'ext' and y.args[0].args[0] in ROUNDING and m in subterms(y)]
        if rounded:
            ctx.ok(False, 'record-name', name + ' unit', 'a record is named by the nearest or the next millisecond (%s), not the one its first sequence began in' % rounded[0])
        elif inner is m:
            ctx.ok(False, 'record-name', name + ' unit', 'a record is named by seconds: ' + short(k))
        elif set(s.op for s in subterms(inner)) <= {'lin', 'mul', 'c', 'param', 'add', 'tup'}:
            ctx.ok(linear(inner, m, 1000), 'record-name', name + ' unit', 'a record is named by ' + short(k))
        else:
            ctx.undecided('record-name', name + ' unit', short(k))


ROUNDING = {'builtins.round', 'numpy.round', 'numpy.around', 'numpy.rint', 'math.ceil', 'numpy.ceil'}


def linear(t, m, k):
    """t is k times m, as far as its constants tell"""
    vals = [subst(t, {m: C(x)}) for x in (0.0, 3.0)]
    if all(v.op == 'c' for v in vals):
        return [cv(v) for v in vals] == [0, 3.0 * k]
    return k in consts(t)


def consts(t):
    out = set()
    for s in subterms(t):
        if s.op == 'c':
            out.add(cv(s))
        for a in s.args:
            if isinstance(a, (int, float)):
                out.add(a)
            elif isinstance(a, tuple):
                for y in a:
                    for z in (y if isinstance(y, tuple) else (y,)):
                        if isinstance(z, (int, float)):
                            out.add(z)
    return out


def convert_of(x):
    """(type, value) of a conversion numpy.T(value) / T(value) / value.astype(T)"""
    if x.op == 'call' and x.args[0].op == 'ext' and len(x.args[1]) + len(x.args[2] if len(x.args) > 2 else ()) == 1:
        y = x.args[1][0] if x.args[1] else x.args[2][0].args[1]
        return x.args[0].args[0].replace('numpy.', '').replace('builtins.', ''), y
    if x.op in ('str', 'int') and len(x.args) == 1:
        return x.op, x.args[0]
    return None, x


def one_field(ctx, key, f, v, c, over):
    spec = SPEC['%s %s' % key]
    rows = site_dims(key)
    if f in ('data_descriptors', 'correlation_descriptors'):
        x = v
        while x.op == 'call' and (x.args[1] or len(x.args) > 2 and x.args[2]):
            x = arg(x, 0, 'object') or x.args[1][0]
        if x.op in ('list', 'tup') and all(is_c(y) for y in x.args):
            got = [cv(y) for y in x.args]
            got = [g.decode() if isinstance(g, bytes) else g for g in got]
            ctx.ok(got == SITE_DESCR[key[1]], 'descriptors', c, 'the dimensions are described as %s, not %s' % (got, SITE_DESCR[key[1]]))
        else:
            ctx.undecided('descriptors', c, short(v))
        return
    if f in ('data_dimensions', 'correlation_dimensions'):
        want = rows['main_acfs' if key[1] == 'rawacf' else 'data']
        src = arg(v, 0, 'object') if v.op == 'call' and v.args[0] is T('ext', 'numpy.array') else None
        if src is None or src.op not in ('list', 'tup') or any(s.op in ('g', 'many') for s in strip(src.args)):
            ctx.undecided('dimensions', c, short(v))
            return
        ks = [a_dimkey(x) for x in strip(src.args)]
        if any(k is None for k in ks):
            ctx.undecided('dimensions', c, short(v))
        else:
            ctx.ok(len(ks) == len(want) and all(map(dim_ok, ks, want)), 'dimensions', c, lambda: 'the record says its dimensions are (%s)' % ', '.join(' '.join(map(str, k)) for k in ks))
        dt = arg(v, 1, 'dtype')
        if dt is not None and dt.op == 'ext':
            ctx.ok(dt.args[0] == 'numpy.uint32', 'type', c, 'made as %s, the format has uint32' % dt.args[0])
        return
    own = unshared(key)
    if f not in own:
        g = a_field(unwrap(v))
        if g:
            ctx.ok(g == f, 'shared', c, 'filled from field %s of the arrays' % g)
        elif pure(v) and A in subterms_(v):
            ctx.ok(False, 'shared', c, 'is not the value of the arrays: ' + short(v))
        else:
            ctx.undecided('shared', c, short(v))
        return

    def el(x):
        return T('item', x.args[0], RI) if x.op == 'elem' and a_field(x.args[0]) and a_field(x.args[0]) in own else x
    v = rewrite(v, el)
    if f in SINGLES:
        ty, x = convert_of(v)
        g = a_field(x, RI)
        if g:
            ctx.ok(g == f, 'per-record', c, 'filled from field %s of the arrays' % g)
        elif pure(x) and A in subterms_(x):
            ctx.ok(False, 'per-record', c, 'is not the value of the record\'s row: ' + short(v))
        else:
            ctx.undecided('per-record', c, short(v))
        want = spec['site_single'][f]
        if ty is not None and (ty in ('str', 'int', 'bool', 'float', 'bool_') or ty.rstrip('0123456789') in ('int', 'uint', 'float', 'complex')):
            ctx.ok(ty == want or {ty, want} == {'str', 'str_'}, 'type', c, 'made as %s, the format has %s' % (ty, want))
        elif x is v and g:
            have = spec['array_arrays'].get(f)
            ctx.tri((have == want and want != 'str') if have else None, 'type', c, 'stays of the type %s of the arrays, the format has %s' % (have, want))
        else:
            ctx.undecided('type', c, short(v))
        return
    flatn = False
    x = v
    while x.op == 'mcall' and x.args[1] in ('flatten', 'ravel', 'copy'):
        flatn = flatn or x.args[1] != 'copy'
        x = x.args[0]
    g, ix = None, None
    if x.op == 'item':
        g = a_field(x.args[0])
        ix = flat(x.args[1])
        if g is None and x.args[0].op == 'item' and a_field(x.args[0], RI):
            g = a_field(x.args[0], RI)
            ix = [RI] + ix
        elif g is None:
            ix = None
    if a_field(x):
        ctx.ok(False, 'own-row', c, 'a record gets the values of all records: ' + short(v))
        return
    if g is None:
        if pure(x) and A in subterms_(x):
            ctx.ok(False, 'per-record', c, short(v))
        else:
            ctx.undecided('per-record', c, short(v))
        return
    if not ctx.ok(g == f, 'per-record', c, 'filled from field %s of the arrays' % g):
        return
    if not ix or ix[0] is not RI:
        ctx.tri(False if ix and pure(ix[0]) else None, 'own-row', c, 'taken from ' + short(x))
        return
    ctx.ok(True, 'own-row', c, '')
    if rows[f] is None:
        ctx.undecided('own-values', c, short(x))
    else:
        ix = ix[1:]
        while len(ix) < len(rows[f]):
            ix = ix + [T('slice', C(None), C(None), C(None))]
        ok, why = True, None
        if len(ix) != len(rows[f]):
            ok = None
        for n, (y, w) in enumerate(zip(ix, rows[f])):
            if y.op != 'slice':
                ok = False if ok is not None and pure(y) and y.op not in ('many', 'g') else None
                continue
            lo, hi, st = y.args
            if not ((is_c(lo, None) or is_c(lo, 0)) and is_c(st, None)):
                ok, why = (False if ok is not None and pure(y) else None), y
                continue
            if is_c(hi, None):
                if not isinstance(w, tuple):
                    ok, why = (False if ok is not None else None), y
                continue
            k = a_dimkey(hi)
            if k is None:
                ok, why = None, y
            elif not (dim_ok(k, w) or isinstance(w, tuple) and k == ('shape', f, n + 1)):
                ok, why = (False if ok is not None else None), y
        ctx.tri(ok, 'own-values', c, 'cut at %s' % short(why or x))
    if f in ('data', 'main_acfs', 'intf_acfs', 'xcfs'):
        want = key != ('v0.7', 'rawacf')
        if want and not flatn:
            ctx.tri(False if x is v else None, 'flat', c, 'the values of a record are not flat, as its format has them')
        else:
            ctx.ok(want or not flatn, 'flat', c, 'the values of a record are flat, its format has them in their dimensions')


def b05(ctx):
    ctx.fan(array_to_site, [k for k in E.KEYS if E.restructurable(k)])
