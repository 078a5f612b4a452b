"""C01-C04: conversion of Borealis bfiq and rawacf files to SDARN iqdat and rawacf files."""
import json
import os

from rules.base import T, C, cv, is_c, subterms, TRUE, FALSE, an, Run, P, short, unsure, dict_items
from rules import entries as E
from rules.bor_checks import SPEC, HERE
from rules.numcanon import Canon, strange
from terms import subst, elem, idx, isin, lnot, rewrite

SDARN = json.load(open(os.path.join(HERE, 'spec', 'sdarn_formats.json')))
TARGET = {'bfiq': 'iqdat', 'rawacf': 'rawacf'}
CKEYS = [(v, f) for v in E.VERSIONS for f in ('bfiq', 'rawacf')]
DATA = {'iqdat': ['toff', 'tsze', 'data'], 'rawacf': ['pwr0', 'slist', 'acfd', 'xcfd']}
TYPECHAR = {'numpy.int8': 'c', 'numpy.int16': 'h', 'numpy.int32': 'i', 'numpy.float32': 'f', 'numpy.float64': 'd', 'numpy.int64': 'q', 'numpy.uint8': 'B',
            'numpy.uint16': 'H', 'numpy.uint32': 'I', 'numpy.uint64': 'Q'}
R, REC = P('R'), P('?rec')


def run(key, structure='site'):
    def f(a, r):
        r.o = r.call(E.BP + 'borealis_convert.BorealisConvert', P('fn'), C(key[1]), P('out'), P('sid'), C(structure), P('sf'))
    return E.runit(key, 'BorealisConvert %s sf' % structure, f)


class Known:
    """what is known about records of a version and file type"""

    def __init__(self, key):
        s = SPEC['%s %s' % key]
        self.fields = set(s['site_single']) | set(s['site_arrays'])
        self.arrays = set(s['site_arrays'])
        self.canon = Canon(self.fact, self.arrays)

    def isrec(self, x):
        return x.op == 'item' and x.args[0] is R or x is REC

    def fact(self, x):
        if x.op == 'in' and is_c(x.args[0]) and self.isrec(x.args[1] if x.args[1].op != 'keys' else x.args[1].args[0]):
            return C(cv(x.args[0]) in self.fields)
        if x.op == 'is' and x.args[1] is C(None) and x.args[0].op == 'item' and self.isrec(x.args[0].args[0]):
            return FALSE
        return x


class Conv:
    def __init__(self, key, structure='site'):
        self.key = key
        self.a = an(key)
        self.a.extra['vspec'] = os.path.join(HERE, 'spec')
        self.a.load('vspec.convert')
        self.r = r = run(key, structure)
        self.dead = r.dead
        self.known = Known(key)
        self.canon = self.known.canon
        self.target = TARGET.get(key[1])
        if r.dead:
            return
        recs = r.fz(self.get(r.o, 'records'))
        self.cut = lambda t: subst(r.fz(t), {recs: R})
        self.dicts = self.cut(self.get(r.o, 'sdarn_dict'))
        self.dmap = self.cut(self.get(r.o, 'sdarn_dmap_records'))
        self.sid = self.cut(self.get(r.o, 'borealis_slice_id'))

    def get(self, o, name):
        """an attribute, after the run"""
        r, n = self.r, self.r.ev1
        with r:
            v = r.get(o, name)
        r.ev1 = n
        return v

    def nest(self, t):
        """(outer collection, guard, inner collection, guard, record) of list(many(R, many(beams, record)))"""
        if t.op == 'list' and len(t.args) == 1 and t.args[0].op == 'many':
            o = t.args[0]
            if o.args[2].op == 'many' and o.args[2].args[2].op == 'dict':
                i = o.args[2]
                return o.args[0], o.args[1], i.args[0], i.args[1], i.args[2]
        return None

    def spec(self, name, beam_it):
        """expected fields"""
        rec = T('item', R, name)
        i, beam = idx(beam_it), elem(beam_it)
        v, ft = self.key
        a = self.a
        out, data = {}, {}
        with Run(a) as r:
            def call(f, *x):
                t = r.fz(r.call('vspec.convert.' + f, *x))
                return dict_items(t)
            out.update(call('common', rec, name, i, beam, self.sid, P('fn'), P('sf')))
            f = self.known.fields
            out.update(call('status' if 'agc_status_word' in f else 'no_status', rec))
            if ft == 'bfiq':
                out.update(call('power_unknown', rec))
                out.update(call('iqdat', rec))
                data.update(call('iqdat_data', rec, i, P('sf')))
            else:
                dims = T('item', rec, C('correlation_dimensions' if 'correlation_dimensions' in f else 'data_dimensions'))
                out.update(call('power_known' if 'tx_antenna_phases' in f else 'power_unknown', rec))
                out.update(call('rawacf', rec, dims))
                data.update(call('rawacf_data', rec, i, P('sf'), dims))
        return out, data


def where(key):
    return 'BorealisConvert (%s %s)' % key


def fieldcheck(ctx, cv_, rule, names, got, want):
    for f in names:
        if f not in got or f not in want:
            continue            # C01 says which fields are there
        g, w = cv_.canon(got[f]), cv_.canon(want[f])
        cons = '%s %s:%s' % (cv_.key + (f,))
        if g is w:
            ctx.ok(True, rule, cons, '')
        elif strange(g, w) is not None:
            s = strange(g, w)
            ctx.undecided(rule, cons, 'not comparable: %s' % short(s, 160), where(cv_.key))
        else:
            ctx.ok(False, rule, cons, lambda: 'the converted field %s is %s, expected %s' % (f, short(g, 400), short(w, 400)), where(cv_.key))


def skeleton(t):
    """the records themselves replaced by a name"""
    return rewrite(t, lambda x: P('record') if x.op == 'dict' and len(x.args) > 20 else x)


def setup(ctx, key):
    c = Conv(key)
    ctx.anchor(not c.dead, '%s: no conversion' % where(key))
    n = c.nest(c.dicts)
    if n is None:
        ctx.undecided('form', where(key), 'converted records are %s' % short(skeleton(c.dicts), 300))     # see C03
        return c, None, None, None
    got = dict_items(n[4])
    if got is None:
        ctx.undecided('form', where(key), 'a converted record is %s' % short(n[4], 300))
        return c, n, None, None
    return c, n, got, c.spec(elem(n[0]), n[2])


# ---------------------------------------------------------------- C01: complete and correctly typed, and the writer gets exactly these records

def typechar(c, t):
    """DMAP type of a converted value, None if it cannot be told"""
    if t.op in ('cat', 'str') or t.op == 'c' and isinstance(cv(t), str) or t.op == 'mcall' and t.args[1] == 'strftime':
        return 's'
    n = c.canon(t)
    while n.op == 'reshape' or n.op == 'item' and n.args[1].op in ('tup', 'slice'):
        n = n.args[0]
    if n.op in ('conv', 'interleave'):
        return TYPECHAR.get(n.args[0])
    if n.op == 'c' and isinstance(cv(n), str):
        return 's'
    return None


def c01k(ctx, key):
    c, n, got, want = setup(ctx, key)
    W = where(key)
    if got is None:
        return
    groups = SDARN[c.target]['groups']
    types = {f: t for g in groups.values() for f, t in g.items()}
    free = set(SDARN[c.target].get('free') or [])
    for f in sorted(got):
        cons = '%s %s:%s' % (key + (f,))
        ctx.ok(f in types or f in free, 'field-of-format', cons, 'the converted record has the field %s, which %s records do not have' % (f, c.target), W)
        if f in types:
            t = typechar(c, got[f])
            ctx.tri(None if t is None else t == types[f], 'field-type', cons,
                    lambda: 'the converted field %s is of DMAP type %s, %s records have %s' % (f, t, c.target, types[f]), W)
    for g, fs in groups.items():
        have = [f for f in fs if f in got]
        if have or g in ('types', 'correlation_field', 'cross_correlation_field'):
            for f in fs:
                ctx.ok(f in got, 'field-present', '%s %s:%s' % (key + (f,)), 'the converted record lacks the field %s' % f, W)
    # the DMAP records are the converted records
    with Run(c.a) as r:
        ref = r.fz(r.call('pydarnio.utils.conversions.dict2dmap', c.dicts))
    if c.dmap is ref:
        ctx.ok(True, 'dmap-records', W, '')
    else:
        m = c.nest(c.dmap)
        d = m and dict_items(m[4])
        if c.dmap.op == 'list' and len(c.dmap.args) == 1 and c.dmap.args[0].op == 'many' and c.dmap.args[0].args[0].op in ('last', 'lastif'):
            ctx.ok(False, 'dmap-records', W, 'DMAP records are made of the last %s only' % short(c.dmap.args[0].args[0].args[0], 80), W)
        elif d is None:
            ctx.undecided('dmap-records', W, 'DMAP records are %s' % short(c.dmap, 200), W)
        else:
            ctx.judge(m[:4] == n[:4], list(m[:4]), 'dmap-records', W, lambda: 'DMAP records are made for %s' % ' / '.join(short(x, 80) for x in m[:4]), W)
            for f in got:
                v = d.get(f)
                nts = [x for x in subterms(v) if x.op == 'nt'] if v is not None else []
                good = bool(nts) and all(x.args[2][0] is C(f) for x in nts)
                ctx.ok(good, 'dmap-name', '%s %s:%s' % (key + (f,)), lambda: 'no DMAP field %s is made of the converted field' % f, W)
    # writing
    made = [e for e in c.r.events if e.kind == 'new' and e.d['cls'].endswith('.SDarnWrite')]
    wr = [e for e in c.r.events if e.kind == 'inline' and '.SDarnWrite.write_' in e.d['fn']]
    ctx.ok(bool(wr), 'written', W, 'the converted records are not written', W)
    for e in wr:
        ctx.ok(e.d['fn'].endswith('.write_' + c.target), 'written-as', W, lambda: 'the converted records are written with %s' % e.d['fn'].rsplit('.', 1)[1], e.where)
        recs = c.cut(c.get(e.d['args'][0], 'dmap_records'))
        ctx.judge(c.dmap in leaves(recs), [recs], 'written-records', W, lambda: 'the records written are %s, not the converted ones' % short(recs, 200), e.where)
        a = list(e.d['args'][1:]) + list(e.d['kws'].values() if isinstance(e.d['kws'], dict) else [])
        out = c.r.fz(a[0]) if a else c.cut(c.get(e.d['args'][0], 'filename'))
        ctx.judge(out is P('out'), [out], 'written-file', W, lambda: 'the records are written to %s' % short(out, 100), e.where)


def leaves(t):
    return leaves(t.args[1]) | leaves(t.args[2]) if t.op == 'ite' else {t}


def c01(ctx):
    ctx.fan(c01k, CKEYS)


# ---------------------------------------------------------------- C02, C04: what each field holds

def c02k(ctx, key):
    c, n, got, want = setup(ctx, key)
    if got is not None:
        fieldcheck(ctx, c, 'field-source', sorted(want[0]), got, want[0])


def c02(ctx):
    ctx.fan(c02k, CKEYS)


def c04k(ctx, key):
    c, n, got, want = setup(ctx, key)
    if got is not None:
        fieldcheck(ctx, c, 'sample-data', sorted(want[1]), got, want[1])
        # scaling is 1 unless asked for
        a = c.a
        cls = a.classes[E.BP + 'borealis_convert.BorealisConvert']
        r = E.b_convert(key)
        if not r.dead:
            c.r = r
            sf = r.fz(c.get(r.o, 'scaling_factor'))
            ctx.judge(sf is C(1), [sf], 'default-scaling', where(key), lambda: 'without a scaling factor the samples are scaled by %s' % short(sf), where(key))


def c04(ctx):
    ctx.fan(c04k, CKEYS)


# ---------------------------------------------------------------- C03: one record per beam per record, nothing that cannot be represented

def sym(t):
    """NumPy comparisons with their operands in one order; text never equals a number"""
    from terms import rewrite
    def f(x):
        if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] == 'numpy.array_equal':
            kw = {k.args[0]: k.args[1] for k in x.args[2] if k.op == 'kw'}
            ops = list(x.args[1]) + [kw[k] for k in ('a1', 'a2') if k in kw]
            if len(ops) == 2 and len(x.args[1]) + len(x.args[2]) == 2:
                a, b = sorted(ops, key=lambda y: y.id)
                for p, q in ((a, b), (b, a)):
                    if p.op == 'ite':
                        return T('ite', p.args[0], f(T('call', x.args[0], (p.args[1], q), ())), f(T('call', x.args[0], (p.args[2], q), ())))
                return T('call', x.args[0], (a, b), ())
        if x.op == 'eq' and any(istext(y) for y in x.args) and any(y.op == 'c' and isinstance(cv(y), int) for y in x.args):
            return FALSE
        q = x.args[0].args[0][6:] if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('numpy.all', 'numpy.any') and len(x.args[1]) + len(x.args[2]) == 1 else \
            x.args[1] if x.op == 'mcall' and x.args[1] in ('all', 'any') and not x.args[2] and not x.args[3] else None
        if q:
            y = x.args[0] if x.op == 'mcall' else (x.args[1] + tuple(k.args[1] for k in x.args[2]))[0]
            return T('alltrue', y) if q == 'all' else lnot(T('alltrue', lnot(y)))
        if x.op == 'truth':
            return truth(x.args[0])
        return x
    return rewrite(t, f)


def istext(y):
    while y.op == 'item' and not y.args[0].op == 'param':
        y = y.args[0]
    return y.op == 'mcall' and y.args[1] == 'split'


def truth(x):
    from terms import is_bool
    if x.op == 'ite':
        from terms import ite
        return ite(x.args[0], truth(x.args[1]), truth(x.args[2]))
    if is_bool(x) or x.op in ('truth', 'alltrue', 'not'):
        return x
    return T('truth', x)


def literal(c, t):
    return sym(c.canon(sym(t)))


def reordered(t, x):
    """t is x in another order, or with some left out"""
    while t is not x:
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.unique', 'numpy.sort', 'numpy.flip', 'numpy.roll', 'builtins.set', 'builtins.sorted'):
            ys = [y for y in t.args[1]] + [y.args[1] for y in t.args[2]]
            t = ys[0] if ys else x
            if not ys:
                return False
        elif t.op in ('listof', 'tupof') and t.args and isinstance(t.args[0], T):
            t = t.args[0]
        else:
            return False
    return True



def c03k(ctx, key):
    from rules.prop import entail, equiv, atoms
    from terms import lnot, land, lor
    W = where(key)
    if key[1] not in TARGET or not E.has_arrays(key) and key[1] == 'rawrf' and False:
        r = run(key)
        ctx.ok(r.dead, 'refused-type', W, 'a file type with no SDARN form is converted', W)
        rs = [e for e in r.events if e.kind == 'raise' and 'borealis_convert' in e.where]
        names = {str(e.d['cls']).rsplit('.', 1)[-1] for e in rs if e.d.get('cls') is not None}
        ctx.ok(not r.dead or any('BorealisConversionTypesError' in x for x in names), 'refused-type-error', W, lambda: 'refused with %s' % sorted(names), W)
        return
    for structure in ('site', 'array', None):
        c = Conv(key, structure)
        lab = '%s %s' % (W, structure)
        if c.dead:
            ctx.ok(False, 'convertible', lab, 'no file of this type can be converted', W)
            continue
        n = c.nest(c.dicts)
        if n is None:
            ctx.judge(False, [skeleton(c.dicts)], 'order', lab, lambda: 'converted records are not one per record and beam but %s' % short(skeleton(c.dicts), 300), W)
            continue
        beams = T('item', T('item', R, elem(R)), C('beam_nums'))
        if structure == 'array':        # records made from arrays
            recs = c.r.fz(c.get(c.r.o, 'records'))
            m = recs.args[0] if recs.op == 'dict' and len(recs.args) == 1 else None
            v = m.args[2].args[1] if m is not None and m.op == 'many' and m.args[2].op == 'kv' else None
            if v is None or dict_items(v) is None or 'beam_nums' not in dict_items(v):
                ctx.undecided('every-record', lab, 'records are %s' % short(recs, 300), W)
                continue
            ctx.judge(n[0] is m.args[0], [n[0]], 'every-record', lab, lambda: 'records are converted in the order %s' % short(n[0], 200), W)
            ctx.judge(n[1] is TRUE, [n[1]], 'no-record-skipped', lab, lambda: 'only records with %s are converted' % short(n[1], 200), W)
            b = dict_items(v)['beam_nums']
            ctx.judge(n[2] is b, [b if reordered(n[2], b) else n[2]], 'every-beam', lab, lambda: 'the beams converted are %s' % short(n[2], 200), W)
            ctx.judge(n[3] is TRUE, [n[3]], 'no-beam-skipped', lab, lambda: 'only beams with %s are converted' % short(n[3], 200), W)
            continue
        ctx.judge(n[0] is R, [n[0]], 'every-record', lab, lambda: 'records are converted in the order %s' % short(n[0], 200), W)
        ctx.judge(n[1] is TRUE, [n[1]], 'no-record-skipped', lab, lambda: 'only records with %s are converted' % short(n[1], 200), W)
        it = c.canon(subst(n[2], {elem(n[0]): elem(R)}))
        alt = T('range', C(0), c.canon(T('len', beams)))
        ctx.judge(it is beams or it is alt, [beams if reordered(it, beams) else it], 'every-beam', lab, lambda: 'the beams converted are %s' % short(n[2], 200), W)
        ctx.judge(n[3] is TRUE, [n[3]], 'no-beam-skipped', lab, lambda: 'only beams with %s are converted' % short(n[3], 200), W)
        if structure is None:
            continue
        # what must hold before anything is written
        made = [e for e in c.r.events if e.kind == 'inline' and '.SDarnWrite.write_' in e.d['fn']]
        rec = T('item', R, elem(R))
        with Run(c.a) as r:
            need = {'simple blanking': r.fz(r.call('vspec.convert.simple_blanking', rec))}
            if key[1] == 'bfiq':
                need['no phase offset'] = r.fz(r.call('vspec.convert.no_phase_offset', rec))
        need = {k: literal(c, truth(v)) for k, v in need.items()}
        if structure == 'site':
            for e in made:
                facts = []
                for p in e.pc:
                    for q in (p.args if p.op == 'and' else [p]):
                        if q.op == 'not' and q.args[0].op == 'any':
                            q = c.cut(q)
                            facts.append(literal(c, lnot(subst(q.args[0].args[1], {elem(q.args[0].args[0]): elem(R)})) if q.args[0].args[0] is R else TRUE))
                for k, g in need.items():
                    related = [f for f in facts if set(atoms(f)) & set(atoms(g))]
                    ok = entail(related, g)
                    odd = next((x for x in (strange_fact(f) for f in facts if any(s.op == 'attr' or True for s in [f])) if x is not None), None)
                    ctx.tri(ok if ok else None if odd is not None else False, 'unrepresentable-refused', '%s:%s' % (lab, k),
                            lambda: 'records without %s are converted (established: %s)' % (k, ' & '.join(short(f, 300) for f in related) or 'nothing about it'), W)
        for e in c.r.events:
            if e.kind != 'raise' or 'BorealisConvert2' not in str(e.d.get('cls')) or e.d.get('cause') is not None and not is_none(e.d['cause']):
                continue
            pcs = [literal(c, c.cut(p)) for p in e.pc]
            pcs = [p for p in pcs if set().union(*[set(atoms(p))]) & set().union(*[set(atoms(g)) for g in need.values()])]
            goal = lnot(land(*need.values()))
            v = entail(pcs, goal)
            odd = next((x for x in (strange_fact(f) for f in [c.canon(sym(c.cut(p))) for p in e.pc[-3:]]) if x is not None), None)
            ctx.tri(v if v else None if odd is not None or not pcs else False, 'refused-only-if-unrepresentable', '%s:%s' % (lab, str(e.d['cls']).rsplit('.', 1)[-1]),
                    lambda: 'a convertible record is refused when %s' % ' & '.join(short(p, 300) for p in pcs), e.where)


def is_none(x):
    return x is C(None) or x is None


def strange_fact(f):
    for s in subterms(f):
        if s.op == 'call' and s.args[0].op == 'ext' and s.args[0].args[0] not in ('numpy.array_equal', 'numpy.all', 'numpy.any', 'numpy.concatenate', 'os.path.realpath', 'builtins.int'):
            return s
        if s.op == 'mcall' and s.args[1] not in ('split',):
            return s
        if s.op in ('lvx', 'unk', 'phi', 'mutd'):
            return s
    return None


def c03(ctx):
    ctx.fan(c03k, [(v, f) for v in E.VERSIONS for f in E.BTYPES])
