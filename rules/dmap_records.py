"""D04-D06: every SuperDARN record is checked against the published fields of its file type."""
import json
import os

from rules.base import T, C, cv, is_c, subterms, TRUE, FALSE, an, Run, P, short, pyval, unsure
from terms import (subst, length, add, sub, elem, idx, lnot, lor, land, rewrite, nonempty, setdiff, setof, union, isin, eq, item, anyover)
from rules.prop import entail, equiv, canon, atoms

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = json.load(open(os.path.join(HERE, 'spec', 'sdarn_formats.json')))
SE = 'pydarnio.exceptions.superdarn_exceptions.SuperDARN'
TYPES = sorted(SPEC)


def kvdict(d):
    return T('dict', *[T('kv', C(k), C(v)) for k, v in d.items()])


def norm(t):
    """tables that are only looked up do not depend on the order of their entries"""
    def f(x):
        if x.op in ('item', 'call') and x.args and isinstance(x.args[0], T) and x.args[0].op == 'dict' and all(
                s.op == 'kv' and s.args[0].op in ('c', 'ext') for s in x.args[0].args):
            d = T('dict', *sorted(x.args[0].args, key=lambda s: s.args[0].id))
            return T(x.op, d, *x.args[1:])
        if x.op == 'setc':
            return T('setc', *sorted(x.args, key=lambda s: s.id))
        if x.op == 'any' and sections(x.args[0]):
            D, G = x.args
            return lor(*[anyover(s.args[0], land(s.args[1], rewrite(subst(G, {elem(D): s.args[2].args[0]}), f))) for s in D.args])
        if x.op == 'item' and sections(x.args[0]):
            v = [s.args[2].args[1] for s in x.args[0].args if s.args[2].args[0] is x.args[1]]
            if v:
                return v[0]
        if x.op == 'attr' and x.args[0].op == 'nt' and x.args[1] in x.args[0].args[1]:
            return x.args[0].args[2][list(x.args[0].args[1]).index(x.args[1])]
        return x
    return rewrite(t, f)


def sections(D):
    """a record put together from its scalars and its arrays: walked whole or section by section it is the same fields"""
    return D.op == 'dict' and D.args and all(s.op == 'many' and s.args[2].op == 'kv' for s in D.args)


class Spec:
    """the acceptance conditions of one file type for one record term"""

    def __init__(self, a, r, ft, rec):
        s = SPEC[ft]
        self.groups = s['groups']
        allf = {}
        for g in self.groups.values():
            allf.update(g)
        self.all = allf
        self.extra = norm(r.fz(r.call('vspec.records.extra', rec, kvdict(allf))))
        self.lack = {n: norm(r.fz(r.call('vspec.records.lacking', rec, kvdict(g)))) for n, g in self.groups.items() if n not in s['free']}
        self.wrong = norm(r.fz(r.call('vspec.records.wrong', rec, kvdict(allf))))
        self.bad_extra = nonempty(self.extra)
        self.partial = {n: lnot(isin(length(d), T('setc', C(0), C(len(self.groups[n]))))) for n, d in self.lack.items()}
        self.bad_missing = lor(*self.partial.values())
        self.bad_type = nonempty(self.wrong)
        x = T('param', '?field')
        self.x = x
        self.in_missing = lor(*[land(self.partial[n], isin(x, d)) for n, d in self.lack.items()])


def reduce(t):
    """some / all of a group missing, as single facts"""
    def f(x):
        if x.op == 'any' and x.args[0].op == 'setc' and x.args[1].op == 'not' and x.args[1].args[0].op == 'in' \
                and x.args[1].args[0].args[0] is T('elem', x.args[0]) and x.args[1].args[0].args[1].op != 'setc':
            return T('miss', T('setc', *sorted(x.args[0].args, key=lambda s: s.id)), unkey(x.args[1].args[0].args[1]))
        if x.op in ('in', 'eq'):
            for p, q in (x.args, x.args[::-1]):
                if p.op == 'len' and p.args[0].op == 'setdiff' and p.args[0].args[0].op == 'setc':
                    g, rec = p.args[0].args
                    g = T('setc', *sorted(g.args, key=lambda s: s.id))
                    n = len(g.args)
                    vals = q.args if q.op in ('setc', 'tup', 'list') else (q,)
                    if all(v.op == 'c' for v in vals):
                        out = [lnot(T('miss', g, unkey(rec)))] if any(cv(v) == 0 for v in vals) else []
                        if any(cv(v) == n for v in vals):
                            out.append(T('allmiss', g, unkey(rec)))
                        if all(cv(v) in (0, n) for v in vals):
                            return lor(*out)
        if x.op == 'nonempty' and x.args[0].op == 'setdiff' and x.args[0].args[0].op == 'setc':
            g, rec = x.args[0].args
            return T('miss', T('setc', *sorted(g.args, key=lambda s: s.id)), unkey(rec))
        if x.op == 'in' and x.args[1].op in ('setof', 'keys'):
            return T('in', x.args[0], unkey(x.args[1]))
        if x.op == 'len' and x.args[0].op == 'setdiff' and x.args[0].args[0].op == 'setc':
            return x
        return x
    return rewrite(norm(t), f)


def unkey(t):
    while t.op in ('setof', 'keys'):
        t = t.args[0]
    return t


def linked(facts, goal):
    """the facts that share an atom with the goal, directly or through one another"""
    want = set(atoms(canon(goal)))
    left = [(f, set(atoms(canon(f)))) for f in facts]
    out = []
    while True:
        new = [p for p in left if p[1] & want]
        if not new:
            return out
        out += [f for f, _ in new]
        left = [p for p in left if p not in new]
        for _, s in new:
            if len(want | s) > 24:
                continue
            want |= s


def shows(pc, goal):
    """True / False / None: the path facts give the goal"""
    goal = reduce(goal)
    fs = []
    for p in pc:
        p = reduce(p)
        fs += list(p.args) if p.op == 'and' else [p]
    ax = []
    seen = set()
    for t in fs + [goal]:
        for s in subterms(t):
            if s.op == 'allmiss' and s not in seen:
                seen.add(s)
                ax.append(lor(lnot(s), T('miss', *s.args)))     # all of a group missing: some of it is
    use = linked(fs + ax, goal)
    r = entail(use, goal)
    if r is None:
        use = [f for f in fs + ax if set(atoms(canon(f))) & set(atoms(canon(goal)))]
        r = entail(use, goal)
    return r


def entries():
    for ft in TYPES:
        yield ft, 'SDarnRead.read_' + ft
        yield ft, 'SDarnWrite.write_' + ft


def session(ft, name):
    """run one entry point; (analyzer, run, record term, loop info, record number term)"""
    a = an()
    a.extra['vspec'] = os.path.join(HERE, 'spec')
    a.load('vspec.records')
    rd = name.startswith('SDarnRead')
    with Run(a) as r:
        if rd:
            o = r.call('pydarnio.dmap.superdarn.SDarnRead', P('B'), C(True))
        else:
            o = r.call('pydarnio.dmap.superdarn.SDarnWrite', P('R'), P('fn'))
            r.set(o, 'dmap_records', P('R'))
        r.first = len(a.events)
        r.ret = r.method(o, name.split('.')[1])
        r.o = o
        if rd:
            D = r.fz(r.get(o, '_dmap_records'))
            r.D = D
            ok = D.op in ('list', 'deque') and len(D.args) == 1 and D.args[0].op == 'many' and D.args[0].args[0].op == 'while'
            if not ok:
                return a, r, None, None, None, None
            lid = D.args[0].args[0].args[0]
            rec = D.args[0].args[2]
            info = a.loopinfo[lid]
            num = [v[1] for k, v in info['locs'].items() if isinstance(k, str) and len(v) == 4 and v[1].op == 'lv' and is_c(v[0], 0) and sub(v[2], v[1]) is C(1)]
        else:
            r.D = r.fz(r.get(o, 'dmap_bytearr'))
            rec = elem(P('R'))
            lids = sorted({e.loops[0][0] for e in r.events if e.loops and e.seq >= r.first - 10**9 and e.loops[0][1] is P('R') and e.kind in ('raise', 'call', 'mcall', 'setitem', 'mut')})
            lids = [l for l in lids if a.loopinfo[l]['endpc'] is not None]
            info = lids
            num = [idx(P('R'))]
        sp = Spec(a, r, ft, rec)
    return a, r, rec, info, num, sp


def writer_facts(a, infos, goal):
    """facts gathered by the complete passes over the records"""
    out = []
    for l in infos:
        out += list(a.loopinfo[l]['endpc'])
    return out


def d04(ctx):
    for ft, name in entries():
        with ctx.part(name):
            a, r, rec, info, num, sp = session(ft, name)
            rd = name.startswith('SDarnRead')
            ctx.anchor(not r.dead, name + ' never returns')
            if rec is None and rd and r.D.op in ('list', 'deque') and not r.D.args:
                ctx.ok(False, 'no-record-dropped', name, 'no record is read')
                continue
            ctx.anchor(rec is not None, '%s: records are not collected by one loop: %s' % (name, short(r.D)))
            if rd:
                facts = list(info['endpc'])
                ctx.judge(is_c(r.D.args[0].args[1], True), (r.D.args[0].args[1],), 'no-record-dropped', name, 'a record is kept only if %s' % short(r.D.args[0].args[1]))
            else:
                facts = writer_facts(a, info, None)
                ctx.judge(r.D.op == 'manyb' and r.D.args[0] is P('R') and is_c(r.D.args[1], True), (r.D,), 'no-record-dropped', name, 'the output is %s' % short(r.D))
            for rule, bad, what in (('unknown-fields-refused', sp.bad_extra, 'a field outside the published ones'),
                                    ('wrong-types-refused', sp.bad_type, 'a field whose type is not the published one')):
                v = shows(facts, lnot(bad))
                if v is False and unsure(*[f for f in facts if touches(f, rec)], lvx=False):
                    v = None
                ctx.tri(v, rule, name, 'a record with %s gets through' % what, '')
            for g, part in sp.partial.items():
                v = shows(facts, lnot(part))
                ctx.tri(v, 'incomplete-group-refused', '%s group %s' % (name, g), 'a record with part of the %s fields gets through' % g)


def touches(f, rec):
    return f.op not in ('le0', 'lt0') and rec in subterms(f)


def d05(ctx):
    for ft, name in entries():
        with ctx.part(name):
            a, r, rec, info, num, sp = session(ft, name)
            ctx.anchor(rec is not None and not r.dead, name + ': no record loop')
            kinds = {SE + 'ExtraFieldError': (sp.bad_extra, 'extra'), SE + 'FieldMissingError': (sp.bad_missing, 'missing'), SE + 'DataFormatTypeError': (sp.bad_type, 'type')}
            seen = set()
            for e in r.evs('raise'):
                c = e.cls.args[0] if e.cls.op in ('cls', 'ext') else ''
                if c not in kinds:
                    if c.startswith(SE):
                        ctx.ok(False, 'known-refusal', '%s %s' % (name, c.rsplit('.', 1)[1]), 'a record is refused with %s' % c, e.where)
                    continue
                bad, kind = kinds[c]
                if e.exc is None or e.exc.op != 'inst':
                    ctx.undecided('refusal-payload', '%s %s' % (name, kind), 'error value %s' % short(e.exc) if e.exc is not None else 'none', e.where)
                    continue
                seen.add(kind)
                v = shows(e.pc, bad)
                con = '%s %s' % (name, kind)
                if v is False and unsure(*[f for f in e.pc if touches(f, rec)], lvx=False):
                    v = None
                ctx.tri(v, 'refused-only-if', con, 'a valid record can be refused (%s)' % c.rsplit('.', 1)[1], e.where)
                at = {k.args[0]: k.args[1] for k in e.exc.args[1] if isinstance(k, T) and k.op == 'kv'}
                at = {(cv(k) if isinstance(k, T) else k): v for k, v in at.items()}
                f = at.get('fields', at.get('incorrect_types', at.get('incorrect_params')))
                n = at.get('record_number', at.get('rec_num', at.get('record_num')))
                m = at.get('message')
                if not ctx.ok(f is not None and n is not None and m is not None, 'refusal-attributes', con, 'the error carries %s' % sorted(at), e.where):
                    continue
                ctx.judge(n in num, (n,), 'refusal-record-number', con, lambda: 'the error names record %s' % short(n), e.where, lvx=False)
                if kind == 'missing':
                    x = sp.x
                    v = equiv_in(isin_(x, norm(f)), sp.in_missing, sp.bad_missing)
                    if v is False and unsure(f, lvx=False):
                        v = None
                    ctx.tri(v, 'refusal-fields', con, lambda: 'the error lists %s' % short(f, 500), e.where)
                else:
                    want = sp.extra if kind == 'extra' else sp.wrong
                    same = norm(f) is want
                    if not same and kind == 'extra':
                        same = equiv(reduce(member(sp.x, norm(f))), reduce(member(sp.x, want))) is True
                    ctx.judge(same, (f,), 'refusal-fields', con, lambda: 'the error lists %s' % short(f, 500), e.where, lvx=False)
                ms = {s for s in subterms(m)}
                ctx.ok(n in ms and f in ms, 'refusal-message', con, lambda: 'the message does not give the record number and the fields: %s' % short(m), e.where)
            for k in ('extra', 'missing', 'type'):
                ctx.ok(k in seen, 'refusal-exists', '%s %s' % (name, k), 'no %s-field error is ever raised' % k)


def isin_(x, t):
    if t.op == 'ite':
        from terms import ite
        return ite(t.args[0], isin_(x, t.args[1]), isin_(x, t.args[2]))
    if t.op == 'union':
        return lor(*[isin_(x, u) for u in t.args])
    return isin(x, t)


def member(x, t):
    """x is one of the fields t lists"""
    if t.op in ('setof', 'keys', 'sorted', 'listof'):
        return member(x, t.args[0])
    if t.op == 'setdiff':
        return land(member(x, t.args[0]), lnot(isin(x, t.args[1])))
    if t.op == 'union':
        return lor(*[member(x, u) for u in t.args])
    if t.op == 'unionover' and t.args[2].op == 'setc':
        J, G, E = t.args
        return lor(*[land(anyover(J, eq(K, x)), subst(G, {K: x})) for K in E.args])
    if t.op in ('list', 'dict') and t.args and all(s.op == 'many' for s in t.args):
        out = []
        for s in t.args:
            J, G, K = s.args
            K = K.args[0] if K.op == 'kv' else K
            out.append(land(anyover(J, eq(K, x)), subst(G, {K: x})))
        return lor(*out)
    return isin(x, t)


def equiv_in(a, b, given):
    a, b = reduce(a), reduce(b)
    ax = [reduce(given)]
    for t in subterms(T('tup', a, b)):
        if t.op == 'miss':
            # a member of the group that the record lacks is a missing one
            g, rec = t.args
            ax.append(lor(t, lnot(isin(P('?field'), g)), isin(P('?field'), rec)))
        if t.op == 'allmiss':
            ax.append(lor(lnot(t), T('miss', *t.args)))
    from terms import land
    r = entail(ax + [a], b)
    if r is not True:
        return r
    return entail(ax + [b], a)


def d06(ctx):
    a = an()
    acc = {}
    for ft, name in entries():
        with ctx.part(name):
            a, r, rec, info, num, sp = session(ft, name)
            ctx.anchor(rec is not None and not r.dead, name + ': no record loop')
            rd = name.startswith('SDarnRead')
            facts = list(info['endpc']) if rd else writer_facts(a, info, None)
            groups, extras, types = [], [], []
            for p in facts:
                p = reduce(p)
                for s in subterms(p):
                    if s.op in ('miss', 'allmiss'):
                        g = frozenset(cv(x) for x in s.args[0].args)
                        if g not in groups and s.op == 'allmiss':
                            groups.append(g)
                    if s.op == 'any' and s.args[1].op == 'not' and s.args[1].args[0].op == 'in' and s.args[1].args[0].args[1].op == 'setc' \
                            and s.args[1].args[0].args[0].op != 'c' and len(s.args[1].args[0].args[1].args) > 12:
                        e = frozenset(cv(x) for x in s.args[1].args[0].args[1].args if x.op == 'c')
                        if e not in extras:
                            extras.append(e)
                    if s.op == 'item' and s.args[0].op == 'dict' and len(s.args[0].args) > 12 and all(k.op == 'kv' and is_c(k.args[1]) for k in s.args[0].args):
                        d = {cv(k.args[0]): cv(k.args[1]) for k in s.args[0].args}
                        if d not in types and all(isinstance(k, str) for k in d):
                            types.append(d)
            want = [frozenset(g) for n, g in sp.groups.items() if n not in SPEC[ft]['free']]
            ctx.ok(len(types) >= 1 or True, 'types-found', name, '')
            if not groups or not extras or not types:
                ctx.undecided('tables', name, 'the tables used could not be read off the conditions')
                continue
            for n, g in sp.groups.items():
                if n in SPEC[ft]['free']:
                    ctx.ok(frozenset(g) not in groups, 'optional-group', '%s %s' % (name, n), 'the optional fields %s are demanded together' % sorted(g))
                    continue
                near = min(groups, key=lambda q: len(q ^ frozenset(g)))
                ctx.ok(frozenset(g) in groups, 'field-group', '%s %s' % (name, n), lambda: 'the group %s is not checked as published (difference: %s)' % (n, sorted(near ^ frozenset(g))))
            for q in groups:
                ctx.ok(q in want, 'no-other-group', '%s %d fields' % (name, len(q)), lambda: 'fields demanded together though not published as one group: %s' % sorted(q)[:12])
            for e in extras:
                ctx.ok(e == frozenset(sp.all), 'field-set', name, lambda: 'the fields allowed differ from the published ones: %s' % sorted(e ^ frozenset(sp.all)))
            for d in types:
                for f in sorted(sp.all):
                    ctx.ok(d.get(f) == sp.all[f], 'field-type', '%s %s' % (name, f), lambda: 'field %s has type %r, published as %r' % (f, d.get(f), sp.all[f]))
