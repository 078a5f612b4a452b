"""B01-B03: every Borealis record and array set is checked against the published fields of its version, file type and structure."""
import json
import os
from collections import Counter

from rules.base import T, C, cv, is_c, subterms, TRUE, FALSE, an, Run, P, short, unsure
from rules import entries as E
from rules.prop import entail, atoms, canon, assign
from rules import effects
from rules.dmap_records import reduce, linked, unkey
from terms import lnot, lor, land, subst, isin, eq, rewrite, nonempty, elem, ite

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = json.load(open(os.path.join(HERE, 'spec', 'borealis_formats.json')))
BX = 'pydarnio.exceptions.borealis_exceptions.'
REC = P('?rec')
BUILTIN = {'str': 'builtins.str', 'bool': 'builtins.bool', 'int': 'builtins.int', 'float': 'builtins.float'}


def types_of(key, structure):
    s = SPEC['%s %s' % key]
    return s[structure + '_single'], s[structure + '_arrays']


def ext(name):
    return T('ext', BUILTIN.get(name, 'numpy.' + name))


def record_of(facts):
    """the term that stands for a record (or the set of arrays)"""
    n = Counter()
    for f in facts:
        for s in subterms(f):
            if s.op == 'eq':
                for x, y in (s.args, s.args[::-1]):
                    if y.op in ('ext', 'cls'):
                        if x.op == 'attr' and x.args[1] == 'type' and x.args[0].op == 'attr' and x.args[0].args[1] == 'dtype':
                            x = x.args[0].args[0]
                        elif x.op == 'type':
                            x = x.args[0]
                        if x.op == 'item' and x.args[1].op == 'c' and isinstance(cv(x.args[1]), str):
                            n[x.args[0]] += 1
    return n.most_common(1)[0][0] if n else None


def generic(p):
    """what a fact about all records says about one record"""
    if p.op == 'not' and p.args[0].op == 'any' and p.args[0].args[0].op != 'setc':
        return lnot(p.args[0].args[1])
    return p


def conj(fs):
    out = []
    for p in fs:
        out += list(p.args) if p.op == 'and' else [p]
    return out


class Model:
    """the acceptance conditions of one version, file type and structure for one record term"""

    def __init__(self, key, structure, rec):
        self.a = an(key)
        self.a.extra['vspec'] = os.path.join(HERE, 'spec')
        self.a.load('vspec.borealis')
        self.rec = rec
        self.single, self.arrays = types_of(key, structure)
        self.site = structure == 'site'
        with Run(self.a) as r:
            call = lambda f, *x: r.fz(r.call('vspec.borealis.' + f, rec, *x))
            allf = T('list', *[C(f) for f in sorted({**self.single, **self.arrays})])
            self.extra = call('extra', allf)
            self.lack = call('lacking', allf)
            self.bad_extra = nonempty(self.extra)
            self.bad_missing = nonempty(self.lack)
            self.wrong = {}
            for f, t in self.single.items():
                self.wrong[f] = call('wrong_single', C(f), ext(t))
            for f, t in self.arrays.items():
                self.wrong[f] = call('wrong_array', C(f), ext(t))
            if not self.site:
                old = call('old_offsets')
                for f, t in self.arrays.items():
                    if t == 'str':          # NumPy has one element type for text
                        self.wrong[f] = call('wrong_array_or_text', C(f), ext(t))
                    if f == 'pulse_phase_offset':
                        self.wrong[f] = land(self.wrong[f], lnot(land(call('is_array', C(f)), old)))
                self.arr = {f: call('is_array', C(f)) for f in self.single}
                self.noarr = {f: lnot(call('is_array', C(f))) for f in self.arrays}
        self.fields = set(self.single) | set(self.arrays)

    def axioms(self, ts):
        """how the absence of one of several fields relates to the absence of one of others"""
        anys = {}
        out = []
        ts = list(ts)
        for t in ts:                # grows: what a non-zero count of fields says is looked at as well
            for s in subterms(t):
                if s.op == 'eq' and any(x.op == 'len' for x in s.args) and any(is_c(x) and cv(x) for x in s.args):
                    ne = [norm(nonempty(x.args[0])) for x in s.args if x.op == 'len']
                    out.append(lor(lnot(s), *ne))
                    ts += [x for x in ne if x not in ts]
                if s.op == 'any' and s.args[0].op == 'setc':
                    c = subst(s.args[1], {elem(s.args[0]): P('?f')})
                    anys.setdefault(c, {})[frozenset(s.args[0].args)] = s
        for c, d in anys.items():
            for S, x in d.items():
                for S2, y in d.items():
                    if S < S2:
                        out.append(lor(lnot(x), y))
                parts = [(S2, y) for S2, y in d.items() if S2 < S]
                u = frozenset().union(*[p[0] for p in parts]) if parts else frozenset()
                if parts and u == S:
                    out.append(lor(lnot(x), *[p[1] for p in parts]))
        return out

    def refuted(self, fs, case):
        """one fact contradicts the conjunction of literals"""
        lits = list(case.args) if case.op == 'and' else [case]
        if any(x.op in ('or', 'ite') for x in lits):
            return False
        for f in fs:
            f = canon(f)
            for x in lits:
                f = assign(f, x.args[0], FALSE) if x.op == 'not' else assign(f, x, TRUE)
            if is_c(f, False) or len(atoms(f)) <= 12 and entail([f], FALSE) is True:
                return True
        return False

    def shows(self, fs, goal):
        if is_c(goal, True):
            return True
        fs = [norm(f) for f in fs]
        goal = norm(goal)
        if any(f is goal for f in fs):
            return True
        G = set(goal.args) if goal.op == 'or' else {goal}
        for f in fs:
            if f.op == 'or' and all(x in G or is_c(land(x, lnot(goal)), False) or any(entail([x], g) is True for g in G if share(x, g)) for x in f.args):
                return True
        if goal.op == 'and':
            rs = [self.shows(fs, g) for g in goal.args]
            return True if all(r is True for r in rs) else False if False in rs else None
        neg = canon(lnot(goal))
        if all(self.refuted(fs, c) for c in (neg.args if neg.op == 'or' else [neg])):
            return True
        use = linked(fs + self.axioms(fs + [goal]), goal)
        return entail(use, goal)


def share(a, b):
    from rules.prop import atoms, canon
    return bool(set(atoms(canon(a))) & set(atoms(canon(b))))


def norm(t):
    def f(x):
        if x.op == 'setc':
            return T('setc', *sorted(x.args, key=lambda s: s.id))
        if x.op == 'in' and x.args[1].op == 'dict' and is_c(x.args[0]):
            d = listed(None, x.args[1])
            if d is not None:
                return d.get(cv(x.args[0]), FALSE)
        if x.op == 'attr' and x.args[0].op == 'ite':
            c, p, q = x.args[0].args
            return ite(c, T('attr', p, x.args[1]), T('attr', q, x.args[1]))
        if x.op == 'in' and x.args[1].op in ('setof', 'keys'):
            return T('in', x.args[0], unkey(x.args[1]))
        if x.op == 'any' and x.args[0].op in ('setof', 'keys'):
            return T('any', unkey(x.args[0]), x.args[1])
        return x
    return rewrite(t, f)


def touches(f, rec):
    return rec in subterms(f)


def site_record(a, X):
    D = X
    while D.op in ('sorted', 'items', 'list'):
        D = D.args[0]
    if D.op == 'dict' and len(D.args) == 1 and D.args[0].op == 'many' and D.args[0].args[2].op == 'kv':
        return D.args[0].args[2].args[1]
    with Run(a) as r:
        return r.fz(a.getitem(r.st, X, elem(X), None))


def entries(key):
    """(run, structure, term of the record or array set that is checked, what it must be)"""
    a = an(key)
    for s in ('site', 'array'):
        r = E.b_read(key, s)
        if not r.dead:
            X = r.fz(r.get(r.o, 'records' if s == 'site' else 'arrays'))
            yield r, s, X
        elif s == 'site' or E.has_arrays(key):
            yield r, s, None
        w = E.b_write(key, s)
        if not w.dead:
            yield w, s, P('R' if s == 'site' else 'A')
        elif s == 'site' or E.has_arrays(key):
            yield w, s, None


KNOWN_OPS = {'c', 'ext', 'cls', 'eq', 'is', 'isinstance', 'type', 'getattr', 'in', 'any', 'not', 'and', 'or', 'ite', 'setc', 'setof', 'setdiff', 'union', 'len',
             'tup', 'dict', 'kv', 'g', 'keys', 'elem', 'str', 'cat', 'lt0', 'le0', 'add', 'neg', 'mul', 'inter', 'list', 'exc', 'many', 'bool', 'true', 'truth'}


def known(t):
    """the atom tests a field in a way whose meaning this rule knows"""
    if REC not in subterms(t):
        return True
    if t is REC:
        return True
    if t.op == 'item':
        b, k = t.args
        return b is REC and k.op in ('c', 'elem') or b.op == 'attr' and b.args[1] == 'shape' and known(b)
    if t.op == 'attr':
        return t.args[1] in ('dtype', 'type', 'shape') and known(t.args[0])
    return t.op in KNOWN_OPS and all(known(x) for x in t.args if isinstance(x, T))


class Strange:
    """the facts about a record that this rule cannot read: a missing guarantee then proves nothing"""

    def __init__(self, fs, rec):
        self.fields, self.whole = set(), False
        for f in fs:
            if not touches(f, rec):
                continue
            for a in atoms(canon(subst(f, {rec: REC}))):
                if not known(a):
                    fl = {cv(s.args[1]) for s in subterms(a) if s.op == 'item' and s.args[0] is REC and is_c(s.args[1])}
                    n = sum(1 for s in subterms(a) if s.op != 'item' and any(x is REC for x in s.args))
                    self.fields |= fl
                    if n or not fl:
                        self.whole = True


def conforms(ctx, m, fs, name, unshared=()):
    odd = Strange(fs, m.rec)

    def show(goal, rule, what, strange, msg):
        v = m.shows(fs, goal)
        ctx.tri(None if v is not True and strange else v, rule, '%s %s' % (name, what), msg)
    show(lnot(m.bad_extra), 'no-extra-field', 'record', odd.whole, 'fields outside the format are accepted')
    show(lnot(m.bad_missing), 'no-missing-field', 'record', odd.whole, 'a record without all the fields of the format is accepted')
    for f in sorted(m.fields):
        show(lnot(m.wrong[f]), 'type-of-field', f, odd.whole or f in odd.fields, 'a record whose %s is not %s is accepted' % (f, {**m.single, **m.arrays}[f]))
    if unshared:
        up = {}

        def find(x):
            while up.get(x, x) is not x:
                x = up[x]
            return x
        for f in fs:
            if f.op == 'eq':
                a, b = find(f.args[0]), find(f.args[1])
                if a is not b:
                    up[a] = b
        a = an()
        first = {f: T('item', T('attr', T('item', m.rec, C(f)), 'shape'), C(0)) for f in unshared}
        base = find(first[sorted(unshared)[0]])
        for f in sorted(unshared):
            same = find(first[f]) is base
            ctx.tri(True if same else None if odd.whole or f in odd.fields else False, 'same-number-of-records', '%s %s' % (name, f),
                    '%s may have another number of records than %s' % (f, sorted(unshared)[0]))


def b01(ctx):
    ctx.fan(b01k, E.KEYS)


def b01k(ctx, key):
    spec = SPEC['%s %s' % key]
    for r, s, X in entries(key):
        name = '%s %s %s' % (key + (r.name,))
        if not ctx.ok(X is not None, 'can-return', name, 'no path returns'):
            continue
        rec = site_record(an(key), X) if s == 'site' else X
        m = Model(key, s, rec)
        fs = conj([generic(p) for p in r.st.pc] if s == 'site' else r.st.pc)
        conforms(ctx, m, fs, name, spec['unshared'] if s == 'array' else ())
    if not E.restructurable(key):
        return
    for s in ('array', 'site'):
        r = E.b_restructure(key, s)
        name = '%s %s %s' % (key + (r.name,))
        outs = [e for e, nm, md in effects.writes(r) if e.kind == 'call' and nm is P('out')]
        ctx.ok(bool(outs), 'writes-output', name, 'nothing is written')
        for e in outs:
            fs = conj(e.pc)
            D = T('dict', *[T('kv', C(f), v) for f, v in written(r, e).items()]) if s == 'site' else whole(fs)
            if D is None or not D.args:
                ctx.ok(False, 'checked-before-output', name, 'nothing is established about the fields written at %s' % e.where, e.where)
                continue
            if s == 'site':
                m = Model(key, s, D)
                got = {cv(k.args[0]) for k in D.args}
                ctx.ok(got <= m.fields, 'no-extra-field', name + ' record', 'fields outside the format are written: %s' % sorted(got - m.fields))
                ctx.ok(m.fields <= got, 'no-missing-field', name + ' record', 'fields of the format are not written: %s' % sorted(m.fields - got))
                for f in sorted(m.fields & got):
                    ctx.tri(m.shows(fs, lnot(m.wrong[f])), 'type-of-field', '%s %s' % (name, f), 'a record whose %s is not %s is written' % (f, {**m.single, **m.arrays}[f]))
            else:
                # the set of arrays is assembled record by record; its terms differ from place to place, the tests on it do not
                m = Model(key, s, REC)
                fs = [alike(f) for f in fs]
                n = 0
                for f in sorted(m.fields):
                    if m.shows(fs, lnot(m.wrong[f])) is True:
                        n += 1
                        ctx.ok(True, 'type-of-field', '%s %s' % (name, f), '')
                ctx.note('%s: types of %d of %d fields shown before the output is opened' % (name, n, len(m.fields)))
                ctx.ok(n > len(m.fields) // 2, 'checked-before-output', name, 'nothing is established about the types of most fields', e.where)


def alike(f):
    def g(x):
        if x.op == 'item' and x.args[0].op == 'dict' and x.args[1].op == 'c':
            return T('item', REC, x.args[1])
        return x
    return rewrite(f, g)


def whole(fs):
    """the set of arrays whose fields the facts speak about: the one whose names are tested against a fixed set"""
    best = None
    for f in fs:
        for x in subterms(f):
            if x.op == 'any' and x.args[0].op == 'dict' and any(y.op == 'in' and y.args[1].op == 'setc' for y in subterms(x.args[1])):
                if best is None or len(x.args[0].args) > len(best.args):
                    best = x.args[0]
    return best


def written(r, e0):
    """{field: value} of the group attributes and datasets written to the file opened by e0"""
    out = {}
    for e in r.events:
        if e.seq < e0.seq:
            continue
        k = v = None
        if e.kind == 'setitem' and e.target.op == 'attr' and e.target.args[1] == 'attrs' and P('out') in subterms(e.target) and not any(
                x.op == 'mcall' and x.args[1] == 'create_dataset' for x in subterms(e.target)):
            k, v = e.key, e.frozen
        elif e.kind == 'mcall' and e.name == 'create_dataset' and P('out') in subterms(e.obj):
            k, v = dict(e.kws).get('name'), dict(e.kws).get('data')
        if k is None or not is_c(k) or v is None:
            continue
        if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] == 'numpy.bytes_':
            if v.args[1]:
                out.setdefault(cv(k), v.args[1][0])
            continue
        if v.op == 'mcall' and v.args[1] == 'view':
            out.setdefault(cv(k), v.args[0])
            continue
        out[cv(k)] = v
    return out


# ---------------------------------------------------------------- refusals

F = P('?f')


def isin_(t):
    """the condition that ?f is a member of the set or a key of the dict"""
    if t.op == 'ite':
        return ite(t.args[0], isin_(t.args[1]), isin_(t.args[2]))
    if t.op == 'union':
        return lor(*[isin_(x) for x in t.args])
    return isin(F, t)


def same_members(m, got, want, given):
    """both sets have the same members whenever given holds"""
    # the fields of the format are told apart by the part of the format they belong to
    ax = [given]
    a, b = norm(isin_(got)), norm(isin_(want))
    given = norm(given)
    ax = m.axioms([a, b, given])
    for t in subterms(T('tup', a, b, given)):
        if t.op == 'any' and t.args[0].op == 'setc' and t.args[1].op == 'not' and t.args[1].args[0].op == 'in':
            S, rec = t.args[0], t.args[1].args[0].args[1]
            ax.append(lor(t, lnot(isin(F, S)), isin(F, rec)))         # a member that is absent is an absent member
    sets = {}
    for t in subterms(T('tup', a, b, *ax)):
        if t.op == 'in' and t.args[0] is F and t.args[1].op == 'setc':
            sets[frozenset(t.args[1].args)] = t
    for S, x in sets.items():
        inside = [(S2, y) for S2, y in sets.items() if S2 < S]
        for S2, y in inside:
            ax.append(lor(lnot(y), x))
        if inside and frozenset().union(*[p[0] for p in inside]) == S:
            ax.append(lor(lnot(x), *[p[1] for p in inside]))
    ax = [norm(x) for x in ax] + [given]
    r = entail(ax + [a], b)
    return r if r is not True else entail(ax + [b], a)


def listed(m, t):
    """the pairs (condition, field) of a dict of constant fields"""
    out = {}
    for s in t.args:
        c = TRUE
        if s.op == 'g':
            c, s = s.args
        if s.op != 'kv' or not is_c(s.args[0]):
            return None
        k = cv(s.args[0])
        out[k] = lor(out[k], c) if k in out else c
    return out


class Faults:
    """decides for one run whether its refusals are real and complete"""

    def __init__(self, ctx, r, m, name, site):
        self.ctx, self.r, self.m, self.name, self.site = ctx, r, m, name, site
        self.R = None
        self.seen = set()

    def entails(self, pc, goal, what, con, where):
        v = None
        for g in goal if isinstance(goal, tuple) else (goal,):
            v = self.m.shows(pc, g)
            if v is True:
                break
        if v is not True and Strange(pc, self.m.rec).whole | bool(Strange(pc, self.m.rec).fields):
            v = None
        self.ctx.tri(v, 'refused-only-if', con, what, where)
        return v

    def fields(self, kind, got, given, con, where):
        m, ctx = self.m, self.ctx
        if kind == 'missing':
            v = same_members(m, got, m.lack, land(given, m.bad_missing))
        elif kind == 'extra':
            v = True if norm(got) is norm(m.extra) else same_members(m, got, m.extra, land(given, m.bad_extra))
        else:
            if got.op != 'dict':
                return ctx.undecided('refusal-fields', con, 'the error lists %s' % short(got), where)
            d = listed(m, got)
            if d is None:
                return ctx.undecided('refusal-fields', con, 'the error lists %s' % short(got), where)
            odd = Strange(list(d.values()), m.rec)
            v = True
            for f in sorted(m.fields | set(d)):
                g = norm(land(given, lnot(m.noarr[f]))) if not self.site and f in m.noarr else norm(given)     # missing arrays are refused before
                w = entail([g, norm(d.get(f, FALSE))], norm(m.wrong.get(f, FALSE)))
                if w is True:
                    w = entail([g, norm(m.wrong.get(f, FALSE))], norm(d.get(f, FALSE)))
                if w is not True and (odd.whole or f in odd.fields):
                    w = None
                ctx.tri(w, 'refusal-field', '%s %s' % (con, f), 'the field %s is not listed exactly when it is wrong' % f, where)
            return
        if v is False and unsure(subst(got, {m.rec: REC}), lvx=False):
            v = None
        ctx.tri(v, 'refusal-fields', con, lambda: 'the error lists %s' % short(got, 400), where)

    def event(self, e):
        m, ctx = self.m, self.ctx
        cls = e.cls.args[0] if e.cls.op in ('cls', 'ext') else ''
        kind = cls.rsplit('.', 1)[-1]
        pc = conj(e.pc)
        at = {cv(k.args[0]): k.args[1] for k in e.exc.args[1] if isinstance(k, T) and k.op == 'kv'} if e.exc is not None and e.exc.op == 'inst' else None
        k = {'BorealisFieldMissingError': 'missing', 'BorealisExtraFieldError': 'extra', 'BorealisDataFormatTypeError': 'type'}.get(kind)
        con = '%s %s' % (self.name, kind)
        if k:
            self.seen.add(k)
            bad = {'missing': m.bad_missing, 'extra': m.bad_extra, 'type': lor(*m.wrong.values())}[k]
            self.entails(pc, bad, 'a record without that fault can be refused with %s' % kind, con, e.where)
            if at is None:
                return ctx.undecided('refusal-fields', con, 'error value', e.where)
            got = at.get('fields', at.get('incorrect_types'))
            if not ctx.ok(got is not None and 'message' in at, 'refusal-attributes', con, 'the error carries only %s' % sorted(at), e.where):
                return
            self.fields(k, got, TRUE, con, e.where)
            ms = set(subterms(at['message']))
            ctx.judge(got in ms, (at['message'],), 'refusal-message', con, 'the message does not give the fields', e.where)
        elif kind == 'BorealisStructureError' and any(touches(f, m.rec) and f.op != 'exc' for f in pc if not isver(f)):
            self.entails(pc, (m.bad_missing, lor(*(m.arr.values() if not self.site else [])), lor(*m.wrong.values())),
                         'a record of the right structure can be refused with %s' % kind, con, e.where)
        elif kind == 'BorealisNumberOfRecordsError' and not any(f.op == 'exc' for f in pc):
            def first(x):
                return x.op == 'item' and is_c(x.args[1], 0) and x.args[0].op == 'attr' and x.args[0].args[1] == 'shape' and x.args[0].args[0].op == 'item' \
                    and x.args[0].args[0].args[0] is m.rec

            def differ(f):
                return f.op == 'not' and f.args[0].op == 'eq' and all(first(x) for x in f.args[0].args)
            self.seen.add('number')
            ok = any(differ(f) or f.op == 'or' and all(differ(x) for x in f.args) for f in pc)
            ctx.tri(True if ok else None if Strange(pc, m.rec).fields else False, 'refused-only-if', con, 'arrays with one number of records can be refused', e.where)
        elif kind == 'BorealisBadRecordsError':
            self.seen.add('bad')
            if at is None or not ctx.ok({'missing_fields', 'extra_fields', 'incorrect_fields'} <= set(at), 'refusal-attributes', con, 'the error carries only %s' % sorted(at or ()), e.where):
                return
            bads = {'missing_fields': ('missing', m.bad_missing), 'extra_fields': ('extra', m.bad_extra), 'incorrect_fields': ('type', lor(*m.wrong.values()))}
            ms = set(subterms(at['message']))
            for n, (k, bad) in bads.items():
                t = at[n]
                c2 = '%s %s' % (con, n)
                if t.op == 'dict' and not t.args:
                    ctx.ok(False, 'records-listed', c2, 'no record is ever listed', e.where)
                    continue
                if t.op in ('last', 'lastif'):
                    ctx.ok(False, 'records-listed', c2, 'only the last record is listed', e.where)
                    continue
                if t.op != 'dict' or any(x.op != 'many' or x.args[2].op != 'kv' for x in t.args):
                    ctx.undecided('records-listed', c2, short(t), e.where)
                    continue
                for x in t.args:
                    seq, guard, kv = x.args
                    self.entails([guard], bad, 'a record without that fault is listed', c2, e.where)
                    ctx.judge(kv.args[0] is elem(seq), (kv.args[0],), 'record-name', c2, lambda: 'listed under %s' % short(kv.args[0]), e.where)
                    self.fields(k, kv.args[1], guard, c2, e.where)
                guard = lor(*[x.args[1] for x in t.args])
                order = land(*{'missing': [], 'extra': [lnot(m.bad_missing)], 'type': [lnot(m.bad_missing), lnot(m.bad_extra)]}[k])
                if k != 'type':
                    v = m.shows([order, bad], guard)
                else:
                    v = all(m.shows([order, w], guard) for w in m.wrong.values())
                odd = Strange([guard], m.rec)
                ctx.tri(None if v is not True and (odd.whole or odd.fields) else bool(v), 'record-listed', c2, 'a record with that fault need not be listed', e.where)
                ctx.judge(t in ms, (at['message'],), 'refusal-message', c2, 'the message does not give %s' % n, e.where)


def isver(f):
    return any(s.op == 'mcall' and s.args[1] == 'split' for s in subterms(f))


def b02(ctx):
    ctx.fan(b02k, E.KEYS)


def b02k(ctx, key):
    for r, s, X in entries(key):
        name = '%s %s %s' % (key + (r.name,))
        if X is None:
            continue
        site = s == 'site'
        rec = site_record(an(key), X) if site else X
        m = Model(key, s, rec)
        fx = Faults(ctx, r, m, name, site)
        for e in r.evs('raise'):
            fx.event(e)
        for k in ('missing', 'extra', 'type') + (('bad',) if site else ('number',) if len(SPEC['%s %s' % key]['unshared']) > 1 else ()):
            ctx.ok(k in fx.seen, 'refusal-exists', '%s %s' % (name, k), 'no such error is ever raised')
