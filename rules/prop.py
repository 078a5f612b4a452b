"""Equivalence and implication of boolean terms, by case analysis on their atoms."""
from terms import T, C, cv, is_c, subst, TRUE, FALSE, land, lor, lnot, ite, sub, add, neg, is_bool, anyover, lt0, eq

CONN = ('and', 'or', 'not', 'ite')
LIMIT = 60
BUDGET = 60000


def canon(t, memo=None):
    """integer comparisons in one orientation: x <= 0 and x < 0 become atoms 'pos'"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if t.op == 'and':
        r = land(*[canon(x, memo) for x in t.args])
    elif t.op == 'or':
        r = lor(*[canon(x, memo) for x in t.args])
    elif t.op == 'not':
        r = lnot(canon(t.args[0], memo))
    elif t.op == 'ite' and is_bool(t):
        r = ite(canon(t.args[0], memo), canon(t.args[1], memo), canon(t.args[2], memo))
    elif t.op in ('lt0', 'le0'):
        x = t.args[0] if t.op == 'lt0' else sub(t.args[0], C(1))     # x < 0
        y = sub(neg(x), C(1))                                        # not (x < 0)  <=>  -x-1 < 0
        if x.op == 'c':
            r = TRUE if cv(x) < 0 else FALSE
        elif x.id <= y.id:
            r = T('neg', x)
        else:
            r = T('not', T('neg', y))
    elif t.op == 'any' and t.args[1].op in ('lt0', 'le0'):
        # some x < 1: some x < 0 or some x = 0
        x = t.args[1].args[0] if t.args[1].op == 'le0' else add(t.args[1].args[0], C(1))
        r = t
        if x.op != 'lin' or x.args[0] == 0:
            r = lor(anyover(t.args[0], lt0(x)), anyover(t.args[0], eq(x, C(0))))
    else:
        r = t
    memo[t] = r
    return r


def atoms(t, out=None):
    if out is None:
        out = []
    if t.op in ('and', 'or', 'not'):
        for x in t.args:
            atoms(x, out)
    elif t.op == 'ite':
        for x in t.args:
            atoms(x, out)
    elif t.op != 'c' and t not in out:
        out.append(t)
    return out


def ev(t, m):
    if t.op == 'c':
        return bool(cv(t))
    if t.op == 'and':
        return all(ev(x, m) for x in t.args)
    if t.op == 'or':
        return any(ev(x, m) for x in t.args)
    if t.op == 'not':
        return not ev(t.args[0], m)
    if t.op == 'ite':
        return ev(t.args[1], m) if ev(t.args[0], m) else ev(t.args[2], m)
    return m[t]


def entail(given, goal):
    """True: every assignment satisfying given satisfies goal; False: some does not; None: too many atoms"""
    given = canon(land(*given)) if given else TRUE
    goal = canon(goal)
    f = land(given, lnot(goal))
    if is_c(f, False):
        return True
    ats = atoms(f)
    if len(ats) > LIMIT:
        return None
    try:
        return not sat(f, ats)
    except Exhausted:
        return None


class Exhausted(Exception):
    pass


def sat(f, ats):
    # branch on one atom at a time, simplifying as we go
    memo = {}
    left = [BUDGET]

    def go(f):
        left[0] -= 1
        if left[0] < 0:
            raise Exhausted
        if f.op == 'c':
            return bool(cv(f))
        if f in memo:
            return memo[f]
        at = atoms(f)[0]
        r = any(go(assign(f, at, b)) for b in (TRUE, FALSE))
        memo[f] = r
        return r
    return go(f)


def assign(f, at, b):
    if f is at:
        return b
    if f.op == 'and':
        return land(*[assign(x, at, b) for x in f.args])
    if f.op == 'or':
        return lor(*[assign(x, at, b) for x in f.args])
    if f.op == 'not':
        return lnot(assign(f.args[0], at, b))
    if f.op == 'ite':
        return ite(*[assign(x, at, b) for x in f.args])
    return f


def implies(a, b, given=()):
    return entail([a] + list(given), b)


def equiv(a, b, given=()):
    x = implies(a, b, given)
    if x is not True:
        return x
    return implies(b, a, given)
