"""Linear integer facts: does a small combination of known inequalities give a goal?"""
from terms import T, C, cv, is_c, TRUE, FALSE, sub, add, neg, _linparts, lnot
from rules.prop import canon, entail


def leq(t):
    """terms x with x <= 0 that a fact gives (integers)"""
    if t.op == 'le0':
        return [t.args[0]]
    if t.op == 'lt0':
        return [add(t.args[0], C(1))]
    if t.op == 'not':
        u = t.args[0]
        if u.op == 'le0':
            return [add(neg(u.args[0]), C(1))]
        if u.op == 'lt0':
            return [neg(u.args[0])]
    if t.op == 'eq':
        a, b = t.args
        return [sub(a, b), sub(b, a)]
    return []


def conj(facts):
    out = []
    for f in facts:
        out += conj(f.args) if f.op == 'and' else [f]
    return out


class Facts:
    def __init__(self, facts):
        self.facts = conj(facts)
        self.ineq = []
        ne = []
        for f in self.facts:
            self.ineq += leq(f)
            if f.op == 'not' and f.args[0].op == 'eq':
                ne.append(sub(*f.args[0].args))
        # x <= 0 and x != 0 gives x + 1 <= 0
        for d in ne:
            for x in (d, neg(d)):
                if any(self.below(x, y) for y in self.ineq):
                    self.ineq.append(add(x, C(1)))
        self.cs = [_linparts(x) for x in self.ineq]

    @staticmethod
    def below(x, y):
        """y <= 0 gives x <= 0"""
        d = sub(x, y)
        return d.op == 'c' and cv(d) <= 0

    def le0(self, x, depth=4):
        """is x <= 0 a consequence"""
        c, d = _linparts(x)
        return self._go(c, d, depth, 0)

    def _go(self, c, d, depth, start):
        if not d:
            return c <= 0
        if depth == 0:
            return False
        # cancel one variable with a fact that has it with the same sign
        v = min(d, key=lambda t: t.id)
        k = d[v]
        for fc, fd in self.cs:
            q = fd.get(v, 0)
            if q * k <= 0 or k % q:
                continue
            m = k // q
            nd = dict(d)
            for t, w in fd.items():
                nd[t] = nd.get(t, 0) - m * w
            nd = {t: w for t, w in nd.items() if w}
            if self._go(c - m * fc, nd, depth - 1, 0):
                return True
        return False

    def holds(self, goal):
        """True / False (not shown)"""
        if goal.op == 'and':
            return all(self.holds(g) for g in goal.args)
        if is_c(goal, True):
            return True
        ls = leq(goal)
        if goal.op == 'eq':
            if len(ls) == 2 and all(self.le0(x) for x in ls):
                return True
        elif ls:
            if all(self.le0(x) for x in ls):
                return True
        if goal in self.facts:
            return True
        r = entail([canon(f) for f in self.facts if self.related(f, goal)], goal)
        return r is True

    def related(self, f, goal):
        from rules.prop import atoms
        a = set(atoms(canon(f)))
        b = set(atoms(canon(goal)))
        return bool(a & b)
