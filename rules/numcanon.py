"""A normal form for NumPy expressions: products and sums, element type conversions, element by element operations, flattening, indexing.

Two terms with the same normal form compute the same values (up to floating-point rounding).  The converse does not hold, so a
difference counts only where both sides consist of operations this module knows (see strange)."""
from terms import T, C, cv, is_c, subst, subterms, rewrite, lnot, ite, TRUE, FALSE, elem, idx, has_elem, length

INTS = {'numpy.' + s + str(b) for s in ('int', 'uint') for b in (8, 16, 32, 64)}
FLOATS = {'numpy.float32', 'numpy.float64', 'builtins.float', 'numpy.float_'}
COMPLEX = {'numpy.complex64', 'numpy.complex128'}
NUMTYPES = INTS | FLOATS | COMPLEX | {'builtins.int', 'builtins.bool', 'numpy.bool_'}
IINFO = {'numpy.int8': (-128, 127), 'numpy.int16': (-2 ** 15, 2 ** 15 - 1), 'numpy.int32': (-2 ** 31, 2 ** 31 - 1), 'numpy.uint16': (0, 2 ** 16 - 1), 'numpy.uint8': (0, 255)}
FULL = T('slice', C(None), C(None), C(None))


def callname(t):
    return t.args[0].args[0] if t.op == 'call' and t.args[0].op == 'ext' else None


def arg(t, i, *names):
    """positional argument i or the named one; None if absent"""
    pos, kws = (t.args[1], t.args[2]) if t.op == 'call' else (t.args[2], t.args[3])
    for k in kws:
        if k.op == 'kw' and k.args[0] in names:
            return k.args[1]
    return pos[i] if i < len(pos) and pos[i].op not in ('star', 'splat') else None


def nargs(t):
    return len(t.args[1]) + len(t.args[2]) if t.op == 'call' else len(t.args[2]) + len(t.args[3])


def isnum(t):
    return t.op == 'c' and isinstance(cv(t), (int, float)) and not isinstance(cv(t), bool)


def const(v):
    if isinstance(v, float):
        v = float('%.12g' % v)
        if v == int(v) and abs(v) < 1e15:
            v = int(v)
    return C(v)


# ---------------------------------------------------------------- polynomials: {monomial: coefficient}, monomial = ((atom, exponent), ...)

def topoly(t):
    if isnum(t):
        return {(): cv(t)} if cv(t) else {}
    if t.op == 'poly':
        return {m: k for m, k in t.args[0]}
    return {((t, 1),): 1}


def padd(a, b, s=1):
    out = dict(a)
    for m, k in b.items():
        out[m] = out.get(m, 0) + s * k
    return {m: k for m, k in out.items() if k}


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: (p[0].id, p[1])))


def pmul(a, b):
    out = {}
    for m, k in a.items():
        for n, q in b.items():
            x = mmul(m, n)
            out[x] = out.get(x, 0) + k * q
    return {m: k for m, k in out.items() if k}


def frompoly(p):
    p = {m: (cv(const(k)) if isinstance(k, float) else k) for m, k in p.items()}
    p = {m: k for m, k in p.items() if k}
    if not p:
        return C(0)
    if len(p) == 1:
        (m, k), = p.items()
        if m == ():
            return const(k)
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return T('poly', tuple(sorted(p.items(), key=lambda q: (len(q[0]), tuple((x.id, e) for x, e in q[0])))))


def ppow(p, e):
    if len(p) == 1:
        (m, k), = p.items()
        if k > 0 or isinstance(e, int):
            try:
                return {tuple((x, cv(const(float(q * e)))) for x, q in m): k ** e}
            except (OverflowError, ZeroDivisionError):
                return None
    if isinstance(e, int) and 0 <= e <= 4:
        out = {(): 1}
        for _ in range(e):
            out = pmul(out, p)
        return out
    return None


def atoms_of(t):
    return [x for m, _ in t.args[0] for x, _ in m] if t.op == 'poly' else [t]


class Canon:
    """facts: f(term) -> term, applied to every subterm first (what is known about the records)"""

    def __init__(self, facts=None, arrays=()):
        self.facts = facts or (lambda x: x)
        self.arrays = set(arrays)       # fields that are arrays
        self.memo = {}

    def __call__(self, t):
        for _ in range(6):
            n = rewrite(t, self.step)
            if n is t:
                break
            t = n
        return t

    # ---- which terms are arrays
    def isarray(self, t):
        if t.op in ('conv', 'elw', 'vec', 'full', 'arange', 'flat', 'reshape', 'interleave', 'flatcat', 'clip'):
            return t.op not in ('conv', 'elw', 'clip') or self.isarray(t.args[1])
        if t.op == 'poly':
            return any(self.isarray(x) for x in atoms_of(t))
        if t.op == 'item':
            if is_c(t.args[1]) and isinstance(cv(t.args[1]), str):
                return cv(t.args[1]) in self.arrays
            if self.isarray(t.args[0]):
                k = t.args[1]
                if k.op == 'slice':
                    return True
                if k.op == 'tup':
                    return any(x.op == 'slice' for x in k.args)
                return self.ndim(t.args[0]) != 1
        return False

    def ndim(self, t):
        if t.op in ('flat', 'flatcat', 'arange', 'interleave'):
            return 1
        if t.op in ('conv', 'elw', 'clip'):
            return self.ndim(t.args[1])
        return None

    def pushindex(self, t, k):
        """t[k] for an expression of arrays and scalars computed element by element"""
        if t.op == 'poly':
            return frompoly({mono: c for mono, c in self._mono(t, lambda x: self.pushindex(x, k) if self.isarray(x) else x)})
        if t.op in ('conv', 'elw', 'clip'):
            return T(t.op, t.args[0], self.pushindex(t.args[1], k), *t.args[2:])
        if t.op == 'item' and t.args[1].op == 'tup' and self.isarray(t.args[0]):
            inner = t.args[1].args
            outer = list(k.args) if k.op == 'tup' else [k]
            slots = [i for i, x in enumerate(inner) if x.op == 'slice']
            if len(outer) <= len(slots) and all(inner[i] is FULL for i in slots):
                new = list(inner)
                for i, x in zip(slots, outer):
                    new[i] = x
                return T('item', t.args[0], T('tup', *new))
        return T('item', t, k)

    def _mono(self, t, f):
        out = {}
        for m, c in t.args[0]:
            p = {(): c}
            for x, e in m:
                q = ppow(topoly(f(x)), e)
                p = pmul(p, q if q is not None else {((x, e),): 1})
            out = padd(out, p)
        return list(out.items())

    def push(self, op, t):
        """an operation on all elements in order, moved to the arrays"""
        if t.op == 'poly' and any(self.isarray(x) for x in atoms_of(t)):
            return frompoly(dict(self._mono(t, lambda x: self.push(op, x) if self.isarray(x) else x)))
        if t.op in ('conv', 'elw', 'clip'):
            return T(t.op, t.args[0], self.push(op, t.args[1]), *t.args[2:])
        return op(t)

    def flat(self, t):
        if self.ndim(t) == 1 and t.op in ('flat', 'flatcat', 'arange', 'interleave'):
            return t
        if t.op == 'vec':
            e = t.args[1]
            its = [t.args[0]]
            while e.op in ('vec', 'flat') or e.op == 'flatcat':
                if e.op == 'vec':
                    its.append(e.args[0])
                    e = e.args[1]
                elif e.op == 'flatcat':
                    its += list(e.args[0])
                    e = e.args[1]
                else:
                    e = e.args[0]
            return T('flatcat', tuple(its), e)
        return T('flat', t)

    def vec(self, it, e):
        """[e for element in it]"""
        el, ix = elem(it), idx(it)
        if not has_elem(e, it) and not any(s is ix for s in subterms(e)):
            return T('full', self(length(it)), e)
        if e is el:
            if it.op == 'range' and it.args[0] is C(0):
                return T('arange', it.args[1])
            return it if it.op != 'range' else T('vec', it, e)
        if self.isarray(it) or it.op == 'range':
            f = self.lift(e, it)
            if f is not None:
                return f
        return T('vec', it, e)

    def lift(self, e, it):
        """an element-by-element expression of the elements of it as an expression of it"""
        el, ix = elem(it), idx(it)
        base = it if it.op != 'range' else T('arange', it.args[1]) if it.args[0] is C(0) and len(it.args) == 2 else None
        if e is el:
            return base
        if e is ix:
            return T('arange', self(length(it)))
        if not any(s is el or s is ix for s in subterms(e)):
            return e if not self.isarray(e) else None
        if e.op == 'poly':
            bad = []

            def f(x):
                y = self.lift(x, it)
                if y is None:
                    bad.append(x)
                    return x
                return y
            out = frompoly(dict(self._mono(e, f)))
            return None if bad else out
        if e.op in ('conv', 'elw', 'clip'):
            y = self.lift(e.args[1], it)
            return None if y is None else T(e.op, e.args[0], y, *e.args[2:])
        return None

    # ---- one rewriting step, children already in normal form
    def step(self, t):
        t = self.facts(t)
        op = t.op
        if op == 'deepcopy' or op == 'mcall' and t.args[1] == 'copy' and nargs(t) == 0:
            return t.args[0]
        if op in ('lin', 'prod', 'div', 'pow', 'add', 'neg'):
            return self.arith(t)
        if op == 'poly':
            return frompoly(dict(self._mono(t, lambda x: x)))
        if op == 'attr':
            return self.attribute(t)
        if op == 'ite':
            return ite(*t.args)
        if op == 'cat' and any(x.op == 'str' for x in t.args):
            return T('cat', *[x.args[0] if x.op == 'str' and len(x.args) == 1 else x for x in t.args])
        if op == 'call':
            return self.call(t)
        if op == 'mcall':
            return self.method(t)
        if op == 'reshape' and len(t.args) == 2:
            if t.args[1] is C(-1) or t.args[1].op in ('list', 'tup') and t.args[1].args == (C(-1),):
                return self.push(self.flat, t.args[0])
            if t.args[0].op == 'conv' and not self.isarray(t.args[0].args[1]):
                return t
            if t.args[0].op in ('conv', 'elw', 'clip'):
                return T(t.args[0].op, t.args[0].args[0], T('reshape', t.args[0].args[1], t.args[1]), *t.args[0].args[2:])
            if t.args[1].op == 'list' and not any(x.op in ('many', 'splat', 'g') for x in t.args[1].args):
                return T('reshape', t.args[0], T('tup', *t.args[1].args))
            return t
        if op == 'item':
            return self.index(t)
        if op == 'not' and t.args[0].op in ('c',):
            return lnot(t.args[0])
        if op == 'lt0' or op == 'le0':
            return self.sign(t)
        if op == 'slice' and t.args[0] is C(0):
            return T('slice', C(None), *t.args[1:])
        if op == 'slice' and t.args[2] is C(1):
            return T('slice', t.args[0], t.args[1], C(None))
        if op == 'upd':
            return self.update(t)
        if op == 'list' and len(t.args) == 1 and t.args[0].op == 'many' and t.args[0].args[1] is TRUE and t.args[0].args[2].op not in ('kv', 'many', 'dict', 'list'):
            return self.vec(t.args[0].args[0], t.args[0].args[2])
        if op == 'len' and t.args[0].op in ('arange',):
            return t.args[0].args[0]
        if op == 'len' and self.isarray(t.args[0]):
            return self(T('item', T('attr', t.args[0], 'shape'), C(0)))
        if op == 'range' and len(t.args) == 2 and t.args[0] is not C(0):
            return t
        return t

    def arith(self, t):
        if t.op == 'lin':
            p = {(): t.args[0]} if t.args[0] else {}
            for x, k in t.args[1]:
                p = padd(p, pmul(topoly(x), {(): k}))
            out = frompoly(p)
            # x - floor(x)
            if out.op == 'poly' and len(out.args[0]) == 2:
                for (m1, k1), (m2, k2) in (out.args[0], out.args[0][::-1]):
                    if k1 == 1 and k2 == -1 and len(m1) == len(m2) == 1 and m2[0][0].op == 'elw' and m2[0][0].args[0] == 'floor' and m2[0][0].args[1] is m1[0][0] and m1[0][1] == m2[0][1] == 1:
                        return T('elw', 'frac', m1[0][0])
            return out
        if t.op == 'add' and len(t.args) == 2 and not any(x.op in ('list', 'tup', 'vec', 'full', 'cat') for x in t.args):
            return frompoly(padd(topoly(t.args[0]), topoly(t.args[1])))
        if t.op == 'prod':
            p = {(): 1}
            for x in t.args[0]:
                p = pmul(p, topoly(x))
            return frompoly(p)
        if t.op == 'div':
            d = topoly(t.args[1])
            q = ppow(d, -1) if len(d) == 1 else None
            if q is None:
                q = {((t.args[1], -1),): 1}
            return frompoly(pmul(topoly(t.args[0]), q))
        if t.op == 'pow' and isnum(t.args[1]):
            e = cv(const(cv(t.args[1])))
            p = topoly(t.args[0])
            if e == 0.5:
                z = self.modulus(p)
                if z is not None:
                    return z
            q = ppow(p, e)
            if q is not None:
                return frompoly(q)
        return t

    def modulus(self, p):
        """(z.real**2 + z.imag**2)"""
        if len(p) != 2:
            return None
        (m1, k1), (m2, k2) = p.items()
        if k1 == k2 and len(m1) >= 1:
            for a, b in ((m1, m2), (m2, m1)):
                da, db = dict(a), dict(b)
                za = [x for x in da if x.op == 'elw' and x.args[0] == 'real' and da[x] == 2]
                for x in za:
                    y = T('elw', 'imag', x.args[1])
                    ra = {u: e for u, e in da.items() if u is not x}
                    rb = {u: e for u, e in db.items() if u is not y}
                    if db.get(y) == 2 and ra == rb:
                        q = ppow({tuple(sorted(ra.items(), key=lambda p: (p[0].id, p[1]))): k1}, 0.5)
                        return frompoly(pmul(q, {((T('elw', 'abs', x.args[1]), 1),): 1})) if q else None
        return None

    def attribute(self, t):
        x, n = t.args
        if n in ('max', 'min') and callname(x) in ('numpy.iinfo', 'numpy.finfo'):
            a = arg(x, 0, 'int_type', 'type')
            if a is not None and a.op == 'ext' and a.args[0] in IINFO:
                return C(IINFO[a.args[0]][n == 'max'])
        if n in ('real', 'imag'):
            return self.part(n, x)
        if n == 'size' and self.isarray(x):
            if x.op == 'poly':
                a = [y for y in atoms_of(x) if self.isarray(y)]
                return T('attr', a[0], 'size')
            if x.op in ('conv', 'elw', 'clip'):
                return T('attr', x.args[1], 'size')
        if n == 'shape':
            if x.op in ('conv', 'elw', 'clip'):
                return T('attr', x.args[1], 'shape')
            if x.op == 'poly':
                a = [y for y in atoms_of(x) if self.isarray(y)]
                if a:
                    return T('attr', a[0], 'shape')
            if x.op == 'reshape':
                return x.args[1]
            if x.op == 'item' and x.args[1].op == 'tup' and self.isarray(x.args[0]):
                return T('shapeof', T('attr', x.args[0], 'shape'), x.args[1])
        if n == 'T':
            return T('unknown', t)
        return t

    def part(self, n, x):
        """real or imaginary part or modulus: real (for the modulus: positive) factors stay outside"""
        if x.op == 'poly' and len(x.args[0]) == 1:
            (m, k), = x.args[0]
            arr = [(y, e) for y, e in m if self.isarray(y)]
            rest = tuple((y, e) for y, e in m if not self.isarray(y))
            if len(arr) == 1 and arr[0][1] == 1:
                return frompoly(pmul({rest: k}, {((T('elw', n, arr[0][0]), 1),): 1}))
        return T('elw', n, x)

    def conv(self, d, x):
        """conversion of the element type"""
        if d.op != 'ext' and not (d.op == 'c' and isinstance(cv(d), str)):
            return None
        n = d.args[0] if d.op == 'ext' else 'numpy.' + cv(d)
        n = {'numpy.float_': 'numpy.float64', 'builtins.float': 'numpy.float64', 'builtins.complex': 'numpy.complex128'}.get(n, n)
        if n in INTS:
            x = strip(x)
        if x.op == 'conv' and x.args[0] == n:
            return x
        return T('conv', n, x)

    def call(self, t):
        n = callname(t)
        if n is None:
            return t
        a = arg(t, 0, 'object', 'a', 'x', 'x1', 'arr', 'array', 'm')
        if n in NUMTYPES and n not in ('builtins.int', 'builtins.bool'):
            if nargs(t) == 0:
                return C(0)
            if a is not None and nargs(t) == 1:
                return self.conv(T('ext', n), a) or t
        if n == 'builtins.int' and nargs(t) == 1:
            return T('elw', 'int', a) if not isnum(a) else C(int(cv(a)))
        if n == 'builtins.bool' and nargs(t) == 1 and a.op in ('in', 'eq', 'not', 'and', 'or', 'lt0', 'le0', 'c'):
            return a
        if n == 'builtins.float' and nargs(t) == 1:
            return a
        if n in ('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray'):
            d = arg(t, 1, 'dtype')
            if a is None or nargs(t) > (1 if d is None else 2):
                return t
            if a.op == 'range':
                a = T('arange', a.args[1]) if len(a.args) == 2 and a.args[0] is C(0) else a
            elif a.op == 'list' and len(a.args) == 1 and a.args[0].op == 'many':
                return t
            elif a.op == 'rep' and len(a.args) == 2 and a.args[0].op == 'list' and len(a.args[0].args) == 1:
                a = T('full', a.args[1], a.args[0].args[0])
            if d is None:
                return a if self.isarray(a) or a.op in ('arange', 'vec', 'full') else t
            return self.conv(d, a) or t
        if n in ('numpy.zeros', 'numpy.ones', 'numpy.full'):
            s = arg(t, 0, 'shape')
            if s is not None and s.op == 'tup' and len(s.args) == 1:
                s = s.args[0]
            v = C(0) if n == 'numpy.zeros' else C(1) if n == 'numpy.ones' else arg(t, 1, 'fill_value')
            d = arg(t, 1 if n != 'numpy.full' else 2, 'dtype')
            if s is None or v is None:
                return t
            f = T('full', s, v)
            return f if d is None else self.conv(d, f) or t
        if n == 'numpy.arange':
            d = arg(t, 9, 'dtype')
            if len(t.args[1]) == 2 and t.args[1][0] is C(0):
                a = t.args[1][1]
            elif len(t.args[1]) != 1 or a is None:
                return t
            r = T('arange', a)
            return r if d is None else self.conv(d, r) or t
        if n in ('numpy.floor', 'math.floor', 'numpy.rint', 'numpy.round', 'builtins.round', 'numpy.around', 'numpy.abs', 'numpy.absolute', 'builtins.abs',
                 'numpy.real', 'numpy.imag', 'numpy.sqrt', 'math.sqrt', 'math.trunc', 'numpy.trunc', 'numpy.sort', 'numpy.ceil', 'math.ceil', 'numpy.square') and nargs(t) == 1:
            f = n.rsplit('.', 1)[1]
            f = {'absolute': 'abs', 'around': 'round', 'rint': 'round', 'trunc': 'int'}.get(f, f)
            if f in ('real', 'imag'):
                return self.part(f, a)
            if f == 'sqrt':
                z = self.modulus(topoly(a))
                q = z if z is not None else None
                if q is None:
                    p = ppow(topoly(a), 0.5)
                    q = frompoly(p) if p else None
                return q if q is not None else T('elw', 'sqrt', a)
            if f == 'abs':
                return self.part('abs', a)
            if f == 'square':
                return frompoly(ppow(topoly(a), 2))
            if f == 'sort':
                return T('sorted', a)
            return T('elw', f, a)
        if n in ('numpy.fmod', 'numpy.mod', 'numpy.remainder', 'math.fmod'):
            b = arg(t, 1, 'x2')
            if b is not None and isnum(b) and cv(b) == 1:
                return T('elw', 'frac', a)
            return t
        if n in ('numpy.multiply', 'numpy.add', 'numpy.subtract', 'numpy.divide', 'numpy.true_divide', 'numpy.power') and nargs(t) == 2:
            b = arg(t, 1, 'x2')
            if b is None:
                return t
            f = {'multiply': 'prod', 'add': 'add', 'divide': 'div', 'true_divide': 'div', 'power': 'pow'}.get(n[6:])
            if f == 'prod':
                return self.arith(T('prod', (a, b)))
            if f is None:
                return frompoly(padd(topoly(a), topoly(b), -1))
            return self.arith(T(f, a, b))
        if n in ('numpy.minimum', 'numpy.maximum'):
            b = arg(t, 1, 'x2')
            if isnum(a) and b is not None and not isnum(b):
                a, b = b, a
            if b is not None and isnum(b):
                return self.clip(a, None, cv(b)) if n == 'numpy.minimum' else self.clip(a, cv(b), None)
            return t
        if n == 'numpy.clip':
            lo, hi = arg(t, 1, 'a_min'), arg(t, 2, 'a_max')
            if lo is not None and hi is not None and isnum(lo) and isnum(hi):
                return self.clip(a, cv(lo), cv(hi))
            return t
        if n == 'numpy.ravel' and nargs(t) == 1:
            return self.push(self.flat, a)
        if n in ('numpy.concatenate', 'numpy.hstack') and nargs(t) == 1 and a.op == 'vec' and self.ndim(a.args[1]) == 1:
            return self.flat(a)
        if n == 'numpy.reshape':
            s = arg(t, 1, 'newshape', 'shape')
            if s is not None and nargs(t) == 2:
                return T('reshape', a, s)
        if n == 'numpy.shape' and nargs(t) == 1:
            return self.attribute(T('attr', a, 'shape'))
        if n == 'numpy.size' and nargs(t) == 1:
            return self.attribute(T('attr', a, 'size'))
        if n == 'numpy.dtype' and nargs(t) == 1:
            return a
        return t

    def clip(self, a, lo, hi):
        if a.op == 'clip':
            l0, h0 = cv(a.args[2]), cv(a.args[3])
            lo = l0 if lo is None else lo if l0 is None else max(lo, l0)
            hi = h0 if hi is None else hi if h0 is None else min(hi, h0)
            a = a.args[1]
        return T('clip', 'clip', a, C(lo), C(hi))

    def method(self, t):
        x, n = t.args[0], t.args[1]
        if n == 'astype':
            d = arg(t, 0, 'dtype')
            if d is not None:
                return self.conv(d, x) or t
        if n in ('flatten', 'ravel') and nargs(t) == 0:
            return self.push(self.flat, x)
        if n == 'clip' and nargs(t) == 2:
            lo, hi = arg(t, 0, 'min', 'a_min'), arg(t, 1, 'max', 'a_max')
            if lo is not None and hi is not None and isnum(lo) and isnum(hi):
                return self.clip(x, cv(lo), cv(hi))
        if n == 'reshape':
            a = t.args[2]
            if len(a) == 1 and not t.args[3]:
                return T('reshape', x, a[0])
            if a and not t.args[3]:
                return T('reshape', x, T('tup', *a))
        if n in ('conj', 'conjugate') and nargs(t) == 0:
            return T('elw', 'conj', x)
        return t

    def index(self, t):
        x, k = t.args
        if x.op == 'shapeof' and isnum(k):
            slots = [i for i, s in enumerate(x.args[1].args) if s.op == 'slice']
            if 0 <= cv(k) < len(slots) and x.args[1].args[slots[cv(k)]] is FULL:
                return self(T('item', x.args[0], C(slots[cv(k)])))
        if k.op == 'tup' and all(s is FULL for s in k.args) or k is FULL:
            return x
        if x.op == 'arange' and k.op != 'slice':
            return k if k.op != 'tup' and not (isnum(k) and cv(k) < 0) else t
        if x.op == 'vec' and k.op == 'slice':
            return t
        if self.isarray(x) and x.op in ('poly', 'conv', 'elw', 'clip') or x.op == 'item' and x.args[1].op == 'tup':
            return self.pushindex(x, k)
        if x.op in ('tup', 'list') and isnum(k) and not any(s.op in ('many', 'splat', 'g', 'lvseg') for s in x.args) and -len(x.args) <= cv(k) < len(x.args):
            return x.args[cv(k)]
        return t

    def sign(self, t):
        """|x| > 0 says x differs from zero"""
        p = topoly(t.args[0])
        if t.op == 'lt0' and len(p) == 1:
            (m, k), = p.items()
            if k < 0 and len(m) == 1 and m[0][0].op == 'elw' and m[0][0].args[0] == 'abs':
                return lnot(T('eq', *sorted((m[0][0].args[1], C(0)), key=lambda x: x.id)))
        return t

    def update(self, t):
        """re and im parts stored at alternate positions"""
        base, segs = t.args[0], t.args[1]
        kvs = [s for s in segs if s.op == 'kv']
        if len(kvs) == len(segs) == 2 and not (len(t.args) > 2 and t.args[2]):
            at = {}
            for s in kvs:
                k = s.args[0]
                if k.op == 'slice' and k.args[1] is C(None) and k.args[2] is C(2):
                    at[0 if k.args[0] in (C(None), C(0)) else cv(k.args[0]) if isnum(k.args[0]) else None] = s.args[1]
            if set(at) == {0, 1}:
                d, size = None, None
                if callname(base) in ('numpy.empty',):
                    size, d = arg(base, 0, 'shape'), arg(base, 1, 'dtype')
                elif base.op == 'conv' and base.args[1].op == 'full':
                    size, d = base.args[1].args[0], T('ext', base.args[0])
                if size is not None and d is not None and d.op == 'ext':
                    want = self(mulc(self.attribute(T('attr', at[0], 'size')), 2))
                    if size.op == 'tup' and len(size.args) == 1:
                        size = size.args[0]
                    if want is size or self.sized(size, at[0]):
                        return T('interleave', d.args[0], at[0], at[1])
        return t

    def sized(self, size, x):
        """size is twice the size of x, of x's array or of its length"""
        for y in [x] + atoms_of(x):
            while y.op in ('elw', 'conv', 'clip'):
                y = y.args[1]
            for z in (T('attr', y, 'size'), T('len', y), T('item', T('attr', y, 'shape'), C(0))):
                if size is self(mulc(z, 2)) or size is mulc(z, 2):
                    return True
        return False


def mulc(t, k):
    return frompoly(pmul(topoly(t), {(): k}))


def strip(x):
    """rounding towards zero before a conversion to an integer type changes nothing (values here are not negative)"""
    while x.op == 'elw' and x.args[0] in ('int', 'floor'):
        x = x.args[1]
    return x


KNOWN = {'c', 'param', 'ext', 'cls', 'poly', 'conv', 'elw', 'clip', 'vec', 'full', 'arange', 'flat', 'flatcat', 'reshape', 'interleave', 'item', 'attr', 'slice', 'tup', 'list', 'elem', 'idx',
         'ite', 'cat', 'str', 'in', 'eq', 'not', 'and', 'or', 'lt0', 'le0', 'len', 'range', 'dict', 'kv', 'many', 'sumover', 'lshift', 'shapeof', 'sorted', 'lin', 'prod', 'div', 'pow', 'is', 'decode', 'setc', 'kw',
         'maxover', 'type', 'keys', 'setof', 'exc'}
KNOWN_M = {'split', 'strftime', 'astype'}
KNOWN_F = {'datetime.datetime.utcfromtimestamp', 'datetime.datetime.fromtimestamp', 'datetime.datetime.now', 'builtins.int', 'builtins.str', 'numpy.array_equal', 'numpy.all', 'numpy.array', 'os.path.realpath'}


def strange(*ts):
    """something outside the normal form: a difference proves nothing"""
    for t in ts:
        for s in subterms(t):
            if s.op == 'call':
                if callname(s) not in KNOWN_F or callname(s) == 'datetime.datetime.fromtimestamp' and nargs(s) > 1:
                    return s
            elif s.op == 'mcall':
                if s.args[1] not in KNOWN_M:
                    return s
            elif s.op not in KNOWN:
                return s
    return None
