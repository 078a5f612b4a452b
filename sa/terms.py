"""Hash-consed value terms and their normal forms.

A term is the abstract value of an expression.  Terms are interned, so two
terms are equal exactly when they are the same object; the constructors below
put the common arithmetic, comparison, string and collection expressions into
a normal form so that different spellings of one computation give one term.
"""


class T:
    __slots__ = ('op', 'args', 'id', '_h', '_sub')
    _pool = {}
    _n = 0

    def __new__(cls, op, *args):
        key = (op, args)
        t = cls._pool.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            cls._n += 1
            t.id = cls._n
            t._h = hash(key)
            t._sub = None
            cls._pool[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)


class K:
    """wrapper giving constants a type-aware identity"""
    __slots__ = ('v', 'k')

    def __init__(self, v):
        self.v = v
        self.k = (type(v).__name__, repr(v) if isinstance(v, float) else v)

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, K) and self.k == o.k

    def __repr__(self):
        return repr(self.v)


def C(v):
    return T('c', K(v))


# segment terms of a collection: repeated, spliced and conditional parts
SEGOPS = ('many', 'splat', 'g', 'lvseg', 'del')
CONSTY = ('c', 'ext', 'cls')
SETTY = ('setof', 'setdiff', 'union', 'setc', 'unionover')
PACKSIZE = {'b': 1, 'B': 1, 'c': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'f': 4,
            'd': 8, 'q': 8, 'Q': 8, '?': 1, 'x': 1}
NONE = C(None)
TRUE = C(True)
FALSE = C(False)
UNDEF = T('undef')


_ANY = object()


def is_c(t, v=_ANY):
    return t.op == 'c' and (v is _ANY or (type(t.args[0].v) is type(v) and t.args[0].v == v))


def cv(t):
    return t.args[0].v


def show(t, depth=12):
    if not isinstance(t, T):
        return repr(t)
    if depth == 0:
        return '…'
    d = depth - 1
    a = t.args
    if t.op == 'c':
        return repr(a[0].v)
    if t.op in ('param', 'ext', 'cls', 'fn', 'glob'):
        return str(a[0])
    if t.op == 'ref':
        return '#%s' % (a[0],)
    if t.op == 'item':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if t.op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if t.op == 'lin':
        return '(' + ' + '.join([str(a[0])] * (a[0] != 0) + ['%s%s' % ('' if k == 1 else str(k) + '*', show(x, d)) for x, k in a[1]]) + ')'
    if t.op == 'not':
        return 'not ' + show(a[0], d)
    if t.op == 'lt0':
        return '%s < 0' % show(a[0], d)
    if t.op == 'le0':
        return '%s <= 0' % show(a[0], d)
    if t.op == 'eq':
        return '(%s == %s)' % (show(a[0], d), show(a[1], d))
    return '%s(%s)' % (t.op, ', '.join(show(x, d) if isinstance(x, T) else (
        '[' + ', '.join(show(y, d) if isinstance(y, T) else repr(y) for y in x) + ']' if isinstance(x, tuple) else str(x)) for x in a))


# ---------------------------------------------------------------- traversal
def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            st = [a]
            while st:
                x = st.pop()
                for y in x:
                    if isinstance(y, T):
                        yield y
                    elif isinstance(y, tuple):
                        st.append(y)


def subterms(t):
    """set of all subterms including t (cached)"""
    if t._sub is None:
        out = {t}
        for c in children(t):
            out |= subterms(c)
        t._sub = frozenset(out)
    return t._sub


def contains(t, pred):
    return any(pred(s) for s in subterms(t))


_rebuild = {}


def rebuilder(op):
    def deco(f):
        _rebuild[op] = f
        return f
    return deco


def _mapargs(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_mapargs(x, f) for x in a)
    return a


def subst(t, m, _memo=None):
    """replace subterms by mapping m (dict term->term), renormalising"""
    if not m:
        return t
    if _memo is None:
        _memo = {}
    r = _memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in ('c', 'param', 'ext', 'ref', 'cls', 'fn'):
        r = t
    elif not any(k in subterms(t) for k in m):
        r = t
    else:
        args = tuple(_mapargs(a, lambda x: subst(x, m, _memo)) for a in t.args)
        r = build(t.op, *args)
    _memo[t] = r
    return r


def rewrite(t, fn, _memo=None):
    """bottom-up rewriting: fn(term)->term applied after children"""
    if _memo is None:
        _memo = {}
    r = _memo.get(t)
    if r is not None:
        return r
    if t.op in ('c', 'param', 'ext', 'ref', 'cls', 'fn'):
        r = fn(t)
    else:
        args = tuple(_mapargs(a, lambda x: rewrite(x, fn, _memo)) for a in t.args)
        r = fn(build(t.op, *args))
    _memo[t] = r
    return r


def build(op, *args):
    f = _rebuild.get(op)
    if f is not None:
        return f(*args)
    return T(op, *args)


# ---------------------------------------------------------------- arithmetic
def _is_num(t):
    return t.op == 'c' and isinstance(cv(t), (int, float, complex)) and not isinstance(cv(t), bool)


def _linparts(t):
    """(const, {term: coef})"""
    if t.op == 'c' and isinstance(cv(t), (int, float)):
        return (int(cv(t)) if isinstance(cv(t), bool) else cv(t)), {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


@rebuilder('lin')
def _rb_lin(c, parts):
    out = C(c)
    for x, k in parts:
        out = add(out, mul(x, C(k)))
    return out


def _mklin(c, d):
    d = {x: k for x, k in d.items() if k != 0}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (x, k), = d.items()
        if k == 1:
            return x
    return T('lin', c, tuple(sorted(d.items(), key=lambda p: p[0].id)))


STRY = ('cat', 'str', 'decode', 'strm')


def _stringy(t):
    return (t.op == 'c' and isinstance(cv(t), (str, bytes))) or t.op in ('cat', 'str', 'encode', 'pack', 'manyb', 'decode', 'fmt')


@rebuilder('add')
def add(a, b):
    if a.op == 'ite' and (_is_num(a.args[1]) or _is_num(a.args[2])) and _is_num(b):
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    if _stringy(a) or _stringy(b):
        return cat(a, b)
    if a.op == 'c' and b.op == 'c':
        try:
            return C(cv(a) + cv(b))
        except TypeError:
            return T('add', a, b)
    if a.op in ('list', 'tup') or b.op in ('list', 'tup'):
        return T('add', a, b)
    if _is_num(a) and isinstance(cv(a), complex) or _is_num(b) and isinstance(cv(b), complex):
        return T('add', a, b)
    c1, d1 = _linparts(a)
    c2, d2 = _linparts(b)
    d = dict(d1)
    for x, k in d2.items():
        d[x] = d.get(x, 0) + k
    return _mklin(c1 + c2, d)


def neg(a):
    return mul(a, C(-1))


@rebuilder('sub')
def sub(a, b):
    if a.op in ('setof', 'setdiff', 'union', 'keys') or b.op in ('setof', 'setdiff', 'union', 'keys'):
        return setdiff(a, b)
    return add(a, neg(b))


@rebuilder('mul')
def mul(a, b):
    if a.op == 'c' and b.op == 'c' and _is_num(a) and _is_num(b):
        return C(cv(a) * cv(b))
    if _is_num(a) and not _is_num(b):
        a, b = b, a
    if _is_num(b) and not isinstance(cv(b), complex):
        k = cv(b)
        if k == 1 and isinstance(k, int):
            return a
        if a.op in ('list', 'tup', 'cat', 'rep') or _stringy(a):
            return T('rep', a, b)
        if isinstance(k, int):
            c, d = _linparts(a)
            return _mklin(c * k, {x: q * k for x, q in d.items()})
    if a.op in ('list', 'tup'):
        return T('rep', a, b)
    if b.op in ('list', 'tup'):
        return T('rep', b, a)
    fs = []
    coef = 1
    for x in (a, b):
        for f in (x.args[0] if x.op == 'prod' else (x,)):
            if _is_num(f):
                coef = coef * cv(f)
            elif f.op == 'lin' and f.args[0] == 0 and len(f.args[1]) == 1 and isinstance(f.args[1][0][1], int):
                coef *= f.args[1][0][1]
                y = f.args[1][0][0]
                fs.extend(y.args[0] if y.op == 'prod' else (y,))
            else:
                fs.append(f)
    if coef != 1 and not isinstance(coef, int):
        fs.append(C(coef))
        coef = 1
    fs.sort(key=lambda x: x.id)
    p = T('prod', tuple(fs)) if len(fs) > 1 else fs[0]
    if coef != 1:
        return mul(p, C(coef))
    return p


@rebuilder('prod')
def _rb_prod(fs):
    out = fs[0]
    for f in fs[1:]:
        out = mul(out, f)
    return out


def div(a, b):
    if _is_num(a) and _is_num(b) and cv(b) != 0:
        return C(cv(a) / cv(b))
    return T('div', a, b)


# ---------------------------------------------------------------- strings
@rebuilder('cat')
def cat(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == 'cat' else (p,)
        for q in ps:
            if q.op == 'c' and isinstance(cv(q), (str, bytes)) and len(cv(q)) == 0:
                continue
            if out and q.op == 'c' and out[-1].op == 'c' and type(cv(q)) is type(cv(out[-1])) and isinstance(cv(q), (str, bytes)):
                out[-1] = C(cv(out[-1]) + cv(q))
            else:
                out.append(q)
    if not out:
        for p in parts:
            if p.op == 'c':
                return C(type(cv(p))())
        return C('')
    if len(out) == 1:
        return out[0]
    return T('cat', *out)


@rebuilder('str')
def tostr(t):
    if t.op == 'c':
        return C(str(cv(t)))
    if t.op in ('str', 'cat', 'decode'):
        return t
    return T('str', t)


@rebuilder('encode')
def encode(t):
    """utf-8 encoding distributes over concatenation"""
    if t.op == 'c' and isinstance(cv(t), str):
        return C(cv(t).encode('utf-8'))
    if t.op == 'cat':
        return cat(*[encode(p) for p in t.args])
    if t.op == 'decode':
        return t.args[0]
    return T('encode', t)


# ---------------------------------------------------------------- logic
def _chknum(t):
    return True


@rebuilder('eq')
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return C(bool(cv(a) == cv(b)))
    if a.op in ('ext', 'cls', 'fn') and b.op in ('ext', 'cls', 'fn'):
        return C(a is b)
    if a.op in ('ext', 'cls', 'fn') and b.op == 'c' or b.op in ('ext', 'cls', 'fn') and a.op == 'c':
        return FALSE
    if a.op == 'tup' and b.op == 'tup':
        if len(a.args) != len(b.args):
            return FALSE
        return land(*[eq(x, y) for x, y in zip(a.args, b.args)])
    for x, y in ((a, b), (b, a)):
        if x.op == 'len' and _is_num(y):
            if cv(y) == 0:
                return lnot(nonempty(x.args[0]))
        if y.op == 'c' and x.op == 'ite' and (x.args[1].op == 'c' or x.args[2].op == 'c'):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
        if y.op == 'c' and isinstance(cv(y), bool) and x.op in ('not', 'eq', 'lt0', 'le0', 'in', 'and', 'or', 'nonempty', 'isinstance', 'is'):
            return x if cv(y) else lnot(x)
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if d.op == 'c':
            return C(cv(d) == 0)
        # canonical sign
        if d.op == 'lin':
            if d.args[1][0][1] < 0:
                d = neg(d)
            # back to  lhs == const  when single term
            if len(d.args[1]) == 1 and d.args[1][0][1] == 1:
                return T('eq', d.args[1][0][0], C(-d.args[0]))
            if len(d.args[1]) == 2 and d.args[0] == 0 and {k for _, k in d.args[1]} == {1, -1}:
                x, y = d.args[1][0][0], d.args[1][1][0]
                if x.id > y.id:
                    x, y = y, x
                return T('eq', x, y)
            return T('eq', d, C(0))
    if a.op == 'c' or (b.op != 'c' and a.id > b.id):
        a, b = b, a
    return T('eq', a, b)


@rebuilder('is')
def is_(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return C(cv(a) is cv(b))
    for x, y in ((a, b), (b, a)):
        if y is NONE and x.op in ('ref', 'tup', 'list', 'dict', 'fn', 'ext', 'cls', 'cat', 'len', 'lin', 'str', 'setof'):
            return FALSE
        if y.op == 'c' and x.op == 'ite':
            return ite(x.args[0], is_(x.args[1], y), is_(x.args[2], y))
    if a.op in ('ext', 'cls', 'fn') and b.op in ('ext', 'cls', 'fn'):
        return C(a is b)
    if a.op == 'c' or (b.op != 'c' and a.id > b.id):
        a, b = b, a
    return T('is', a, b)


def by_cases(f, d):
    """f of a sum with a choice between two numbers in it, as a choice between two comparisons"""
    for x in ([d] if d.op == 'ite' else [v for v, k in d.args[1] if v.op == 'ite'] if d.op == 'lin' else ()):
        if is_c(x.args[1]) and is_c(x.args[2]) and _is_num(x.args[1]) and _is_num(x.args[2]):
            c = x.args[0]
            return lor(land(c, f(subst(d, {x: x.args[1]}))), land(lnot(c), f(subst(d, {x: x.args[2]}))))
    return None


@rebuilder('lt0')
def lt0(d):
    r = by_cases(lt0, d)
    if r is not None:
        return r
    if d.op == 'c':
        return C(cv(d) < 0)
    if d.op == 'lin' and d.args[0] in (0, 1) and len(d.args[1]) == 1:
        (x, k), = d.args[1]
        if x.op == 'len':
            if k == -1 and d.args[0] == 0:      # -len < 0
                return nonempty(x.args[0])
            if k == 1 and d.args[0] == 1:
                return FALSE
    if d.op == 'lin' and d.args[0] == -1 and len(d.args[1]) == 1:
        (x, k), = d.args[1]
        if x.op == 'len' and k == 1:            # len < 1
            return lnot(nonempty(x.args[0]))
    if d.op == 'len':
        return FALSE
    return T('lt0', d)


@rebuilder('le0')
def le0(d):
    r = by_cases(le0, d)
    if r is not None:
        return r
    if d.op == 'c':
        return C(cv(d) <= 0)
    if d.op == 'len':
        return lnot(nonempty(d.args[0]))
    if d.op == 'lin' and len(d.args[1]) == 1:
        (x, k), = d.args[1]
        if x.op == 'len' and k == -1 and d.args[0] == 1:   # 1 - len <= 0
            return nonempty(x.args[0])
        if x.op == 'len' and k == -1 and d.args[0] == 0:
            return TRUE
    return T('le0', d)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


@rebuilder('not')
def lnot(t):
    if t.op == 'c':
        return C(not cv(t))
    if t.op == 'not':
        return t.args[0]
    if t.op == 'lt0':
        return le0(neg(t.args[0]))
    if t.op == 'le0':
        return lt0(neg(t.args[0]))
    if t.op == 'and':
        return lor(*[lnot(x) for x in t.args])
    if t.op == 'or':
        return land(*[lnot(x) for x in t.args])
    if t.op == 'ite':
        return ite(t.args[0], lnot(t.args[1]), lnot(t.args[2]))
    return T('not', t)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    return out


DISJOINT = [lambda a, b: False]


def _consteq(t):
    if t.op == 'eq' and t.args[1].op in CONSTY:
        return t.args[0], t.args[1]
    return None


def _absorb(out):
    """drop conjuncts implied by another (x == c1 implies x != c2, x an A
    implies x not a B for disjoint classes, a or b when a holds); None when
    contradictory"""
    eqs = {}
    for t in out:
        ce = _consteq(t)
        if ce:
            if ce[0] in eqs and is_c(eq(eqs[ce[0]], ce[1]), False):
                return None
            eqs[ce[0]] = ce[1]
    isi = [t for t in out if t.op == 'isinstance']
    if not eqs and not isi and not any(t.op == 'or' or t.op == 'not' and t.args[0].op == 'and' for t in out):
        return out
    res = []
    for t in out:
        u = t.args[0] if t.op == 'not' else None
        if eqs and t.op in ('not', 'in', 'eq', 'or', 'lt0', 'le0', 'and') and not (_consteq(t) and eqs.get(t.args[0]) is t.args[1]):
            r = subst(t, {k: v for k, v in eqs.items() if k in subterms(t)})
            if is_c(r, True):
                continue
            if is_c(r, False):
                return None
        if u is not None and u.op == 'isinstance' and any(
                v.args[0] is u.args[0] and DISJOINT[0](v.args[1], u.args[1]) for v in isi):
            continue
        if t.op == 'isinstance' and any(v is not t and v.args[0] is t.args[0] and DISJOINT[0](v.args[1], t.args[1]) for v in isi):
            return None
        if t.op == 'or':
            if any(x in out for x in t.args):
                continue
            keep = [x for x in t.args if lnot(x) not in out]
            if len(keep) != len(t.args):
                if not keep:
                    return None
                t = lor(*keep)
        res.append(t)
    ors = [(t, set(t.args)) for t in res if t.op == 'or']
    if len(ors) > 1:        # (a or b) and (a or b or c)
        drop = {t for t, a in ors if any(b < a for u, b in ors)}
        if drop:
            res = [t for t in res if t not in drop]
    return res


@rebuilder('and')
def land(*ts):
    out = []
    for t in _flat('and', ts):
        if is_c(t, True):
            continue
        if is_c(t, False):
            return FALSE
        if t not in out:
            out.append(t)
    out = _absorb(out)
    if out is None:
        return FALSE
    for t in out:
        if lnot(t) in out:
            return FALSE
    if not out:
        return TRUE
    out.sort(key=lambda x: x.id)
    return out[0] if len(out) == 1 else T('and', *out)


@rebuilder('or')
def lor(*ts):
    out = []
    for t in _flat('or', ts):
        if is_c(t, False):
            continue
        if is_c(t, True):
            return TRUE
        if t not in out:
            out.append(t)
    if any(lnot(t) in out for t in out):
        return TRUE
    neg_ = [lnot(t) for t in out]
    ab = _absorb(neg_)
    if ab is None:
        return TRUE
    if ab != neg_:
        out = [lnot(t) for t in ab]
    if not out:
        return FALSE
    # x<0 or x==0  ->  x<=0
    for t in list(out):
        if t.op == 'lt0':
            d = t.args[0]
            for u in out:
                if u.op == 'eq' and (sub(u.args[0], u.args[1]) is d or neg(sub(u.args[0], u.args[1])) is d):
                    rest = [w for w in out if w is not t and w is not u]
                    return lor(le0(d), *rest)
    out.sort(key=lambda x: x.id)
    return out[0] if len(out) == 1 else T('or', *out)


BOOLY = {'eq', 'lt0', 'le0', 'not', 'and', 'or', 'in', 'is', 'isinstance', 'nonempty', 'any', 'exc', 'issubclass', 'truth'}


def is_bool(t):
    return t.op in BOOLY or (t.op == 'c' and isinstance(cv(t), bool))


@rebuilder('ite')
def ite(c, a, b):
    if is_c(c, True):
        return a
    if is_c(c, False):
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if is_bool(a) and is_bool(b):
        if is_c(a, True) or a is c:
            return lor(c, b)
        if is_c(b, False) or b is c:
            return land(c, a)
        if is_c(a, False):
            return land(lnot(c), b)
        if is_c(b, True):
            return lor(lnot(c), a)
    # prefer non-strict/lt0 canonical orientation: lt0/le0 duals
    if c.op == 'le0':
        n = lnot(c)
        if n.op == 'lt0':
            return ite(n, b, a)
    # max / min idioms
    if c.op == 'lt0':
        d = c.args[0]
        if sub(a, b) is d:
            return T('min2', *sorted((a, b), key=lambda x: x.id))
        if sub(b, a) is d:
            return T('max2', *sorted((a, b), key=lambda x: x.id))
    if b.op == 'ite' and b.args[1] is a:
        return ite(lor(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(land(c, a.args[0]), a.args[1], b)
    return T('ite', c, a, b)


def max2(a, b):
    if a is b:
        return a
    if _is_num(a) and _is_num(b):
        return C(max(cv(a), cv(b)))
    return T('max2', *sorted((a, b), key=lambda x: x.id))


def min2(a, b):
    if a is b:
        return a
    if _is_num(a) and _is_num(b):
        return C(min(cv(a), cv(b)))
    return T('min2', *sorted((a, b), key=lambda x: x.id))


# ---------------------------------------------------------------- collections
@rebuilder('deepcopy')
def deepcopy(t):
    if t.op in ('deepcopy', 'c', 'str', 'idx', 'len', 'lin', 'ext', 'cls', 'fn', 'pack', 'manyb', 'bytes', 'encode', 'eq', 'in', 'and', 'or', 'not', 'range'):
        return t
    return T('deepcopy', t)


def keeps_keys(t):
    """a collection some of whose entries were given other values"""
    return t.op == 'upd' and bool(t.args[1]) and not t.args[2] and all(
        s.op == 'many' and s.args[2].op == 'kv' and s.args[2].args[0] is elem(s.args[0]) and keyroot(s.args[0]) is keyroot(t.args[0]) for s in t.args[1])


def keyroot(t):
    """the collection whose keys these are"""
    while t.op in ('deepcopy', 'keys') or keeps_keys(t):
        t = t.args[0]
    return t


@rebuilder('keys')
def keys(t):
    if t.op == 'deepcopy' or keeps_keys(t):
        return keys(t.args[0])
    if t.op == 'keys':
        return t
    return T('keys', t)


@rebuilder('setof')
def setof(t):
    if t.op in ('setof', 'setdiff', 'union', 'setc', 'unionover'):
        return t
    if t.op == 'ite' and (t.args[1].op in SETTY or t.args[2].op in SETTY):
        return ite(t.args[0], setof(t.args[1]), setof(t.args[2]))
    if t.op == 'keys':
        return setof(t.args[0])
    if t.op == 'deepcopy':
        return setof(t.args[0])
    if t.op == 'dict' and all(e.op == 'kv' and e.args[0].op in CONSTY for e in t.args):
        return T('setc', *sorted({e.args[0] for e in t.args}, key=lambda x: x.id))
    if t.op in ('list', 'tup') and all(e.op in CONSTY for e in t.args):
        return T('setc', *sorted(set(t.args), key=lambda x: x.id))
    if t.op == 'list' and len(t.args) == 1 and t.args[0].op == 'splat':
        return setof(t.args[0].args[0])
    return T('setof', t)


def issetty(t):
    return t.op in SETTY or t.op == 'ite' and issetty(t.args[1]) and issetty(t.args[2])


@rebuilder('setdiff')
def setdiff(a, b):
    a, b = setof(a), setof(b)
    if a.op == 'setc' and b.op == 'setc':
        return T('setc', *[x for x in a.args if x not in b.args])
    if a is b:
        return T('setc')
    return T('setdiff', a, b)


@rebuilder('union')
def union(*ts):
    out = []
    consts = set()
    for t in ts:
        for u in (t.args if t.op == 'union' else (t,)):
            u = setof(u)
            if u.op == 'setc':
                consts |= set(u.args)
            elif u not in out:
                out.append(u)
    if consts or not out:
        out.append(T('setc', *sorted(consts, key=lambda x: x.id)))
    out.sort(key=lambda x: x.id)
    return out[0] if len(out) == 1 else T('union', *out)


@rebuilder('unionover')
def unionover(it, guard, e):
    e = setof(e) if e.op not in ('ite', 'setc') else e
    if is_c(guard, False) or e is T('setc'):
        return T('setc')
    if e.op == 'ite':
        if e.args[1] is T('setc'):
            return unionover(it, land(guard, lnot(e.args[0])), e.args[2])
        if e.args[2] is T('setc'):
            return unionover(it, land(guard, e.args[0]), e.args[1])
    return T('unionover', it, guard, e)


@rebuilder('nonempty')
def nonempty(t):
    if t.op == 'union':
        return lor(*[nonempty(a) for a in t.args])
    if t.op == 'unionover':
        return anyover(t.args[0], land(t.args[1], nonempty(t.args[2])))
    if t.op == 'setdiff':
        # a - b is not empty: some element of a is outside b
        a, b = t.args
        src = a.args[0] if a.op == 'setof' else a
        return anyover(src, lnot(isin(elem(src), b)))
    if t.op == 'ite':
        return ite(t.args[0], nonempty(t.args[1]), nonempty(t.args[2]))
    if t.op in ('list', 'dict') and t.args and all(a.op in ('many', 'g', 'splat') and not (a.op == 'g' and a.args[1].op == 'del') for a in t.args):
        out = []
        for a in t.args:
            if a.op == 'many':
                out.append(anyover(a.args[0], a.args[1]))
            elif a.op == 'splat':
                out.append(nonempty(a.args[0]))
            else:
                out.append(a.args[0])
        return lor(*out)
    if t.op == 'setof':
        return nonempty(t.args[0])
    if t.op in ('list', 'tup', 'setc', 'dict'):
        if any(a.op not in SEGOPS for a in t.args):
            return TRUE
        if not t.args:
            return FALSE
    if t.op == 'c':
        try:
            return C(len(cv(t)) > 0)
        except TypeError:
            pass
    if t.op == 'keys' or t.op == 'deepcopy' or t.op == 'sorted' or keeps_keys(t):
        return nonempty(t.args[0])
    return T('nonempty', t)


@rebuilder('len')
def length(t):
    if t.op == 'c' and hasattr(cv(t), '__len__'):
        return C(len(cv(t)))
    if t.op in ('list', 'tup', 'setc') and not any(a.op in SEGOPS for a in t.args):
        return C(len(t.args))
    if t.op == 'dict' and all(e.op == 'kv' and e.args[0].op in CONSTY for e in t.args):
        return C(len({e.args[0] for e in t.args}))
    if t.op == 'cat':
        out = C(0)
        for p in t.args:
            out = add(out, length(p))
        return out
    if t.op == 'pack' and is_c(t.args[0]):
        f = cv(t.args[0])
        if isinstance(f, str) and f.lstrip('>!') in PACKSIZE:
            return C(PACKSIZE[f.lstrip('>!')])
    if t.op == 'manyb':
        return sumover(t.args[0], t.args[1], length(t.args[2]))
    if t.op == 'ite' and (t.args[1].op in ('c', 'pack', 'cat') or t.args[2].op in ('c', 'pack', 'cat')):
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if t.op in ('keys', 'deepcopy', 'sorted', 'rev', 'enumerate', 'items', 'values') or keeps_keys(t):
        return length(t.args[0])
    if t.op == 'list' and any(a.op in SEGOPS for a in t.args) and not any(a.op in ('lvseg', 'del') for a in t.args):
        out = C(0)
        for a in t.args:
            if a.op == 'many':
                out = add(out, sumover(a.args[0], a.args[1], C(1)))
            elif a.op == 'splat':
                out = add(out, length(a.args[0]))
            elif a.op == 'g':
                out = add(out, ite(a.args[0], C(1), C(0)))
            else:
                out = add(out, C(1))
        return out
    if t.op == 'range' and len(t.args) == 2 and is_c(t.args[0], 0):
        return t.args[1]
    return T('len', t)


@rebuilder('elem')
def elem(it):
    """generic element of an iterable"""
    if it.op == 'range':
        if len(it.args) == 2 and is_c(it.args[0], 0) and it.args[1].op == 'len':
            return T('idx', it.args[1].args[0])
    if it.op == 'setof':
        return elem(keys(it.args[0])) if False else T('elem', it.args[0])
    if it.op == 'keys':
        return T('elem', it.args[0])
    if it.op == 'list' and len(it.args) == 1 and it.args[0].op == 'many' and is_c(it.args[0].args[1], True):
        return it.args[0].args[2]
    if it.op == 'list' and len(it.args) == 1 and it.args[0].op == 'splat':
        return elem(it.args[0].args[0])
    if it.op == 'deepcopy':
        return deepcopy(elem(it.args[0]))
    if keeps_keys(it):
        return elem(keyroot(it))
    return T('elem', it)


@rebuilder('idx')
def idx(it):
    if it.op in ('keys', 'deepcopy') or keeps_keys(it):
        return idx(keyroot(it))
    if it.op == 'list' and len(it.args) == 1 and it.args[0].op == 'many' and is_c(it.args[0].args[1], True):
        return idx(it.args[0].args[0])
    if it.op == 'list' and len(it.args) == 1 and it.args[0].op == 'splat':
        return idx(it.args[0].args[0])
    return T('idx', it)


@rebuilder('item')
def item(base, k):
    if base.op == 'dict' and base.args and base.args[-1].op == 'many' and k.op not in CONSTY and base.args[-1].args[2].op == 'kv' \
            and base.args[-1].args[2].args[0] is k:
        return base.args[-1].args[2].args[1]
    if k.op == 'idx' and (k.args[0] is base or k is idx(base)):
        return elem(base)
    if k.op == 'idx' and k.args[0].op == 'again' and k.args[0].args[0] is base:
        return T('elem', k.args[0])
    if base.op == 'keys' and k.op == 'idx' and k.args[0] is base.args[0]:
        return elem(base)
    if base.op == 'tup' and k.op == 'c' and isinstance(cv(k), int):
        if -len(base.args) <= cv(k) < len(base.args):
            return base.args[cv(k)]
    if base.op == 'list' and k.op == 'c' and isinstance(cv(k), int) and not any(a.op in SEGOPS for a in base.args):
        if -len(base.args) <= cv(k) < len(base.args):
            return base.args[cv(k)]
    if base.op == 'dict' and k.op in CONSTY:
        if all(e.op == 'kv' and e.args[0].op in CONSTY for e in base.args):
            hit = [e for e in base.args if e.args[0] is k]
            if hit:
                return hit[-1].args[1]
    if base.op == 'c' and isinstance(cv(base), (str, bytes, tuple)) and k.op == 'c' and isinstance(cv(k), int):
        try:
            return C(cv(base)[cv(k)])
        except IndexError:
            pass
    if base.op == 'ite' and k.op == 'c' and (base.args[1].op in ('tup', 'list', 'dict') or base.args[2].op in ('tup', 'list', 'dict')):
        return ite(base.args[0], item(base.args[1], k), item(base.args[2], k))
    if base.op == 'upd':
        # the last of the changes that settles the entry
        b, segs, _ = base.args
        for s in reversed(segs):
            if s.op == 'kv' and s.args[0].op in CONSTY and k.op in CONSTY:
                if s.args[0] is k or is_c(eq(s.args[0], k), True):
                    return s.args[1]
                continue
            if s.op == 'kv' and s.args[0] is k:
                return s.args[1]
            if s.op == 'many' and is_c(s.args[1], True) and s.args[2].op == 'kv' and s.args[2].args[0] is elem(s.args[0]):
                if k.op == 'elem' and keyroot(k.args[0]) is keyroot(s.args[0]):
                    return s.args[2].args[1]
                if k.op == 'item' and k.args[1].op == 'c' and type(cv(k.args[1])) is int and keyroot(k.args[0]) is keyroot(s.args[0]):
                    return subst(s.args[2].args[1], {elem(s.args[0]): k})
            break
        else:
            return item(b, k)
        if keeps_keys(base) and k.op == 'c' and type(cv(k)) is int:
            return item(keyroot(base), k)       # a key by its position
    return T('item', base, k)


@rebuilder('in')
def isin(x, coll):
    if coll.op in ('keys', 'setof') or keeps_keys(coll):
        return isin(x, coll.args[0])
    if coll.op in ('list', 'tup', 'setc'):
        els = coll.args
        if all(isinstance(e, T) and e.op in ('c', 'ext', 'cls') for e in els):
            if x.op in ('c', 'ext', 'cls'):
                return C(any(is_c(eq(x, e), True) for e in els))
            if len(els) == 0:
                return FALSE
            if len(els) == 1:
                return eq(x, els[0])
            return T('in', x, T('setc', *sorted(set(els), key=lambda e: e.id)))
    if coll.op == 'dict' and all(e.op == 'kv' and e.args[0].op in CONSTY for e in coll.args):
        return isin(x, T('setc', *sorted({e.args[0] for e in coll.args}, key=lambda e: e.id)))
    if coll.op == 'dict' and x.op in CONSTY and coll.args and all(
            (e.args[1] if e.op == 'g' else e).op == 'kv' and (e.args[1] if e.op == 'g' else e).args[0].op in CONSTY for e in coll.args):
        return lor(*[e.args[0] if e.op == 'g' else TRUE for e in coll.args if is_c(eq((e.args[1] if e.op == 'g' else e).args[0], x), True)])
    if coll.op == 'list' and len(coll.args) == 1 and coll.args[0].op == 'splat':
        return isin(x, coll.args[0].args[0])
    if coll.op == 'union':
        return lor(*[isin(x, a) for a in coll.args])
    if coll.op == 'setdiff':
        return land(isin(x, coll.args[0]), lnot(isin(x, coll.args[1])))
    if coll.op == 'unionover':
        return anyover(coll.args[0], land(coll.args[1], isin(x, coll.args[2])))
    if coll.op in ('deepcopy', 'rev'):
        return isin(x, coll.args[0])
    if coll.op == 'list' and len(coll.args) == 1 and coll.args[0].op == 'many' and coll.args[0].args[2].op not in ('kv',):
        J, G, V = coll.args[0].args
        if V is not elem(J) or not is_c(G, True):
            return anyover(J, land(G, eq(V, x)))
    if coll.op == 'sorted':
        return isin(x, coll.args[0])
    if coll.op == 'c' and x.op == 'c':
        try:
            return C(cv(x) in cv(coll))
        except TypeError:
            pass
    return T('in', x, coll)


# ---------------------------------------------------------------- folds over an iterable
@rebuilder('sumover')
def sumover(it, guard, e):
    if is_c(guard, False) or is_c(e, 0):
        return C(0)
    if e.op == 'c' and is_c(guard, True):
        return mul(length(it), e)
    if e.op == 'ite' and is_c(e.args[2], 0):
        return sumover(it, land(guard, e.args[0]), e.args[1])
    if e.op == 'ite' and is_c(e.args[1], 0):
        return sumover(it, land(guard, lnot(e.args[0])), e.args[2])
    return T('sumover', it, guard, e)


@rebuilder('prodover')
def prodover(it, guard, e):
    if is_c(guard, False) or is_c(e, 1):
        return C(1)
    return T('prodover', it, guard, e)


def mkpack(fmt, *vals):
    """struct.pack(fmt, *vals): one 'pack' term per value when the layout is certain"""
    if fmt.op == 'ite':
        return ite(fmt.args[0], mkpack(fmt.args[1], *vals), mkpack(fmt.args[2], *vals))
    if fmt.op == 'c' and isinstance(cv(fmt), (str, bytes)):
        f = cv(fmt) if isinstance(cv(fmt), str) else cv(fmt).decode()
        order = ''
        if f and f[0] in '@=<>!':
            order, f = f[0], f[1:]
        aligned = order in ('', '@')
        if order in '@=<':
            order = ''                  # the supported machines are little-endian
        codes, num, ok = [], '', True
        for ch in f:
            if ch.isdigit():
                num += ch
            elif ch == ' ':
                continue
            elif ch == 's':
                ok = ok and len(f.strip()) == len(num) + 1
                codes.append(num + ch)
                num = ''
            else:
                codes.extend([ch] * (int(num) if num else 1))
                num = ''
        if ok and len(codes) == len(vals) and (len(codes) <= 1 or not aligned or len(set(codes)) == 1):
            return cat(*[pack1(order, c, v) for c, v in zip(codes, vals)])
        return T('packm', C(cv(fmt) if isinstance(cv(fmt), str) else cv(fmt).decode()), *vals)
    return T('pack' if len(vals) == 1 else 'packm', fmt, *vals)


def pack1(order, c, v):
    if c == 'c':
        # one byte given as text: chr(n) encoded is the byte n for n < 128
        if v.op == 'encode' and v.args[0].op == 'chr':
            return T('pack', C('b'), v.args[0].args[0])
        if v.op == 'pack' and v.args[0] in (C('b'), C('B')):
            return T('pack', C('b'), v.args[1])
    return T('pack', C(order + c), v)


@rebuilder('pack')
def r_pack(fmt, v):
    return mkpack(fmt, v)


@rebuilder('packm')
def r_packm(fmt, *vals):
    return mkpack(fmt, *vals)


@rebuilder('manyb')
def manyb(it, guard, e):
    if is_c(guard, False) or (e.op == 'c' and len(cv(e)) == 0):
        return C(b'')
    if e.op == 'ite':
        if e.args[1].op == 'c' and cv(e.args[1]) in (b'', ''):
            return manyb(it, land(guard, lnot(e.args[0])), e.args[2])
        if e.args[2].op == 'c' and cv(e.args[2]) in (b'', ''):
            return manyb(it, land(guard, e.args[0]), e.args[1])
    return T('manyb', it, guard, e)


LOOPLV = {}     # iterable -> ids of the loops over it and of the loops inside them


def has_elem(t, it):
    """t may differ between the iterations over it"""
    e = elem(it)
    i = idx(it)
    lids = LOOPLV.get(it, ())
    return any(s is e or s is i or (s.op in ('lv', 'lvx', 'lvseg') and s.args[0] in lids) for s in subterms(t))


@rebuilder('any')
def anyover(it, cond):
    if is_c(cond, False):
        return FALSE
    if cond.op == 'or':
        return lor(*[anyover(it, c) for c in cond.args])
    if is_c(cond, True):
        return nonempty(it)
    if cond.op == 'eq':
        e = elem(it)
        for x, y in ((cond.args[0], cond.args[1]), (cond.args[1], cond.args[0])):
            if x is e and not has_elem(y, it):
                return isin(y, it)
    if it.op == 'rev':
        return anyover(it.args[0], subst(cond, {elem(it): elem(it.args[0])}))
    if it.op == 'list' and len(it.args) == 1 and it.args[0].op == 'many' and T('idx', it) not in subterms(cond):
        J, G, V = it.args[0].args
        return anyover(J, land(G, subst(cond, {T('elem', it): V})))
    if cond.op == 'and':
        ins = [c for c in cond.args if has_elem(c, it)]
        outs = [c for c in cond.args if not has_elem(c, it)]
        if outs and ins:
            return land(anyover(it, land(*ins)), *outs)
    return T('any', it, cond)


def allover(it, cond):
    return lnot(anyover(it, lnot(cond)))
