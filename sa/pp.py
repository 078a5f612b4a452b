"""Readable printing with sharing, for reports and debugging."""
from terms import T, C, subterms, children


def size(t, memo):
    r = memo.get(t)
    if r is None:
        r = memo[t] = 1 + sum(size(c, memo) for c in children(t))
    return r


def pp(t, limit=3000, minsize=5):
    memo = {}
    cnt = {}
    st = [t]
    seen = set()
    size(t, memo)
    while st:
        x = st.pop()
        for c in children(x):
            cnt[c] = cnt.get(c, 0) + 1
            if c not in seen:
                seen.add(c)
                st.append(c)
    names = {}
    defs = []

    def p(x, top=False):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return '[' + ', '.join(p(y) for y in x) + ']'
            return str(x)
        if x in names:
            return names[x]
        if not top and cnt.get(x, 0) > 1 and memo[x] >= minsize:
            body = p1(x)
            nm = '$%d' % len(defs)
            defs.append('%s = %s' % (nm, body))
            names[x] = nm
            return nm
        return p1(x)

    def p1(t):
        a = t.args
        if t.op == 'c':
            return repr(a[0].v)
        if t.op in ('param', 'ext', 'cls', 'fn', 'glob'):
            return str(a[0]).replace('builtins.', '').replace('pydarnio.', '')
        if t.op == 'ref':
            return '#%s' % (a[0],)
        if t.op == 'item':
            return '%s[%s]' % (p(a[0]), p(a[1]))
        if t.op == 'attr':
            return '%s.%s' % (p(a[0]), a[1])
        if t.op == 'lin':
            return '(' + ' + '.join([str(a[0])] * (a[0] != 0) + ['%s%s' % ('' if k == 1 else str(k) + '*', p(x)) for x, k in a[1]]) + ')'
        if t.op == 'not':
            return '!' + p(a[0])
        if t.op == 'lt0':
            return '%s<0' % p(a[0])
        if t.op == 'le0':
            return '%s<=0' % p(a[0])
        if t.op == 'eq':
            return '(%s == %s)' % (p(a[0]), p(a[1]))
        if t.op == 'and':
            return '(' + ' & '.join(p(x) for x in a) + ')'
        if t.op == 'or':
            return '(' + ' | '.join(p(x) for x in a) + ')'
        if t.op == 'mcall':
            return '%s.%s(%s)' % (p(a[0]), a[1], ', '.join([p(x) for x in a[2]] + ['%s=%s' % (k.args[0], p(k.args[1])) for k in a[3]]))
        if t.op == 'call':
            return '%s(%s)' % (p(a[0]), ', '.join([p(x) for x in a[1]] + ['%s=%s' % (k.args[0], p(k.args[1])) for k in a[2]]))
        return '%s(%s)' % (t.op, ', '.join(p(x) for x in a))
    r = p(t, True)
    s = '\n'.join(defs + ['=> ' + r]) if defs else r
    return s if len(s) <= limit else s[:limit] + ' …'
