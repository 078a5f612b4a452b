"""X01: the library never fails through its own mistake - a missing name, attribute, argument or placeholder."""
import ast
import os
import builtins
import symtable

from rules.base import T, C, cv, an, Run, P, short, ROOT
from rules import entries as E

KINDS = {'badcall': 'the call does not fit', 'noattr': 'there is no attribute', 'undef': 'there is no name', 'badformat': 'the text lacks a value for', 'badimport': 'cannot import'}
SURFACE = [('BorealisRead', ('fn',), ('site', 'array')), ('BorealisWrite', ('fn', 'R'), ('site', 'array'))]
B, DM = 'pydarnio.borealis.', 'pydarnio.dmap.'


def meant(e):
    """the missing attribute is asked for and handled on purpose"""
    for cl in e.trys:
        for c in cl:
            n = c.args[0] if isinstance(c, T) and c.args else str(c)
            if str(n).split('.')[-1] in ('AttributeError', 'NameError'):
                return True
    return False


def faults(ctx, a, since=0):
    """one obligation for every call, attribute fault and raise of the code the runs went through"""
    seen = {}
    for e in a.events[since:]:
        if not e.func.startswith('pydarnio'):
            continue
        if e.kind == 'inline':
            k = ('arguments', '%s calls %s' % (e.func, e.d.get('fn')))
            seen.setdefault(k, (True, '', e.where))
        elif e.kind == 'raise':
            k = ('raise', '%s raises %s' % (e.func, str(e.d.get('cls')).split('.')[-1]))
            seen.setdefault(k, (True, '', e.where))
        elif e.kind in KINDS:
            if e.kind == 'noattr' and e.d.get('maybe') or meant(e):
                continue
            what = e.d.get('name') or e.d.get('fn') or e.d.get('text')
            what = short(what, 80) if isinstance(what, T) else str(what)[:80]
            why = e.d.get('why') or ''
            base = e.d.get('base')
            k = (e.kind, '%s %s' % (e.func, what))
            seen[k] = (False, '%s %s %s%s' % (KINDS[e.kind], what, why, ' of ' + short(base, 80) if isinstance(base, T) else ''), e.where)
    for (rule, c), (ok, msg, where) in seen.items():
        ctx.ok(ok, rule, c, msg, where)


def members(a, qual):
    """the public methods without arguments and the properties of a class, and how it prints itself"""
    out = []
    from engine import Cls
    for c in a.mro(a.classes[qual]):
        if not isinstance(c, Cls):
            continue
        for n, v in c.ns.items():
            if n.startswith('_') and n not in ('__repr__', '__str__') or n in [x for x, _ in out]:
                continue
            node = getattr(a.fns.get(v.args[0]) if isinstance(v, T) and v.op == 'fn' else None, 'node', None)
            if v.op == 'fn' and node is not None:
                args = node.args
                need = len(args.posonlyargs + args.args) - len(args.defaults)
                if need == 1 and not any(x is None for x in args.kw_defaults):
                    out.append((n, True))
            elif v.op != 'fn':
                out.append((n, False))
    return out


def use(a, r, o):
    """every public member of an object, each from the state after its construction"""
    if r.dead or not isinstance(o, T):
        return 0
    ob = a.obj(r.st, o)
    if ob is None or ob.kind != 'inst':
        return 0
    base, n = r.st, 0
    for name, call in members(a, ob.cls.qual):
        r.st = base.fork()
        with_run(a, r, lambda: r.method(o, name) if call else r.get(o, name))
        n += 1
    r.st = base
    return n


def with_run(a, r, f):
    r.__enter__st = None
    st = r.st
    save = (a.frames, a.flows, a.loops, a.trys)
    from drv import _ENTRY
    from engine import Fn, Frame
    fn = Fn(_ENTRY, a.package, None, None, '<entry>', 'function', [], {})
    a.frames, a.flows, a.loops, a.trys = [Frame(fn, 0)], [r.flow], [], []
    st.envs = [{}]
    try:
        f()
    finally:
        a.frames, a.flows, a.loops, a.trys = save


def borealis(ctx, key):
    a = an(key)
    n = 0
    for s in ('site', 'array'):
        for r in (E.b_read(key, s), E.b_write(key, s)):
            n += use(a, r, r.o)
            if not r.dead:
                inner = a.obj(r.st, r.o)
                for v in list(inner.attrs.values()) if inner is not None else ():
                    n += use(a, r, v)
    if E.restructurable(key):
        for s in ('array', 'site'):
            r = E.b_restructure(key, s)
            n += use(a, r, r.o)
        E.b_memory(key, '_site_to_array')
        E.b_memory(key, '_array_to_site')
    r = E.b_convert(key)
    n += use(a, r, r.o)
    for what in E.OPEN:
        if what == 'restructure' and not E.restructurable(key) or what == 'convert' and key[1] not in ('bfiq', 'rawacf'):
            continue
        E.b_open(key, what)
        if key[1] == 'rawacf' and what in ('read', 'write', 'restructure', 'convert'):
            E.b_type(key, what)
    ctx.note('%s: %d public members used' % (key, n))
    faults(ctx, a)


def dmap(ctx, _):
    a = an(None)
    n = 0
    for r in E.dmap_reads() + E.dmap_writes():
        n += use(a, r, r.o)
    E.dmap_utils()
    ctx.note('DMAP: %d public members used' % n)
    faults(ctx, a)


# ---------------------------------------------------------------- names and attributes of code no run reaches

def sources():
    for d, _, fs in os.walk(os.path.join(ROOT, 'pydarnio')):
        for f in sorted(fs):
            if f.endswith('.py'):
                yield os.path.join(d, f)


def names(ctx, _):
    """every name a function uses is its own, the module's or a builtin"""
    classes = {}
    trees = {}
    for p in sources():
        rel = os.path.relpath(p, ROOT)
        src = open(p).read()
        tree = trees[rel] = ast.parse(src)
        star = any(isinstance(n, ast.ImportFrom) and any(x.name == '*' for x in n.names) for n in ast.walk(tree))
        top = symtable.symtable(src, rel, 'exec')
        defined = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        decl = {n for x in ast.walk(tree) if isinstance(x, ast.Global) for n in x.names}
        defined |= decl | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__spec__', '__loader__', '__class__'}

        def walk(t, q):
            for s in t.get_symbols():
                if s.is_referenced() and s.is_global() and not star:
                    nm = s.get_name()
                    ok = nm in defined or hasattr(builtins, nm)
                    if t is not top or True:
                        ctx.ok(ok, 'name', '%s %s uses %s' % (rel, q or '<module>', nm), 'there is no name %s' % nm, rel)
            for c in t.get_children():
                walk(c, (q + '.' if q else '') + c.get_name())
        walk(top, '')
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef):
                classes.setdefault(n.name, []).append((rel, n))
    attrs(ctx, classes, trees)
    modules(ctx, trees)


def modules(ctx, trees):
    """every attribute taken from a module or a class of the package is there"""
    a = an(None)
    for rel, tree in trees.items():
        mod = rel[:-3].replace('/', '.')
        mod = mod[:-9] if mod.endswith('.__init__') else mod
        ns = a.modns.get(mod)
        if ns is None:
            continue
        top = {}
        for n in ast.walk(tree):        # names bound anywhere else than in the module itself are left out
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [y for y in (n.args.vararg, n.args.kwarg) if y]:
                    top[x.arg] = True
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        top[x.id] = True
        for n in ast.walk(tree):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name)) or n.value.id in top:
                continue
            o = ns.get(n.value.id)
            c = '%s uses %s.%s' % (rel, n.value.id, n.attr)
            if o is not None and o.op == 'mod' and o.args[0] in a.modns:
                sub = o.args[0] + '.' + n.attr
                ctx.ok(n.attr in a.modns[o.args[0]] or sub in a.modns or n.attr in ('__name__', '__file__', '__doc__', '__path__', '__dict__'), 'module', c, '%s has no %s' % (o.args[0], n.attr), '%s:%d' % (rel, n.lineno))
            elif o is not None and o.op == 'cls' and o.args[0] in a.classes:
                from engine import Cls
                mro = a.mro(a.classes[o.args[0]])
                if all(isinstance(k, Cls) or str(getattr(k, 'args', [k])[0]) in ('builtins.object', 'object') for k in mro):
                    ctx.ok(any(n.attr in k.ns for k in mro if isinstance(k, Cls)) or n.attr in dir(type) or n.attr in dir(object), 'module', c, '%s has no %s' % (o.args[0], n.attr), '%s:%d' % (rel, n.lineno))


def attrs(ctx, classes, trees):
    """every self.x and cls.x is set or defined somewhere in the class, its bases or its subclasses"""
    def base_names(n):
        return [b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None for b in n.bases]

    def own(n):
        out, stores = set(), set()
        for c in n.body:
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
            elif isinstance(c, ast.Assign):
                out |= {t.id for x in c.targets for t in ast.walk(x) if isinstance(t, ast.Name)}
            elif isinstance(c, ast.AnnAssign) and isinstance(c.target, ast.Name):
                out.add(c.target.id)
            elif not isinstance(c, ast.Expr):
                out |= {t.id for t in ast.walk(c) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.attr)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr') or isinstance(x, ast.Attribute) and x.attr in ('__dict__',):
                return None
            if isinstance(x, ast.FunctionDef) and x.name in ('__getattr__', '__getattribute__'):
                return None
        return out
    have = {}
    for nm, defs in classes.items():
        for rel, n in defs:
            o = own(n)
            have[nm] = None if o is None or have.get(nm, set()) is None else have.get(nm, set()) | o
    up = {nm: {b for _, n in defs for b in base_names(n)} for nm, defs in classes.items()}

    def closure(nm, seen):
        if nm in seen:
            return
        seen.add(nm)
        for b in up.get(nm, ()):
            closure(b, seen)
    for nm, defs in classes.items():
        rel_cls = set()
        closure(nm, rel_cls)
        for other in classes:
            s = set()
            closure(other, s)
            if nm in s:
                rel_cls |= s
        if any(b is None or b not in classes and b != 'object' for b in rel_cls) or any(have.get(b) is None for b in rel_cls if b in classes):
            outside = [b for b in rel_cls if b not in classes and b != 'object']
            if outside != [] and all(b in ('Exception', 'NamedTuple', 'ABC') for b in outside):
                extra = set(dir(Exception)) | {'_fields', '_asdict', '_replace'}
            else:
                continue
        else:
            extra = set()
        known = set().union(*[have[b] for b in rel_cls if b in classes and have[b] is not None]) | set(dir(object)) | {'__class__', '__name__', '__dict__', '__module__', '__qualname__'} | extra
        for rel, n in defs:
            for f in n.body:
                if not isinstance(f, ast.FunctionDef) or not f.args.args:
                    continue
                deco = {d.id for d in f.decorator_list if isinstance(d, ast.Name)}
                if 'staticmethod' in deco:
                    continue
                me = f.args.args[0].arg
                if any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(f)):
                    continue
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                        at = x.attr
                        if at.startswith('__') and not at.endswith('__'):
                            at = at
                        ctx.ok(at in known, 'attribute', '%s %s.%s uses %s.%s' % (rel, nm, f.name, me, at), 'nothing defines %s' % at, '%s:%d' % (rel, x.lineno))


def both(ctx, key):
    if key == 'names':
        names(ctx, key)
    elif key is None:
        dmap(ctx, key)
    else:
        borealis(ctx, key)


def x01(ctx):
    ctx.fan(both, E.KEYS + [None, 'names'])
    seen, out = set(), []
    for o in ctx.obs:
        if (o[0], o[1], o[2]) not in seen:
            seen.add((o[0], o[1], o[2]))
            out.append(o)
    ctx.obs[:] = out
