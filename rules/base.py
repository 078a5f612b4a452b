"""What every rule module uses: obligations, anchors, shared abstract runs."""
import contextlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))

from drv import Analyzer, Run, P                                  # noqa: E402
from terms import T, C, cv, is_c, subterms, TRUE, FALSE, NONE     # noqa: E402
from pp import pp                                                 # noqa: E402

ROOT = os.environ.get('PYDARNIO_ROOT', '/repo')


class Broken(Exception):
    """the analysis lost its footing: no verdict"""


LIMIT = 780         # seconds for the parts of a rule that are worked on side by side


class Ctx:
    def __init__(self, prop, tier='quick'):
        self.prop = prop
        self.tier = tier
        self.obs = []           # (rule, construct, verdict, message, where)
        self.notes = []
        self.stats = []
        self.used = set()

    # -- obligations
    def ok(self, cond, rule, construct, message, where=''):
        v = 'ok' if cond else 'violated'
        self.obs.append((rule, construct, v, '' if cond else message() if callable(message) else message, where))
        return bool(cond)

    def undecided(self, rule, construct, message, where=''):
        self.obs.append((rule, construct, 'undecided', message, where))

    def tri(self, verdict, rule, construct, message, where=''):
        """verdict True / False / None (cannot tell)"""
        if verdict is None:
            self.undecided(rule, construct, message() if callable(message) else message, where)
        else:
            self.ok(verdict, rule, construct, message, where)
        return verdict

    def anchor(self, cond, message):
        if not cond:
            raise Broken(message)

    def fan(self, fn, keys, procs=8):
        """fn(ctx, key) for every key, in forked workers; the obligations come back in key order"""
        import multiprocessing as mp
        import time
        end, lost = time.time() + LIMIT, []
        with mp.get_context('fork').Pool(min(procs, max(1, len(keys))), maxtasksperchild=1) as pool:
            work = [pool.apply_async(_Fan(self, fn), (key,)) for key in keys]
            for key, w in zip(keys, work):
                try:
                    obs, notes, st, err = w.get(max(1, end - time.time()))
                except mp.TimeoutError:
                    lost.append((key, 'not finished after %d s' % LIMIT))
                    continue
                self.obs += obs
                self.notes += notes
                self.stats.append(st)
                if err:
                    lost.append((key, err))
        # a part that cannot be analysed is undecided; when most of it is lost there is no verdict
        if 2 * len(lost) > len(keys):
            raise Broken('%s: %s' % lost[0])
        for key, err in lost:
            self.undecided('analysis', str(key), err)

    @contextlib.contextmanager
    def part(self, name):
        """a part of a rule whose loss leaves the other parts to be decided"""
        try:
            yield
        except Broken as e:
            self.undecided('analysis', str(name), str(e))
        except Exception as e:
            self.undecided('analysis', str(name), 'internal error: %r' % (e,))

    def note(self, s):
        self.notes.append(s)

    def watch(self, an):
        """collect analysis statistics from an analyzer at the end"""
        self.used.add(an)


class _Fan:
    def __init__(self, ctx, fn):
        self.ctx, self.fn = ctx, fn

    def __call__(self, key):
        import traceback
        c = Ctx(self.ctx.prop, self.ctx.tier)
        err = None
        try:
            self.fn(c, key)
        except Broken as e:
            err = str(e)
        except Exception:
            err = traceback.format_exc(limit=-6)
        return c.obs, c.notes, collect(), err


def collect():
    """what the analyzers of this process have looked at"""
    import hashlib
    fns, files, warn, nev = set(), {}, set(), 0
    for a in Lazy.cache.values():
        nev += len(a.events)
        fns |= {e.func for e in a.events}
        for m in getattr(a, 'modns', {}):
            f = a.modfile(m)
            if f and os.path.exists(f):
                files[os.path.relpath(f, ROOT)] = hashlib.sha256(open(f, 'rb').read()).hexdigest()[:16]
        warn |= set(a.warn)
    return fns, files, warn, nev


class Lazy:
    """analyzers are shared between the rules of one process"""
    cache = {}

    @classmethod
    def get(cls, key=None):
        if key not in cls.cache:
            a = Analyzer(ROOT)
            a.name_globals()
            if key is not None:
                ver, ft = key[:2]

                def ch(d, k, keys):
                    for x in keys:
                        if x.op == 'c' and cv(x) == ver:
                            return x
                    for x in keys:
                        if x.op == 'c' and cv(x) == ft:
                            return x
                    return None
                a.chooser = ch
            cls.cache[key] = a
        return cls.cache[key]


def an(key=None):
    return Lazy.get(key)


def nsegs(t):
    """the entries of a frozen dict / list term"""
    return list(t.args)


def dict_items(t):
    """{python key: term} of a frozen dict with constant keys (None if not)"""
    if t.op != 'dict':
        return None
    out = {}
    for s in t.args:
        if s.op != 'kv' or s.args[0].op not in ('c', 'ext', 'cls'):
            return None
        out[cv(s.args[0]) if s.args[0].op == 'c' else s.args[0].args[0]] = s.args[1]
    return out


def pyval(t):
    """a plain python value for a constant table term; types become their dotted name"""
    if t.op == 'c':
        return cv(t)
    if t.op in ('ext', 'cls', 'fn'):
        return t.args[0].replace('builtins.', '').replace('numpy.', '')
    if t.op == 'dict':
        d = {}
        for s in t.args:
            if s.op != 'kv':
                raise ValueError(s.op)
            d[pyval(s.args[0])] = pyval(s.args[1])
        return d
    if t.op in ('list', 'tup', 'setc'):
        return [pyval(x) for x in t.args]
    raise ValueError(t.op)


def short(t, n=220):
    return pp(t, n).replace('\n', ' ; ') if isinstance(t, T) else str(t)[:n]


def fmt_pc(pc, n=160):
    return ' & '.join(short(p, n) for p in pc) or 'always'


IMPRECISE = {'lvx', 'lastif', 'unk', 'phi', 'mutd', 'lvseg', 'lvit', 'undef', 'undefname', 'kwsplat', 'starslice', 'upd', 'cyc', 'self'}
FAMILIAR = {'struct.unpack_from', 'struct.unpack', 'struct.calcsize', 'numpy.frombuffer', 'numpy.array', 'numpy.zeros', 'numpy.ones', 'numpy.empty',
            'numpy.full', 'numpy.float32', 'numpy.float64', 'numpy.int8', 'numpy.int16', 'numpy.int32', 'numpy.int64', 'numpy.uint8', 'numpy.uint16',
            'numpy.uint32', 'numpy.uint64', 'numpy.nan', 'builtins.int', 'builtins.float', 'builtins.bool', 'builtins.abs', 'builtins.round',
            'numpy.reshape', 'numpy.where', 'numpy.transpose', 'math.floor', 'math.ceil', 'math.trunc', 'numpy.floor', 'numpy.round', 'numpy.bool_',
            'numpy.abs', 'numpy.mean', 'numpy.real', 'numpy.imag', 'numpy.complex64', 'numpy.rint', 'numpy.fix', 'numpy.dtype'}
FAMILIAR_M = {'encode', 'decode', 'flatten', 'ravel', 'tobytes', 'astype', 'newbyteorder', 'byteswap', 'transpose', 'reshape', 'tolist', 'lower', 'upper', 'strip',
              'copy', 'total_seconds', 'timestamp', 'mean', 'sum'}


def unsure(*ts, lvx=True):
    """the terms hold something the analysis cannot evaluate, so a mismatch proves nothing"""
    for t in ts:
        if not isinstance(t, T):
            continue
        for s in subterms(t):
            if s.op in IMPRECISE and (lvx or s.op != 'lvx'):
                return True
            if s.op == 'call' and s.args[0].op == 'ext' and s.args[0].args[0] not in FAMILIAR:
                return True
            if s.op == 'call' and s.args[0].op not in ('ext',):
                return True
            if s.op == 'mcall' and s.args[1] not in FAMILIAR_M:
                return True
    return False


def judge(ctx, cond, terms, rule, construct, message, where='', lvx=True):
    """violated only when every term involved is fully understood"""
    if cond:
        return ctx.ok(True, rule, construct, '', where)
    if unsure(*terms, lvx=lvx):
        ctx.undecided(rule, construct, message() if callable(message) else message, where)
        return False
    return ctx.ok(False, rule, construct, message, where)


Ctx.judge = judge
