"""Entry points: run one public function abstractly and hand back what it did."""
import ast
from engine import Analyzer, State, Flow, Frame, Fn, Obj, Unsupported
from terms import T, C, NONE

_ENTRY = ast.parse('def _entry_(): pass').body[0]


class Run:
    """one abstract run: a fresh state, plus everything that happened"""

    def __init__(self, eng):
        self.eng = eng
        self.st = State()
        self.flow = Flow()
        self.ev0 = len(eng.events)

    def __enter__(self):
        e = self.eng
        self.save = (e.frames, e.flows, e.loops, e.trys)
        fn = Fn(_ENTRY, e.package, None, None, '<entry>', 'function', [], {})
        e.frames, e.flows, e.loops, e.trys = [Frame(fn, 0)], [self.flow], [], []
        self.st.envs = [{}]
        return self

    def __exit__(self, *a):
        e = self.eng
        e.frames, e.flows, e.loops, e.trys = self.save
        self.ev1 = len(e.events)
        return False

    @property
    def events(self):
        return self.eng.events[self.ev0:getattr(self, 'ev1', len(self.eng.events))]

    def evs(self, *kinds):
        return [x for x in self.events if x.kind in kinds]

    def call(self, f, *args, **kws):
        """f: term or 'pkg.mod.func' name"""
        if isinstance(f, str):
            f = self.eng.find(f)
        return self.eng.call(self.st, f, list(args), kws, _ENTRY)

    def method(self, obj, name, *args, **kws):
        f = self.eng.getattr(self.st, obj, name, _ENTRY)
        return self.eng.call(self.st, f, list(args), kws, _ENTRY)

    def get(self, obj, name):
        return self.eng.getattr(self.st, obj, name, _ENTRY)

    def set(self, obj, name, v):
        self.eng.set_attr(self.st, obj, name, v, _ENTRY)

    def fz(self, t):
        return self.eng.fz(self.st, t)

    @property
    def dead(self):
        return self.st.dead

    def instance(self, qual, **attrs):
        cls = self.eng.classes[qual]
        return self.eng.alloc(self.st, 'inst', attrs=dict(attrs), cls=cls)


def find(self, name):
    if name in self.classes:
        return T('cls', name)
    if name in self.fns:
        return T('fn', name)
    mod, _, n = name.rpartition('.')
    if mod in self.modns and n in self.modns[mod]:
        return self.modns[mod][n]
    raise KeyError(name)


Analyzer.find = find


def P(name):
    return T('param', name)
