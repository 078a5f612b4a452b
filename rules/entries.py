"""The public entry points of the library, run abstractly once per process."""
import os

from rules.base import T, C, cv, an, Run, P, Broken

VERSIONS = ['v0.4', 'v0.5', 'v0.6', 'v0.7']
BTYPES = ['antennas_iq', 'bfiq', 'rawacf', 'rawrf']
KEYS = [(v, f) for v in VERSIONS for f in BTYPES]
STYPES = ['iqdat', 'rawacf', 'fitacf', 'snd', 'grid', 'map']
BP = 'pydarnio.borealis.'
_cache = {}


def runit(key, name, f):
    k = (key, name)
    if k not in _cache:
        a = an(key)
        with Run(a) as r:
            r.name = name
            r.key = key
            r.o = None
            r.ret = f(a, r)
        _cache[k] = r
    return _cache[k]


# ---------------------------------------------------------------- DMAP

def dmap_reads():
    def mk(cls, meth, stream):
        def f(a, r):
            o = r.o = r.call(cls, P('B'), C(True)) if stream else r.call(cls, P('fn'))
            r.first = len(a.events)
            return r.method(o, meth)
        return f
    out = [('DmapRead.read_records', mk('pydarnio.dmap.dmap.DmapRead', 'read_records', True)),
           ('DmapRead(file).read_records', mk('pydarnio.dmap.dmap.DmapRead', 'read_records', False))]
    for t in STYPES:
        out.append(('SDarnRead.read_' + t, mk('pydarnio.dmap.superdarn.SDarnRead', 'read_' + t, True)))
    return [runit(None, n, f) for n, f in out]


def dmap_writes():
    def mk(cls, meth, args):
        def f(a, r):
            o = r.o = r.call(cls, P('R'), P('fn'))
            r.set(o, 'dmap_records', P('R'))
            r.first = len(a.events)
            return r.method(o, meth, *args)
        return f
    W, S = 'pydarnio.dmap.dmap.DmapWrite', 'pydarnio.dmap.superdarn.SDarnWrite'
    out = [('DmapWrite.write_dmap', mk(W, 'write_dmap', [P('out')])), ('DmapWrite.write_dmap_stream', mk(W, 'write_dmap_stream', []))]
    for t in STYPES:
        out.append(('SDarnWrite.write_' + t, mk(S, 'write_' + t, [P('out')])))
    return [runit(None, n, f) for n, f in out]


def dmap_utils():
    out = [('dict2dmap', lambda a, r: r.call('pydarnio.utils.conversions.dict2dmap', P('R'))),
           ('dmap2dict', lambda a, r: r.call('pydarnio.utils.conversions.dmap2dict', P('R')))]
    return [runit(None, n, f) for n, f in out]


# ---------------------------------------------------------------- Borealis

def restructurable(key):
    return key[1] != 'rawrf'


def has_arrays(key):
    """rawrf files have an array form from v0.7 on"""
    return key[1] != 'rawrf' or key[0] == 'v0.7'


def b_read(key, structure):
    return runit(key, 'BorealisRead %s' % structure, lambda a, r: setattr(r, 'o', r.call(BP + 'borealis.BorealisRead', P('fn'), C(key[1]), C(structure))))


def b_write(key, structure):
    return runit(key, 'BorealisWrite %s' % structure, lambda a, r: setattr(r, 'o', r.call(BP + 'borealis.BorealisWrite', P('fn'), P('R' if structure == 'site' else 'A'), C(key[1]), C(structure))))


def b_restructure(key, structure):
    return runit(key, 'BorealisRestructure to %s' % structure, lambda a, r: setattr(r, 'o', r.call(BP + 'borealis_restructure.BorealisRestructure', P('fn'), P('out'), C(key[1]), C(structure))))


def fmt_class(key):
    a = an(key)
    with Run(a) as r:
        d = a.find(BP + 'borealis_formats.borealis_version_dict')
        c = a.getitem(r.st, a.getitem(r.st, d, C(key[0]), None), C(key[1]), None)
    return c


def b_memory(key, which):
    """the in-memory restructuring of the format class"""
    return runit(key, 'memory %s' % which, lambda a, r: r.call(r.get(fmt_class(key), which), P('A' if which == '_array_to_site' else 'R')))


def b_all(key):
    out = [b_read(key, 'site'), b_write(key, 'site'), b_read(key, 'array'), b_write(key, 'array')]
    if restructurable(key):
        out += [b_restructure(key, 'array'), b_restructure(key, 'site'), b_memory(key, '_site_to_array'), b_memory(key, '_array_to_site')]
    return out


def b_convert(key):
    def f(a, r):
        r.o = r.call(BP + 'borealis_convert.BorealisConvert', P('fn'), C(key[1]), P('out'), P('sid'), C('site'))
    return runit(key, 'BorealisConvert', f)


def b_view(key, structure):
    """the other structure of a file read: the records of an array file, the arrays of a site file"""
    def f(a, r):
        o = r.o = r.call(BP + 'borealis.BorealisRead', P('fn'), C(key[1]), C(structure))
        r.first = len(a.events)
        r.own = r.get(o, 'records' if structure == 'site' else 'arrays')
        res = r.get(o, 'arrays' if structure == 'site' else 'records')
        r.view = r.fz(res) if not r.dead else None
        if not r.dead:
            r.mem = r.fz(r.call(r.get(fmt_class(key), '_site_to_array' if structure == 'site' else '_array_to_site'), r.own))
        return res
    return runit(key, 'BorealisRead %s as the other' % structure, f)


def b_stored(key, structure):
    """written with a compression of the caller's choice"""
    return runit(key, 'BorealisWrite %s compressed' % structure, lambda a, r: setattr(r, 'o', r.call(
        BP + 'borealis.BorealisWrite', P('fn'), P('R' if structure == 'site' else 'A'), C(key[1]), C(structure), hdf5_compression=P('z'))))


def b_open(key, what):
    """the entry points with options the caller leaves out or chooses freely"""
    ft = C(key[1])
    def f(a, r):
        if what == 'read':
            r.o = r.call(BP + 'borealis.BorealisRead', P('fn'), ft)
        elif what == 'read as':
            r.o = r.call(BP + 'borealis.BorealisRead', P('fn'), ft, P('structure'))
        elif what == 'write':
            r.o = r.call(BP + 'borealis.BorealisWrite', P('fn'), P('D'), ft, hdf5_compression=P('z'))
        elif what == 'write as':
            r.o = r.call(BP + 'borealis.BorealisWrite', P('fn'), P('D'), ft, P('structure'), hdf5_compression=P('z'))
        elif what == 'restructure':
            r.o = r.call(BP + 'borealis_restructure.BorealisRestructure', P('fn'), P('out'), ft, P('structure'), P('z'))
        elif what == 'convert':
            r.o = r.call(BP + 'borealis_convert.BorealisConvert', P('fn'), ft, P('out'), P('sid'), P('structure'), P('factor'))
    return runit(key, 'open %s' % what, f)


OPEN = ('read', 'read as', 'write', 'write as', 'restructure', 'convert')


def b_type(key, what):
    """the entry points with a file type of any name"""
    ft = P('type')
    def f(a, r):
        if what == 'read':
            r.o = r.call(BP + 'borealis.BorealisRead', P('fn'), ft)
        elif what == 'write':
            r.o = r.call(BP + 'borealis.BorealisWrite', P('fn'), P('D'), ft)
        elif what == 'restructure':
            r.o = r.call(BP + 'borealis_restructure.BorealisRestructure', P('fn'), P('out'), ft, P('structure'))
        elif what == 'convert':
            r.o = r.call(BP + 'borealis_convert.BorealisConvert', P('fn'), ft, P('out'), P('sid'), P('structure'))
    return runit(key, 'type %s' % what, f)
