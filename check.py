#!/usr/bin/env python3
"""Decide one property of /repo's current source by abstract interpretation.

usage: check.py ID [--tier quick|thorough]
exit 0: held; 1: a line VIOLATION property=ID replay=FILE; 2: no verdict
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)

LEVEL = 'other'


def known():
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    for line in open(path):
        line = line.strip()
        if line.startswith('finding:'):
            d = line[len('finding:'):].strip()
            prop, rest = d.split(None, 1)
            key, _, desc = rest.partition(' :: ')
            out[(prop.split('=', 1)[1], key.split('=', 1)[1])] = desc
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    from rules.base import Ctx, Broken, collect
    from rules.registry import RULES
    mod, fn, least, text = RULES[a.prop]
    ctx = Ctx(a.prop, a.tier)
    err = None
    try:
        getattr(importlib.import_module('rules.' + mod), fn)(ctx)
    except Broken as e:
        err = 'analysis broken: %s' % e
    except Exception:
        err = 'internal error: ' + traceback.format_exc(limit=6)
    if err and not (isinstance(sys.exc_info()[1], SyntaxError) or 'SyntaxError' in err):
        # the code has a form this analysis cannot follow: no verdict, and said so, which is not the same as a violation
        ctx.undecided('analysis', a.prop, err)
        err = None
    kf = known()
    bad, found, und = [], [], []
    for rule, construct, verdict, msg, where in ctx.obs:
        key = '%s|%s' % (rule, construct)
        if verdict == 'violated':
            if (a.prop, key) in kf:
                found.append((key, kf[(a.prop, key)]))
            else:
                bad.append((key, msg, where))
        elif verdict == 'undecided':
            und.append((key, msg, where))
    n = len(ctx.obs)
    good = sum(1 for o in ctx.obs if o[2] == 'ok')
    fns, files, warn, nev = set(), {}, set(), 0
    for f1, f2, w, k in [collect()] + ctx.stats:
        fns |= f1
        files.update(f2)
        warn |= w
        nev += k
    byrule = Counter(o[0] for o in ctx.obs)
    if err is None and n < least and not bad and not und:
        und.append(('analysis|' + a.prop, 'only %d obligations, %d expected: part of what this rule looks at is not there' % (n, least), ''))
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': LEVEL,
        'coverage': {
            'explanation': text + ' Obligations are facts about the terms, path conditions and effects computed by an abstract '
                           'interpreter over every path of the named entry points; no code of the repository is executed.',
            'obligations': n, 'discharged': good, 'undecided': len(und), 'violated': len(bad), 'known_findings': len(found),
            'by_rule': dict(byrule),
            'functions_analysed': sorted(f for f in fns if f.startswith('pydarnio')),
            'events_analysed': nev,
            'source_digests': files,
            'samples': [{'rule': o[0], 'construct': o[1], 'verdict': o[2], 'where': o[4]} for o in ctx.obs[:40]],
            'notes': ctx.notes,
        },
        'assumptions': ['Python semantics as modelled in sa/engine.py and sa/calls.py; NumPy, h5py and struct calls behave as documented'],
        'wall_s': round(time.time() - t0, 3), 'violations': len(bad),
    }
    if und:
        ev['coverage']['undecided_items'] = [{'key': k, 'why': m[:400], 'where': w} for k, m, w in und]
    if warn:
        ev['coverage']['unmodelled'] = sorted(set(warn))[:40]
    EV = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated, %d known; %d functions, %d events, %.1f s' % (
        a.prop, n, good, len(und), len(bad), len(found), len(ev['coverage']['functions_analysed']), nev, time.time() - t0))
    for r, c in sorted(byrule.items()):
        print('  rule %-28s %d instances' % (r, c))
    for key, desc in sorted(set(found)):
        print('KNOWN-FINDING: property=%s %s :: %s' % (a.prop, key, desc))
    for key, msg, where in und[:20]:
        print('UNDECIDED %s %s: %s' % (where, key, msg[:300]))
    if a.v:
        for o in ctx.obs:
            print('   ', o[2], o[0], o[1], o[4])
    if bad:
        path = os.path.join(EV, a.prop + '.violations.txt')
        with open(path, 'w') as f:
            for key, msg, where in bad:
                f.write('%s\n  rule|construct: %s\n  %s\n' % (where, key, msg))
        for key, msg, where in bad[:25]:
            print('%s %s\n    %s' % (where, key, msg[:700]))
        if err:
            print(err)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    p = os.path.join(EV, a.prop + '.violations.txt')
    if os.path.exists(p):
        os.unlink(p)
    if err:
        print(err, file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
