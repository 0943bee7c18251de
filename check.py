#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough -- decide one property on /repo's current source."""
import importlib
import json
import os
import re
import sys
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':       # the order of sets must not depend on the run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from rules.core import Ctx, AnalysisError
from engine.program import load

MODULES = ['rules.' + f[:-3] for f in sorted(os.listdir(os.path.join(ROOT, 'rules'))) if f.startswith('r_') and f.endswith('.py')]


def known(prop):
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    entry = None
    for m in MODULES:
        mod = importlib.import_module(m)
        if prop in mod.PROPS:
            entry = mod.PROPS[prop]
    if entry is None:
        print('no check for', prop)
        return 2
    try:
        only = getattr(entry, 'only', None)
        P = load(only=only)
        ctx = Ctx(prop, tier, P)
        entry(ctx)
        if len(ctx.oks) + len(ctx.bads) == 0:
            raise AnalysisError('no obligation could be decided')
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (prop, e))
        return 2
    kf = known(prop)
    viol, found = [], []
    for b in ctx.bads:
        (found if b[3] in kf else viol).append(b)
    EVD = os.environ.get('VERIF_EVIDENCE_DIR', os.path.join(ROOT, 'evidence'))
    os.makedirs(EVD, exist_ok=True)
    units = len(P.units) if hasattr(P, 'units') else None
    cov = {
        'explanation': 'static rules evaluated on the type-checked syntax trees of /repo; every obligation names a construct of the source',
        'translation_units': units,
        'functions_in_program': len(P.funcs),
        'functions_analysed': len(ctx.functions),
        'obligations': len(ctx.oks) + len(ctx.bads) + len(ctx.unds),
        'discharged': len(ctx.oks),
        'violated': len(viol),
        'known_findings': len(found),
        'undecided': len(ctx.unds),
        'rules': ctx.rules,
        'per_rule': {},
        'counts': ctx.counts,
        'analysed': sorted(set('%s %s' % (w, t) for _, w, t in ctx.oks))[:400],
        'undecided_list': ['%s %s %s' % u for u in ctx.unds][:100],
    }
    for r, *_ in ctx.oks:
        cov['per_rule'][r] = cov['per_rule'].get(r, 0) + 1
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ctx.assumptions + ['the stub headers in /verif/stubs declare the interfaces of the absent Rock/CGAL/GDAL headers faithfully',
                                            'distinct access paths do not alias unless the analysis sees the assignment that makes them'],
          'wall_s': round(time.time() - t0, 2),
          'violations': [{'rule': r, 'where': w, 'what': t, 'key': k} for r, w, t, k in viol]}
    json.dump(ev, open(os.path.join(EVD, prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated, %d known; %d functions analysed' % (
        prop, cov['obligations'], cov['discharged'], cov['undecided'], len(viol), len(found), len(ctx.functions)))
    for u in ctx.unds:
        print('UNDECIDED %s %s %s' % u)
    for r, w, t, k in found:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (prop, k, w, t))
    if viol:
        rp = os.path.join(EVD, prop + '.violations.txt')
        with open(rp, 'w') as f:
            for r, w, t, k in viol:
                line = '%s: [%s] %s (construct: %s)\n    rule: %s\n' % (w, r, t, k, ctx.rules.get(r, ''))
                f.write(line)
                print(line, end='')
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
