#!/usr/bin/env python3
"""check.py Cxx [--root DIR] [--debug]: decide one property from the source
of /repo (nothing of /repo is imported or executed)."""
import argparse
import importlib
import json
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


def findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    from engine.program import Program, AnalysisError
    from engine.spec import Checker
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('props.%s' % a.prop.lower())
    try:
        prog = Program(a.root, 'runlmc')
    except AnalysisError as e:
        print('cannot analyse: %s' % e)
        return 2
    chk = Checker(a.prop, prog, 'debug' if a.debug else tier,
                  budget=getattr(mod, 'BUDGET', 600))
    mod.run(chk)
    known = [k for k in findings() if k.get('property') == a.prop and
             k.get('status') == 'known']
    bad, listed = [], []
    for o in chk.obls:
        if o.verdict == 'violated':
            (listed if any(k.get('obligation') == o.name for k in known)
             else bad).append(o)
    count = {v: sum(o.verdict == v for o in chk.obls)
             for v in ('holds', 'violated', 'undecided')}
    extra = {}
    if tier == 'thorough' and not a.debug and not bad:
        from engine import selftest
        extra = selftest.run(a.prop, a.root)
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': mod.RULE,
            'obligations': len(chk.obls),
            'discharged': count['holds'],
            'violated': count['violated'],
            'undecided': count['undecided'],
            'functions_analysed': sorted(chk.functions),
            'call_sites_followed': chk.calls,
            'details': [o.json() for o in chk.obls],
        },
        'wall_s': round(time.time() - t0, 2),
    }
    ev['coverage'].update(extra)
    edir = os.path.join(HERE, 'evidence')
    if not a.no_evidence:
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d hold, %d violated, %d undecided (%.1f s)' % (
        a.prop, len(chk.obls), count['holds'], count['violated'],
        count['undecided'], time.time() - t0))
    for o in listed:
        print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, o.name,
                                                     o.detail))
    if bad:
        rp = os.path.join(edir, '%s.violation.txt' % a.prop)
        lines = []
        for o in bad:
            lines.append('%s\n  anchor: %s\n  at: %s\n  %s\n' % (
                o.name, o.anchor, o.loc or '-', o.detail))
            print('violated: %s [%s] %s %s' % (o.name, o.anchor, o.loc,
                                               str(o.detail)[:500]))
        if not a.no_evidence:
            with open(rp, 'w') as f:
                f.write('\n'.join(lines))
                f.write('\nreproduce: cd /verif && python3 check.py %s\n' %
                        a.prop)
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    if count['holds'] == 0 and count['undecided']:
        print('nothing could be decided')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
