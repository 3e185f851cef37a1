"""Writes MANIFEST.json from the properties that have a check in props/."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    'C30': 'Quantifies over convergence of floating-point MINRES iterates; whether the residual falls below a tolerance within a number of steps depends on the runtime spectrum, which no static rule over the source bounds (what the solver does with the outcome is C17).',
    'C31': 'An approximation-theory bound on interpolation error over real-valued data; not visible in the shape of the code (the exactness of the interpolation weights and of the assembled covariance are C15 and C10).',
    'C32': 'A statement about the distribution of random probe vectors; the structural part (same derivative operators, averaging over the probes) is C11.',
    'C33': 'Depends on the optimiser trajectory over runtime values of the objective; termination bounds and transparency are C22.',
    'C34': 'Floating-point definiteness and eigenvalue bounds of assembled matrices are runtime quantities; no static argument in reach bounds rounding here.',
    'C35': 'A cost bound over runtime sizes; the structural necessary condition (no dense construction or factorisation during fitting) is C21.',
}
TODO = 'No check built yet for this property.'


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        f = os.path.join(HERE, 'props', pid.lower() + '.py')
        if pid in NA:
            na.append({'property': pid, 'reason': NA[pid]})
            continue
        if not os.path.exists(f):
            na.append({'property': pid, 'reason': TODO})
            continue
        mod = importlib.import_module('props.' + pid.lower())
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s' % pid,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % pid,
            'technique': getattr(mod, 'TECHNIQUE', 'static abstract interpretation: value numbering of the source over symbolic arrays, loops summarised, normal forms compared with the specification'),
            'level': 'other',
            'level_note': getattr(mod, 'NOTE', '') + 'Decided from the parsed source only. Exact-real semantics (no rounding); trusts the models of numpy/scipy/paramz operations in engine/. An obligation the analysis cannot normalise is listed as undecided in the evidence and raises no alarm.',
        })
    man = {
        'version': 1,
        'setup_cmd': 'python3 -c "import ast, sys; sys.exit(sys.version_info < (3, 9))"',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks in /repo; the analysed program is never imported or executed by a check.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
