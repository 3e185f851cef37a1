"""mkseed.py ID...: write seeded/ID from tools/seeds_spec.py and confirm it in
a scratch copy of /repo: demo passes without, fails with the change; the
stable tests still pass; then report what check.py says."""
import difflib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeds_spec import SEEDS      # noqa

BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', ())
           if isinstance(json.load(open('/opt/vp/BASELINE.json')), dict)
           else json.load(open('/opt/vp/BASELINE.json')))


def sh(cmd, cwd, timeout=1500):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout,
                          universal_newlines=True)


def patch_of(spec):
    out = ''
    files = {}
    for f, old, new in spec['edits']:
        src = files.get(f) or open('/repo/' + f).read()
        assert src.count(old) == 1, (spec['id'], f, src.count(old), old)
        files[f] = src.replace(old, new)
    for f, new in sorted(files.items()):
        a = open('/repo/' + f).read()
        out += 'diff --git a/%s b/%s\n' % (f, f)
        out += ''.join(difflib.unified_diff(
            a.splitlines(True), new.splitlines(True), 'a/' + f, 'b/' + f))
    return out


def write(spec):
    d = os.path.join(HERE, 'seeded', spec['id'])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'patch.diff'), 'w') as f:
        f.write(patch_of(spec))
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': spec['property'], 'needs': spec['needs'],
                   'what_it_breaks': spec['breaks']}, f, indent=1)
        f.write('\n')
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write(spec['demo'].lstrip('\n'))
    p = os.path.join(d, 'demo.sh')
    with open(p, 'w') as f:
        f.write('#!/bin/sh\n# run in /repo: exit 0 when the behaviour is '
                'right\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
                'OMP_NUM_THREADS=1\nexec /opt/pvenv/bin/python -W ignore '
                '"$(dirname "$0")/demo.py"\n')
    os.chmod(p, 0o755)
    return d


def main():
    ids = sys.argv[1:]
    notest = '--notest' in ids
    ids = [i for i in ids if not i.startswith('--')]
    for spec in SEEDS:
        if ids and spec['id'] not in ids:
            continue
        d = write(spec)
        w = '/tmp/seedwork_%s' % spec['id']
        shutil.rmtree(w, ignore_errors=True)
        sh('cp -a /repo %s' % w, '/')
        r0 = sh('bash %s/demo.sh' % d, w, 300)
        r = sh('git apply %s/patch.diff' % d, w)
        assert r.returncode == 0, r.stdout
        r1 = sh('bash %s/demo.sh' % d, w, 300)
        msg = '%s: demo clean=%d bug=%d' % (spec['id'], r0.returncode,
                                            r1.returncode)
        if r0.returncode or not r1.returncode:
            msg += '\n' + (r0.stdout[-1500:] if r0.returncode else
                           r1.stdout[-500:])
        if not notest:
            sh('sed "s#/repo#%s#g" /opt/vp/test.sh > %s.test.sh' % (w, w),
               '/')
            r = sh('bash %s.test.sh %s.out.json' % (w, w), w)
            try:
                res = json.load(open(w + '.out.json'))
                passed = set(res.get('passed', ()))
                msg += ' tests missing=%s' % sorted(BASE - passed)[:6]
            except Exception as e:
                msg += ' tests ERROR %s %s' % (e, r.stdout[-300:])
        props = [spec['property']]
        for p in props:
            r = sh('python3 check.py %s --root %s --no-evidence' % (p, w),
                   HERE, 900)
            msg += ' | check %s exit %d' % (p, r.returncode)
            if r.returncode == 1:
                msg += ' ' + [l for l in r.stdout.splitlines() if
                              l.startswith('violated')][0][:200]
            elif r.returncode:
                msg += r.stdout[-300:]
        print(msg, flush=True)
        shutil.rmtree(w, ignore_errors=True)
        for e in ('.test.sh', '.out.json'):
            if os.path.exists(w + e):
                os.remove(w + e)


main()
