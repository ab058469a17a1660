#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/plants.py in a scratch copy bound over /repo (run: tools/plant.py [ID ...]).

A change is kept only if it compiles, the stable tests pass with it, and its demonstration passes without it and
fails with it.  With --check, the property's check is run too and its verdict printed."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: the change shows
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONPATH="$PWD/src"
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
HEAD = '''import numpy as np
from wai.ma.core.matrix import Matrix, factory, helper


def M(a):
    return factory.create(np.array(a, dtype=float))


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests_ok():
    out = '/tmp/plant-tests.json'
    sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh ' + out)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    d = json.load(open(out))
    passed = next(set(d[k]) for k in ('passed', 'pass', 'stable', 'tests') if k in d)
    return sorted(stable - passed)


def inside(ids, check):
    sys.path.insert(0, HERE)
    from plants import PLANTS
    for p in PLANTS:
        if ids and p['id'] not in ids:
            continue
        d = os.path.join(SEEDED, p['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(d + '/demo.py', 'w') as f:
            f.write(HEAD + p['demo'].lstrip('\n'))
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/meta.json', 'w') as f:
            json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['what']), f, indent=1)
        problems = []
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode != 0:
            problems.append('demo fails on the unchanged tree: ' + r.stdout[-500:])
        for file, old, new in p['edits']:
            path = '/repo/src/wai/ma/' + file
            s = open(path).read()
            if s.count(old) != 1:
                problems.append('%s: %d matches of %r' % (file, s.count(old), old))
                continue
            open(path, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode == 0:
            problems.append('demo passes with the change')
        elif r.returncode == 124:
            problems.append('demo times out')
        else:
            print(p['id'], 'demo:', r.stdout.strip().split('\n')[-1][:150])
        bad = tests_ok()
        if bad:
            problems.append('tests fail: %s' % bad[:4])
        if check and not problems:
            r = sh('cd /verif && python3 run.py ' + p['property'])
            print(p['id'], 'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode,
                  [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'error' in l.lower()][:1], flush=True)
        sh('git -C /repo checkout -- .')
        print(p['id'], 'OK' if not problems else 'BAD %s' % problems, flush=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    check = '--check' in sys.argv
    if os.environ.get('PLANT_NS') == '1':
        inside(args, check)
    else:
        d = '/tmp/plant-%d' % os.getpid()
        sh('rm -rf %s; cp -a /repo %s' % (d, d))
        try:
            subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd / && exec python3 "$@"' % d, 'x',
                            os.path.abspath(__file__)] + sys.argv[1:], env=dict(os.environ, PLANT_NS='1'))
        finally:
            shutil.rmtree(d, ignore_errors=True)
