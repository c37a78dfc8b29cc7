#!/usr/bin/env python3
"""seeds.py ID... : (re)creates seeded/<ID>/ from tools/seeddefs.py in a scratch copy of /repo, runs the demo with and
without the change and the stable tests with it.  Development aid; no check uses it."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeddefs import SEEDS      # noqa: E402
PRE = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter('ignore')
import numpy as np
np.random.seed(0)
'''
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', SEED='1234',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')


def sh(cmd, cwd, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def one(i, tests=True):
    s = SEEDS[i]
    wt = '/tmp/seedwt_%s' % i
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', wt])
    try:
        for f, old, new in s['edits']:
            p = os.path.join(wt, f)
            t = open(p).read()
            assert t.count(old) >= 1, (i, f, 'not found', old)
            assert t.count(old) == 1, (i, f, 'ambiguous', t.count(old))
            open(p, 'w').write(t.replace(old, new))
        d = os.path.join(HERE, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(['git', '-C', wt, 'diff']).decode()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(PRE + s['demo'])
        with open(os.path.join(d, 'demo.sh'), 'w') as fh:
            fh.write('#!/bin/bash\nexport OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                     'exec /opt/pvenv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, '/repo')
        b = sh('bash %s/demo.sh' % d, wt)
        print(i, 'demo clean', a.returncode, 'patched', b.returncode)
        if a.returncode:
            print(a.stdout.decode()[-1500:])
        print('   ', b.stdout.decode().strip().split('\n')[-1][:200])
        if tests:
            t = sh('/opt/pvenv/bin/python -m pytest runlmc -q -p no:cacheprovider -n 8 --dist worksteal --timeout=700 --tb=line '
                   '--disable-warnings 2>&1 | grep -E "^FAILED|passed|failed"', wt)
            out = t.stdout.decode()
            print('    tests:', out.strip()[-600:])
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    for i in args or sorted(SEEDS):
        one(i, '-n' not in sys.argv)
