#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harness modules."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/pvenv/bin/python'
NA = {
    'N01': 'running time and memory are not a value the symbolic execution computes; deciding asymptotic cost is outside '
           'solver-based checking of input/output behaviour (the products themselves are decided by C01, C02, C12)',
    'N02': 'the encoding is over the reals: bit-precise floating point through FFTs, LAPACK and Krylov iterations is far '
           'beyond what an SMT solver decides, and the numerical libraries are not Python source',
    'N03': 'positive semi-definiteness for every finite point set is Bochner\'s theorem (an unbounded statement about '
           'transcendental functions), not a bounded assertion over the code',
    'N04': 'depends on the convergence of AdaDelta on stochastic gradients over many transcendental iterations: no '
           'bounded symbolic execution reaches a verdict (and it need not hold for every run)',
}
NOTE = ('Holds for all real values of the symbolic inputs at the listed sizes (bounds are in the evidence file), in real '
        'arithmetic: rounding is outside.  Trusted: the numpy/scipy/paramz facades of symx (validated on every run by '
        'replaying path models through the real package), PyPy, z3.  {extra}')
EXTRA = {
    'C03': 'Gershgorin\'s theorem is used as a lemma.',
    'C13': 'Linear solves and Cholesky are contracts (exact inverse), derivatives of the oracle are symbolic.',
    'C14': 'Linear solves are contracts (exact inverse).',
    'C15': 'Linear solves are contracts (exact inverse).',
    'C16': 'Linear solves are contracts (exact inverse); histories up to the stated length.',
    'C25': 'Linear solves and log-determinants are contracts.',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
        checks.append(dict(
            property=pid,
            quick_cmd='%s check.py %s --tier quick' % (PY, pid),
            thorough_cmd='%s check.py %s --tier thorough' % (PY, pid),
            technique='symbolic execution of the real Python source, assertions decided by z3 (SMT), models replayed on '
                      'the real package',
            level='model_checking',
            level_note=NOTE.format(extra=EXTRA.get(pid, '')).strip()))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='%s -c "import sys; sys.path[:0]=[\'.\', \'/repo\']; import symx.harness" && z3-new --version'
               % PY, checks=checks, not_applicable=na,
               notes='See DESIGN.md.  No hooks in /repo.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
