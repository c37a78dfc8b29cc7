"""Evidence files: measured on this run."""
import json
import os

ASSUME = [
    'values are mathematical reals: rounding, overflow and NaN propagation of IEEE floats are outside the encoding',
    'numpy/scipy/paramz entry points are replaced by the models of symx/ (exact real semantics; FFT as exact circular '
    'convolution; matrix inverse / Cholesky / Krylov solvers as contracts); each path model is validated by a replay on '
    'the real stack',
    'sizes and configurations are the finite list under coverage.bounds; everything else is symbolic',
]


def write_evidence(here, prop, tier, tasks, res, funcs, agg, wall, bad):
    by = {}
    notes = []
    samples = []
    for (n, fn, c, op, b, pf), r in zip(tasks, res):
        d = by.setdefault(n, dict(what=(fn.__doc__ or '').strip().replace('\n    ', ' '), configs=[], held=0,
                                  undecided=0, violated=0, known=0))
        d['configs'].append(c)
        k = {'held': 'held', 'undecided': 'undecided', 'violation': 'violated', 'known': 'known'}.get(r['status'])
        if k:
            d[k] += 1
        for x in r.get('notes', []):
            if x not in notes:
                notes.append(x)
        if len(samples) < 6 and r['status'] in ('held', 'violation'):
            samples.append(dict(harness=n, config=c, status=r['status'], paths=r.get('paths'),
                                assertions=r.get('asserts'), solver=r.get('stats'),
                                replays_on_real_code=r.get('replays')))
    und = [dict(harness=t[0], config=t[2], why=(r.get('detail') or '')[:300]) for t, r in zip(tasks, res)
           if r['status'] == 'undecided']
    ev = dict(
        property=prop['id'], tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
        coverage=dict(
            states=sum(r.get('paths', 0) for r in res),
            transitions=sum(r.get('decisions', 0) or 0 for r in res),
            traces_validated_against_impl=sum(r.get('validated', 0) or 0 for r in res),
            explanation='states = feasible symbolic paths executed to their end, transitions = branch decisions put to '
                        'the solver; each assertion is an SMT query (path condition and negated property) over all '
                        'real values of the symbolic inputs',
            functions_encoded=funcs,
            bounds=by,
            further_bounds=notes,
            assertions=sum(r.get('asserts', 0) for r in res),
            assertions_syntactically_identical=sum(r.get('syntactic', 0) or 0 for r in res),
            solver=agg,
            harness_runs=len(tasks),
            held=sum(r['status'] == 'held' for r in res),
            undecided=und,
            samples=samples,
        ),
        assumptions=ASSUME, wall_s=round(wall, 2), violations=len(bad))
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    with open(os.path.join(here, 'evidence', prop['id'] + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
