"""The solver's answer does not depend on chance or on how it is configured.

A random structure is solved under a random solver configuration (block size,
work space, preconditioner, line-minimisation flags, Davidson, warm or cold
starts), on one or several simulated processes, with random starting fields,
a jumping clock (which steers the choice of line minimisation), a random
reduction order and schedule.  Every reported frequency must be the one a dense
diagonalisation of the same plane-wave problem gives."""
import copy
import numpy as np
import gen as G, bands
from drive import Violation, sim_knobs

CONFIGS = ['complex', 'herm', 'inv', 'mpi', 'mpix', 'mpinv']
BUDGET = {'quick': {'runs': 260, 'secs': 50}, 'thorough': {'runs': 12000, 'secs': 2400}}
RULE = 'random structure + solver configuration + start fields + clock + reduction order + schedule; non-trivial when at least one k-point was compared with the dense reference'
ABS, REL = 5e-5, 4e-4


def gen(rng, tier):
    cfg = G.choice(rng, complex=2.0, herm=2.0, inv=2.0, mpi=1.5, mpix=1.0, mpinv=1.0)
    sc = G.scene(rng, dim=rng.choice([1, 2, 2, 3]) if cfg in ('complex', 'herm', 'inv') else rng.choice([2, 2, 3]), inv=cfg in ('inv', 'mpinv'), herm=cfg in ('herm', 'mpi') and rng.random() < .5,
                 mu=rng.choice([False, False, 'iso']), small=True, mumax=.7)
    if sc['mu']:
        sc['mesh'] = 1          # the file holds the mean permeability only
    sc['kp'] = [G.kpoint(rng, sc) for _ in range(rng.randint(1, 4))]
    bands.solver_settings(rng, sc)
    sc['det'] = rng.random() < .3
    return {'cfg': cfg, 'scene': sc, 'np': rng.choice([1, 2, 3, 4, 6]) if cfg.startswith('mpi') else 1, 'parity': bands.parities(rng, sc),
            'warm': rng.random() < .12 and not sc['davidson'], 'sim': sim_knobs(rng)}


def script(plan, settle=0):
    sc = plan['scene']
    # continuing from one k-point's states may never leave their symmetry class (documented; randomize-fields is the remedy)
    run = '(run-parity %d %s (lambda () (obs "F" freqs))%s)\n'
    s = bands.settings_scm(sc)
    if settle:
        # other start fields, and go on iterating: tells a wrong answer from one that is merely not settled yet
        s += '(set! deterministic? false)\n'
        return G.scene_scm(sc, s + '(run-parity %d true (lambda () (do ((i 0 (+ i 1))) ((= i 10)) (solve-kpoint current-k)) (obs "F" freqs) (randomize-fields)))\n' % plan['parity'])
    if plan['warm']:
        s += '(define ks k-points)\n(set! k-points (list (vector3 0.137 %s 0)))\n(run-parity %d true)\n(set! k-points ks)\n' % ('0' if plan['parity'] & 12 else '0.071', plan['parity'])
    s += run % (plan['parity'], 'false' if plan['warm'] else 'true', '' if plan['warm'] else ' randomize-fields')
    s += '(obs "ranges" (map (lambda (b) (list (caar b) (cadr b))) band-range-data))\n(obs "gaps" gap-list)\n(obs "all" all-freqs)\n'
    return G.scene_scm(sc, s)


# the start fields of each simulated clock time differ; see mpb.c, init_params
def check_bands(plan, r, c, st, name):
    sc = plan['scene']
    got = [v for l, v in r.obs() if l == 'F']
    if len(got) != len(sc['kp']):
        return Violation('missing', '%s: %d k-points solved of %d' % (name, len(got), len(sc['kp'])))
    comp = 0
    for f, k in zip(got, sc['kp']):
        ref = bands.reference(st, k, plan['parity'], sc['bands']) if st else None
        if ref is None:
            continue
        ref, allw = ref
        f = np.array([x if isinstance(x, float) else np.nan for x in f])
        if len(f) != len(ref):
            return Violation('missing', '%s: %d bands of %d at k=%s' % (name, len(f), sc['bands'], k))
        f = np.sort(f)          # blocks are solved one after the other; their states need not come out in order
        err = np.abs(f - ref)
        tol = ABS + REL * np.abs(ref)
        tol = np.where(np.abs(ref) < 1e-3, 2e-3, tol)
        if sc['nwork'] == 2:
            tol = 10 * tol          # steepest descent stops far from settled
        if plan['warm']:
            # only the variational bound holds
            err = np.maximum(np.cumsum(ref ** 2) - np.cumsum(f ** 2), 0)
            tol = 1e-5 + 1e-3 * np.cumsum(ref ** 2)
        comp += 1
        c.notes.setdefault('worst', []).append('%.0e' % np.nanmax(err / tol))
        if not (err <= tol).all():
            i = int(np.argmax(~(err <= tol)))
            return Violation('bands', '%s: k=%s band %d: frequency %.9g, but the discretised problem has %.9g (all reported: %s; expected: %s)' % (
                name, k, i + 1, f[i], ref[i], np.round(f, 7).tolist(), np.round(ref, 7).tolist()))
    return comp


def evaluate(plan, c):
    sc = plan['scene']
    r = c.run(plan['cfg'], 'solve', plan['np'], script(plan), 'w', plan['sim'], jobname='job')
    if not r.ok():
        e = r.all_stderr()
        if r.outcome in ('exit', 'abort', 'exit-early') and any(x in e for x in bands.SOLVE_FAIL + (('non-positive eigenvalue',) if sc['davidson'] else ())):
            # diagnosed failure: not a wrong answer
            c.notes['nontrivial'] = 0
            c.notes['solve_failed'] = 1
            c.notes['solve_errors'] = [e[-120:]]
            return None
        if r.j.get('vkind') == 'no-progress':
            c.notes['nontrivial'] = 0       # steepest descent on a nearly uniform structure: converges, but not soon
            c.notes['slow'] = 1
            return None
        return Violation('outcome', r.describe())
    st = bands.structure(c.dir('w'), sc, plan['cfg'].startswith('mpi'), inv='inv' in plan['cfg'])
    x = check_bands(plan, r, c, st, '%s on %d processes' % (plan['cfg'], plan['np']))
    if isinstance(x, Violation):
        # the stopping criterion can be met by accident (documented: it is the change per iteration that is measured)
        c.notes['rechecked'] = 1
        for i in (1, 2):
            r2 = c.run(plan['cfg'], 'again%d' % i, plan['np'], script(plan, i), 'w', dict(plan['sim'], epoch=plan['sim']['epoch'] + 7919 * i), jobname='job')
            if not r2.ok() or not isinstance(check_bands(dict(plan, warm=False), r2, c, st, ''), Violation):
                c.notes['nontrivial'] = 0
                return None
        return x
    if not x:
        c.notes['nontrivial'] = 0
    c.notes['kpoints_compared'] = x
    return None


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'grid': plan['scene']['grid'], 'parity': plan['parity'], 'flags': plan['scene']['flags'], 'block': plan['scene']['block'],
            'davidson': plan['scene']['davidson'], 'warm': plan['warm'], 'seed': plan['sim']['seed']}


def shrink(plan):
    for kw in ({'warm': False}, {'np': 1}, {'np': 2}, {'parity': 0}):
        k, v = list(kw.items())[0]
        if plan[k] != v and not (k == 'np' and plan['np'] < v):
            q = copy.deepcopy(plan)
            q.update(kw)
            yield q
    if plan['scene']['flags']:
        q = copy.deepcopy(plan)
        q['scene']['flags'] = []
        yield q
    for s in G.scene_shrinks(plan['scene']):
        if s['mu'] and s['mesh'] > 1:
            continue
        q = copy.deepcopy(plan)
        q['scene'] = s
        yield q
