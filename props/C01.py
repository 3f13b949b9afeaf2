"""Bands, ranges and gaps do not depend on the number of processes or the build.

The same band calculation runs in the serial build and in an MPI build on
several simulated processes (or, for an inversion-symmetric structure, in the
inversion build on any number), under a random schedule.  What the job prints
and what its script sees must agree; a disagreement is settled by other start
fields and a dense diagonalisation before it counts."""
import copy, os, re
import numpy as np
import gen as G, bands, h5, sim as S
from drive import Violation, sim_knobs

CONFIGS = ['complex', 'herm', 'inv', 'mpi', 'mpix', 'mpinv']
PAIR = {'mpi': 'herm', 'mpix': 'complex', 'mpinv': 'inv', 'inv': 'complex'}
BUDGET = {'quick': {'runs': 230, 'secs': 55}, 'thorough': {'runs': 12000, 'secs': 2400}}
RULE = 'random structure + solver configuration + k-points + build + process count + schedule; non-trivial when both jobs finished and frequencies were compared'
ABS, REL = 5e-5, 4e-4


def gen(rng, tier):
    cfg = G.choice(rng, mpi=4.0, mpix=3.0, mpinv=3.0, inv=1.5)
    sc = G.scene(rng, dim=rng.choice([2, 2, 3]), inv='inv' in cfg, herm=cfg == 'mpi' and rng.random() < .5, mu=rng.choice([False, False, True]), small=rng.random() < .8, mumax=.7)
    sc['davidson'] = False
    if sc['nwork'] > 3:
        sc['nwork'] = 3
    bands.solver_settings(rng, sc)
    sc['kp'] = [G.kpoint(rng, sc) for _ in range(rng.randint(2, 4))]
    kind = G.choice(rng, bands=6.0, findk=1.3)
    if kind == 'target':
        sc['target'] = round(.2 + rng.random() * .5, 3)
        sc['tol'] = 1e-7
        sc['bands'] = rng.randint(2, 3)
        sc['nwork'] = 3
        sc['kp'] = [k for k in sc['kp'] if any(k)][:2] or [[.3, .1, 0]]
    if kind == 'findk':
        sc['kp'] = [[round(.15 + .3 * rng.random(), 3), 0, 0]]
    par = bands.parities(rng, sc)
    ref = PAIR[cfg] if cfg != 'mpinv' or rng.random() < .5 else 'complex'
    np_ = rng.choice([2, 2, 3, 3, 4, 5, 7, 8, sc['grid'][0] + 1, sc['grid'][1] + 2]) if cfg.startswith('mpi') else 1
    return {'cfg': cfg, 'ref': ref, 'scene': sc, 'parity': par, 'np': min(np_, 12), 'kind': kind, 'band': rng.randint(1, sc['bands']), 'sim': sim_knobs(rng)}


def script(plan, settle=0):
    sc = plan['scene']
    s = bands.settings_scm(sc)
    if plan['kind'] == 'findk':
        k = sc['kp'][0]
        s += ('(run-parity %d true)\n(define b %d)\n(define om (list-ref freqs (- b 1)))\n(define kr (find-k %d om b b (vector3 1 0 0) 1e-4 %s 0.02 0.6))\n'
              '(set! k-points (list (vector3-scale (car kr) (vector3-scale %s (vector3 1 0 0)))))\n(randomize-fields)\n(run-parity %d true (lambda () (do ((i 0 (+ i 1))) ((= i 2)) (solve-kpoint current-k))))\n'
              '(obs "kr" kr)\n(obs "om" om)\n(obs "resid" (- (list-ref freqs (- b 1)) om))\n') % (
                  plan['parity'], plan['band'], plan['parity'], G.f(k[0]), '(/ 1.0 (vector3-norm (reciprocal->cartesian (vector3 1 0 0))))', plan['parity'])
        return G.scene_scm(sc, s)
    if settle:
        s += '(run-parity %d true (lambda () (do ((i 0 (+ i 1))) ((= i 6)) (solve-kpoint current-k)) (obs "F" freqs) (randomize-fields)))\n' % plan['parity']
        return G.scene_scm(sc, s)
    s += '(run-parity %d true (lambda () (obs "F" freqs)) randomize-fields)\n' % plan['parity']
    s += '(obs "ranges" (map (lambda (b) (list (caar b) (cadr b))) band-range-data))\n(obs "gaps" gap-list)\n(obs "all" all-freqs)\n'
    return G.scene_scm(sc, s)


def tolerances(ref, nwork):
    t = ABS + REL * np.abs(ref)
    t = np.where(np.abs(ref) < 2e-3, 2e-3, t)
    return t * (10 if nwork == 2 else 1)


def freqs_of(r):
    return [np.sort(np.array([x if isinstance(x, float) else np.nan for x in v])) for l, v in r.obs() if l == 'F']


def printed(r):
    """frequency, range and gap lines of standard output"""
    out = {'freqs': [], 'range': [], 'gap': [], 'eps': []}
    for l in r.stdout(0).split('\n'):
        m = re.match(r'(\w*)freqs:, (\d+), (.*)$', l)
        if m:
            out['freqs'].append((m.group(1), int(m.group(2)), [float(x) for x in m.group(3).split(',')]))
        elif l.startswith('Band ') and 'range:' in l:
            out['range'].append([float(x) for x in re.findall(r'(?:range:|to) ([-\d.e]+) at', l)])
        elif l.startswith('Gap from band'):
            m = re.match(r'Gap from band (\d+) \(([-\d.e]+)\) to band (\d+) \(([-\d.e]+)\), ([-\d.e]+)%', l)
            out['gap'].append([float(x) for x in m.groups()] if m else l)
        elif l.startswith(('epsilon:', 'mu:')):
            out['eps'].append(l)
    return out


def consistent(r, plan):
    """the printed results are those the script computed with"""
    F = [v for l, v in r.obs() if l == 'F']
    p = printed(r)
    if len(p['freqs']) != len(F):
        return '%d frequency lines for %d k-points' % (len(p['freqs']), len(F))
    lo = np.min([f for f in F], axis=0)
    hi = np.max([f for f in F], axis=0)
    for i, ((par, idx, vals), f) in enumerate(zip(p['freqs'], F)):
        k = plan['scene']['kp'][i]
        if idx != i + 1 or not np.allclose(vals[:3], k, atol=1e-5) or not np.allclose(vals[4:], f, rtol=1e-4, atol=1e-6):
            return 'frequency line %d prints %s for k=%s, frequencies %s' % (i + 1, vals, k, f)
    if len(F) > 1:
        if len(p['range']) != len(lo) or not np.allclose(p['range'], np.array([lo, hi]).T, rtol=1e-5, atol=1e-8):
            return 'band ranges printed %s, computed %s' % (p['range'], np.array([lo, hi]).T.tolist())
        want = []
        for b in range(len(lo) - 1):
            if lo[b + 1] > hi[b]:
                want.append([b + 1, hi[b], b + 2, lo[b + 1], 200 * (lo[b + 1] - hi[b]) / (lo[b + 1] + hi[b])])
        big = [w for w in want if w[4] > 1e-3]
        for g in big:
            if not any(not isinstance(x, str) and x[0] == g[0] and abs(x[1] - g[1]) < 1e-5 and abs(x[3] - g[3]) < 1e-5 and abs(x[4] - g[4]) < 1e-4 + 1e-3 * g[4] for x in p['gap']):
                return 'gap %s not among the printed ones %s' % (g, p['gap'])
        for x in p['gap']:
            if isinstance(x, str) or not any(w[0] == x[0] for w in want):
                return 'printed gap %s does not exist (ranges %s)' % (x, np.array([lo, hi]).T.tolist())
    return None


def disagree(A, B, nwork, target):
    if len(A) != len(B):
        return '%d k-points against %d' % (len(A), len(B))
    for i, (a, b) in enumerate(zip(A, B)):
        if len(a) != len(b):
            return 'k-point %d: %d bands against %d' % (i + 1, len(a), len(b))
        bad = ~(np.abs(a - b) <= tolerances(a, nwork) * (5 if target else 1))
        if bad.any():
            j = int(np.argmax(bad))
            return 'k-point %d band %d: %.9g against %.9g (all: %s against %s)' % (i + 1, j + 1, a[j], b[j], np.round(a, 7).tolist(), np.round(b, 7).tolist())
    return None


def failed_solve(r):
    return r.outcome in ('exit', 'abort', 'exit-early') and any(x in r.all_stderr() for x in bands.SOLVE_FAIL + ('find-root-deriv',)) or r.j.get('vkind') == 'no-progress'


def same_stats(a, b):
    a, b = S.numbers(a), S.numbers(b)
    if len(a) == len(b) and len(a) > 2 and abs(abs(a[1]) - a[0]) < 1e-4 * a[0]:
        a, b = a[:-1], b[:-1]       # a uniform structure: its filling fraction is 0/0
    return len(a) == len(b) and np.allclose(a, b, rtol=2e-5, atol=1e-5)


def symmetric(cwd, sc):
    for nm in ('epsilon', 'mu'):
        p = os.path.join(cwd, 'job-%s.h5' % nm)
        if not os.path.exists(p):
            continue
        for k, v in h5.read(p)['data'].items():
            if k == 'data' or k.startswith((nm + '.', nm + '_inverse.')):
                a = np.array(v).reshape(sc['grid'])
                if np.abs(a[np.ix_(*[(-np.arange(q)) % q for q in a.shape])] - a).max() > 1e-9:
                    return False
    return True


def trivial(c, why):
    c.notes['nontrivial'] = 0
    c.notes[why] = 1


def evaluate(plan, c):
    sc = plan['scene']
    cfg, nw, tgt = plan['cfg'], sc['nwork'], plan['kind'] == 'target'
    quiet = {'seed': plan['sim']['seed'], 'epoch': plan['sim'].get('epoch', 0)}
    r1 = c.run(plan['ref'], 'reference', 1, script(plan), 'a', quiet)
    o1, s1, ok1 = r1.obs(), r1.stdout(), r1.ok()
    if not ok1:
        return trivial(c, 'solve_failed' if failed_solve(r1) else 'reference_failed')
    F1 = freqs_of(r1)
    p1 = printed(r1)
    bad1 = None if plan['kind'] == 'findk' else consistent(r1, plan)
    r2 = c.run(cfg, 'job', plan['np'], script(plan), 'b', plan['sim'])
    if not r2.ok():
        if failed_solve(r2):
            return trivial(c, 'solve_failed')
        if plan['kind'] == 'findk' and r2.outcome in ('exit', 'abort') and 'failure to converge' in r2.all_stderr() + r2.stdout():
            return trivial(c, 'findk_failed')
        return Violation('outcome', '%s build on one process finished, %s build on %d: %s' % (plan['ref'], cfg, plan['np'], r2.describe()))
    for k in range(1, plan['np']):
        if r2.log(k) != r2.log(0):
            return Violation('ranks-differ', 'process %d saw other results than process 0' % k)
    if plan['kind'] == 'findk':
        v1 = [v for l, v in o1 if l == 'resid'][0][0]
        d2 = dict(r2.obs())
        v2 = d2['resid'][0]
        c.notes['resid'] = ['%.0e/%.0e' % (abs(v1), abs(v2))]
        if abs(v1) > 1e-3:
            return trivial(c, 'findk_reference')
        if not abs(v2) < 4e-3:
            for i in (1, 2):
                r = c.run(cfg, 'again%d' % i, plan['np'], script(plan), 'b', dict(plan['sim'], epoch=quiet['epoch'] + 7919 * i))
                if not r.ok() or abs(dict(r.obs())['resid'][0]) < 4e-3:
                    return trivial(c, 'retried')
            return Violation('find-k', '%s on %d processes: find-k returned k=%s for frequency %s of band %d, where the frequency differs by %g (serial: %g)' % (
                cfg, plan['np'], d2['kr'], d2['om'], plan['band'], v2, v1))
        return None
    w = consistent(r2, plan)
    if w or bad1:
        return Violation('printed', '%s on %d processes: %s' % ((cfg, plan['np'], w) if w else (plan['ref'], 1, bad1)))
    p2 = printed(r2)
    if plan['ref'] == 'complex' and 'inv' in cfg and not symmetric(c.dir('a'), sc):
        return trivial(c, 'not_symmetric')      # the averaged structure of the general build has no exact inversion centre
    # the dielectric statistics come before the solver: they are exact
    if len(p1['eps']) != len(p2['eps']) or any(not same_stats(a, b) for a, b in zip(p1['eps'], p2['eps'])):
        return Violation('epsilon', '%s on %d processes prints "%s", %s on one: "%s"' % (cfg, plan['np'], p2['eps'], plan['ref'], p1['eps']))
    F2 = freqs_of(r2)
    why = disagree(F1, F2, nw, tgt)
    if why:
        c.notes['rechecked'] = 1
        others = [F1]
        st = bands.structure(c.dir('b'), sc, cfg.startswith('mpi'), inv='inv' in cfg) if not (sc['mu'] and (sc['mesh'] > 1 or sc['mu'] != 'iso')) else None
        if plan['parity'] and not st:
            return trivial(c, 'unclear')
        if st:
            ref = [bands.reference(st, k, plan['parity'], sc['bands'], sc['target']) for k in sc['kp']]
            if plan['parity'] and not all(ref):
                return trivial(c, 'unclear')    # the averaged structure lacks the mirror symmetry: the parity does not define a spectrum
            if all(ref):
                if not disagree([x[0] for x in ref], F2, nw, tgt):
                    return trivial(c, 'reference_wrong')
                others.append([x[0] for x in ref])
        for i in (1, 2):
            e = quiet['epoch'] + 7919 * i
            r = c.run(cfg, 'again%d' % i, plan['np'], script(plan, i), 'b', dict(plan['sim'], epoch=e))
            if not r.ok():
                return trivial(c, 'retry_failed')
            Fi = freqs_of(r)
            rs = c.run(plan['ref'], 'refagain%d' % i, 1, script(plan, i), 'a', dict(quiet, epoch=e))
            if rs.ok():
                others.append(freqs_of(rs))
            if any(not disagree(o, Fi, nw, tgt) for o in others):
                return trivial(c, 'retried')
        return Violation('bands', '%s on one process against %s on %d: %s' % (plan['ref'], cfg, plan['np'], why))
    c.notes['kpoints_compared'] = len(F1)
    return None


def describe(plan):
    return {'build': plan['cfg'], 'reference': plan['ref'], 'kind': plan['kind'], 'processes': plan['np'], 'grid': plan['scene']['grid'], 'parity': plan['parity'], 'flags': plan['scene']['flags'],
            'block': plan['scene']['block'], 'seed': plan['sim']['seed']}


def shrink(plan):
    for k, v in (('np', 2), ('np', 3), ('parity', 0)):
        if plan[k] > v:
            q = copy.deepcopy(plan)
            q[k] = v
            yield q
    if plan['scene']['flags']:
        q = copy.deepcopy(plan)
        q['scene']['flags'] = []
        yield q
    for s in G.scene_shrinks(plan['scene']):
        q = copy.deepcopy(plan)
        q['scene'] = s
        q['band'] = min(q['band'], s['bands'])
        yield q
