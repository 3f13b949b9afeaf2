"""Derived quantities do not depend on how the data are distributed.

A serial job solves a random scene and saves the eigenvectors.  The same random
sequence of field operations then runs, from those eigenvectors, in the serial
build and in an MPI build on several simulated processes under a random
schedule; every logged value must agree, and every process must log the same."""
import copy
import gen as G, compare
from drive import Violation, sim_knobs

CONFIGS = ['herm', 'mpi', 'complex', 'mpix', 'inv', 'mpinv']
PAIR = {'mpi': 'herm', 'mpix': 'complex', 'mpinv': 'inv'}
BUDGET = {'quick': {'runs': 300, 'secs': 60}, 'thorough': {'runs': 6000, 'secs': 2400}}
RULE = 'random scene + field-operation sequence + process count + schedule; non-trivial when the parallel job ran to the end on >= 2 processes and logged values'


def gen(rng, tier):
    cfg = G.choice(rng, mpi=5.0, mpix=2.0, mpinv=3.0)
    inv = cfg == 'mpinv'
    sc = G.scene(rng, dim=rng.choice([2, 2, 3]), inv=inv, herm=(cfg == 'mpi' and rng.random() < .5), small=True)
    sc['tol'] = 1e-9
    if sc['davidson']:        # that solver cannot continue from converged states
        sc['davidson'] = False
        sc['nwork'] = 3
    sc['kp'] = sc['kp'][:1]
    par = []
    if sc['zmirror']:
        par += [1, 2]
    if sc['ymirror']:
        par += [4, 8] + ([5, 6, 9, 10] if sc['zmirror'] else [])
    p = rng.choice(par) if par and rng.random() < .5 else 0
    np_ = rng.choice([2, 2, 3, 3, 4, 5, 7, 8, sc['grid'][0] + 1, sc['grid'][1] + 2])
    return {'cfg': cfg, 'scene': sc, 'parity': p, 'np': min(np_, 12), 'np2': rng.choice([1, 1, 2, 3, 4]), 'ops': G.ops(rng, sc, rng.randint(5, 10)), 'sim': sim_knobs(rng)}



def scripts(plan):
    sc = plan['scene']
    k = G.v3(sc['kp'][0])
    a = G.scene_scm(sc, '(init-params %d true)\n(solve-kpoint %s)\n(obs "F:freqs" freqs)\n(save-eigenvectors "ev")\n' % (plan['parity'], k))
    b = G.scene_scm(sc, '(init-params %d true)\n(load-eigenvectors "ev")\n(solve-kpoint %s)\n(obs "F:freqs" freqs)\n(load-eigenvectors "ev")\n' % (plan['parity'], k) +
                      G.ops_scm(plan['ops']) + '(sim-log "end")\n')
    return a, b


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'grid': plan['scene']['grid'], 'parity': plan['parity'], 'ops': [o[0] for o in plan['ops']],
            'schedule_seed': plan['sim']['seed'], 'policy': plan['sim'].get('policy')}


def compare_obs(o1, o2, rtol=2e-6, exact_sign=False):
    if len(o1) != len(o2):
        return 'observations', '%d observations against %d' % (len(o1), len(o2))
    worst = 0
    op, cond = '', 1
    for (l1, v1), (l2, v2) in zip(o1, o2):
        if l1 == 'op':
            op = v1[0] if v1 else ''
        if l1 != l2:
            return 'observations', 'label %s against %s' % (l1, l2)
        c = l1.split(':')[0]
        if l1.startswith('Q:energy') and v1 and isinstance(v1[0], float) and abs(v1[0]) < 1e-18 and v2 and abs(v2[0]) < 1e-18:
            continue        # a zero-frequency state: its D energy is rounding noise
        if c == 'F':
            ok, why = compare.close_list(v1, v2, 1e-5, 1e-6)
        elif c == 'C':
            cond = min(v1[0] / (v1[1] or 1), v2[0] / (v2[1] or 1))
            if len(v1) > 2 and min(v1[2], v2[2]) < 1e-3:
                cond = 0        # a zero-frequency state: its E and D are rounding noise
            continue
        elif c == 'S':
            # the phase of a travelling wave is ill-determined; otherwise it is fixed, across layouts up to the sign
            if not cond > 1e-3:
                continue
            ok, why = compare.close_list(v1, v2, rtol / min(1, cond), 1e-7)
            if not ok and not exact_sign:
                n = [-x if isinstance(x, float) else x for x in v2]
                ok, why2 = compare.close_list(v1, n, rtol, 1e-7)
        elif c == 'V':
            ok, why = compare.close_list(v1, v2, rtol, 2e-6)
        elif c == 'P':
            ok, why = compare.close_list(v1, v2, 1e-9, 1e-9)
        else:
            ok, why = compare.close_list(v1, v2, rtol, 2e-8)
        if not ok:
            return op, '%s (operation %s): %s; values %s against %s' % (l1, op, why, v1[:6], v2[:6])
        if isinstance(why, float):
            worst = max(worst, why)
    return None, worst


def evaluate(plan, c):
    ser = PAIR[plan['cfg']]
    a, b = scripts(plan)
    quiet = {'seed': plan['sim']['seed']}
    r = c.run(ser, 'solve', 1, a, 'w', quiet, jobname='solve')
    if not r.ok():
        c.notes['nontrivial'] = 0
        c.notes['solve_failed'] = 1
        c.notes['solve_errors'] = [r.all_stderr()[-150:]]
        return None
    r1 = c.run(ser, 'serial', 1, b, 'w', quiet, jobname='job')
    r1obs, r1ok, d1 = r1.obs(), r1.ok(), r1.describe()
    r2 = c.run(plan['cfg'], 'parallel', plan['np'], b, 'w', plan['sim'], jobname='job')
    if not r1ok and not r2.ok():
        c.notes['nontrivial'] = 0
        c.notes['both_failed'] = 1
        c.notes['both_errors'] = [d1[-200:]]
        return None
    if r2.j.get('vkind') == 'no-progress' or 'failure to converge' in r2.all_stderr():
        c.notes['nontrivial'] = 0       # settling onto 1e-9 can take very long from some states; nothing to compare
        c.notes['slow_solver'] = 1
        return None
    if r1ok != r2.ok():
        return Violation('outcome', 'serial job: %s; parallel job on %d processes: %s' % (d1, plan['np'], r2.describe()))
    for k in range(1, plan['np']):
        if r2.log(k) != r2.log(0):
            l0, lk = r2.log(0).split('\n'), r2.log(k).split('\n')
            i = next((i for i in range(min(len(l0), len(lk))) if l0[i] != lk[i]), min(len(l0), len(lk)))
            return Violation('ranks-differ', 'process %d computed a different value from process 0: "%s" against "%s"' % (
                k, lk[i][:160] if i < len(lk) else '', l0[i][:160] if i < len(l0) else ''))
    par = r2.obs()
    op, why = compare_obs(r1obs, par)
    if op is not None:
        return Violation('differs:' + op, 'build %s on %d processes differs from the serial run: %s' % (plan['cfg'], plan['np'], why))
    if any(o[0] == 'phase' for o in plan['ops']):
        r3 = c.run(plan['cfg'], 'parallel2', plan['np2'], b, 'w', quiet, jobname='job')
        if not r3.ok():
            return Violation('outcome', 'parallel job on %d processes succeeded, on %d: %s' % (plan['np'], plan['np2'], r3.describe()))
        op, why = compare_obs(par, r3.obs(), exact_sign=True)
        if op is not None:
            return Violation('differs:' + op, 'build %s on %d processes differs from %d processes: %s' % (plan['cfg'], plan['np'], plan['np2'], why))
    c.notes['worst'] = ['%.0e' % why]
    c.notes['ops'] = [o[0] for o in plan['ops']]
    c.notes['values_compared'] = len(r1obs)
    return None


def shrink(plan):
    n = len(plan['ops'])
    if n > 1:
        for a, b in ((0, n // 2), (n // 2, n)):
            q = copy.deepcopy(plan)
            q['ops'] = plan['ops'][a:b]
            yield q
        for i in range(n):
            q = copy.deepcopy(plan)
            del q['ops'][i]
            yield q
    for m in (2, 3, plan['np'] - 1):
        if 2 <= m < plan['np']:
            q = copy.deepcopy(plan)
            q['np'] = m
            yield q
    for s in G.scene_shrinks(plan['scene']):
        if s['bands'] != plan['scene']['bands']:
            continue
        q = copy.deepcopy(plan)
        q['scene'] = s
        yield q
    if plan['parity']:
        q = copy.deepcopy(plan)
        q['parity'] = 0
        yield q
