"""Every process of a parallel job computes the same values.

The same script runs on every process, and every branch it takes on a computed
value must be the same everywhere or the processes stop agreeing on what to do.
A random session runs on simulated processes whose clocks, heaps, collections
and start times all differ; after it, every value logged by any process must be
bit-for-bit the value logged by process 0."""
import copy
import gen as G, program, bands
from drive import Violation, sim_knobs

CONFIGS = ['mpi', 'mpix', 'mpinv']
BUDGET = {'quick': {'runs': 400, 'secs': 50}, 'thorough': {'runs': 15000, 'secs': 2400}}
RULE = 'random session + build + process count + schedule + per-process clocks; non-trivial when all processes finished and logged values'


def gen(rng, tier):
    cfg = rng.choice(['mpi', 'mpi', 'mpix', 'mpinv'])
    sc = program.session_scene(rng, cfg, tol=rng.choice([1e-3, 1e-4, 1e-6]))
    sc['det'] = rng.random() < .2
    if rng.random() < .12 and not (sc['mu'] or sc['forcemu']):
        sc['davidson'], sc['nwork'] = True, 4
    elif rng.random() < .1:
        sc['target'], sc['nwork'], sc['mu'], sc['forcemu'] = (0 if sc['mu'] or sc['forcemu'] else round(.2 + .5 * rng.random(), 3)), 4, sc['mu'], sc['forcemu']
    sc0 = copy.deepcopy(sc)
    par = bands.parities(rng, sc)
    steps = program.session(rng, sc, rng.randint(2, 7), par, kinds=('run', 'ops', 'out', 'evio', 'findk', 'solve') if sc['davidson'] or sc['target'] else None)
    if rng.random() < .2:
        steps.insert(0, program.early(rng))
    k = sim_knobs(rng)
    k['clockmode'] = rng.choice([1, 2, 3, 3])
    return {'cfg': cfg, 'scene': sc0, 'parity': par, 'np': rng.choice([2, 2, 3, 4, 5, 6, 8, sc['grid'][0] + 1]), 'steps': steps, 'sim': k}


def script(plan):
    return program.scm(plan['scene'], plan['steps'])


def divergence(r, n, whole=True):
    """first value on which a process disagrees with process 0"""
    l0 = r.log(0).split('\n')
    for k in range(1, n):
        l = r.log(k).split('\n')
        op = 'start'
        for a, b in zip(l0, l):
            if a != b and not (whole or a and b):
                continue        # how far each process got before the job failed
            if a != b:
                return k, op, a, b
            if a.startswith('op '):
                op = a[3:]
    return None


def evaluate(plan, c):
    r = c.run(plan['cfg'], 'job', plan['np'], script(plan), 'job', plan['sim'])
    who = '%s on %d processes' % (plan['cfg'], plan['np'])
    d = divergence(r, plan['np'], r.ok())
    if d:
        return Violation('diverged', '%s: after "%s" process 0 has %r, process %d %r' % (who, d[1], d[2][:150], d[0], d[3][:150]))
    if not r.ok():
        if r.j.get('vkind') in ('collective-mismatch', 'deadlock'):
            return Violation('disagree', '%s: %s' % (who, r.describe()))
        c.notes['nontrivial'] = 0
        c.notes['errors'] = [r.describe()[-160:]]
        return None
    n = {r.log(k).count('\n') for k in range(plan['np'])}
    if len(n) > 1:
        return Violation('length', '%s: the processes logged different numbers of values: %s' % (who, sorted(n)))
    c.notes['values'] = max(n) * plan['np']
    c.notes['steps'] = [st[0].split(':')[0] for st in plan['steps']]
    return None


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'grid': plan['scene']['grid'], 'steps': [s[0] for s in plan['steps']], 'seed': plan['sim']['seed']}


def shrink(plan):
    yield from program.shrink_steps(plan)
    yield from program.shrink_np(plan, 2)
    yield from program.shrink_scene(plan)
