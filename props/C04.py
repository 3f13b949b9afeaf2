"""The processes of a parallel job always agree on what to communicate.

A random session runs on simulated processes with a hostile schedule: sends that
never buffer, starved processes, processes that finish early.  The simulated MPI
library checks every call against what the other processes do: no deadlock, no
collective in which the processes disagree on operation, root, size or type, no
message left unreceived, no request or communicator leaked, and no process still
looking for work after a bounded number of steps."""
import copy
import gen as G, program, bands
from drive import Violation, sim_knobs

CONFIGS = ['herm', 'complex', 'inv', 'mpi', 'mpix', 'mpinv']
SERIAL = {'mpi': 'herm', 'mpix': 'complex', 'mpinv': 'inv'}
BUDGET = {'quick': {'runs': 300, 'secs': 50}, 'thorough': {'runs': 15000, 'secs': 2400}}
RULE = 'random session + build + process count + schedule; non-trivial when all processes finished the whole session and exchanged messages'


def gen(rng, tier):
    cfg = rng.choice(['mpi', 'mpi', 'mpix', 'mpinv'])
    sc = program.session_scene(rng, cfg, tol=rng.choice([1e-3, 1e-4]))
    sc['det'] = rng.random() < .3
    if rng.random() < .12 and not (sc['mu'] or sc['forcemu']):
        sc['davidson'], sc['nwork'] = True, 4
    if rng.random() < .1 and not sc['davidson']:
        sc['target'] = round(.2 + .5 * rng.random(), 3)
    if rng.random() < .1:
        sc['bands'] = 1
    sc0 = copy.deepcopy(sc)
    par = bands.parities(rng, sc)
    steps = program.session(rng, sc, rng.randint(1, 6), par, kinds=('run', 'ops', 'out', 'evio', 'findk', 'solve') if sc['davidson'] else None)
    np_ = rng.choice([2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, sc['grid'][0] + 1, sc['grid'][1] + 1])
    k = sim_knobs(rng)
    k['p_sync'] = rng.choice([0.0, .3, 1.0, 1.0])
    k['p_eager'] = rng.choice([0.0, 0.0, .5, 1.0])
    return {'cfg': cfg, 'scene': sc0, 'parity': par, 'np': np_, 'steps': steps, 'sim': k,
            'faults': [['stall', rng.randrange(np_), rng.randint(1, 4000), rng.randint(100, 200000)]] if rng.random() < .3 else []}


def script(plan):
    return program.scm(plan['scene'], plan['steps'])


def evaluate(plan, c):
    s = script(plan)
    r = c.run(plan['cfg'], 'job', plan['np'], s, 'job', plan['sim'], plan['faults'])
    who = '%s on %d processes' % (plan['cfg'], plan['np'])
    if r.ok():
        for k in range(plan['np']):
            if 'end' not in r.log(k).split('\n'):
                return Violation('unfinished', '%s: process %d left before the end of the script' % (who, k))
        if any(r.j.get('live_reqs', [])):
            return Violation('request', '%s: requests never completed: %s' % (who, r.j['live_reqs']))
        if any(x >= 1000 for x in r.j.get('live_comms', [])):
            return Violation('file', '%s: shared files never closed: %s' % (who, r.j['live_comms']))
        c.notes['steps'] = [st[0].split(':')[0] for st in plan['steps']]
        return None
    # every process refused for the same reason as one process would: not a question of communication
    if r.j.get('vkind') == 'no-progress':
        # the solver may go on iterating in any build
        r1 = c.run(SERIAL[plan['cfg']], 'serial', 1, s, 'serial', plan['sim'])
        ends = [r.log(k).strip().split('\n')[-1] for k in range(plan['np'])]
        if not r1.ok() or any(e.startswith('op ') and e.split()[1].split(':')[0] in ('run', 'solve', 'reinit', 'evio', 'findk', 'epsfile') for e in ends):
            c.notes['nontrivial'] = 0
            c.notes['long'] = 1
            return None
        return Violation('no-progress', '%s: %s' % (who, r.describe()))
    if r.outcome == 'violation':
        return Violation(r.j['vkind'], '%s: %s' % (who, r.describe()))
    r1 = c.run(SERIAL[plan['cfg']], 'serial', 1, s, 'serial', dict(plan['sim'], p_switch=0.0))
    if not r1.ok() or any(x in r.all_stderr() for x in bands.SOLVE_FAIL):
        c.notes['nontrivial'] = 0
        c.notes['errors'] = [r.describe()[-160:]]
        return None
    return Violation('outcome', '%s: the same session works on one process: %s' % (who, r.describe()))


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'grid': plan['scene']['grid'], 'steps': [s[0] for s in plan['steps']], 'seed': plan['sim']['seed']}


def shrink(plan):
    yield from program.shrink_steps(plan)
    yield from program.shrink_np(plan, 2)
    yield from program.shrink_scene(plan)
