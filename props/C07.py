"""No output failure goes unnoticed.

A job that writes output files (fields, dielectric functions, energies, saved
states) runs twice with the same schedule: once undisturbed and once with
failures injected into opening, writing, truncating or closing files - disk
full from some point on, a single I/O error, interrupted and short writes.
Interrupted and short writes must change nothing.  After an error the job must
either end with a failure status and a message, or have written exactly the
files of the undisturbed job."""
import copy, os
import gen as G, program, bands
import C05
from drive import Violation, sim_knobs

CONFIGS = ['complex', 'herm', 'inv', 'mpi', 'mpix', 'mpinv']
BUDGET = {'quick': {'runs': 500, 'secs': 50}, 'thorough': {'runs': 20000, 'secs': 2400}}
RULE = 'random output program + build + process count + schedule + injected I/O failures; non-trivial when at least one failure was delivered'


def gen(rng, tier):
    cfg = G.choice(rng, complex=2.0, herm=1.5, inv=2.0, mpi=2.0, mpix=1.5, mpinv=1.5)
    sc = program.session_scene(rng, cfg, tol=1e-2)
    sc['bands'] = min(sc['bands'], 3)
    # beyond 64 kB of data HDF5 writes through instead of buffering until the file is closed
    if rng.random() < .45 and sc['dim'] == 2:
        sc['grid'] = [rng.choice([91, 96, 128]), rng.choice([91, 100, 96]), 1]
        sc['mesh'] = 1
        sc['ymirror'] = sc['ymirror'] and sc['grid'][1] % 2 == 0
    sc['kp'] = sc['kp'][:1]
    par = bands.parities(rng, sc, .3)
    steps = [['run', ['(run-parity %d true)' % par]]] if rng.random() < .85 else [['run', ['(init-params %d true)' % par]]]
    solved = 'run-parity' in steps[0][1][0]
    for _ in range(rng.randint(1, 4)):
        if not solved:
            steps.append(['out:eps', ['(output-epsilon)']])
        elif rng.random() < .25:
            steps.append(['run', ['(run-parity %d true %s)' % (par, program.bandfuns(rng, sc, 2))]])
        else:
            for name, l in G.out_ops(rng, sc, 1):
                steps.append(['out:' + name, l])
    fx = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        cls = rng.choice(['write', 'write', 'write', 'write', 'open', 'trunc', 'close', 'read'])
        act = rng.choice(['e:28', 'e:5', 'S:28', 'S:28', 'S:5', 'n', 'h']) if cls == 'write' else rng.choice({'open': ['e:13', 'e:28', 'e:24', 'e:5'], 'trunc': ['e:28', 'e:5'], 'close': ['e:5', 'e:28'], 'read': ['n', 'h', 'e:5']}[cls])
        if act == 'h':
            act = 'h:%d' % rng.choice([1, 10, 50, 99])
        fx.append([rng.random(), cls, rng.random(), act])
    return {'cfg': cfg, 'scene': sc, 'parity': par, 'np': rng.choice([1, 2, 2, 3, 4, 6]) if cfg.startswith('mpi') else 1, 'steps': steps, 'where': fx, 'sim': sim_knobs(rng)}




def place(plan, r):
    """the faults at the drawn fractions of what the undisturbed job did"""
    out = []
    ioc = r.j['ioc']
    for fr, cls, fn, act in plan['where']:
        ranks = [q for q in range(plan['np']) if ioc[cls][q]]
        if not ranks:
            continue
        q = ranks[int(fr * len(ranks))]
        out.append(['io', q, cls, 1 + int(fn * ioc[cls][q]), act])
    return out


def harmless(f):
    return f[4][0] in 'nh'


def script(plan):
    return program.scm(plan['scene'], plan['steps'])


def evaluate(plan, c):
    s = script(plan)
    a = c.run(plan['cfg'], 'clean', plan['np'], s, 'a', plan['sim'])
    if not a.ok():
        c.notes['nontrivial'] = 0
        c.notes['errors'] = [a.describe()[-160:]]
        return None
    fx = place(plan, a)
    b = c.run(plan['cfg'], 'faulty', plan['np'], s, 'b', plan['sim'], fx)
    hits = [f for f, h in zip(fx, b.j.get('fault_hits', [])) if h]
    if not hits:
        c.notes['nontrivial'] = 0
        return None
    who = '%s on %d processes, %s' % (plan['cfg'], plan['np'], '; '.join('%s on %s number %d of process %d' % (f[4], f[2], f[3], f[1]) for f in hits))
    c.notes['kinds'] = [f[2] + ':' + f[4].split(':')[0] for f in hits]
    hard = [f for f in hits if not harmless(f)]
    if not hard:
        if not b.ok():
            return Violation('transparent', '%s: a short or interrupted operation broke the job: %s' % (who, b.describe()))
    elif not b.ok():
        if b.outcome in ('exit', 'exit-early', 'abort') and b.code:
            c.notes['reported'] = 1
            if not b.all_stderr().strip():
                return Violation('mute', '%s: the job failed without any message' % who)
            return None
        if b.outcome == 'signal' and 'CHECK failure' in b.all_stderr():
            c.notes['reported'] = 1         # MPB said what happened; HDF5's own clean-up at exit does not survive a file it could not flush
            return None
        if plan['cfg'] == 'mpi' and b.j.get('vkind') in ('collective-mismatch', 'deadlock'):
            c.notes['nontrivial'] = 0       # parallel HDF5's metadata flush loses step with itself after an error on one process, on its own communicator
            c.notes['hdf5_lost_step'] = 1
            return None
        if b.j.get('vkind') == 'no-progress':
            c.notes['nontrivial'] = 0
            return None
        return Violation('crash', '%s: %s' % (who, b.describe()))
    w = C05.compare_files(c.dir('a'), c.dir('b'))
    if w:
        return Violation('silent', '%s: the job ended successfully but its output is wrong: %s' % (who, w))
    c.notes['unaffected'] = 1
    return None


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'grid': plan['scene']['grid'], 'steps': [s[0] for s in plan['steps']], 'failures': plan['where'], 'seed': plan['sim']['seed']}


def shrink(plan):
    if len(plan['where']) > 1:
        for f in plan['where']:
            q = copy.deepcopy(plan)
            q['where'] = [f]
            yield q
    yield from program.shrink_steps(plan)
    yield from program.shrink_np(plan)
    yield from program.shrink_scene(plan)
