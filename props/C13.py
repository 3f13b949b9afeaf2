"""What a job tells its user does not depend on how many processes it has.

A random session runs on one process and on several simulated processes with an
adversarial schedule.  The processes other than the first must print nothing,
the first must print the lines the serial job prints, in the same order and
each exactly once (numbers aside: they are compared elsewhere), and the same
output files must appear."""
import copy, difflib, os, re
import gen as G, program, bands
from drive import Violation, sim_knobs

CONFIGS = ['herm', 'mpi', 'complex', 'mpix', 'inv', 'mpinv']
PAIR = {'mpi': 'herm', 'mpix': 'complex', 'mpinv': 'inv'}
BUDGET = {'quick': {'runs': 300, 'secs': 50}, 'thorough': {'runs': 12000, 'secs': 2400}}
RULE = 'random session + build + process count + schedule; non-trivial when both jobs finished and printed'
SKIP = re.compile(r'elapsed|^    |% of run')           # (the solver's own reports are indented)
NUM = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?i?|\bnan\b|\binf\b')
# words that follow from a number
GAP = re.compile(r'^Gap from band')
KEEP = re.compile(r'^(Solving for band|Outputting|Reading|Saving|Loading|Working in|Grid size|Allocating|Creating|solve_kpoint|Initializing|Fields|Epsilon data|Computing|Using|Mesh)')


def gen(rng, tier):
    cfg = rng.choice(list(PAIR))
    sc = program.session_scene(rng, cfg, tol=rng.choice([1e-3, 1e-4]))
    sc['det'] = rng.random() < .5
    if rng.random() < .5:
        sc['nwork'] = 3                 # the line minimisation may then be chosen by the clock
    sc0 = copy.deepcopy(sc)
    par = bands.parities(rng, sc)
    steps = program.session(rng, sc, rng.randint(1, 6), par, without=('findk', 'mgrid'))
    return {'cfg': cfg, 'scene': sc0, 'parity': par, 'verbose': rng.random() < .4, 'np': rng.choice([2, 2, 3, 4, 5, 8, sc['grid'][0] + 1]), 'steps': steps, 'sim': sim_knobs(rng)}


def script(plan):
    return program.scm(plan['scene'], plan['steps'], '(sim-verbose)\n' if plan['verbose'] else '')


def lines(r):
    o = []
    for l in r.stdout(0).split('\n'):
        if SKIP.search(l) or GAP.search(l):
            continue
        o.append(NUM.sub('#', l) if not KEEP.search(l) else re.sub(r'after [\d.]+ iter', 'after # iter', re.sub(r'-?\d*\.\d+(e[-+]?\d+)?|\d+e[-+]?\d+', '#', l)))
    return o


def evaluate(plan, c):
    s = script(plan)
    a = c.run(plan['cfg'], 'job', plan['np'], s, 'job', plan['sim'])
    who = '%s on %d processes' % (plan['cfg'], plan['np'])
    for k in range(1, plan['np']):
        if a.stdout(k).strip():
            return Violation('chatter', '%s: process %d printed %r' % (who, k, a.stdout(k).strip()[:200]))
    if not a.ok():
        c.notes['nontrivial'] = 0
        c.notes['errors'] = [a.describe()[-160:]]
        return None
    b = c.run(PAIR[plan['cfg']], 'serial', 1, s, 'serial', dict(plan['sim'], p_switch=0.0))
    if not b.ok():
        c.notes['nontrivial'] = 0
        return None
    if 'GNU Guile' in b.stdout(0):
        c.notes['nontrivial'] = 0       # nothing was run: the interactive prompt of a serial job
        return None
    la, lb = lines(a), lines(b)
    if la != lb:
        d = [l for l in difflib.unified_diff(lb, la, 'one process', 'several', lineterm='', n=0) if l[:1] in '+-' and l[:3] not in ('+++', '---')]
        extra = [l[1:] for l in d if l[0] == '+']
        missing = [l[1:] for l in d if l[0] == '-']
        return Violation('lines', '%s prints %s' % (who, '; '.join((['%d lines one process does not: %r' % (len(extra), extra[:2])] if extra else []) + (['not %d lines one process does: %r' % (len(missing), missing[:2])] if missing else []))))
    fa, fb = ({f for f in os.listdir(c.dir(d)) if f.endswith('.h5')} for d in ('job', 'serial'))
    if fa != fb:
        return Violation('files', '%s: output files %s against %s of one process' % (who, sorted(fa - fb), sorted(fb - fa)))
    c.notes['lines'] = len(la)
    c.notes['files'] = len(fa)
    c.notes['steps'] = [st[0].split(':')[0] for st in plan['steps']]
    return None


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'grid': plan['scene']['grid'], 'steps': [s[0] for s in plan['steps']], 'seed': plan['sim']['seed']}


def shrink(plan):
    yield from program.shrink_steps(plan)
    yield from program.shrink_np(plan, 2)
    yield from program.shrink_scene(plan)
