"""deterministic? = true means what it says.

A random session runs twice in the same build on the same number of processes
with deterministic? set, under two different environments: other clocks (wall
and CPU), heap contents, garbage collections, address layout, message timing
and interleaving.  Everything the script computes, every file and every line of
output except the timings must be bit-for-bit the same."""
import copy, os, re
import numpy as np
import gen as G, program, h5
from drive import Violation, sim_knobs

CONFIGS = ['complex', 'herm', 'inv', 'mpi', 'mpix', 'mpinv', 'complexP', 'mpixP', 'mpinvP']
BUDGET = {'quick': {'runs': 260, 'secs': 50}, 'thorough': {'runs': 12000, 'secs': 2400}}
RULE = 'random session + build + process count + two environments; non-trivial when both runs finished and logged values'


def gen(rng, tier):
    cfg = G.choice(rng, complex=2.0, herm=2.0, inv=2.0, mpi=2.0, mpix=2.0, mpinv=2.0)
    sc = program.session_scene(rng, cfg, tol=rng.choice([1e-4, 1e-5, 1e-7]))
    sc['nwork'] = rng.choice([2, 3, 3, 4])
    if rng.random() < .1:
        sc['davidson'], sc['nwork'], sc['mu'] = not (sc['mu'] or sc['forcemu']), 4, sc['mu']
    sc0 = copy.deepcopy(sc)
    import bands
    par = bands.parities(rng, sc)
    steps = program.session(rng, sc, rng.randint(1, 5), par, kinds=('run', 'ops', 'out', 'evio', 'findk', 'solve') if sc['davidson'] else None)
    if rng.random() < .2:
        steps.insert(0, program.early(rng))
    np_ = rng.choice([1, 2, 2, 3, 4, 5, 7]) if cfg.startswith('mpi') else 1
    a, b = sim_knobs(rng), sim_knobs(rng)
    for x in (a, b):
        x.pop('redorder', None)         # the order of additions in a reduction is the MPI library's choice, not MPB's: the same in both
    if b['poison'] == a['poison']:
        b['poison'] = (a['poison'] + 1) % 5
    # the second time with other garbage in uninitialised variables
    cfgb = cfg + 'P' if cfg in ('complex', 'mpix', 'mpinv') and rng.random() < .6 else cfg
    return {'cfg': cfg, 'cfg_b': cfgb, 'scene': sc0, 'parity': par, 'np': np_, 'steps': steps, 'redorder': rng.choice([0, 1, 3]), 'sim': a, 'sim_b': b}


def script(plan):
    return program.scm(plan['scene'], plan['steps'])


SKIP = re.compile(r'elapsed time|total elapsed|^\s+iteration\s|% of run')


def lines(r, k=0):
    return [l for l in r.stdout(k).split('\n') if not SKIP.search(l)]


def files(d):
    return sorted(f for f in os.listdir(d) if f.endswith('.h5'))


def first_difference(la, lb):
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else None
        y = lb[i] if i < len(lb) else None
        if x != y:
            op = next((l for l in reversed(la[:i + 1]) if l and l.startswith('op ')), '')
            return op, '%r against %r' % (x and x[:170], y and y[:170])
    return None


def same_array(x, y):
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and (x.tobytes() == y.tobytes() or (x.dtype.kind == 'f' and np.array_equal(x, y, equal_nan=True)))


def compare_files(d1, d2):
    f1, f2 = files(d1), files(d2)
    if f1 != f2:
        return 'files %s against %s' % (sorted(set(f1) - set(f2)), sorted(set(f2) - set(f1)))
    for f in f1:
        a, b = h5.read(os.path.join(d1, f)), h5.read(os.path.join(d2, f))
        if (a is None) != (b is None):
            return '%s is readable in one run only' % f
        if a is None:
            continue
        for part in ('data', 'attrs'):
            if sorted(a[part]) != sorted(b[part]):
                return '%s: contents %s against %s' % (f, sorted(a[part]), sorted(b[part]))
            for k in a[part]:
                if not same_array(a[part][k], b[part][k]):
                    return '%s: %s differs' % (f, k)
    return None


def evaluate(plan, c):
    s = script(plan)
    r1 = c.run(plan['cfg'], 'first', plan['np'], s, 'a', dict(plan['sim'], redorder=plan['redorder']))
    if not r1.ok():
        c.notes['nontrivial'] = 0
        c.notes['first_failed'] = 1
        c.notes['errors'] = [r1.describe()[-160:]]
        return None
    l1 = [r1.log(k).split('\n') for k in range(plan['np'])]
    o1 = lines(r1)
    r2 = c.run(plan.get('cfg_b', plan['cfg']), 'second', plan['np'], s, 'b', dict(plan['sim_b'], redorder=plan['redorder']))
    who = '%s on %d processes' % (plan['cfg'], plan['np'])
    if not r2.ok():
        if r2.j.get('vkind') == 'no-progress':
            c.notes['nontrivial'] = 0
            return None
        return Violation('outcome', '%s: the session finished in one environment, in another: %s' % (who, r2.describe()))
    for k in range(plan['np']):
        d = first_difference(l1[k], r2.log(k).split('\n'))
        if d:
            return Violation('values', '%s, deterministic?: process %d logged after "%s": %s' % (who, k, d[0], d[1]))
    d = first_difference(o1, lines(r2))
    if d:
        return Violation('output', '%s, deterministic?: standard output differs: %s' % (who, d[1]))
    w = compare_files(c.dir('a'), c.dir('b'))
    if w:
        return Violation('files', '%s, deterministic?: %s' % (who, w))
    c.notes['values'] = sum(map(len, l1))
    c.notes['steps'] = [st[0].split(':')[0] for st in plan['steps']]
    return None


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'grid': plan['scene']['grid'], 'steps': [s[0] for s in plan['steps']], 'seed': plan['sim']['seed']}


def shrink(plan):
    yield from program.shrink_steps(plan)
    yield from program.shrink_np(plan)
    # one environmental difference at a time
    for k in sorted(plan['sim']):
        if plan['sim'].get(k) != plan['sim_b'].get(k):
            q = copy.deepcopy(plan)
            q['sim_b'][k] = plan['sim'][k]
            yield q
    yield from program.shrink_scene(plan)
