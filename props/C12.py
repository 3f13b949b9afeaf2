"""Running out of memory is reported, never survived by accident.

A random session runs twice with the same schedule: undisturbed, and with one
or more of its memory allocations failing, on any process, at any point.  The
second job must either end with a failure status and a message - on every
process, without hanging and without a crash - or have computed, printed and
written exactly what the undisturbed one did."""
import copy
import gen as G, program, bands
import C05
from drive import Violation, sim_knobs

CONFIGS = ['complex', 'herm', 'inv', 'mpi', 'mpix', 'mpinv']
BUDGET = {'quick': {'runs': 500, 'secs': 50}, 'thorough': {'runs': 20000, 'secs': 2400}}
RULE = 'random session + build + process count + schedule + failing allocations; non-trivial when an allocation failed'


def gen(rng, tier):
    cfg = G.choice(rng, complex=2.0, herm=2.0, inv=2.0, mpi=1.5, mpix=1.5, mpinv=1.5)
    sc = program.session_scene(rng, cfg, tol=1e-2)
    sc0 = copy.deepcopy(sc)
    par = bands.parities(rng, sc, .3)
    kinds = ['ops', 'out', 'reinit', 'solve', 'evio', 'epsfile', 'findk', 'mgrid', 'misc']
    steps = program.session(rng, sc, rng.randint(1, 5), par, without=('gc',), kinds=rng.sample(kinds, 2) if rng.random() < .5 else None)
    return {'cfg': cfg, 'scene': sc0, 'parity': par, 'np': rng.choice([1, 2, 2, 3, 4]) if cfg.startswith('mpi') else 1, 'steps': steps,
            # the same point of the session in several tries: most allocations happen in a few places
            'where': [[rng.random(), rng.random()] + ([rng.random()] if rng.random() < .7 else []) for _ in range(rng.choice([6, 8, 12]))], 'sim': dict(sim_knobs(rng), p_gc=0.0)}


def script(plan):
    return program.scm(plan['scene'], plan['steps'])


def evaluate(plan, c):
    s = script(plan)
    n = plan['np']
    a = c.run(plan['cfg'], 'clean', n, s, 'a', plan['sim'])
    if not a.ok():
        c.notes['nontrivial'] = 0
        c.notes['errors'] = [a.describe()[-160:]]
        return None
    la = [a.log(k) for k in range(n)]
    oa = C05.lines(a)
    c.notes['nontrivial'] = 0
    for i, (fr, fn, *fs) in enumerate(plan['where']):
        q = int(fr * n)
        nth = 1 + int(fn * a.j['malloc'][q])
        if fs:      # one of the places in the program that allocate, each as likely as any other
            site = sorted(a.j['asites'][q])[int(fn * len(a.j['asites'][q]))]
            nth = site[2:][int(fs[0] * (len(site) - 2))]
        fx = [['malloc', q, nth]]
        b = c.run(plan['cfg'], 'faulty%d' % i, n, s, 'b%d' % i, plan['sim'], fx)
        if not any(b.j.get('fault_hits', [])):
            continue
        c.notes['nontrivial'] = 1
        c.notes['failed'] = c.notes.get('failed', 0) + 1
        who = '%s on %d processes, allocation number %d of process %d fails' % (plan['cfg'], n, fx[0][2], q)
        if not b.ok():
            if b.outcome in ('exit', 'exit-early', 'abort') and b.code:
                if not b.all_stderr().strip():
                    return Violation('mute', '%s: the job failed without any message' % who)
                continue
            if b.j.get('vkind') == 'no-progress':
                continue
            return Violation('crash', '%s: %s' % (who, b.describe()))
        for k in range(n):
            d = C05.first_difference(la[k].split('\n'), b.log(k).split('\n'))
            if d:
                return Violation('silent', '%s: the job ended successfully, but process %d logged after "%s" %s' % (who, k, d[0], d[1]))
        d = C05.first_difference(oa, C05.lines(b))
        if d:
            return Violation('silent', '%s: the job ended successfully, but its output differs: %s' % (who, d[1]))
        w = C05.compare_files(c.dir('a'), c.dir('b%d' % i))
        if w:
            return Violation('silent', '%s: the job ended successfully, but %s' % (who, w))
    return None


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'grid': plan['scene']['grid'], 'steps': [s[0] for s in plan['steps']], 'failures': plan['where'], 'seed': plan['sim']['seed']}


def shrink(plan):
    if len(plan['where']) > 1:
        for f in plan['where']:
            q = copy.deepcopy(plan)
            q['where'] = [f]
            yield q
    yield from program.shrink_steps(plan)
    yield from program.shrink_np(plan)
    yield from program.shrink_scene(plan)
