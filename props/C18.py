"""A long session does not accumulate anything.

A random cycle of work (runs, analysis, output, re-initialisation with other
settings, saved states, dielectric files, root finding) is repeated in one job,
with garbage collections at random moments.  After each round the process must
hold no more than before: memory from MPB's and libctl's allocations, FFTW
plans, MPI communicators and open shared files, file descriptors, and objects
open inside HDF5."""
import copy, os, subprocess
import gen as G, program, bands, build
from drive import Violation, sim_knobs

CONFIGS = ['complex', 'herm', 'inv', 'mpi', 'mpix', 'mpinv']
BUDGET = {'quick': {'runs': 300, 'secs': 50}, 'thorough': {'runs': 12000, 'secs': 2400}}
RULE = 'random cycle of operations + build + process count, repeated 7 times; non-trivial when all rounds were measured'
VARS = ['num-bands', 'grid-size', 'geometry', 'mesh-size', 'eigensolver-block-size', 'k-points', 'eigensolver-nwork', 'default-material', 'eigensolver-flags', 'force-mu?', 'simple-preconditioner?',
        'tolerance', 'filename-prefix', 'epsilon-input-file']
ROUNDS = 7
WHAT = ['bytes of memory', 'FFT plans', 'communicators and shared files', 'file descriptors', 'HDF5 files', 'HDF5 groups', 'HDF5 datatypes', 'HDF5 dataspaces', 'HDF5 datasets', 'HDF5 attributes']


def gen(rng, tier):
    cfg = G.choice(rng, complex=2.0, herm=2.0, inv=2.0, mpi=1.5, mpix=1.0, mpinv=1.0)
    sc = program.session_scene(rng, cfg, tol=1e-2)
    sc0 = copy.deepcopy(sc)
    par = bands.parities(rng, sc, .3)
    steps = program.session(rng, sc, 1 + rng.randint(1, 4), par, kinds=None if rng.random() < .5 else tuple(rng.sample(['run', 'ops', 'out', 'reinit', 'solve', 'evio', 'epsfile', 'findk', 'mgrid', 'ops', 'out', 'reinit'], 2)))
    return {'cfg': cfg, 'scene': sc0, 'parity': par, 'np': rng.choice([2, 2, 3, 4]) if cfg.startswith('mpi') else 1, 'steps': steps, 'sim': sim_knobs(rng)}


def script(plan):
    s = bands.settings_scm(plan['scene'])
    s += ''.join('(define keep-%s %s)\n' % (v, v) for v in VARS)
    body = ''.join('(set! %s keep-%s)\n' % (v, v) for v in VARS)
    for k, l in plan['steps']:
        body += '(sim-log "op %s")\n%s\n' % (k, '\n'.join(l))
    m = '(sim-gc)\n(obs "M" (append (list (sim-live-bytes) (sim-live-plans) (sim-live-comms) (sim-open-fds)) (sim-h5-ids)))\n(sim-gc)\n(obs "S" (apply append (sim-live-sites)))\n'
    return G.scene_scm(plan['scene'], s + (body + m) * ROUNDS)


def where(exe, off):
    try:
        o = subprocess.run(['addr2line', '-fe', exe, hex(int(off))], capture_output=True, text=True, timeout=60).stdout.split('\n')
        return '%s (%s)' % (o[0], os.path.basename(o[1]))
    except (OSError, subprocess.SubprocessError, IndexError):
        return 'unknown'


def evaluate(plan, c):
    r = c.run(plan['cfg'], 'job', plan['np'], script(plan), 'job', plan['sim'])
    if not r.ok():
        c.notes['nontrivial'] = 0
        c.notes['errors'] = [r.describe()[-160:]]
        return None
    for k in range(plan['np']):
        o = r.obs(k)
        M = [v for l, v in o if l == 'M']
        S = [v for l, v in o if l == 'S']
        if len(M) != ROUNDS:
            c.notes['nontrivial'] = 0
            return None
        for i, what in enumerate(WHAT):
            x = [int(m[i]) for m in M]
            if x[-1] > x[-2] > x[-3] > x[-4] and x[-4] > x[1]:
                a, b = [{t[j]: (t[j + 1], t[j + 2]) for j in range(0, len(t) - 2, 3)} for t in (S[2], S[-1])]
                grew = [(s, a.get(s, (0, 0)), b[s]) for s in b if b[s][0] >= a.get(s, (0, 0))[0] + 3 or (i and b[s][1] > a.get(s, (0, 0))[1])]
                if i == 0 and not grew:
                    continue            # longer values, not more of them
                site = ', '.join(sorted({where(c.exes[plan['cfg']], s[0] - 1) for s in grew})) if i == 0 else ''
                return Violation('leak:' + what.split()[-1], '%s: every round of the session leaves more %s in process %d: %s%s' % (plan['cfg'], what, k, x, ' allocated in ' + site if site else ''))
    c.notes['rounds'] = ROUNDS
    c.notes['steps'] = [st[0].split(':')[0] for st in plan['steps']]
    return None


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'grid': plan['scene']['grid'], 'steps': [s[0] for s in plan['steps']], 'seed': plan['sim']['seed']}


def shrink(plan):
    yield from program.shrink_steps(plan)
    yield from program.shrink_np(plan)
    yield from program.shrink_scene(plan)
