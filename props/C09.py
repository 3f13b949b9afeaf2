"""What a job has finished writing survives its death, and a restart is sound.

A deterministic job computes bands and writes fields and saved states, marking
each step it has finished.  It runs undisturbed once; then again with the same
schedule until the whole job dies, one of its processes is killed, or a write
is torn, at an arbitrary point.  Every file of a step all processes had
finished must be complete and identical to the undisturbed one; what was
printed must be the beginning of what the undisturbed job prints.  Then a job
on another number of processes restarts in that directory from a saved state
(finished or not) and writes all the files again: it must find the right bands
and leave complete files, or say that the state is unusable."""
import copy, os
import numpy as np
import gen as G, h5, program, bands
import C05
from drive import Violation, sim_knobs

CONFIGS = ['complex', 'inv', 'mpi', 'mpix', 'mpinv']
BUDGET = {'quick': {'runs': 400, 'secs': 55}, 'thorough': {'runs': 20000, 'secs': 2400}}
RULE = 'random program + build + process counts + schedule + point and kind of death; non-trivial when the job died and a step it had finished, or a state to restart from, was checked'


def gen(rng, tier):
    cfg = G.choice(rng, complex=1.5, inv=1.5, mpi=2.5, mpix=2.5, mpinv=2.5)
    sc = program.session_scene(rng, cfg, tol=1e-8)
    sc['bands'] = min(sc['bands'], 3)
    sc['davidson'], sc['nwork'], sc['target'] = False, 3, 0
    if rng.random() < .25 and sc['dim'] == 2:
        # beyond 64 kB of data HDF5 writes through instead of buffering until the file is closed
        sc['grid'] = [rng.choice([64, 66]), rng.choice([60, 64]), 1]
        sc['bands'], sc['tol'] = 2, 1e-6
        sc['ymirror'] = False
    par = bands.parities(rng, sc, .3)
    k = sc['kp'][0]
    sc['kp'] = [k]
    steps = []
    n = rng.randint(2, 5)
    for i in range(n):
        r = rng.random()
        if r < .35 or i == n - 1 and not any(s[0] == 'save' for s in steps):
            steps.append(['save', ['(save-eigenvectors "%s")' % (rng.choice(['ck', 'ck%d' % i]))]])
        elif r < .42:
            steps.append(['grid', ['(define mg (make material-grid (epsilon-min 1) (epsilon-max 9) (size %d %d %d) (matgrid-init (lambda (x y z) (abs (sin (+ x (* 3 y) (* 7 z))))))))' % (rng.randint(1, 40), rng.randint(1, 60), rng.choice([1, 1, 8])),
                                   '(save-material-grid mg "f%02d-mg")' % i]])
        elif r < .55:
            steps.append(['move', ['(set! k-points (list %s))' % G.v3(G.kpoint(rng, sc)), '(run-parity 0 false %s)' % program.bandfuns(rng, sc, rng.choice([0, 1]))] if not par else
                          ['(run-parity %d false)' % par]])
        else:
            name, l = G.out_ops(rng, sc, 1)[0]
            if name in ('outev', 'outev2'):
                l = ['(output-eigenvectors (get-eigenvectors 1 1) "f%02d-vec")' % i]
            steps.append(['out', l])
    where = [rng.choice(['crash', 'kill', 'torn', 'torn', 'torn', 'torn', 'other', 'other', 'late', 'late', 'late']), rng.random(), rng.random(), rng.choice([0, 0, 1, 50, 99])]
    np_ = rng.choice([1, 2, 2, 3, 4, 5]) if cfg.startswith('mpi') else 1
    np2 = rng.choice([1, 2, 3, 4, np_]) if cfg.startswith('mpi') else 1
    return {'cfg': cfg, 'scene': sc, 'parity': par, 'np': np_, 'np2': np2, 'steps': steps, 'where': where, 'again': rng.random() if rng.random() < .3 else None, 'sim': dict(sim_knobs(rng), p_gc=0.0), 'sim2': sim_knobs(rng)}


def script(plan, load=None):
    sc, p = plan['scene'], plan['parity']
    o = [bands.settings_scm(sc)]
    if load:
        o += ['(init-params %d true)' % p, '(load-eigenvectors "%s")' % load, '(sim-log "loaded")', '(run-parity %d false)' % p]
    else:
        o += ['(run-parity %d true)' % p]
    o += ['(solve-kpoint (car k-points))', '(solve-kpoint (car k-points))', '(obs "F" freqs)']
    for i, (k, l) in enumerate(plan['steps']):
        o += ['(sim-log "begin %d")' % i, '(set! filename-prefix "f%02d-")' % i] + l + ['(sim-log "done %d")' % i]
    return G.scene_scm(sc, '\n'.join(o) + '\n(set! filename-prefix "z-")\n(run-parity %d false)\n(sim-log "end")\n' % p)


def place(plan, r):
    kind, a, b, part = plan['where']
    n = plan['np']
    if kind == 'late':
        # in the part of the job that writes
        return ['crash', -1, max(1, int(r.j['nev'] * (.75 + .25 * a)))]
    if kind == 'crash':
        return ['crash', -1, max(1, int(r.j['nev'] * a))]
    if kind == 'kill':
        q = int(b * n)
        return ['kill', q, max(1, int(r.j['nev'] / n * a))]
    cls = 'write' if kind == 'torn' else ['open', 'close', 'trunc'][part % 3]
    ranks = [q for q in range(n) if r.j['ioc'][cls][q]]
    if not ranks:
        return None
    q = ranks[int(b * len(ranks))]
    return ['io', q, cls, 1 + int(a * r.j['ioc'][cls][q]), 't:%d' % part]


def done(r, n):
    """steps every process had finished"""
    s = [{int(v[0]) for l, v in r.obs(q) if l == 'done'} for q in range(n)]
    return sorted(set.intersection(*s))


def begun(r, n):
    return {int(v[0]) for q in range(n) for l, v in r.obs(q) if l == 'begin' and v}


def same_file(p1, p2):
    a, b = h5.read(p1), h5.read(p2)
    if a is None:
        return None
    if b is None:
        return 'it cannot be read'
    for part in ('data', 'attrs'):
        if sorted(a[part]) != sorted(b[part]):
            return 'it holds %s, undisturbed %s' % (sorted(b[part]), sorted(a[part]))
    for n in a['data']:
        x, y = a['data'][n], b['data'][n]
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            if x is not y and x != y:
                return '%s: %r, undisturbed %r' % (n, y, x)
        elif not C05.same_array(x, y):
            x, y = np.asarray(x), np.asarray(y)
            return '%s differs%s' % (n, '' if x.shape != y.shape else ' in %d of %d values' % ((x != y).sum(), x.size))
    return None


def complete(p1, p2):
    """p2 has everything p1 has"""
    a, b = h5.read(p1), h5.read(p2)
    if a is None:
        return None
    if b is None:
        return 'it cannot be read'
    if sorted(a['data']) != sorted(b['data']):
        return 'it holds %s, undisturbed %s' % (sorted(b['data']), sorted(a['data']))
    for n in a['data']:
        x, y = a['data'][n], b['data'][n]
        if isinstance(x, str) != isinstance(y, str) or not isinstance(x, str) and np.shape(x) != np.shape(y):
            return '%s is %s, undisturbed %s' % (n, np.shape(y), np.shape(x))
        if not isinstance(y, str) and y is not None and np.asarray(y).dtype.kind == 'f' and not np.isfinite(np.asarray(y)).all() and np.isfinite(np.asarray(x)).all():
            return '%s holds values that are not numbers' % n
    return None


def evaluate(plan, c):
    s = script(plan)
    sim = dict(plan['sim'])
    n = plan['np']
    a = c.run(plan['cfg'], 'undisturbed', n, s, 'a', sim)
    if not a.ok():
        c.notes['nontrivial'] = 0
        c.notes['errors'] = [a.describe()[-160:]]
        return None
    f = place(plan, a)
    if not f:
        c.notes['nontrivial'] = 0
        return None
    b = c.run(plan['cfg'], 'dying', n, s, 'b', sim, [f])
    if b.outcome not in ('crash-injected', 'kill-injected'):
        c.notes['nontrivial'] = 0
        if b.ok():
            return None         # it ended before that point
        return Violation('outcome', '%s on %d processes with %s: %s' % (plan['cfg'], n, f, b.describe()))
    who = '%s on %d processes, %s' % (plan['cfg'], n, 'dead at event %d' % f[2] if f[0] == 'crash' else 'process %d killed at its event %d' % (f[1], f[2]) if f[0] == 'kill' else 'dead in %s %d of process %d' % (f[2], f[3], f[1]))
    da, db = c.dir('a'), c.dir('b')
    fin = done(b, n)
    started = begun(b, n)
    checked = 0
    names = lambda i: [x for x in sorted(os.listdir(da)) if x.startswith('f%02d-' % i) and x.endswith('.h5')]
    cks = {}
    for i, (k, l) in enumerate(plan['steps']):
        if k == 'save':
            cks.setdefault(l[0].split('"')[1], []).append(i)
    # saved states: the last step that wrote the name must be the finished one, and no later one begun
    files = [(i, x) for i in fin for x in names(i)] if True else []
    sound = {}
    for name, ii in cks.items():
        st = [i for i in ii if i in started]
        if st and max(st) in fin:
            sound[name] = max(st)
    for i, x in files:
        w = same_file(os.path.join(da, x), os.path.join(db, x)) if os.path.exists(os.path.join(db, x)) else 'it does not exist'
        checked += 1
        if w:
            return Violation('lost', '%s: step %d (%s) had finished on all processes, but of its file %s %s' % (who, i, plan['steps'][i][1][-1][:60], x, w))
    for name, i in sound.items():
        if i != max(cks[name]):
            continue            # the undisturbed job saved under that name again
        x = name + '.h5'
        w = same_file(os.path.join(da, x), os.path.join(db, x)) if os.path.exists(os.path.join(db, x)) else 'it does not exist'
        checked += 1
        if w:
            return Violation('lost', '%s: the state %s had been saved by all processes, but %s' % (who, x, w))
    la, lb = C05.lines(a), C05.lines(b)
    if b.stdout(0):
        cut = len(lb) - 1       # the last line may be incomplete
        if lb[:cut] != la[:cut]:
            d = C05.first_difference(la[:cut], lb[:cut])
            return Violation('printed', '%s: before it died the job printed something else than undisturbed: %s' % (who, d[1]))
    # restart from a saved state, on other processes
    have = sorted(x for x in cks if os.path.exists(os.path.join(db, x + '.h5')))
    c.notes['died'] = f[0] if f[0] != 'io' else 'torn'
    c.notes['finished_files'] = checked
    if not have:
        c.notes['nontrivial'] = 1 if checked else 0
        return None
    pick = have[int(plan['where'][2] * len(have)) % len(have)]
    s2 = script(plan, pick)
    m = plan['np2']
    keep = sound.get(pick) is not None
    same = keep if keep and sound[pick] == max(cks[pick]) else None
    if plan['again'] is not None:
        # the restarted job dies as well
        q = c.run(plan['cfg'], 'dying again', m, s2, 'b', plan['sim2'], [['crash', -1, max(1, int(plan['again'] * a.j['nev'] / n * m))]])
        left = begun(q, m)
        if q.outcome == 'crash-injected' and any(pick in plan['steps'][i][1][0] for i in left if plan['steps'][i][0] == 'save'):
            keep, same = False, None
        elif q.outcome != 'crash-injected':
            v = judge(plan, c, q, a, who, pick, m, keep, same, da, db)
            return v
        c.notes['died_again'] = int(q.outcome == 'crash-injected')
    r = c.run(plan['cfg'], 'restart', m, s2, 'b', plan['sim2'])
    return judge(plan, c, r, a, who, pick, m, keep, same, da, db)


def judge(plan, c, r, a, who, pick, m, keep, same, da, db):
    who = '%s; restarted on %d from %s state %s' % (who, m, 'the finished' if keep else 'an unfinished', pick)
    c.notes['restart'] = 'finished' if keep else 'unfinished'
    if not r.ok():
        if r.j.get('vkind') == 'no-progress':
            return None
        e = r.all_stderr()
        if keep and not any(x in e for x in bands.SOLVE_FAIL):
            if same is not None and not c.run(plan['cfg'], 'control', m, script(plan, pick), 'a', plan['sim2']).ok():
                return None
            return Violation('restart', '%s: %s' % (who, r.describe()))
        if r.outcome in ('exit', 'exit-early', 'abort') and r.code and e.strip():
            c.notes['refused'] = 1
            return None
        if r.outcome == 'signal' and 'CHECK failure' in e:
            return None
        return Violation('restart', '%s: %s' % (who, r.describe()))
    if keep and same is not None:
        # the same restart where nothing died: what the dead job left around must not matter
        z = c.run(plan['cfg'], 'control', m, script(plan, pick), 'a', plan['sim2'])
        if not z.ok():
            c.notes['control_failed'] = 1
            return None
        A, B = z.obs(), r.obs()
        w = next(('%s: %s, undisturbed %s' % (x[0], y[1], x[1]) for x, y in zip(A, B) if x != y), None)
        if w:
            return Violation('bands', '%s: %s' % (who, w))
        for x in sorted(os.listdir(da)):
            if x.endswith('.h5'):
                w = same_file(os.path.join(da, x), os.path.join(db, x)) if os.path.exists(os.path.join(db, x)) else 'it does not exist'
                if w:
                    return Violation('rewritten', '%s: the restarted job ended successfully, but of its file %s %s' % (who, x, w))
        c.notes['restarted'] = 1
        return None
    for x in sorted(os.listdir(da)):
        if not x.endswith('.h5'):
            continue
        w = complete(os.path.join(da, x), os.path.join(db, x)) if os.path.exists(os.path.join(db, x)) else 'it does not exist'
        if w:
            return Violation('rewritten', '%s: the restarted job ended successfully, but of its file %s %s' % (who, x, w))
    c.notes['restarted'] = 1
    return None


def describe(plan):
    return {'build': plan['cfg'], 'processes': [plan['np'], plan['np2']], 'grid': plan['scene']['grid'], 'steps': [s[0] for s in plan['steps']], 'death': plan['where'], 'seed': plan['sim']['seed']}


def shrink(plan):
    if plan['again'] is not None:
        q = copy.deepcopy(plan)
        q['again'] = None
        yield q
    for i in range(len(plan['steps'])):
        q = copy.deepcopy(plan)
        del q['steps'][i]
        if q['steps']:
            yield q
    yield from program.shrink_np(plan)
    yield from program.shrink_scene(plan)
