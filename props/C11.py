"""Material grids mean the same on any number of processes.

A random session with material grids (randomising, saving and loading them,
gradients of frequencies with respect to their values, epsilon derivatives,
fitting them to a structure, optimising gaps) runs on several simulated
processes under a random schedule with skewed clocks and dirty heaps.  After
every step all processes must hold the same grids, bit for bit, within [0, 1];
noise must not move a value further than its amplitude; a saved file must hold
the grid; and a serial job fed the same grids must see the same structure, the
same gradients and the same course of the optimisation.  Where MPB's gradient
is exact to first order it must also be the finite difference."""
import copy, os, re
import numpy as np
import gen as G, bands, compare, h5
from drive import Violation, sim_knobs

CONFIGS = ['mpi', 'herm', 'mpix', 'complex', 'mpinv', 'inv']
PAIR = {'mpi': 'herm', 'mpix': 'complex', 'mpinv': 'inv'}
BUDGET = {'quick': {'runs': 400, 'secs': 50}, 'thorough': {'runs': 15000, 'secs': 2400}}
RULE = 'random material-grid session + process count + schedule + clocks + heap contents; non-trivial when both jobs finished and a step beyond the first was compared'
REAL = ['material_grid.c, material_grid_opt.c and everything below them', 'NLopt (its clock readings are simulated)', 'Guile', 'HDF5', 'FFTW', 'LAPACK/BLAS']
STUB = ['MPI library simulated', 'clocks']

DEFS = '''(define (glist g) (array->list (array-contents (object-property-value g 'matgrid))))
(define (show) (obs "U:grids" (append %s)))
'''
INIT = ['(lambda (x y z) (+ 0.5 (* 0.4 (sin (+ (* 5 x) (* 3 y) z)))))', '(lambda (x y z) (+ 0.3 (* 0.2 (cos (+ (* 4 x) (* 2 y y) 0.3))) (* 0.3 y)))',
        '(lambda (x y z) (abs (cos (+ x (* 7 y)))))', '(lambda (x y z) (if (> (+ x y) 0.1) 0.9 0.2))']
SYMINIT = ['(lambda (x y z) 0.5)', '(lambda (x y z) 0.8)']


def gen(rng, tier):
    cfg = G.choice(rng, mpi=4.0, mpix=2.0, mpinv=1.5)
    inv = cfg == 'mpinv'
    sc = G.scene(rng, dim=rng.choice([2, 2, 2, 3]), inv=inv, herm=False, mu=False, grids=0, small=True, mirror=rng.choice(['z', 'z', '']))
    sc['davidson'], sc['nwork'], sc['target'], sc['forcemu'], sc['simple'], sc['block'] = False, 3, 0, False, False, -11
    sc['tol'] = 1e-8
    sc['bands'] = rng.choice([3, 3, 4])
    sc['mesh'] = rng.choice([1, 1, 3])
    sc['default'] = None
    sc['det'] = rng.random() < .3
    sc['kp'] = [[round(rng.uniform(.05, .45), 3), round(rng.uniform(.05, .45), 3), 0.0 if sc['dim'] == 2 or 'z' in ('z' if sc['zmirror'] else '') else round(rng.uniform(.05, .4), 3)]]
    grids, geo = [], []
    for i in range(rng.choice([1, 1, 2])):
        n = [rng.randint(1, 5), rng.randint(2, 5), 1 if sc['zmirror'] or sc['dim'] == 2 else rng.randint(1, 3)]
        e0 = round(1 + rng.random() * 2, 2)
        e1 = round(e0 + 3 + rng.random() * 6, 2)
        if i and rng.random() < .5:
            kind, e0, e1 = grids[0]['kind'], grids[0]['e0'], grids[0]['e1']
        else:
            kind = rng.choice(['U-MIN', 'U-PROD', 'U-SUM'])
        grids.append({'n': n, 'kind': kind, 'e0': e0, 'e1': e1, 'init': rng.choice(SYMINIT if inv else INIT)})
    where = 'default' if not inv and rng.random() < .15 else 'block'
    for i, g in enumerate(grids):
        if where == 'default' and i == 0:
            continue
        c = [0, 0, 0] if inv else [round(rng.uniform(-.2, .2), 3), round(rng.uniform(-.2, .2), 3), 0]
        s = [round(rng.uniform(.4, 1), 3), round(rng.uniform(.4, 1), 3)]
        geo.append('(make block (center %s) (size %s %s infinity) (material mg%d))' % (' '.join(map(str, c)), s[0], s[1], i))
    if rng.random() < .3:
        geo.insert(rng.randint(0, len(geo)), '(make cylinder (center 0 0) (radius 0.15) (height infinity) (material (make dielectric (epsilon 4))))')
    steps = []
    for i in range(rng.randint(1, 4)):
        k = G.choice(rng, rand=0 if inv else 1.5, saveload=1.0, grad=2.0, approx=1.0, deps=.5, loadext=.6, match=.7, tetm=.35 if sc['zmirror'] and sc['dim'] == 2 else 0, gap=.5, run=.4)
        g = rng.randrange(len(grids))
        b = rng.randint(1, sc['bands'] - 1)
        kp = [round(rng.uniform(.05, .45), 3), round(rng.uniform(.05, .45), 3), 0.0]
        steps.append({'k': k, 'g': g, 'b': b, 'kp': kp, 'kp2': [round(x * .7 + .03, 3) for x in kp[:2]] + [0.0], 'noise': round(rng.choice([.05, .3, 1.5]) * (.5 + rng.random()), 3),
                      'cell': [rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2]), 1], 'iu': rng.randrange(1 << 20), 'min': rng.random() < .4, 'maxeval': rng.randint(2, 4),
                      'maxtime': 0, 'match': round(rng.uniform(.1, .9), 3)})
    return {'cfg': cfg, 'scene': sc, 'grids': grids, 'geo': geo, 'where': where, 'np': rng.choice([2, 2, 3, 4, 5, 7, sc['grid'][0] + 1]), 'steps': steps, 'sim': dict(sim_knobs(rng), p_gc=0.0)}


def fixed_plans(tier):
    """an optimisation limited in time, on processes whose clocks differ"""
    import random
    p = gen(random.Random('maxtime'), tier)
    sc = p['scene']
    sc.update(dim=2, size=[0.7850956943328495, 1.126142759361948, None], basis=None, kp=[[0.053, 0.408, 0.0]], bands=3, default=None, grid=[6, 6, 1], mirror='', zmirror=False, mesh=1, det=False)
    p.update(cfg='mpix', np=2, where='block', grids=[{'n': [3, 3, 1], 'kind': 'U-SUM', 'e0': 1.5, 'e1': 8.0, 'init': INIT[0]}], geo=['(make block (center 0 0 0) (size 0.8 0.7 infinity) (material mg0))'],
             steps=[{'k': 'gap', 'g': 0, 'b': 1, 'kp': [.2, .3, 0.0], 'kp2': [.4, .1, 0.0], 'noise': 0, 'cell': [1, 1, 1], 'iu': 0, 'min': False, 'maxeval': 40, 'maxtime': .4, 'match': .5}])
    out = []
    for seed in (27, 30, 37):
        q = copy.deepcopy(p)
        q['sim'] = {'seed': seed, 'p_switch': 0.3, 'policy': 0, 'clockmode': 2, 'epoch': 1700000000}
        out.append(q)
    return out


def external(plan, i):
    """a file from elsewhere: its values are not confined to [0, 1], its size often is that of the grid"""
    s = plan['steps'][i]
    n = plan['grids'][s['g']]['n']
    g = np.random.RandomState(s['iu'] % (1 << 31))
    if plan['cfg'] == 'mpinv':
        return np.full(n, round(float(g.uniform(-.5, 1.5)), 3)), [1, 1, 1]          # keeps the symmetry
    if s['iu'] % 3:
        return g.uniform(-.6, 1.6, n), [1, 1, 1] if s['iu'] % 2 else [0, 1, 0]
    return g.uniform(-.6, 1.6, [g.randint(1, 5), g.randint(1, 5), 1 if n[2] == 1 else g.randint(1, 3)]), s['cell']


def script(plan, serial):
    """the serial job takes the outcome of random numbers from the files the parallel job saved"""
    sc = dict(plan['scene'])
    p = 'NO-PARITY'
    o = []
    for i, g in enumerate(plan['grids']):
        o.append('(define mg%d (make material-grid (material-grid-kind %s) (epsilon-min %s) (epsilon-max %s) (size %s) (matgrid-init %s)))' % (i, g['kind'], g['e0'], g['e1'], ' '.join(map(str, g['n'])), g['init']))
    o.append(DEFS % ' '.join('(glist mg%d)' % i for i in range(len(plan['grids']))))
    if plan['where'] == 'default':
        o.append('(set! default-material mg0)')
    o.append('(set! geometry (list %s))' % '\n  '.join(plan['geo']))
    init = '(init-params %s true)' % p
    pts = ['(obs "E:eps" (map get-epsilon-point (list (vector3 0.1 0.2 0) (vector3 -0.2 0.05 0.1) (vector3 0.31 -0.37 0))))']
    o += [init, '(show)'] + pts
    for i, s in enumerate(plan['steps']):
        k, mg = s['k'], 'mg%d' % s['g']
        o.append('(sim-log "op %s:%d")' % (k, i))
        if k == 'rand':
            if serial:
                o += ['(load-material-grid! %s "g%d.h5" (vector3 1 1 1))' % (mg, i)]
            else:
                o += ['(randomize-material-grid! %s %s)' % (mg, s['noise']), '(save-material-grid %s "g%d")' % (mg, i)]
            o += [init, '(show)'] + pts
        elif k == 'saveload':
            o += ['(save-material-grid %s "%s%d")' % (mg, 's' if serial else 'p', i), '(load-material-grid! mg0 "%s%d" (vector3 %d %d %d))' % (('s' if serial else 'p', i) + tuple(s['cell'])), init, '(show)'] + pts
        elif k == 'loadext':
            o += ['(load-material-grid! %s "x%d.h5" (vector3 %d %d %d))' % ((mg, i) + tuple(external(plan, i)[1])), init, '(show)'] + pts
        elif k == 'run':
            o += ['(solve-kpoint %s)' % G.v3(s['kp']), '(obs "F:freqs" freqs)']
        elif k == 'grad':
            o += ['(solve-kpoint %s)' % G.v3(s['kp']), '(obs "F:freqs" freqs)', '(print "GRADIENT %d %d ")' % (i, s['b']), '(print-material-grids-gradient %d)' % s['b'], '(print "\\nEND\\n")', init]
        elif k == 'approx':
            o += ['(solve-kpoint %s)' % G.v3(s['kp']), '(obs "F:freqs" freqs)', '(obs "A:fd" (material-grids-approx-gradient %s %d (modulo %d (length (append %s))) 1e-4))' % (
                G.v3(s['kp']), s['b'], s['iu'], ' '.join('(glist mg%d)' % j for j in range(len(plan['grids'])))), '(show)']
        elif k == 'deps':
            o += ['(print-material-grids-deps-du)', '(print-material-grids-deps-du-numeric 0.001)', '(show)']
        elif k == 'match':
            o += ['(set! filename-prefix "%s%d-")' % ('s' if serial else 'p', i), '(output-epsilon)', '(set! filename-prefix "")',
                  '(define keep (map (lambda (x) x) (glist %s)))' % mg,
                  '(array-index-map! (object-property-value %s (quote matgrid)) (lambda (x y z) %s))' % (mg, s['match']), init,
                  '(material-grids-match-epsilon-file! "%s%d-epsilon.h5" 0.01)' % (('p', i) if not serial else ('p', i)), '(show)']
        elif k == 'tetm':
            o += ['(obs "O:tetm" (material-grids-min-tetm-gap %s %d 0.001 0.001 %d %s))' % (G.v3(s['kp']), s['b'], s['maxeval'], s['maxtime']), '(show)', init]
        elif k == 'gap':
            o += ['(solve-kpoint %s)' % G.v3(s['kp']), '(obs "F:freqs" freqs)',
                  '(obs "O:gap" (material-grids-%sgap (list %s %s) %d %d 0.001 0.001 %d %s))' % ('min' if s['min'] else 'max', G.v3(s['kp']), G.v3(s['kp2']), s['b'], s['b'] + 1, s['maxeval'], s['maxtime']), '(show)', init]
    o.append('(sim-log "end")')
    sc['geometry'] = []
    return G.scene_scm(sc, '\n'.join(o) + '\n')


NUMS = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)')


def printed(r):
    """[(label, step, band, numbers)] of what the job printed about grids"""
    out = []
    t = r.stdout(0)
    for m in re.finditer(r'GRADIENT (\d+) (\d+) |^(depsdu|depsduN|match-epsilon-file|material-grid-\w+|approxgrad):(.*)$|^GRAD', t, re.M):
        if m.group(1):
            e = t.find('END', m.end())
            b = t[m.end():e]
            j = b.find('\n, ')
            b = b[j:] if j >= 0 else b[b.find(', '):] if ', ' in b else ''
            if j < 0:
                # the gradient follows whatever line was printed last
                b = b[max(b.rfind('\n', 0, b.rfind(', ')), 0):]
            out.append(('gradient', int(m.group(1)), int(m.group(2)), [float(x) for x in NUMS.findall(b)]))
        elif m.group(3):
            if m.group(3) == 'approxgrad':
                x = re.search(r'df/du = (\S+) vs. analytic (\S+)', m.group(4))
                out.append(('approxgrad', 0, 0, [float(x.group(1)), float(x.group(2))]))
            else:
                out.append((m.group(3), 0, 0, [float(x) for x in NUMS.findall(m.group(4))]))
    return out


def separated(freqs, b):
    """the band is not degenerate, so that its own gradient is defined"""
    f = [x for x in freqs if isinstance(x, float)]
    return b < len(f) and (b < 2 or f[b - 1] - f[b - 2] > 4e-3) and f[b] - f[b - 1] > 4e-3 and f[b - 1] > 1e-3


def near(a, b, rtol, atol):
    return compare.close_list(a, b, rtol, atol)


def compare_jobs(plan, rp, rs):
    """first difference between the parallel and the serial job -> (kind, text) or None"""
    op, defined, loose = 'start', True, False
    good = {}
    op_, os_ = rp.obs(), rs.obs()
    if len(op_) != len(os_):
        return 'observations', 'the jobs logged %d and %d values' % (len(op_), len(os_))
    for (l, v), (l2, v2) in zip(op_, os_):
        if l != l2:
            return 'observations', 'labels %s and %s' % (l, l2)
        if l == 'op':
            op = v[0]
            continue
        kind, i = (op.split(':') + ['0'])[:2]
        if l == 'F:freqs':
            good[int(i)] = separated(v2, plan['steps'][int(i)]['b']) and (kind != 'gap' or separated(v2, plan['steps'][int(i)]['b'] + 1))
        if kind in ('tetm', 'gap', 'match'):
            loose = True
        t = (2e-2, 1e-3) if loose else (1e-9, 1e-9) if l[0] in 'UE' else (1e-5, 1e-6)
        if kind in ('tetm', 'gap') and not good.get(int(i), kind == 'tetm') or (loose and not defined):
            defined = False
            continue            # the course of the optimisation depends on which of the degenerate states it is given
        if l == 'A:fd':
            t = (1e-2, 1e-3)
            if not good.get(int(i)):
                continue
        if l == 'U:grids' and loose:
            continue            # small differences are amplified; what the grids do is compared
        if kind == 'match' or loose and l[0] == 'E':
            continue
        if kind == 'tetm':
            continue            # printed lines tell
        ok, why = near(v, v2, *t)
        if not ok:
            return l, 'step %s: %s' % (op, why)
    return good, loose


def evaluate(plan, c):
    who = '%s on %d processes' % (plan['cfg'], plan['np'])
    for i, s in enumerate(plan['steps']):
        if s['k'] == 'loadext':
            h5.write(os.path.join(c.dir('w'), 'x%d.h5' % i), {'data': external(plan, i)[0]})
    rp = c.run(plan['cfg'], 'parallel', plan['np'], script(plan, False), 'w', plan['sim'], jobname='job')
    timed = any(s['k'] in ('tetm', 'gap') and s['maxtime'] for s in plan['steps'])
    if not rp.ok():
        e = rp.all_stderr()
        if rp.j.get('vkind') == 'no-progress' or any(x in e for x in bands.SOLVE_FAIL + ('failure of nlopt_minimize',)):
            c.notes['nontrivial'] = 0
            c.notes['errors'] = [e[-120:]]
            return None
        return Violation('maxtime' if timed and rp.outcome == 'violation' else 'outcome', '%s: %s' % (who, rp.describe()))
    w = grids_sane(plan, rp, who)
    if w:
        if timed:
            w.kind = 'maxtime'
        return w
    for i, s in enumerate(plan['steps']):
        if s['k'] == 'loadext':
            d, cell = external(plan, i)
            g = grid_after(plan, rp, i, s['g'])
            if g is not None and list(d.shape) == plan['grids'][s['g']]['n'] and max(cell) == 1 and not np.allclose(np.clip(d, 0, 1).ravel(), g, rtol=0, atol=1e-12):
                return Violation('loaded', '%s: loading a file of the size of the grid gives %s for %s' % (who, g[:4], d.ravel()[:4]))
        if s['k'] == 'rand':
            f = h5.read(os.path.join(c.dir('w'), 'g%d.h5' % i))
            g = grid_after(plan, rp, i, s['g'])
            if f is None or 'data' not in f['data'] or not np.allclose(np.asarray(f['data']['data']).ravel(), g, rtol=0, atol=0):
                return Violation('saved', '%s: the file save-material-grid wrote does not hold the grid' % who)
    if timed:
        c.notes['nontrivial'] = 1       # where the clock stops the optimisation is not comparable
        return None
    # the heap of the serial job is clean, its start fields others
    quiet = {'seed': plan['sim']['seed'], 'epoch': plan['sim']['epoch']}
    rs = c.run(PAIR[plan['cfg']], 'serial', 1, script(plan, True), 'w', quiet, jobname='job')
    if not rs.ok():
        e = rs.all_stderr()
        c.notes['nontrivial'] = 0
        if rs.j.get('vkind') == 'no-progress' or any(x in e for x in bands.SOLVE_FAIL + ('failure of nlopt_minimize',)):
            return None
        return Violation('outcome', 'serial %s: %s' % (PAIR[plan['cfg']], rs.describe()))
    v = differ(plan, rp, rs, who, c)
    if v and v.kind in ('course', 'approx', 'gradient') and not plan['scene']['det']:
        # is the quantity itself well determined?  another serial job, from other start fields
        r2 = c.run(PAIR[plan['cfg']], 'serial2', 1, script(plan, True), 'w', dict(quiet, epoch=quiet['epoch'] + 7919), jobname='job')
        if not r2.ok() or differ(plan, r2, rs, '', None):
            c.notes['nontrivial'] = 0
            c.notes['ill_determined'] = 1
            return None
    return v


def grid_after(plan, r, i, g):
    """values of grid g logged after step i"""
    op = ''
    for l, v in r.obs():
        if l == 'op':
            op = v[0]
        elif l == 'U:grids' and op.endswith(':%d' % i):
            n = [int(np.prod(x['n'])) for x in plan['grids']]
            return np.array(v[sum(n[:g]):sum(n[:g + 1])])
    return None


def grids_sane(plan, r, who):
    l0 = r.log(0).split('\n')
    for k in range(1, plan['np']):
        for a, b in zip(l0, r.log(k).split('\n')):
            if a != b:
                op = next((x for x in reversed(l0[:l0.index(a)]) if x.startswith('op ')), 'start')
                return Violation('diverged', '%s: after "%s" process 0 has %r, process %d %r' % (who, op, a[:150], k, b[:150]))
    old = None
    op = ''
    for l, v in r.obs():
        if l == 'op':
            op = v[0]
        if l != 'U:grids':
            continue
        x = np.array(v, float)
        if not (np.isfinite(x).all() and (x >= -1e-12).all() and (x <= 1 + 1e-12).all()):
            return Violation('range', '%s: after %s a grid holds %g' % (who, op, x[~((x >= 0) & (x <= 1))][0]))
        if op.startswith('rand:'):
            s = plan['steps'][int(op.split(':')[1])]
            d = np.abs(x - old).max()
            if d > s['noise'] + 1e-12:
                return Violation('noise', '%s: noise of amplitude %g moved a grid value by %g' % (who, s['noise'], d))
        old = x
    return None


def differ(plan, rp, rs, who, c):
    w = compare_jobs(plan, rp, rs)
    if isinstance(w[0], str):
        return Violation('course' if 'F:' in w[0] or 'O:' in w[0] or 'A:' in w[0] else 'differs', '%s against one: %s: %s' % (who, w[0], w[1]))
    good, loose = w
    pp, ps = printed(rp), printed(rs)
    kinds = [s['k'] for s in plan['steps']]
    if any(k in ('tetm', 'gap', 'match') for k in kinds):
        strip = lambda l: [x for x in l if x[0] in ('gradient', 'approxgrad', 'depsdu', 'depsduN')]
        n = [[sum(1 for x in p if x[0] == q) for q in ('gradient', 'approxgrad')] for p in (pp, ps)]
        if n[0] != n[1]:
            return Violation('lines', '%s prints %s gradients, one process %s' % (who, n[0], n[1]))
    elif [x[0] for x in pp] != [x[0] for x in ps]:
        return Violation('lines', '%s prints %d lines about grids, one process %d' % (who, len(pp), len(ps)))
    first = next((i for i, k in enumerate(kinds) if k in ('tetm', 'gap', 'match')), len(kinds))
    ncomp = 0
    # what was printed before any optimisation, line by line; of the first optimisation, its course
    cnt = 0
    for a, b in zip(pp, ps):
        if a[0] == 'gradient':
            if a[1] > first:
                break
            if not good.get(a[1]):
                continue
            g1, g2 = a[3], b[3]
            if len(g1) < ntot_used(plan) or len(g2) != len(g1):
                return Violation('gradient', '%s: gradient of %d values, one process: %d' % (who, len(g1), len(g2)))
            ok, why = near(g1, g2, 2e-3, 1e-5)
            ncomp += 1
            if not ok:
                return Violation('gradient', '%s, step %d: gradient of band %d: %s; %s against %s of one process' % (who, a[1], a[2], why, g1[:6], g2[:6]))
        elif a[0] == 'approxgrad':
            i = [i for i, k in enumerate(kinds) if k == 'approx'][cnt]
            cnt += 1
            if i > first:
                break
            if not good.get(i):
                continue
            ok, why = near(a[3][1:], b[3][1:], 1e-2, 1e-4)
            ncomp += 1
            if not ok:
                return Violation('approx', '%s, step %d: the analytic derivative is %g, of one process %g (by differences: %g)' % (who, i, a[3][1], b[3][1], b[3][0]))
            if exact_gradient(plan) and abs(b[3][0] - b[3][1]) > 2e-3 + .05 * abs(b[3][0]):
                return Violation('approx', 'serial job, step %d: derivative of band %d: by differences %g, analytic %g' % (i, plan['steps'][i]['b'], b[3][0], b[3][1]))
        elif a[0].startswith('depsdu'):
            ok, why = near(a[3], b[3], 1e-4, 1e-4)
            ncomp += 1
            if not ok:
                return Violation('deps', '%s: %s: %s; %s against %s of one process' % (who, a[0], why, a[3][:5], b[3][:5]))
    if first < len(kinds):
        k = kinds[first]
        name = {'match': ('match-epsilon-file',), 'tetm': ('material-grid-mindiff',), 'gap': ('material-grid-maxgap', 'material-grid-mingap')}[k]
        ca, cb = ([x[3] for x in p if x[0] in name] for p in (pp, ps))
        ok_course = k == 'match' or k == 'tetm' or good.get(first)
        if ok_course:
            for j, (x, y) in enumerate(list(zip(ca, cb))[:6 if k == 'match' else 3]):
                t = (1e-4, 1e-4) if j == 0 else (2e-3, 1e-3) if k == 'match' else (1e-2, 2e-3)
                x, y = (x[1:2], y[1:2]) if k == 'match' else (x[1:3], y[1:3])
                ok, why = near(x, y, *t)
                ncomp += 1
                if not ok:
                    return Violation('course', '%s, step %d (%s): evaluation %d: %s; %s against %s of one process' % (who, first, k, j + 1, why, x, y))
    if c:
        c.notes['compared'] = ncomp + len(rp.obs())
        c.notes['steps'] = kinds
    return None


def ntot_used(plan):
    used = {int(m) for g in plan['geo'] for m in re.findall(r'mg(\d)', g)} | ({0} if plan['where'] == 'default' else set())
    return sum(int(np.prod(plan['grids'][i]['n'])) for i in used)


def exact_gradient(plan):
    return plan['scene']['mesh'] == 1 and all(g['kind'] != 'U-MIN' for g in plan['grids']) and len(plan['grids']) == 1 and plan['cfg'] != 'mpinv'


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'grid': plan['scene']['grid'], 'steps': [s['k'] for s in plan['steps']], 'seed': plan['sim']['seed']}


def shrink(plan):
    for i in range(len(plan['steps'])):
        q = copy.deepcopy(plan)
        del q['steps'][i]
        if q['steps']:
            yield q
    for m in (2, 3):
        if m < plan['np']:
            q = copy.deepcopy(plan)
            q['np'] = m
            yield q
    for i in range(len(plan['geo'])):
        q = copy.deepcopy(plan)
        del q['geo'][i]
        if q['geo']:
            yield q
    for s in G.scene_shrinks(plan['scene']):
        if s['bands'] != plan['scene']['bands'] or s['kp'] != plan['scene']['kp']:
            continue
        q = copy.deepcopy(plan)
        q['scene'] = s
        yield q
