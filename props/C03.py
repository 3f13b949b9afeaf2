"""Output files hold the data that were computed, whoever wrote them.

A serial job solves a random scene and saves the eigenvectors.  From those, the
serial build and an MPI build (simulated processes, schedule and parallel or
exclusive file access) write the same random sequence of output files.  Every
dataset and attribute of the parallel job's files must equal the serial file's
after swapping the first two dimensions, and the serial file must hold what the
script reads from the field at the grid points."""
import copy, glob, os
import numpy as np
import gen as G, h5, compare
from drive import Violation, sim_knobs

CONFIGS = ['herm', 'mpi', 'complex', 'mpix', 'inv', 'mpinv']
PAIR = {'mpi': 'herm', 'mpix': 'complex', 'mpinv': 'inv'}
BUDGET = {'quick': {'runs': 400, 'secs': 60}, 'thorough': {'runs': 8000, 'secs': 2400}}
RULE = 'random scene + sequence of output operations + process count + schedule; non-trivial when the parallel job wrote files on >= 2 processes'
RTOL = 3e-6


def items(rng, sc, n):
    out = []
    for i in range(n):
        b = rng.randint(1, sc['bands'])
        comp = rng.choice([-1, -1, -1, 0, 1, 2])
        sfx = '' if comp < 0 else '-' + 'xyz'[comp]
        t = G.choice(rng, field=5, pwr=2, eps=1.2, mu=.6, charge=1.2, poynting=1, tot=.7, sev=.7, oev=.7, map=.8, load=.8)
        it = {'t': t, 'comp': comp, 'b': b, 'w': rng.choice('hbde'), 'pts': [[rng.randrange(q) for q in sc['grid']] for _ in range(3)], 'n': rng.randint(1, sc['bands'] - b + 1)}
        if t == 'pwr':
            it['w'] = rng.choice('db' if sc['mu'] or sc['forcemu'] else 'dhb')
        out.append(it)
    return out


def pt(sc, p):
    return G.v3([((i / q - .5) * (s or 1.0)) for i, q, s in zip(p, sc['grid'], sc['size'])])


def v3full(sc, p):
    # exact expressions, so that the point is the grid point to rounding
    return '(vector3 %s)' % ' '.join('(* %s (- (/ %d %d.0) 0.5))' % (G.f(s) if s else '1.0', i, q) for i, q, s in zip(p, sc['grid'], sc['size']))


def item_scm(sc, k, it):
    o = ['(sim-log "item %d")' % k, '(set! filename-prefix "o%02d-")' % k]
    pts = [v3full(sc, p) for p in it['pts']]
    comp = it['comp']
    sfx = '' if comp < 0 else '-' + 'xyz'[comp]
    t, b, w = it['t'], it['b'], it['w']
    vec = '(obs "vec" (map get-bloch-field-point (list %s)))' % ' '.join(pts)
    if t == 'field':
        o += ['(get-%sfield %d)' % (w, b), vec, '(output-%sfield%s %d)' % (w, sfx, b)]
    elif t == 'pwr':
        o += ['(get-%sfield %d)' % (w, b), '(compute-field-energy)', '(obs "val" (map get-energy-point (list %s)))' % ' '.join(pts),
              '(output-%spwr %d)' % (w if w != 'b' else 'b', b)]
    elif t == 'eps':
        o += ['(get-epsilon)', '(obs "val" (map get-epsilon-point (list %s)))' % ' '.join(pts),
              '(obs "epsinv" (map (lambda (p) (let ((t (get-epsilon-inverse-tensor-point p))) (list %s))) (list %s)))' % (
                  ' '.join('(re (vector3-%s (vector3-%s t)))' % ('x', 'x') if 0 else '' for _ in (0,)), ' '.join(pts)) if 0 else '', '(output-epsilon)']
    elif t == 'mu':
        o += ['(output-mu)']
    elif t == 'charge':
        o += ['(get-charge-density %d)' % b, '(obs "cval" (map get-bloch-cscalar-point (list %s)))' % ' '.join(pts), '(output-field)']
    elif t == 'poynting':
        o += ['(get-poynting %d)' % b, '(obs "rawvec" (map get-field-point (list %s)))' % ' '.join(pts), '(output-poynting%s %d)' % (sfx, b)]
    elif t == 'tot':
        o += ['(get-tot-pwr %d)' % b, '(obs "val" (map get-energy-point (list %s)))' % ' '.join(pts), '(output-tot-pwr %d)' % b]
    elif t == 'sev':
        o += ['(save-eigenvectors "o%02d-ev")' % k]
    elif t == 'oev':
        o += ['(output-eigenvectors (get-eigenvectors %d %d) "o%02d-ev")' % (b, it['n'], k)]
    elif t == 'map':
        o += ['(get-dfield %d)' % b, '(define F1 (field-copy cur-field))', '(get-hfield 1)', '(field-map! cur-field (lambda (a b) (vector3+ a b)) F1 cur-field)', vec,
              '(output-field-to-file %d (get-filename-prefix))' % comp]
    elif t == 'load':
        o += ['(get-%sfield %d)' % (w, b), '(define F2 (field-copy cur-field))', '(get-dfield 1)', '(compute-field-energy)', '(field-load F2)', vec,
              '(output-field-to-file %d (get-filename-prefix))' % comp]
    return '\n'.join(x for x in o if x)


def gen(rng, tier):
    cfg = G.choice(rng, mpi=4.0, mpix=3.0, mpinv=3.0)
    sc = G.scene(rng, dim=rng.choice([2, 3]), inv=cfg == 'mpinv', herm=(cfg == 'mpi' and rng.random() < .5), small=True, mirror=rng.choice([None, '']))
    sc['tol'] = 1e-9
    sc['davidson'] = False
    sc['nwork'] = 3
    sc['kp'] = sc['kp'][:1]
    par = ([1, 2] if sc['zmirror'] else []) + ([4, 8] if sc['ymirror'] else [])
    p = rng.choice(par) if par and rng.random() < .4 else 0
    np_ = rng.choice([2, 2, 3, 3, 4, 5, 7, 8, sc['grid'][0] + 1, sc['grid'][1] + 2])
    return {'cfg': cfg, 'scene': sc, 'parity': p, 'np': min(np_, 12), 'items': items(rng, sc, rng.randint(4, 9)), 'sim': sim_knobs(rng)}


def scripts(plan):
    sc = plan['scene']
    k = G.v3(sc['kp'][0])
    a = G.scene_scm(sc, '(init-params %d true)\n(solve-kpoint %s)\n(save-eigenvectors "ev")\n' % (plan['parity'], k))
    b = G.scene_scm(sc, '(init-params %d true)\n(load-eigenvectors "../ev")\n(set-kpoint-index 3)\n(solve-kpoint %s)\n(load-eigenvectors "../ev")\n' % (plan['parity'], k) +
                    '\n'.join(item_scm(sc, i, it) for i, it in enumerate(plan['items'])) + '\n(sim-log "end")\n')
    return a, b


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'grid': plan['scene']['grid'], 'parity': plan['parity'], 'items': [i['t'] for i in plan['items']], 'seed': plan['sim']['seed']}


def h5files(d):
    return sorted(f for f in os.listdir(d) if f.startswith('o') and f.endswith('.h5'))


def close(a, b, rtol=RTOL, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return 'shape %s against %s' % (a.shape, b.shape)
    s = scale if scale is not None else max(np.abs(a[np.isfinite(a)]).max(initial=0), np.abs(b[np.isfinite(b)]).max(initial=0))
    bad = ~(np.abs(a - b) <= rtol * s + 1e-12)
    if bad.any():
        i = tuple(np.argwhere(bad)[0]) if a.ndim else ()
        return 'at %s: %.12g against %.12g (%d of %d values differ)' % (tuple(int(x) for x in i), a[i], b[i], bad.sum(), a.size)
    return None


def same_files(f, s, p, raw):
    """the parallel file p against the serial file s"""
    if set(s['data']) != set(p['data']):
        return 'datasets %s against %s' % (sorted(s['data']), sorted(p['data']))
    comp = {n: n for n in s['data']}
    for n in s['data']:
        a, b = s['data'][n], p['data'][n]
        if isinstance(a, str) or isinstance(b, str):
            if n == 'description':
                ta, tb = str(a).rsplit('freq=', 1), str(b).rsplit('freq=', 1)
                if ta[0] != tb[0] or len(ta) != len(tb) or (len(ta) == 2 and abs(float(ta[1]) - float(tb[1])) > 1e-4):
                    return 'description %r against %r' % (a, b)
            elif a != b:
                return '%s: %r against %r' % (n, a, b)
            continue
        if a is None or b is None:
            return 'dataset %s unreadable' % n
        if not raw:
            if n == 'Bloch wavevector':
                b = b[[1, 0, 2]]
            elif n == 'lattice vectors':
                b = b[[1, 0, 2]]
            elif b.ndim >= 2:
                b = b.swapaxes(0, 1)
        # values much smaller than the other components are rounding noise
        sc = max([np.abs(np.asarray(v, float)).max(initial=0) for k, v in s['data'].items() if not isinstance(v, str) and v is not None and k not in ('Bloch wavevector', 'lattice vectors')] + [0])
        e = close(a, b, scale=None if n in ('Bloch wavevector', 'lattice vectors') else sc)
        if e:
            return 'dataset %s %s' % (n, e)
    for n in set(s['attrs']) | set(p['attrs']):
        if s['attrs'].get(n) is None or p['attrs'].get(n) is None or np.asarray(s['attrs'][n]).shape != np.asarray(p['attrs'][n]).shape:
            return 'attribute %s: %r against %r' % (n, s['attrs'].get(n), p['attrs'].get(n))
    return None


def probe_check(plan, k, obs, d):
    """file d of the serial job against the values the script read at grid points"""
    sc, it = plan['scene'], plan['items'][k]
    g = [n for n in sc['grid'] if n > 1] if True else None
    n = tuple(sc['grid'])
    kv = np.array(sc['kp'][0], float)

    def arr(name):
        a = d['data'].get(name)
        if a is None or isinstance(a, str) or np.asarray(a).size != n[0] * n[1] * n[2]:
            return None
        return np.asarray(a).reshape(n)
    for label, v in obs:
        ph = [np.exp(2j * np.pi * sum(kv[q] * p[q] / n[q] for q in range(3))) for p in it['pts']]
        if label == 'val':
            a = arr('data')
            if a is None:
                return 'no dataset "data" of the grid size'
            w = [a[tuple(p)] for p in it['pts']]
            e = close(w, v, scale=np.abs(a).max())
            if e:
                return 'the field read at grid points %s against the file: %s' % (it['pts'], e)
        elif label in ('vec', 'rawvec'):
            z = np.array(v).reshape(-1, 3, 2)
            want = 'xyz' if it['comp'] < 0 else 'xyz'[it['comp']]
            have = sorted(x[0] for x in d['data'] if x[1:] == '.r')
            if have != sorted(want):
                return 'components %s in the file, expected %s' % (have, want)
            sca = np.abs(z).max()
            for ax in want:
                r, i = arr(ax + '.r'), arr(ax + '.i')
                if r is None or i is None:
                    return 'component %s missing' % ax
                sca = max(sca, np.abs(r).max())
                for q, p in enumerate(it['pts']):
                    w = (z[q]['xyz'.index(ax)] if False else complex(*z[q]['xyz'.index(ax)])) * (ph[q] if label == 'vec' else 1)
                    u = complex(r[tuple(p)], i[tuple(p)])
                    if not abs(u - w) <= 1e-6 * sca + 1e-12:
                        return 'component %s at grid point %s is %s in the file, %s in the field' % (ax, p, np.round(u, 9), np.round(w, 9))
        elif label == 'cval':
            z = np.array(v).reshape(-1, 2)
            r, i = arr('c.r'), arr('c.i')
            if r is None or i is None:
                return 'component c missing'
            sca = max(np.abs(z).max(), np.abs(r).max(), np.abs(i).max())
            for q, p in enumerate(it['pts']):
                w = complex(*z[q]) * ph[q]
                u = complex(r[tuple(p)], i[tuple(p)])
                if not abs(u - w) <= 1e-6 * sca + 1e-12:
                    return 'value at grid point %s is %s in the file, %s in the field' % (p, np.round(u, 9), np.round(w, 9))
    return None


def group(obs):
    out, k = {}, None
    for l, v in obs:
        if l == 'item':
            k = int(float(v[0]))
            out[k] = []
        elif k is not None:
            out[k].append((l, v))
    return out


def evaluate(plan, c):
    ser = PAIR[plan['cfg']]
    a, b = scripts(plan)
    quiet = {'seed': plan['sim']['seed']}
    r = c.run(ser, 'solve', 1, a, 'w', quiet, jobname='solve')
    if not r.ok():
        c.notes['nontrivial'] = 0
        c.notes['solve_failed'] = 1
        return None
    r1 = c.run(ser, 'serial', 1, b, 'w/s', quiet)
    r2 = c.run(plan['cfg'], 'parallel', plan['np'], b, 'w/p', plan['sim'])
    if not r1.ok() and not r2.ok():
        c.notes['nontrivial'] = 0
        c.notes['both_failed'] = 1
        c.notes['both_errors'] = [r1.describe()[-200:]]
        return None
    if r2.j.get('vkind') == 'no-progress' or 'failure to converge' in r2.all_stderr():
        c.notes['nontrivial'] = 0       # settling onto 1e-9 can take very long from some states; nothing to compare
        c.notes['slow_solver'] = 1
        return None
    if r1.ok() != r2.ok():
        return Violation('outcome', 'serial job: %s; parallel job on %d processes: %s' % (r1.describe(), plan['np'], r2.describe()))
    f1, f2 = h5files(c.dir('w/s')), h5files(c.dir('w/p'))
    if f1 != f2:
        return Violation('files', 'the serial job wrote %s, the parallel job %s' % (f1, f2))
    obs = group(r1.obs())
    n = 0
    for k, it in enumerate(plan['items']):
        fs = [f for f in f1 if f.startswith('o%02d-' % k)]
        want = 0 if it['t'] == 'mu' and not (plan['scene']['mu'] or plan['scene']['forcemu']) else 1
        if len(fs) != 1 and not (it['t'] == 'mu'):
            return Violation('files', 'output %d (%s) wrote %d files: %s' % (k, it['t'], len(fs), fs))
        for f in fs:
            s, p = h5.read(c.dir('w/s') + '/' + f), h5.read(c.dir('w/p') + '/' + f)
            if s is None or p is None:
                return Violation('files', 'file %s of the %s job cannot be read' % (f, 'serial' if s is None else 'parallel'))
            e = probe_check(plan, k, obs.get(k, []), s)
            if e:
                return Violation('content:' + it['t'], 'serial file %s: %s' % (f, e))
            e = same_files(f, s, p, it['t'] in ('sev', 'oev'))
            if e:
                return Violation('differs:' + it['t'], '%s on %d processes wrote another %s than the serial job: %s' % (plan['cfg'], plan['np'], f, e))
            n += 1
    c.notes['files_compared'] = n
    c.notes['kinds'] = [it['t'] for it in plan['items']]
    return None


def shrink(plan):
    n = len(plan['items'])
    if n > 1:
        for i in range(n):
            q = copy.deepcopy(plan)
            q['items'] = [plan['items'][i]]
            yield q
    for m in (2, 3, plan['np'] - 1):
        if 2 <= m < plan['np']:
            q = copy.deepcopy(plan)
            q['np'] = m
            yield q
    for s in G.scene_shrinks(plan['scene']):
        if s['bands'] != plan['scene']['bands'] or s['grid'] != plan['scene']['grid']:
            continue
        q = copy.deepcopy(plan)
        q['scene'] = s
        yield q
    if plan['parity']:
        q = copy.deepcopy(plan)
        q['parity'] = 0
        yield q
