"""Input files are read exactly, or the job stops and says why.

A dielectric function, saved eigenvectors or a material grid is read by a
random job, once as it should be and once more: stored in another number format
or with other datasets beside it (must make no difference), missing, empty,
truncated at any point, not an HDF5 file, with the wrong dataset, rank or size
(must be refused), or with failing, interrupted or short reads, failing opens
and allocations (exact or refused).  A refusal is a failure status and a
message from a job that ends everywhere; the input file must stay as it is."""
import copy, os, shutil
import numpy as np
import gen as G, program, bands, h5
import C05
from drive import Violation, sim_knobs

CONFIGS = ['complex', 'herm', 'inv', 'mpi', 'mpix', 'mpinv']
BUDGET = {'quick': {'runs': 500, 'secs': 50}, 'thorough': {'runs': 20000, 'secs': 2400}}
RULE = 'random input file + damage or failure + build + process count + schedule; non-trivial when the damaged input was read or refused'
SAME = ['f32', 'be', 'extra']
BAD = ['missing', 'empty', 'text', 'trunc', 'trunc', 'trunc', 'trunc', 'nodata', 'group', 'rank4', 'size', 'size', 'sig', 'dir']
FAULT = ['read', 'read', 'read', 'open', 'malloc']


def gen(rng, tier):
    cfg = G.choice(rng, complex=2.0, herm=1.5, inv=2.0, mpi=2.0, mpix=1.5, mpinv=1.5)
    sc = program.session_scene(rng, cfg, tol=1e-2)
    sc['kp'] = sc['kp'][:1]
    kind = rng.choice(['eps', 'eps', 'ev', 'ev', 'grid'] if not sc['mu'] else ['ev', 'ev', 'grid'])
    damage = G.choice(rng, same=1.0, bad=2.5, fault=3.0)
    d = rng.choice({'same': SAME, 'bad': BAD, 'fault': FAULT}[damage])
    big = rng.random() < .3
    dims = [rng.randint(2, 60 if big else 7), rng.randint(1, 150 if big else 7), rng.randint(1, 4) if sc['dim'] == 3 or kind == 'grid' else 1]
    return {'cfg': cfg, 'scene': sc, 'parity': bands.parities(rng, sc, .2), 'np': rng.choice([1, 2, 2, 3, 4, 6]) if cfg.startswith('mpi') else 1, 'kind': kind, 'damage': damage, 'how': d, 'dims': dims,
            'seed': rng.randrange(1 << 30), 'frac': rng.random(), 'frac2': rng.random(), 'act': rng.choice(['e:5', 'e:5', 'n', 'h:1', 'h:50', 'h:90', 'e:13', 'e:2']), 'sim': dict(sim_knobs(rng), p_gc=0.0)}


def data(plan):
    r = np.random.RandomState(plan['seed'])
    a = r.randint(8, 80, size=plan['dims']) / 8.0 if plan['kind'] == 'eps' else r.randint(0, 9, size=plan['dims']) / 8.0
    return a.reshape([x for i, x in enumerate(plan['dims']) if x > 1 or not any(y > 1 for y in plan['dims'][i:])] or [1])


def script(plan):
    sc = plan['scene']
    s = bands.settings_scm(sc)
    pts = ' '.join(G.v3([(i * .37) % 1 - .5, (i * .23) % 1 - .5, (i * .41) % 1 - .5]) for i in range(8))
    if plan['kind'] == 'eps':
        s += '(set! epsilon-input-file "in.h5")\n(run-parity %d true)\n(obs "freqs" freqs)\n(get-epsilon)\n(obs "eps" (map get-epsilon-point (list %s)))\n' % (plan['parity'], pts)
    elif plan['kind'] == 'ev':
        s += '(init-params %d true)\n(solve-kpoint %s)\n(load-eigenvectors "in.h5")\n' % (plan['parity'], G.v3(sc['kp'][0]))
        for b in range(1, sc['bands'] + 1):
            s += '(get-dfield %d)\n(obs "E" (compute-field-energy))\n(get-bfield %d)\n(obs "B" (map get-bloch-field-point (list %s)))\n' % (b, b, pts)
    else:
        s += '(define mg (make material-grid (epsilon-min 1) (epsilon-max 9) (size 5 4 %d)))\n' % (3 if sc['dim'] == 3 else 1)
        s += '(load-material-grid! mg "in.h5" (vector3 1 1 1))\n(set! geometry (list (make block (center 0 0 0) (size 10 10 10) (material mg))))\n(init-params %d true)\n' % plan['parity']
        s += '(get-epsilon)\n(obs "eps" (map get-epsilon-point (list %s)))\n(save-material-grid mg "saved-grid.h5")\n(output-epsilon)\n' % pts
    return G.scene_scm(sc, s + '(sim-log "end")\n')


def saver(plan, other=False):
    sc = plan['scene']
    nb = sc['bands'] + 1 if other else sc['bands']
    return G.scene_scm(sc, bands.settings_scm(sc) + '(set! num-bands %d)\n(init-params %d true)\n(solve-kpoint %s)\n(save-eigenvectors "in.h5")\n' % (nb, plan['parity'], G.v3(sc['kp'][0])))


def damaged(plan, good, path, c):
    """-> False when this damage does not apply to this input"""
    how, kind = plan['how'], plan['kind']
    name = 'rawdata' if kind == 'ev' else 'data'
    d = h5.read(good)['data'][name]
    d = np.asarray(d)
    if how in ('f32', 'be'):
        if kind == 'ev' and how == 'f32':
            return False
        h5.write(path, {name: d}, ftype='IEEE_F32LE' if how == 'f32' else 'IEEE_F64BE')
    elif how == 'extra':
        h5.write(path, {name: d, 'zz other': np.ones(3), 'zzz': np.ones((2, 2))}, {'/lattice': np.eye(3)})
    elif how == 'missing':
        pass
    elif how == 'dir':
        os.mkdir(path)
    elif how == 'empty':
        open(path, 'w').close()
    elif how == 'text':
        open(path, 'w').write('1.0 2.0 3.0\n' * 200)
    elif how in ('trunc', 'sig'):
        b = open(good, 'rb').read()
        b = b[:int(len(b) * plan['frac'])] if how == 'trunc' else b'\x89HDX' + b[4:]
        open(path, 'wb').write(b)
    elif how == 'nodata':
        h5.write(path, {} if kind == 'eps' or plan['frac'] < .5 else {'other': d})
    elif how == 'group':
        h5.write(path, {}, {'/x': np.eye(2)})
    elif how == 'rank4':
        h5.write(path, {name: d.reshape((1,) * (5 - d.ndim if kind == 'ev' else 4 - d.ndim) + d.shape)})
    elif how == 'size':
        if kind != 'ev':
            return False        # any size is interpolated
        q = d.shape
        which = int(plan['frac'] * 6)
        h5.write(path, {name: [d[:-1], np.concatenate([d, d[:1]]), d[:, :, :-1] if q[2] > 1 else d[:-1], d.swapaxes(0, 2) if q[0] != q[2] else d[1:], d.reshape(q[0] * q[1], q[2], q[3]), d[:, :1]][which]})
    return True


def evaluate(plan, c):
    n = plan['np']
    ca, cb = c.dir('a'), c.dir('b')
    s = script(plan)
    if plan['kind'] == 'ev':
        r = c.run(plan['cfg'], 'make', n, saver(plan), 'a', plan['sim'], jobname='make')
        if not r.ok():
            c.notes['nontrivial'] = 0
            return None
    else:
        h5.write(ca + '/in.h5', {'data': data(plan)})
    good = ca + '/in.h5'
    a = c.run(plan['cfg'], 'clean', n, s, 'a', plan['sim'])
    if not a.ok():
        c.notes['nontrivial'] = 0
        c.notes['errors'] = [a.describe()[-160:]]
        return None
    fx = []
    path = cb + '/in.h5'
    must = None
    if plan['damage'] == 'fault':
        shutil.copy(good, path)
        if plan['how'] == 'malloc':
            q = int(plan['frac'] * n)
            fx = [['malloc', q, 1 + int(plan['frac2'] * a.j['malloc'][q])]]
        else:
            qs = [q for q in range(n) if a.j['ioc'][plan['how']][q]]
            if not qs:
                c.notes['nontrivial'] = 0
                return None
            q = qs[int(plan['frac'] * len(qs))]
            act = plan['act']
            if plan['how'] == 'open' and act[0] in 'nh':
                act = 'e:24'
            if plan['how'] == 'read' and act in ('e:13', 'e:2'):
                act = 'e:5'
            fx = [['io', q, plan['how'], 1 + int(plan['frac2'] * a.j['ioc'][plan['how']][q]), act]]
            if act[0] in 'nh':
                must = 'same'
    else:
        if not damaged(plan, good, path, c):
            c.notes['nontrivial'] = 0
            return None
        must = 'same' if plan['damage'] == 'same' else 'refuse'
        if plan['how'] == 'trunc':
            must = None
    before = open(path, 'rb').read() if os.path.isfile(path) else None
    b = c.run(plan['cfg'], 'damaged', n, s, 'b', plan['sim'], fx)
    if fx and not any(b.j.get('fault_hits', [])):
        c.notes['nontrivial'] = 0
        return None
    who = '%s on %d processes, %s file, %s%s' % (plan['cfg'], n, plan['kind'], plan['how'], ' ' + str(fx) if fx else '')
    c.notes['kinds'] = [plan['kind'] + ':' + plan['how']]
    if before is not None and open(path, 'rb').read() != before:
        return Violation('modified', '%s: the job changed its input file' % who)
    if plan['cfg'] == 'mpi' and fx and b.j.get('vkind') in ('collective-mismatch', 'deadlock') and fx[0][4] != 'n':
        c.notes['nontrivial'] = 0       # parallel HDF5 losing step with itself, see C07
        return None
    if not b.ok():
        if must == 'same':
            return Violation('refused', '%s: a proper input is not read: %s' % (who, b.describe()))
        if b.outcome in ('exit', 'exit-early', 'abort') and b.code:
            if not b.all_stderr().strip():
                return Violation('mute', '%s: the job failed without any message' % who)
            return None
        if b.outcome == 'signal' and 'CHECK failure' in b.all_stderr():
            return None
        return Violation('crash', '%s: %s' % (who, b.describe()))
    if must == 'refuse':
        return Violation('accepted', '%s: the job accepted it' % who)
    for k in range(n):
        d = C05.first_difference(a.log(k).split('\n'), b.log(k).split('\n'))
        if d:
            return Violation('wrong', '%s: the job went on with other data: process %d logged %s' % (who, k, d[1]))
    for f in ('saved-grid.h5', 'job-epsilon.h5'):
        if os.path.exists(os.path.join(ca, f)):
            x, y = (h5.read(os.path.join(d, f)) for d in (ca, cb))
            if y is None or any(not C05.same_array(x['data'][q], y['data'].get(q)) for q in x['data']):
                return Violation('wrong', '%s: the job went on with other data: %s differs' % (who, f))
    return None


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'input': plan['kind'], 'damage': plan['how'], 'seed': plan['sim']['seed']}


def shrink(plan):
    yield from program.shrink_np(plan)
    yield from program.shrink_scene(plan)
    if plan['parity']:
        q = copy.deepcopy(plan)
        q['parity'] = 0
        yield q
    for i in range(3):
        if plan['dims'][i] > 2:
            q = copy.deepcopy(plan)
            q['dims'][i] = 2
            yield q
