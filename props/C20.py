"""mpb-data resamples what is in its input, and never damages it.

A random HDF5 file as MPB writes them (fields of one or more components, real or
complex, dielectric tensors, Bloch vector, lattice vectors, copies) is resampled
with random options, into another file or the same, once or repeatedly.  Every
output dataset must be the one a small reference model computes, the data that
were there must still be there, and an input that is only read must not change by
a bit - also when reads, writes, opens, closes or allocations fail, are short or
interrupted, or the program is killed in the middle of a write.  A failure must
be reported."""
import copy, itertools, os
import numpy as np
import h5
from drive import Violation, sim_knobs

CONFIGS = ['data']
BUDGET = {'quick': {'runs': 4000, 'secs': 40}, 'thorough': {'runs': 200000, 'secs': 2400}}
RULE = 'random file + options + sequence of invocations + injected failures or crash; non-trivial when outputs were compared with the model or a failure was delivered'
REAL = ['mpb-data, matrixio', 'HDF5', 'libctlgeom']
STUB = ['clock', 'failing/short/torn file operations, crashes', 'heap fill and failing allocations']
TENSOR = ['epsilon.xx', 'epsilon.xy', 'epsilon.yz', 'epsilon.zz', 'epsilon_inverse.xx', 'epsilon_inverse.yy', 'epsilon_inverse.xz']


def gen(rng, tier):
    rank = rng.choice([1, 2, 2, 2, 3, 3])
    dims = [rng.choice([1, 2, 3, 4, 5, 7, 8, 12]) for _ in range(rank)]
    sets = []                   # names; complex scalars as a pair
    t = rng.random()
    if t < .4:
        sets = ['x', 'y', 'z']
        if rng.random() < .15:
            sets.remove(rng.choice(sets))       # single components
        kind = 'vector'
    elif t < .7:
        kind = 'real'
        sets = rng.choice([['data'], ['data'] + rng.sample(TENSOR, 2), rng.sample(TENSOR, 1), ['other']])
    else:
        kind = 'complex'
        sets = rng.choice([['data'], ['data'], ['other']])
    both = kind == 'vector' and rng.random() < .2       # dielectric data next to a field
    lat = None
    if rng.random() < .85:
        lat = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        q = rng.random()
        if q < .3:
            lat = [[1, 0, 0], [.5, .75 ** .5, 0], [0, 0, 1]]
        elif q < .5:
            lat = [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]
        elif q < .7:
            lat = [[round(rng.uniform(.7, 1.5), 3), 0, 0], [round(rng.uniform(-.3, .3), 3), round(rng.uniform(.7, 1.5), 3), 0], [0, round(rng.uniform(-.2, .2), 3), round(rng.uniform(.7, 1.5), 3)]]
    o = []
    if rng.random() < .35:
        o.append('-r')
    elif rng.random() < .1 and lat:
        o += ['-e', '%g,%g,%g' % tuple(np.round(np.array(lat[0]) + [.05, .08, .02], 3))]
    q = rng.random()
    if q < .3:
        o += ['-m', rng.choice(['2', '3', '1', '0.5', '1.5'])]
    elif q < .6:
        for a in 'xyz':
            if rng.random() < .5:
                o += ['-' + a, rng.choice(['1', '2', '3', '0.5', '2.25'])]
    if rng.random() < .4:
        o += ['-n', rng.choice(['3', '8', '11.5', '16'])]
    for a in 'Tpv':
        if rng.random() < .2 and (a != 'T' or rank > 1):
            o.append('-' + a)
    if rng.random() < .25:
        o += ['-P', rng.choice(['90', '30', '-45.5', '180'])]
    return {'rank': rank, 'dims': dims, 'sets': sets, 'kind': kind, 'both': both, 'lat': lat, 'k': [round(rng.uniform(-.6, .6), 3) for _ in range(3)] if rng.random() < .7 else None,
            'copies': [rng.choice([1, 2, 3]) for _ in range(3)] if rng.random() < .15 else None, 'opts': o, 'out': rng.random() < .5, 'name': rng.choice([None, None, 'd', ':']) if kind != 'vector' else None,
            'outname': rng.choice(['out.h5'] * 4 + ['out', 'o.h5.h5', 'd.h5/o', 'o.h5x', 'h5', '.h5']), 'long': rng.choice([0] * 7 + [294, 301, 700, 1400]),
            'again': rng.choice([0, 0, 1, 2]), 'seed': rng.randrange(1 << 30), 'same_out': rng.random() < .03, 'two': rng.random() < .15,
            'fault': rng.choice([None, None, 'io', 'io', 'io', 'malloc', 'crash', 'torn']), 'cls': rng.choice(['read', 'read', 'write', 'write', 'open', 'close', 'trunc']),
            'act': rng.choice(['e:5', 'e:28', 'S:28', 'S:5', 'n', 'h:1', 'h:50']), 'frac': rng.random(), 'sim': dict(sim_knobs(rng, mpi=False), p_gc=0.0)}


def contents(plan, salt=0):
    r = np.random.RandomState((plan['seed'] + salt) % (1 << 31))
    d = {}
    for s in plan['sets']:
        for sfx in (('',) if plan['kind'] == 'real' else ('.r', '.i')):
            d[s + sfx] = r.uniform(-1, 1, plan['dims'])
    if plan['both']:
        d['data'] = r.uniform(1, 9, plan['dims'])
        d['epsilon.xx'] = r.uniform(1, 9, plan['dims'])
    if plan['lat']:
        d['lattice vectors'] = np.array(plan['lat'], float)
    if plan['k']:
        d['Bloch wavevector'] = np.array(plan['k'])
    if plan['copies']:
        d['lattice copies'] = np.array(plan['copies'], float)
    return d


# ------------------------------------------------------------ reference model
def options(o):
    r = {'r': False, 'e': None, 'n': 0.0, 'm': [1., 1., 1.], 'T': False, 'p': False, 'P': 0.0}
    i = 0
    while i < len(o):
        a = o[i][1]
        if a in 'xyz':
            r['m']['xyz'.index(a)] = float(o[i + 1])
        elif a == 'm':
            r['m'] = [float(o[i + 1])] * 3
        elif a == 'n':
            r['n'] = float(o[i + 1])
        elif a == 'P':
            r['P'] = float(o[i + 1])
        elif a == 'e':
            r['e'], r['r'] = [float(x) for x in o[i + 1].split(',')], True
        elif a in 'rTp':
            r[a] = True
        i += 2 if a in 'xyzmnPe' else 1
    return r


def unit(v):
    return v / np.linalg.norm(v)


def sample(f, n_in, xyz, k, nearest):
    """Bloch-periodic trilinear interpolation of f (rank 3) at fractional coordinates xyz[..., 3]"""
    cell = np.floor(xyz)
    u = (xyz - cell) * n_in
    i1 = np.minimum(np.floor(u).astype(int), np.array(n_in) - 1)
    w = u - i1
    if nearest:
        w = (w > .5).astype(float)
    out = np.zeros(xyz.shape[:-1], complex)
    for c in itertools.product((0, 1), repeat=3):
        c = np.array(c)
        j = i1 + c
        wrap = j >= n_in
        ph = np.exp(2j * np.pi * ((cell + wrap) @ k)) if np.iscomplexobj(f) else 1.0
        j = np.where(wrap, j - n_in, j)
        out += f[j[..., 0], j[..., 1], j[..., 2]] * ph * np.prod(np.where(c, w, 1 - w), axis=-1)
    return out


def model(plan, d):
    """-> {dataset: list of acceptable arrays}"""
    o = options(plan['opts'])
    Rin = np.array(plan['lat'] or np.eye(3), float).T          # columns
    k = np.array(plan['k'] or [0, 0, 0.])
    if plan['copies']:
        Rin = Rin * np.array(plan['copies'], float)
        k = k * plan['copies']
    Rout = Rin.copy()
    cart = np.eye(3)
    if o['r']:
        c0, c1, c2 = Rin.T
        ve = unit(np.array(o['e']) if o['e'] else c0)
        V = np.dot(np.cross(c0, c1), c2)
        c1, c2 = c1 - c0, c2 - c0
        c0 = ve * V / np.dot(np.cross(c1, c2), ve)
        c1 = c1 - ve * np.dot(ve, c1)
        c2 = c2 - ve * np.dot(ve, c2)
        c2 = c2 - c1 * np.dot(c1, c2) / np.dot(c1, c1)
        Rout = np.array([c0, c1, c2]).T
        cart = np.linalg.inv(np.array([unit(c0), unit(c1), unit(c2)]).T)
    if o['T']:
        cart = cart[[1, 0, 2]]
    Rout = Rout * o['m']
    M = np.linalg.inv(Rin) @ Rout
    n_in = np.array(plan['dims'] + [1] * (3 - plan['rank']))
    if o['n'] > 0:
        n_out = [int(np.linalg.norm(Rout[:, i]) * o['n'] + .5) for i in range(3)]
        near = [abs((np.linalg.norm(Rout[:, i]) * o['n'] + .5) % 1) for i in range(3)]
        if min(min(x, 1 - x) for x in near) < 1e-9 and any(min(x, 1 - x) < 1e-9 and x != 0 for x in near):
            return None         # the rounding of the size itself is not determined
    else:
        n_out = [int(n_in[i] * o['m'][i]) for i in range(3)]
    n_out = [max(1, n_out[i]) if i < plan['rank'] else 1 for i in range(3)]
    idx = np.stack(np.meshgrid(*[np.arange(q) / q for q in n_out], indexing='ij'), -1)
    xyz = idx @ M.T + (.5 - M @ [.5, .5, .5])
    out = {}
    scale = np.exp(2j * np.pi * o['P'] / 360)
    pert = list(itertools.product((-1e-9, 1e-9), repeat=3)) if o['p'] else [(0, 0, 0)]

    def one(f, cplx):
        f = f.reshape(n_in)
        l = []
        for p in pert:
            a = sample(f.astype(complex) if cplx else f, n_in, xyz + np.array(p) / n_in, k, o['p'])
            if cplx:
                a = a * scale
            if o['T']:
                a = a.transpose(1, 0, 2)
            a = a.reshape(a.shape[:plan['rank']])
            l.append(a)
        return l
    full = {'x.r', 'x.i', 'y.r', 'y.i', 'z.r', 'z.i'} <= set(d)
    for s in plan['sets']:
        if plan['kind'] == 'real':
            out[s] = [a.real for a in one(d[s], False)]
            continue
        if full and plan['kind'] == 'vector':
            r = cart['xyz'.index(s)]
            f = sum(r[q] * (d['xyz'[q] + '.r'] + 1j * d['xyz'[q] + '.i']) for q in range(3))
        else:
            f = d[s + '.r'] + 1j * d[s + '.i']
        a = one(f, True)
        out[s + '.r'], out[s + '.i'] = [x.real for x in a], [x.imag for x in a]
    if plan['both']:
        for s in ('data', 'epsilon.xx'):
            out[s] = [a.real for a in one(d[s], False)]
    if plan['sets'][0].startswith('other') and not plan['name']:
        out = {}
    return out


def agrees(a, cand):
    if a is None or any(a.shape != c.shape for c in cand):
        return False
    ok = np.zeros(a.shape, bool)
    for c in cand:
        ok |= np.abs(a - c) <= 1e-8 * (1 + np.abs(c))
    return bool(ok.all())


def check_files(plan, dd, d, want, out):
    """-> what is wrong with the files, or None"""
    f = h5.read(os.path.join(dd, out or 'in.h5'))
    if f is None:
        return '%s is not readable' % (out or 'in.h5')
    f = f['data']
    names = {n + ('' if out else '-new'): w for n, w in want.items()}
    if set(f) != set(names) | (set() if out else set(d)):
        return 'the datasets are %s' % sorted(f)
    for n, w in names.items():
        if not agrees(f[n], w):
            return '%s is not what the model computes%s' % (n, '' if f[n] is None or f[n].shape != w[0].shape else ' (off by %.3g)' % np.abs(f[n] - w[0]).max()) + ('' if f[n] is None else ' shape %s against %s' % (f[n].shape, w[0].shape))
    if not out:
        for n in d:
            if f[n] is None or f[n].shape != d[n].shape or f[n].tobytes() != d[n].tobytes():
                return 'the original data of %s changed' % n
    return None


def evaluate(plan, c):
    if plan.get('long') and plan['name'] and plan['sets'] == ['other']:
        plan = dict(plan, sets=['other' + 'n' * plan['long']])
    d = contents(plan)
    want = model(plan, d)
    if want is None:
        c.notes['nontrivial'] = 0
        return None
    out = plan.get('outname', 'out.h5') if plan['out'] else None
    args = list(plan['opts']) + (['-o', out] if out else [])
    if out and not out.endswith('.h5'):
        out += '.h5'                # the suffix that is appended
    arg_in = 'in.h5'
    if plan['name'] or plan['sets'][0].startswith('other'):
        if plan['name'] == ':':
            arg_in = 'in.h5:' + plan['sets'][0]
        elif plan['name'] == 'd':
            args += ['-d', plan['sets'][0]]
        if plan['name']:
            want = {n: w for n, w in want.items() if n == plan['sets'][0] or n in (plan['sets'][0] + '.r', plan['sets'][0] + '.i')}
    who = ('mpb-data %s on %s' % (' '.join(args), sorted(d))).replace('n' * 200, '~')

    def fresh(sub):
        dd = c.dir(sub)
        h5.write(dd + '/in.h5', d)
        os.makedirs(dd + '/d.h5', exist_ok=True)
        return dd
    dd = fresh('a')
    if plan['same_out']:
        before = open(dd + '/in.h5', 'rb').read()
        r = c.run('data', 'same', 1, None, 'a', plan['sim'], args=list(plan['opts']) + ['-o', 'in.h5', 'in.h5'])
        if open(dd + '/in.h5', 'rb').read() != before:
            return Violation('damaged', 'mpb-data -o in.h5 in.h5: the input file is damaged (%s)' % r.describe())
        if r.ok():
            return Violation('outcome', 'mpb-data -o in.h5 in.h5: reports success')
        dd = fresh('a')
    before = open(dd + '/in.h5', 'rb').read()
    files = [arg_in]
    d2 = None
    if plan['two']:
        q = plan['seed'] % 5
        k2 = None if q == 0 and plan['kind'] == 'real' else plan['k'] if q < 2 else [round(.1 * (1 + (plan['seed'] >> i) % 7) - .35, 3) for i in range(3)] if plan['k'] or plan['kind'] != 'real' else plan['k']
        plan2 = dict(plan, k=k2)
        d2 = contents(plan2, 77)
        h5.write(dd + '/in2.h5', d2)
        files.append('in2.h5' + (arg_in[5:]))
    a = c.run('data', 'clean', 1, None, 'a', plan['sim'], args=args + files)
    if not a.ok():
        return Violation('outcome', '%s: %s' % (who, a.describe()))
    w = check_files(plan, dd, d, want, out)
    if w:
        return Violation('wrong', '%s: %s' % (who, w))
    if out and open(dd + '/in.h5', 'rb').read() != before:
        return Violation('damaged', '%s: the input file changed' % who)
    if d2 is not None:
        w2 = model(plan2, d2)
        w = check_files(plan, dd, d, want, out)
        if 'in2.h5' in os.listdir(dd):
            f2 = h5.read(dd + '/in2.h5')['data']
            want2 = {n: x for n, x in w2.items() if n in want}
            if set(f2) != set(d2) | {n + '-new' for n in want2} or any(not agrees(f2[n + '-new'], x) for n, x in want2.items()):
                return Violation('wrong', '%s: the second file is not resampled as the model does' % who)
    for i in range(plan['again']):
        r = c.run('data', 'again%d' % i, 1, None, 'a', plan['sim'], args=args + [arg_in])
        if not r.ok():
            return Violation('outcome', '%s again: %s' % (who, r.describe()))
        w = check_files(plan, dd, d, want, out)
        if w:
            return Violation('wrong', '%s again: %s' % (who, w))
    f = plan['fault']
    if not f or d2 is not None:
        return None
    db = fresh('b')
    j = a.j
    if plan['again'] and out:
        import shutil
        shutil.copy(os.path.join(dd, out), os.path.join(db, out))
    before = open(db + '/in.h5', 'rb').read()
    must = None
    if f == 'malloc':
        fx = [['malloc', 0, 1 + int(plan['frac'] * j['malloc'][0])]]
    elif f == 'crash':
        fx = [['crash', -1, 1 + int(plan['frac'] * max(1, j['nev']))]]
    else:
        cls = plan['cls'] if f == 'io' else 'write'
        n = j['ioc'][cls][0]
        if not n:
            c.notes['nontrivial'] = 0
            return None
        act = plan['act'] if f == 'io' else 't:%d' % int(plan['frac'] * 99)
        if cls == 'open' and act[0] in 'nh':
            act = 'e:24'
        if act[0] in 'nh' and cls in ('close', 'trunc'):
            act = 'e:5'
        fx = [['io', 0, cls, 1 + int(plan['frac'] * n), act]]
        if act[0] in 'nh':
            must = 'same'
    b = c.run('data', 'faulty', 1, None, 'b', plan['sim'], fx, args=args + [arg_in])
    if not any(b.j.get('fault_hits', [])):
        c.notes['nontrivial'] = 0
        return None
    if out and open(db + '/in.h5', 'rb').read() != before:
        return Violation('damaged', '%s with %s: the input file changed' % (who, fx))
    if b.ok():
        w = check_files(plan, db, d, want, out)
        if w:
            return Violation('unnoticed', '%s with %s: reports success, but %s' % (who, fx, w))
        return None
    if must:
        return Violation('outcome', '%s with %s: %s' % (who, fx, b.describe()))
    if b.outcome == 'crash-injected' or f in ('crash', 'torn') and b.outcome == 'kill-injected':
        return None
    if b.outcome in ('exit', 'exit-early', 'abort') and b.code and b.all_stderr().strip():
        return None
    if b.outcome in ('signal', 'abort') and 'CHECK failure' in b.all_stderr():
        return None             # HDF5's own exit handler, after the failure was reported
    return Violation('outcome', '%s with %s: %s' % (who, fx, b.describe()))


def describe(plan):
    return {'file': plan['kind'], 'dims': plan['dims'], 'options': plan['opts'], 'fault': plan['fault'], 'seed': plan['sim']['seed']}


def shrink(plan):
    for k, v in (('fault', None), ('again', 0), ('two', False), ('same_out', False), ('long', 0), ('outname', 'out.h5'), ('copies', None), ('lat', None), ('k', None), ('both', False)):
        if plan[k] != v:
            q = copy.deepcopy(plan)
            q[k] = v
            yield q
    o = plan['opts']
    i = 0
    while i < len(o):
        n = 2 if o[i][1] in 'xyzmnPe' else 1
        q = copy.deepcopy(plan)
        q['opts'] = o[:i] + o[i + n:]
        yield q
        i += n
    for i in range(plan['rank']):
        if plan['dims'][i] > 1:
            q = copy.deepcopy(plan)
            q['dims'][i] = 1 if plan['dims'][i] == 2 else 2
            yield q
