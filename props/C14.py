"""What a session did before does not change what it computes next.

A random structure is solved and analysed at the end of a session that first did
something else: ran other structures, lattices, grids, materials with and
without permeability, other solver settings, saved and loaded states, analysed
fields, collected garbage.  Every setting is then given anew, deterministic? is
set, and the closing run and its analysis must log exactly the values and write
exactly the files that a new job with nothing before them does."""
import copy, os
import gen as G, program, bands
import C05
from drive import Violation, sim_knobs

CONFIGS = ['complex', 'herm', 'inv', 'mpi', 'mpix', 'mpinv']
BUDGET = {'quick': {'runs': 400, 'secs': 50}, 'thorough': {'runs': 15000, 'secs': 2400}}
RULE = 'random history + random closing section + build + process count + schedule; non-trivial when history, closing section and the new job all finished'


def full(sc):
    """every input variable set, whatever it was"""
    d = sc['dim']
    o = ['(set! geometry-lattice (make lattice (size %s)%s))' % (' '.join('no-size' if x is None else G.f(x) for x in sc['size']),
         '' if not sc['basis'] else ' ' + ' '.join('(basis%d %s)' % (i + 1, ' '.join(G.f(x) for x in b)) for i, b in enumerate(sc['basis']))),
         '(set! dimensions 3)',
         '(set! grid-size %s)' % G.v3(sc['grid']), '(set! mesh-size %d)' % sc['mesh'], '(set! default-material %s)' % (sc['default'] or 'air'),
         '(set! geometry (list %s))' % '\n  '.join(sc['geometry']), '(set! num-bands %d)' % sc['bands'], '(set! k-points (list %s))' % ' '.join(G.v3(k) for k in sc['kp']),
         '(set! tolerance %r)' % sc['tol'], '(set! eigensolver-block-size %d)' % sc['block'], '(set! eigensolver-nwork %d)' % sc['nwork'],
         '(set! eigensolver-davidson? %s)' % ('true' if sc['davidson'] else 'false'), '(set! simple-preconditioner? %s)' % ('true' if sc['simple'] else 'false'),
         '(set! force-mu? %s)' % ('true' if sc['forcemu'] else 'false'), '(set! target-freq %s)' % G.f(sc['target']), '(set! epsilon-input-file "")', '(set! mu-input-file "")',
         '(set! filename-prefix "fin-")', '(set! eigensolver-flags %s)' % ('(+ %s)' % ' '.join(sc['flags']) if sc.get('flags') else 'EIGS_DEFAULT_FLAGS')]
    return '\n'.join(o) + '\n'


def gen(rng, tier):
    cfg = G.choice(rng, complex=2.0, herm=2.0, inv=2.0, mpi=1.5, mpix=1.0, mpinv=1.5)
    dims = [2, 2, 3] if cfg.startswith('mpi') else [1, 2, 2, 3]
    sc = program.session_scene(rng, cfg, tol=rng.choice([1e-3, 1e-4, 1e-6]))
    sc['nwork'] = rng.choice([2, 3, 3, 4])
    hist0 = copy.deepcopy(sc)
    if rng.random() < .1 and not (sc['mu'] or sc['forcemu']):
        hist0['davidson'], hist0['nwork'] = True, 4
    elif rng.random() < .12 and not (sc['mu'] or sc['forcemu']):
        hist0['target'], hist0['nwork'] = round(.2 + .5 * rng.random(), 3), 4
    hist0['det'] = False
    p0 = bands.parities(rng, hist0)
    hist = program.session(rng, copy.deepcopy(hist0), rng.randint(1, 4), p0, kinds=('run', 'ops', 'out', 'evio', 'findk', 'solve') if hist0['davidson'] or hist0['target'] else None)
    # the closing structure: often only a little different, so that what can be kept is kept
    last = sc
    t = rng.random()
    if t < .35:
        last = program.session_scene(rng, cfg, tol=sc['tol'])
    else:
        what = rng.sample(['geometry', 'mu', 'bands', 'block', 'nwork', 'kp', 'default', 'flags', 'grid', 'size', 'simple', 'forcemu'], rng.randint(1, 3))
        alt = G.scene(rng, dim=sc['dim'], inv=sc['inv'], herm=sc['herm'], small=True, mirror=('z' if sc['zmirror'] else '') + ('y' if sc['ymirror'] else ''), mu=not sc['mu'] if 'mu' in what else sc['mu'])
        last = copy.deepcopy(sc)
        if 'mu' in what:
            what.append('geometry')
            last['mu'] = alt['mu']
        for w in what:
            if w in ('geometry', 'bands', 'block', 'kp', 'default', 'grid', 'simple'):
                last[w] = alt[w]
            elif w == 'size':
                last['size'], last['basis'] = alt['size'], alt['basis']
            elif w == 'nwork':
                last['nwork'] = rng.choice([2, 3, 3, 4])
            elif w == 'forcemu':
                last['forcemu'] = not last['forcemu']
        if not last['mu']:
            last['default'] = alt['default'] if not alt['mu'] else None
        bands.solver_settings(rng, last)
    last['nwork'] = max(2, last['nwork'])
    if rng.random() < .08 and not (last['mu'] or last['forcemu']):
        last['target'], last['nwork'] = round(.2 + .5 * rng.random(), 3), 4
    last['det'] = True
    fin0 = copy.deepcopy(last)
    p1 = bands.parities(rng, last)
    fin = program.session(rng, copy.deepcopy(last), rng.randint(1, 4), p1, without=('reinit', 'epsfile', 'evio', 'gc', 'mgrid'))
    return {'cfg': cfg, 'hist_scene': hist0, 'scene': fin0, 'parity': p1, 'np': rng.choice([1, 2, 2, 3, 4]) if cfg.startswith('mpi') else 1, 'history': hist, 'steps': fin, 'redorder': rng.choice([0, 1, 3]),
            'sim': sim_knobs(rng), 'sim_b': sim_knobs(rng)}


def closing(plan):
    s = '(sim-log "closing")\n(set! deterministic? true)\n' + full(plan['scene'])
    for k, l in plan['steps']:
        s += '(sim-log "op %s")\n%s\n' % (k, '\n'.join(l))
    return s + '(sim-log "end")\n'


def section(r, k):
    l = r.log(k).split('\n')
    return l[l.index('closing'):] if 'closing' in l else None


def evaluate(plan, c):
    n = plan['np']
    a = c.run(plan['cfg'], 'after', n, program.scm(plan['hist_scene'], plan['history'], end=False) + closing(plan), 'a', dict(plan['sim'], redorder=plan['redorder']))
    if section(a, 0) is None:
        c.notes['nontrivial'] = 0           # the history itself went wrong: covered elsewhere
        c.notes['errors'] = [a.describe()[-160:]]
        return None
    b = c.run(plan['cfg'], 'new', n, G.PRELUDE + closing(plan), 'b', dict(plan['sim_b'], redorder=plan['redorder']))
    if not b.ok():
        c.notes['nontrivial'] = 0
        c.notes['errors'] = [b.describe()[-160:]]
        return None
    who = '%s on %d processes, after %s' % (plan['cfg'], n, '+'.join(h[0] for h in plan['history']))
    if not a.ok():
        if a.j.get('vkind') == 'no-progress':
            c.notes['nontrivial'] = 0
            return None
        return Violation('outcome', '%s: what a new job does fails: %s' % (who, a.describe()))
    for k in range(n):
        d = C05.first_difference(section(a, k), section(b, k))
        if d:
            return Violation('values', '%s: process %d logs after "%s": %s in a new job' % (who, k, d[0], d[1]))
    fa, fb = ({f for f in os.listdir(c.dir(d)) if f.startswith('fin-')} for d in ('a', 'b'))
    if fa != fb:
        return Violation('files', '%s: files %s against %s of a new job' % (who, sorted(fa - fb), sorted(fb - fa)))
    for f in fa:
        x, y = C05.h5.read(os.path.join(c.dir('a'), f)), C05.h5.read(os.path.join(c.dir('b'), f))
        for part in ('data', 'attrs'):
            if sorted(x[part]) != sorted(y[part]):
                return Violation('files', '%s: %s holds %s against %s of a new job' % (who, f, sorted(x[part]), sorted(y[part])))
            for q in x[part]:
                if not C05.same_array(x[part][q], y[part][q]):
                    return Violation('files', '%s: %s: %s differs from that of a new job' % (who, f, q))
    c.notes['values'] = sum(len(section(a, k)) for k in range(n))
    c.notes['history'] = [h[0].split(':')[0] for h in plan['history']]
    c.notes['steps'] = [h[0].split(':')[0] for h in plan['steps']]
    return None


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'history': [s[0] for s in plan['history']], 'closing': [s[0] for s in plan['steps']], 'seed': plan['sim']['seed']}


def shrink(plan):
    for i in range(1, len(plan['history'])):
        q = copy.deepcopy(plan)
        del q['history'][i]
        yield q
    yield from program.shrink_steps(plan)
    yield from program.shrink_np(plan)
    for key in ('hist_scene', 'scene'):
        for s in G.scene_shrinks(plan[key]):
            if s['bands'] != plan[key]['bands'] or s['kp'] != plan[key]['kp'] and not s['kp']:
                continue
            q = copy.deepcopy(plan)
            q[key] = s
            yield q
