"""Random whole sessions: band runs, field analysis, output, re-initialisation
with changed settings, saved states, root finding and collections, in one job."""
import copy
import gen as G, bands

BANDFUN = ['display-zparities', 'display-yparities', 'display-group-velocities', 'output-hfield-z', 'output-dfield', 'output-bpwr', 'output-efield-x', 'output-tot-pwr', 'output-poynting',
           '(lambda (b) (fix-efield-phase b) (output-efield-y b))', '(combine-band-functions fix-dfield-phase output-dfield-z)',
           '(lambda () (obs "F:k" freqs))', '(lambda (b) (get-dfield b) (obs "Q:be" (compute-field-energy)))']


def session_scene(rng, cfg, small=True, tol=1e-4):
    sc = G.scene(rng, dim=rng.choice([2, 2, 3] if cfg.startswith('mpi') else [1, 2, 2, 3]), inv='inv' in cfg, herm=cfg in ('mpi', 'herm') and rng.random() < .4, small=small)
    sc['davidson'] = False
    sc['nwork'] = min(sc['nwork'], 3)
    sc['tol'] = tol
    bands.solver_settings(rng, sc)
    sc['kp'] = [G.kpoint(rng, sc) for _ in range(rng.randint(1, 2))]
    sc['det'] = True
    return sc


def bandfuns(rng, sc, n):
    return ' '.join(rng.choice(BANDFUN) for _ in range(n))


def run_step(rng, sc, p, state, reset=None):
    r = rng.choice(['true', 'true', 'false']) if reset is None else reset
    return ['(run-parity %d %s %s)' % (p, r, bandfuns(rng, sc, rng.choice([0, 0, 1, 2]))), '(obs "F:freqs" freqs)', '(obs "I:it" iterations)', '(obs "F:all" all-freqs)']


def reinit(rng, sc, p):
    """change settings and run again; sc is updated"""
    alt = G.scene(rng, dim=sc['dim'], inv=sc['inv'], herm=sc['herm'], mu=sc['mu'], small=True, mirror=('z' if sc['zmirror'] else '') + ('y' if sc['ymirror'] else ''))
    o = []
    what = rng.sample(['bands', 'grid', 'geometry', 'mesh', 'block', 'kp', 'nwork', 'default', 'mu', 'simple', 'tol'], rng.randint(1, 2))
    for w in what:
        if w == 'bands':
            sc['bands'] = alt['bands']
            o.append('(set! num-bands %d)' % sc['bands'])
        elif w == 'grid':
            sc['grid'] = alt['grid']
            o.append('(set! grid-size %s)' % G.v3(sc['grid']))
        elif w == 'geometry':
            sc['geometry'] = alt['geometry']
            o.append('(set! geometry (list %s))' % '\n  '.join(sc['geometry']))
        elif w == 'mesh':
            sc['mesh'] = alt['mesh']
            o.append('(set! mesh-size %d)' % sc['mesh'])
        elif w == 'block':
            sc['block'] = alt['block']
            o.append('(set! eigensolver-block-size %d)' % sc['block'])
        elif w == 'kp':
            sc['kp'] = alt['kp'][:rng.randint(1, 2)]
            o.append('(set! k-points (list %s))' % ' '.join(G.v3(k) for k in sc['kp']))
        elif w == 'nwork':
            sc['nwork'] = rng.choice([3, 3, 2])
            o.append('(set! eigensolver-nwork %d)' % sc['nwork'])
        elif w == 'default':
            sc['default'] = alt['default'] if rng.random() < .6 else None
            o.append('(set! default-material %s)' % (sc['default'] or 'air'))
        elif w == 'mu':
            sc['forcemu'] = not sc['forcemu']
            if sc['forcemu'] and sc.get('flags'):
                sc['flags'] = [f for f in sc['flags'] if f != 'EIGS_PROJECT_PRECONDITIONING'] or ['EIGS_RESET_CG']
                o.append('(set! eigensolver-flags (+ %s))' % ' '.join(sc['flags']))
            o.append('(set! force-mu? %s)' % ('true' if sc['forcemu'] else 'false'))
        elif w == 'simple':
            sc['simple'] = not sc['simple']
            o.append('(set! simple-preconditioner? %s)' % ('true' if sc['simple'] else 'false'))
        elif w == 'tol':
            sc['tol'] = rng.choice([sc['tol'], sc['tol'] * .3])
            o.append('(set! tolerance %r)' % sc['tol'])
    return what, o


def mgrid(rng, sc, p, i):
    """a material grid is added to the structure, changed, saved, loaded, used and removed"""
    sym = sc['inv'] or sc['ymirror']
    n = [rng.randint(1, 5), rng.randint(1, 4), 1 if sc['zmirror'] or sc['dim'] < 3 else rng.randint(1, 2)]
    init = '(lambda (x y z) 0.4)' if sym else rng.choice(['(lambda (x y z) (+ 0.5 (* 0.4 (sin (+ (* 5 x) (* 3 y))))))', '(lambda (x y z) 0.5)', '(lambda (x y z) (if (> (+ x y) 0.1) 0.9 0.2))'])
    o = ['(define mg%d (make material-grid (material-grid-kind %s) (epsilon-min %s) (epsilon-max %s) (size %s) (matgrid-init %s)))' % (
        i, rng.choice(['U-MIN', 'U-PROD', 'U-SUM']), round(1 + rng.random(), 2), round(4 + 6 * rng.random(), 2), ' '.join(map(str, n)), init),
        '(define gl%d (lambda () (array->list (array-contents (object-property-value mg%d (quote matgrid))))))' % (i, i),
        '(set! geometry (append geometry (list (make block (center 0 0 0) (size 0.7 0.6 infinity) (material mg%d)))))' % i, '(init-params %d true)' % p]
    if not sym and rng.random() < .8:
        o += ['(randomize-material-grid! mg%d %s)' % (i, round(rng.choice([.1, .5]) * (.5 + rng.random()), 3)), '(obs "Q:rgrid" (gl%d))' % i]
    if rng.random() < .6:
        o += ['(save-material-grid mg%d "mg%d")' % (i, i)]
        if rng.random() < .7:
            o += ['(load-material-grid! mg%d "mg%d.h5" (vector3 %s 1 1))' % (i, i, 1 if sym else rng.choice([1, 1, 2]))]
    o += ['(obs "Q:grid" (gl%d))' % i, '(run-parity %d true)' % p, '(obs "F:freqs" freqs)']
    if rng.random() < .5:
        o += ['(print-material-grids-gradient 1)', '(print "\\n")']
    if rng.random() < .2:
        o += ['(print-material-grids-deps-du)']
    return o + ['(set! geometry (list %s))' % '\n  '.join(sc['geometry']), '(run-parity %d true)' % p, '(obs "F:freqs" freqs)']


FAMILY = {0: ['run'], 1: ['run-zeven', 'run-te', 'run-even'], 2: ['run-zodd', 'run-tm', 'run-odd'], 4: ['run-yeven'], 8: ['run-yodd'], 5: ['run-yeven-zeven', 'run-te-yeven'],
          6: ['run-yeven-zodd', 'run-tm-yeven'], 9: ['run-yodd-zeven', 'run-te-yodd'], 10: ['run-yodd-zodd', 'run-tm-yodd']}


def misc(rng, sc, p, i, nofile=False):
    """the less usual ways to run"""
    t = G.choice(rng, family=1.0, prev=.8, saved=0.0 if sc['davidson'] or nofile else .8, optgrid=.7 if p == 0 and sc['dim'] < 3 else 0.0, split=.6)
    back = ['(run-parity %d true)' % p, '(obs "F:freqs" freqs)']
    if t == 'family':
        return ['misc:family', ['(%s %s)' % (rng.choice(FAMILY[p]), bandfuns(rng, sc, rng.choice([0, 1]))), '(obs "F:freqs" freqs)']]
    if t == 'prev':
        return ['misc:prev', ['(init-params PREV-PARITY %s)' % rng.choice(['true', 'false']), '(solve-kpoint %s)' % G.v3(rng.choice(sc['kp'])), '(obs "F:freqs" freqs)', '(set-parity %d)' % p, '(obs "E:kidx" (get-kpoint-index))']]
    if t == 'saved':
        return ['misc:saved', ['(save-eigenvectors "mi%d")' % i, '(run-parity %d "mi%d")' % (p, i), '(obs "F:freqs" freqs)']]
    if t == 'split':
        n = rng.choice([2, 3])
        return ['misc:split', ['(set! k-split-num %d)' % n, '(set! k-split-index %d)' % rng.randrange(n), '(run-parity %d true)' % p, '(obs "F:all" all-freqs)', '(set! k-split-num 1)', '(set! k-split-index 0)'] + back]
    return ['misc:optgrid', ['(set! resolution %d)' % rng.choice([3, 5, 7]), '(optimize-grid-size!)', '(obs "E:grid" grid-size)', '(run-parity %d true)' % p, '(obs "F:ofreqs" freqs)', '(set! grid-size %s)' % G.v3(sc['grid'])] + back]


def early(rng):
    """requests with a value, made before there is anything to compute it from"""
    x = ['(compute-1-group-velocity-component (vector3 1 0 0) 1)', '(compute-1-group-velocity 1)', '(compute-1-group-velocity-reciprocal 1)', '(compute-group-velocity-component (vector3 1 0 0))',
         '(compute-field-energy)', '(compute-energy-in-dielectric 1 2)', '(compute-field-integral (lambda (f e r) 1.0))', '(compute-energy-integral (lambda (u e r) u))', '(compute-energy-in-object-list (list))',
         '(get-kpoint-index)', '(using-mu?)']
    return ['early', ['(sim-log "op early%d")\n(obs "E:early%d" %s)' % (i, i, q) for i, q in enumerate(rng.sample(x, 4))]]


def session(rng, sc, n, parity=0, without=(), kinds=None, nofile=False):
    """-> [[kind, [lines], {'bands':…}]]; sc is left in its final state"""
    steps = [['run', run_step(rng, sc, parity, None, 'true')]]
    i = 0
    tries = 0
    while len(steps) < n and tries < 60:
        tries += 1
        w = dict(run=1.2, ops=4.0, out=2.0, reinit=2.2, solve=1.0, evio=.7, gc=.3, findk=.25, epsfile=.3, mgrid=.35, misc=.5)
        for x in without:
            w.pop(x, None)
        if kinds:
            w = {k: v for k, v in w.items() if k in kinds}
        k = G.choice(rng, **w)
        i += 1
        if k == 'run':
            if rng.random() < .5:
                sc['kp'] = [G.kpoint(rng, sc) for _ in range(rng.randint(1, 2))]
                steps.append([k, ['(set! k-points (list %s))' % ' '.join(G.v3(q) for q in sc['kp'])] + run_step(rng, sc, parity, None)])
            else:
                steps.append([k, run_step(rng, sc, parity, None)])
        elif k == 'ops':
            for name, l in G.ops(rng, sc, 1, without=('dpwr', 'evio')):
                steps.append(['ops:' + name, l])
        elif k == 'out':
            for name, l in G.out_ops(rng, sc, 1):
                steps.append(['out:' + name, l])
        elif k == 'reinit':
            what, o = reinit(rng, sc, parity)
            steps.append(['reinit:' + '+'.join(what), o + run_step(rng, sc, parity, None)])
        elif k == 'solve':
            q = rng.choice(sc['kp']) if parity else G.kpoint(rng, sc)
            steps.append([k, ['(solve-kpoint %s)' % G.v3(q), '(obs "F:freqs" freqs)']])
        elif k == 'evio':
            steps.append([k, ['(save-eigenvectors "sess%d")' % i] + (['(randomize-fields)'] if rng.random() < .5 else []) + ['(load-eigenvectors "sess%d")' % i, '(solve-kpoint %s)' % G.v3(rng.choice(sc['kp'])), '(obs "F:freqs" freqs)']])
        elif k == 'gc':
            steps.append([k, ['(sim-gc)']])
        elif k == 'findk':
            if sc['dim'] < 2 or sc['mu']:
                continue
            b = rng.randint(1, sc['bands'])
            steps.append([k, ['(set! k-points (list (vector3 0.3 0 0)))', '(run-parity %d true)' % parity, '(define om%d (list-ref freqs %d))' % (i, b - 1), '(obs "K:kr" (find-k %d om%d %d %d (vector3 1 0 0) 1e-3 0.3 0.02 0.6))' % (parity, i, b, b),
                              '(set! k-points (list %s))' % ' '.join(G.v3(q) for q in sc['kp']), '(set! num-bands %d)' % sc['bands'], '(run-parity %d true)' % parity, '(obs "F:freqs" freqs)']])
        elif k == 'misc':
            steps.append(misc(rng, sc, parity, i, nofile))
        elif k == 'mgrid':
            steps.append([k, mgrid(rng, sc, parity, i)])
        elif k == 'epsfile':
            if sc['mu']:
                continue
            steps.append([k, ['(define fp%d filename-prefix)' % i, '(set! filename-prefix "ef%d-")' % i, '(output-epsilon)', '(set! epsilon-input-file "ef%d-epsilon.h5")' % i, '(set! geometry (list))', '(run-parity %d true)' % parity, '(obs "F:efreqs" freqs)',
                              '(obs "Q:eeps" (list (get-epsilon-point (vector3 0.1 0.2 0)) (get-epsilon-point (vector3 -0.3 0 0.1))))', '(set! epsilon-input-file "")', '(set! filename-prefix fp%d)' % i,
                              '(set! geometry (list %s))' % '\n  '.join(sc['geometry']), '(run-parity %d true)' % parity, '(obs "F:freqs" freqs)']])
    return steps


def scm(sc0, steps, extra='', end=True):
    s = bands.settings_scm(sc0) + extra
    for k, l in steps:
        s += '(sim-log "op %s")\n%s\n' % (k, '\n'.join(l))
    return G.scene_scm(sc0, s + ('(sim-log "end")\n' if end else ''))


def shrink_steps(plan):
    n = len(plan['steps'])
    for a, b in ((1, n // 2), (n // 2, n)):
        if b > a:
            q = copy.deepcopy(plan)
            q['steps'] = plan['steps'][:a] + plan['steps'][b:]
            yield q
    for i in range(1, n):
        q = copy.deepcopy(plan)
        del q['steps'][i]
        yield q
    if n > 1:
        q = copy.deepcopy(plan)
        del q['steps'][0]
        yield q


def shrink_scene(plan):
    for s in G.scene_shrinks(plan['scene']):
        if s['bands'] != plan['scene']['bands'] or s['kp'] != plan['scene']['kp'] and not s['kp']:
            continue
        q = copy.deepcopy(plan)
        q['scene'] = s
        yield q
    if plan['scene'].get('flags'):
        q = copy.deepcopy(plan)
        q['scene']['flags'] = []
        yield q


def shrink_np(plan, lo=1):
    for m in (1, 2, 3, plan['np'] // 2, plan['np'] - 1):
        if lo <= m < plan['np']:
            q = copy.deepcopy(plan)
            q['np'] = m
            yield q
