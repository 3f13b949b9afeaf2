"""An impossible request is refused by all processes and changes nothing.

A random deterministic session runs on simulated processes, once as it is and
twice (in different heaps) with impossible requests inserted: operations before
there is anything to operate on, bands, files, indices and settings that do not
exist, things of another type or left over from an earlier grid.  A request
must end the job with a message and a failure status, or leave it running on
all processes with a message; then everything the session computes and writes
afterwards must be bit-for-bit what it is without the request."""
import copy, os
import gen as G, program, bands
import C09, C16
from drive import Violation, sim_knobs

CONFIGS = ['complex', 'inv', 'herm', 'mpi', 'mpix', 'mpinv']
BUDGET = {'quick': {'runs': 400, 'secs': 50}, 'thorough': {'runs': 15000, 'secs': 2400}}
RULE = 'random session + impossible requests at random points + build + process count + schedule + two heaps; non-trivial when a request was reached'

ID3 = '(matrix3x3 (vector3 1 0 0) (vector3 0 1 0) (vector3 0 0 1))'
# before init-params, or after it but before anything is solved
EARLY = ['(get-epsilon-point (vector3 0.1 0 0))', '(get-epsilon-inverse-tensor-point (vector3 0.1 0 0))', '(get-energy-point (vector3 0.1 0 0))', '(get-field-point (vector3 0.1 0 0))', '(get-bloch-field-point (vector3 0.1 0 0))',
         '(get-cscalar-point (vector3 0.1 0 0))', '(get-bloch-cscalar-point (vector3 0 0 0))', '(compute-energy-in-dielectric 1 2)', '(compute-field-integral (lambda (f e r) 1.0))',
         '(compute-energy-integral (lambda (u e r) u))', '(compute-energy-in-object-list (list))', '(compute-field-energy)', '(compute-field-divergence)', '(fix-field-phase)', '(get-efield-from-dfield)',
         '(output-field-to-file -1 "x")', '(output-field)', '(get-dominant-planewave 1)', '(transformed-overlap %s (vector3 0 0 0))' % ID3, '(get-eigenvectors 1 1)', '(save-eigenvectors "bad")', '(load-eigenvectors "nofile")',
         '(input-eigenvectors "nofile" 1)', '(compute-zparities)', '(compute-yparities)', '(compute-group-velocity-component (vector3 1 0 0))', '(compute-1-group-velocity 1)', '(get-dfield 1)', '(get-hfield 1)',
         '(get-bfield 1)', '(get-efield 1)', '(get-epsilon)', '(get-mu)', '(randomize-fields)', '(cvector-field-make cur-field)', '(rscalar-field-make cur-field)', '(field-load cur-field)',
         '(field-map! cur-field (lambda (x) x) cur-field)', '(integrate-fields (lambda (r x) 1.0) cur-field)', '(cvector-field-get-point cur-field (vector3 0 0 0))',
         '(rscalar-field-get-point cur-field (vector3 0 0 0))', '(cscalar-field-get-point cur-field (vector3 0 0 0))', '(cvector-field-get-point-bloch cur-field (vector3 0 0 0))',
         '(fields-conform? cur-field cur-field)', '(print-material-grids-gradient 1)', '(print-material-grids-deps-du)', '(print-material-grids-deps-du-numeric 0.01)', '(scale-eigenvector 1 2.0)',
         '(compute-symmetries %s (vector3 0 0 0))' % ID3, '(set-parity EVEN-Z)', '(output-eigenvectors (get-eigenvectors 1 1) "bad")', '(solve-kpoint (vector3 0.1 0 0))', '(set-eigenvectors 5 1)',
         '(material-grids-match-epsilon-file! "nofile" 0.1)', '(material-grids-approx-gradient (vector3 0.1 0 0) 1 0 0.01)']
# after init-params these mean something
NEUTRAL_INIT = ('get-epsilon', 'get-mu', 'randomize', 'solve-kpoint', 'set-parity', 'save-eig', 'scale-eig', 'get-dominant', 'yparit', 'zparit', 'get-eigenv', 'output-eig', 'get-epsilon-point', 'deps-du', 'group-vel',
                'get-dfield', 'get-hfield', 'get-bfield', 'get-efield', 'approx', 'compute-symm', 'fix-field')
# refused with the session going on
EARLYGO = ['(get-dfield 1)', '(get-hfield 1)', '(get-bfield 1)', '(get-efield-from-dfield)', '(compute-field-energy)', '(compute-field-divergence)', '(fix-field-phase)', '(compute-zparities)', '(compute-yparities)',
           '(compute-group-velocity-component (vector3 1 0 0))', '(compute-energy-in-dielectric 1 2)', '(compute-field-integral (lambda (f e r) 1.0))', '(compute-energy-integral (lambda (u e r) u))',
           '(output-field-to-file -1 "x")', '(get-epsilon)', '(get-mu)', '(randomize-fields)', '(set-parity EVEN-Z)', '(solve-kpoint (vector3 0.1 0 0))', '(compute-energy-in-object-list (list))']
INITGO = [x for x in EARLYGO if not any(y in x for y in ('get-epsilon', 'get-mu', 'randomize', 'solve-kpoint', 'set-parity'))]
# the same, at any time after a run
BANDGO = ['(get-dfield %s)', '(get-hfield %s)', '(get-bfield %s)']
BANDDIE = ['(get-dominant-planewave %s)', '(get-eigenvectors %s 1)', '(compute-1-group-velocity %s)', '(compute-1-group-velocity-component (vector3 1 0 0) %s)', '(scale-eigenvector %s 2.0)',
           '(set-eigenvectors (get-eigenvectors 1 1) %s)', '(dot-eigenvectors (get-eigenvectors 1 1) %s)', '(input-eigenvectors "nofile" %s)', '(print-material-grids-gradient %s)', '(get-eigenvectors 1 (+ %s (if (> %s 0) 0 99)))']
# with the dielectric function as the current field
SCALARGO = ['(get-efield-from-dfield)', '(compute-field-energy)', '(compute-field-divergence)', '(fix-field-phase)', '(transformed-overlap %s (vector3 0 0 0))' % ID3, '(compute-energy-in-dielectric 1 2)']
SCALARDIE = ['(get-field-point (vector3 0.1 0 0))', '(get-bloch-field-point (vector3 0.1 0 0))', '(get-cscalar-point (vector3 0 0 0))', '(cvector-field-get-point cur-field (vector3 0 0 0))',
             '(cscalar-field-get-point cur-field (vector3 0 0 0))', '(cvector-field-make cur-field)']
DIE = ['(load-eigenvectors "nofile")', '(input-eigenvectors "nofile" 1)', '(field-load 5)', '(sqmatrix-mult 5 6)', '(set-eigenvectors 5 1)', '(output-eigenvectors 5 "bad")', '(sqmatrix-size "x")',
       '(sqmatrix-mult (dot-eigenvectors (get-eigenvectors 1 1) 1) (dot-eigenvectors (get-eigenvectors 1 2) 1))', '(sqmatrix-ref (dot-eigenvectors (get-eigenvectors 1 1) 1) 1 0)',
       '(sqmatrix-ref (dot-eigenvectors (get-eigenvectors 1 1) 1) 0 -1)', '(sqmatrix-set (dot-eigenvectors (get-eigenvectors 1 1) 1) 7 0 1.0)', '(dot-eigenvectors (get-eigenvectors 1 1) 99)',
       '(let ((f (begin (get-epsilon) (field-copy cur-field)))) (get-dfield 1) (field-set! f cur-field))', '(let ((f (begin (get-epsilon) (field-copy cur-field)))) (cvector-field-get-point f (vector3 0 0 0)))',
       '(let ((f (begin (get-dfield 1) (field-copy cur-field)))) (rscalar-field-get-point f (vector3 0 0 0)))', '(integrate-fields (lambda (r x) "no") cur-field)', '(init-params 77 true)', '(get-dfield "one")',
       '(solve-kpoint 3)', '(car (list))', '(undefined-procedure 3)', '(begin (set! epsilon-input-file "nofile") (init-params NO-PARITY true))', '(field-map! cur-field (lambda (x) "no") cur-field)',
       '(sqmatrix-diagm (list))', '(sqmatrix-eigvals 3)', '(print-material-grids-deps-du-numeric "a")', '(material-grids-maxgap (list (vector3 0.1 0 0)) 1 2 0.001 0.001 3 0)',
       '(material-grids-min-tetm-gap (vector3 0.1 0 0) 99 0.001 0.001 3 0)', '(material-grids-approx-gradient (vector3 0.1 0 0) 99 0 0.01)', '(material-grids-match-epsilon-file! "nofile" 0.1)']
# settings no calculation can use, for the last run of a session
SETTINGS = ['(set! num-bands 0)', '(set! num-bands -3)', '(set! num-bands 5000)', '(set! num-bands "x")', '(set! grid-size (vector3 0 0 0))', '(set! grid-size (vector3 -4 4 1))', '(set! resolution 0) (set! grid-size false)',
            '(set! tolerance -1)', '(set! tolerance "small")', '(set! mesh-size 0)', '(set! mesh-size -2)', '(set! eigensolver-nwork 0)', '(set! eigensolver-nwork -1)', '(set! eigensolver-block-size 0)',
            '(set! eigensolver-block-size 99)', '(set! eigensolver-block-size -99)', '(set! eigensolver-flags 0)', '(set! k-points (list 3))', '(set! k-points (list (vector3 "a" 0 0)))', '(set! geometry (list 3))',
            '(set! default-material false)', '(set! target-freq -1)', '(set! epsilon-input-file "nofile")', '(set! filename-prefix 7)', '(set! geometry-lattice (make lattice (size no-size no-size no-size)))',
            '(set! geometry-lattice (make lattice (basis1 1 0 0) (basis2 1 0 0) (basis3 0 0 1)))', '(set! geometry (list (make cylinder (center 0 0) (radius 0.2) (height infinity) (material (make dielectric (epsilon 0))))))',
            '(set! filename-prefix "no/such/directory/")', '(set! num-bands 1.5)']


def gen(rng, tier):
    cfg = G.choice(rng, complex=1.0, inv=.7, herm=.7, mpi=1.5, mpix=1.5, mpinv=1.5)
    sc = program.session_scene(rng, cfg, tol=1e-3)
    par = bands.parities(rng, sc)
    sc0 = copy.deepcopy(sc)
    steps = program.session(rng, sc, rng.randint(2, 4), par, without=('findk',))
    n = len(steps)
    bad = []
    for i in range(rng.randint(2, 9)):
        k = G.choice(rng, early=.5 if bad else 1.0, earlygo=1.5, init=.3 if bad else .6, initgo=1.2, band=2.5, scalar=2.5, stale=.6)
        b = rng.choice([0, -1, -7, 99, 5000])
        if k == 'early':
            bad.append([0, k, [rng.choice(EARLY)]])
        elif k == 'earlygo':
            bad.append([0, k, [rng.choice(EARLYGO)]])
        elif k == 'init':
            bad.append([0, k, ['(init-params %d true)' % par, [x for x in EARLY if not any(y in x for y in NEUTRAL_INIT)]]])
            bad[-1][2][1] = rng.choice(bad[-1][2][1])
        elif k == 'initgo':
            bad.append([0 if rng.random() < .5 else n, k, ['(init-params %d true)' % par, rng.choice(INITGO)]])
        elif k == 'band':
            bad.append([rng.randint(1, n), k, [rng.choice(BANDGO) % b]])
        elif k == 'scalar':
            bad.append([rng.randint(1, n), k, ['(get-epsilon)', rng.choice(SCALARGO)]])
        else:
            # kept from before a change of the grid
            g = G.scene(rng, dim=sc['dim'], inv=sc['inv'], herm=sc['herm'], mu=sc['mu'], small=True)['grid']
            use = rng.choice(['(fields-conform? stale cur-field)', '(set-eigenvectors stalev 1)', '(dot-eigenvectors stalev 1)', '(field-load stale)', '(field-set! cur-field stale)', '(field-map! cur-field (lambda (x) x) stale)',
                              '(integrate-fields (lambda (r x) 1.0) stale)', '(integrate-fields (lambda (r x y) 1.0) stale cur-field)', '(cvector-field-get-point stale (vector3 0.1 0 0))', '(cvector-field-make stale)',
                              '(output-eigenvectors stalev "stale")'])
            bad.append([n, k, ['(get-dfield 1)', '(define stale (field-copy cur-field))', '(define stalev (get-eigenvectors 1 1))', '(set! grid-size %s)' % G.v3(g), rng.choice(['(set! num-bands %d)' % rng.choice([sc['bands'], sc['bands'] + 1]), '']),
                               '(run-parity %d true)' % par, '(get-dfield 1)', '(vector3->list (get-field-point (vector3 0.1 0 0)))', use]])
    # what is asked before there is anything comes first, what ends the job last
    bad.sort(key=lambda x: (x[0], {'earlygo': 0, 'early': 1, 'init': 4, 'initgo': 3}.get(x[1], 2)))
    fin = None
    if rng.random() < .6:
        k = G.choice(rng, band=1.2, scalar=.8, die=2.0, settings=2.0)
        b = rng.choice([0, -1, sc0['bands'] + 9, 99, 5000])
        if k == 'band':
            x = rng.choice(BANDDIE)
            fin = [k, [x.replace('%s', str(b))]]
        elif k == 'scalar':
            fin = [k, ['(get-epsilon)', rng.choice(SCALARDIE)]]
        elif k == 'die':
            fin = [k, [rng.choice(DIE)]]
        else:
            fin = [k, [rng.choice(SETTINGS), rng.choice(['(run-parity %d true)', '(run-parity %d false)', '(init-params %d true)']) % par]]
    return {'cfg': cfg, 'scene': sc0, 'parity': par, 'np': rng.choice([2, 2, 3, 4, 5, sc['grid'][0] + 1]) if cfg.startswith('mpi') else 1, 'steps': steps, 'bad': bad, 'final': fin, 'redorder': rng.choice([0, 1, 3]),
            'sim': dict(sim_knobs(rng), p_gc=0.0), 'sim_b': sim_knobs(rng), 'sim_c': sim_knobs(rng)}


MARK = '(if (= (sim-rank) 0) (begin (display "@@%s\n" (current-error-port)) (force-output (current-error-port))))'
SHOW = '(obs "R" (let ((v %s)) (if (or (number? v) (list? v) (boolean? v)) v (if (vector3? v) (vector3->list v) 0))))'


def scm(plan, with_bad):
    s = bands.settings_scm(plan['scene'])

    def put(i):
        o = ''
        for j, (at, k, l) in enumerate(plan['bad']):
            if at != i:
                continue
            # what leads up to the request is part of the session
            for x in l[:-1]:
                o += x + '\n'
            if with_bad:
                o += '(sim-log "bad %d %s")\n%s\n%s\n(sim-log "survived")\n%s\n' % (j, k, MARK % ('bad %d' % j), l[-1] if 'field-set!' in l[-1] or 'define' in l[-1] else SHOW % l[-1], MARK % ('ok %d' % j))
        return o
    s += put(0)
    for i, (k, l) in enumerate(plan['steps']):
        s += '(sim-log "op %s")\n%s\n' % (k, '\n'.join(l)) + put(i + 1)
    s += '(sim-log "end")\n'
    if with_bad and plan['final']:
        k, l = plan['final']
        s += '(sim-log "bad final %s")\n' % k + '\n'.join(l[:-1]) + '\n' + (SHOW % l[-1] if k != 'settings' else l[-1]) + '\n(sim-log "survived")\n'
    return G.scene_scm(plan['scene'], s)


def strip(lines):
    """the log without what belongs to the requests -> (lines, request the job died in)"""
    out, inside = [], None
    for x in lines:
        if x.startswith('bad '):
            inside = x
        elif x == 'survived':
            inside = None
        elif not inside and x:
            out.append(x)
    return out, inside


MAYBE = ('compute-symm', 'parities)', 'fields-conform', '(set-eigenvectors stalev', 'randomize', 'stale', 'deps-du', 'get-epsilon)', 'get-mu)', 'kpoint-index', 'print-material', 'object-list')


def said(e):
    """messages printed during each request that was survived"""
    out, cur, got = {}, None, ''
    for x in e.split('\n'):
        if x.startswith('@@bad'):
            cur, got = int(x.split()[1]), ''
        elif x.startswith('@@ok'):
            out[cur], cur = got, None
        else:
            got += x + '\n'
    return out


def evaluate(plan, c):
    n, cfg = plan['np'], plan['cfg']
    who = '%s on %d processes' % (cfg, n)
    a = c.run(cfg, 'without', n, scm(plan, False), 'a', dict(plan['sim'], redorder=plan['redorder']))
    if not a.ok():
        c.notes['nontrivial'] = 0
        c.notes['errors'] = [a.describe()[-160:]]
        return None
    runs = []
    for name, k in (('with', plan['sim_b']), ('with2', plan['sim_c'])):
        b = c.run(cfg, name, n, scm(plan, True), name, dict(k, redorder=plan['redorder']))
        runs.append(b)
        died = next((x for q in range(n) for x in [strip(b.log(q).split('\n'))[1]] if x), None)
        if b.j.get('vkind') == 'no-progress' and (not died or 'settings' in died):
            c.notes['nontrivial'] = 0
            return None
        req = request(plan, died)
        if b.outcome not in ('exit', 'exit-early', 'abort') and not (b.outcome == 'signal' and 'CHECK failure' in b.all_stderr()):
            return Violation('outcome', '%s, request %s: %s' % (who, req, b.describe()))
        d = C16.divergence(b, n, b.ok())
        if d:
            return Violation('diverged', '%s: after "%s" process 0 has %r, process %d %r' % (who, d[1], d[2][:150], d[0], d[3][:150]))
        e = ''.join(x + '\n' for x in b.all_stderr().split('\n') if x and not x.startswith('@@'))
        if not b.ok():
            if not b.code or not e.strip() and not any(x in b.stdout(0) for x in ('ERROR', 'error', 'zero')):
                return Violation('silent', '%s, request %s: ended with status %s and no message' % (who, req, b.code))
            if not died:
                return Violation('later', '%s: the job ended after it had refused the requests: %s' % (who, b.describe()))
        for j, m in said(b.stderr(0)).items():
            x = plan['bad'][j][2][-1]
            if not m.strip() and not any(y in x for y in MAYBE):
                return Violation('silent', '%s: impossible request %s, and no message' % (who, x))
        for q in range(n):
            la, lb = [x for x in a.log(q).split('\n') if x], strip(b.log(q).split('\n'))[0]
            if not b.ok():
                la = la[:len(lb)]
            if la != lb:
                i = next((i for i in range(min(len(la), len(lb))) if la[i] != lb[i]), min(len(la), len(lb)))
                op = next((x for x in reversed(la[:i]) if x.startswith('op ')), 'start')
                return Violation('changed', '%s: after the requests %s, process %d logs at "%s" %r, without them %r' % (who, [l[-1] for at, k, l in plan['bad']], q, op, (lb[i] if i < len(lb) else 'nothing')[:150], (la[i] if i < len(la) else 'nothing')[:150]))
        if b.ok() and not plan['final']:
            da, db = c.dir('a'), c.dir(name)
            for f in sorted(os.listdir(da)):
                if f.endswith('.h5'):
                    w = C09.same_file(os.path.join(da, f), os.path.join(db, f)) if os.path.exists(os.path.join(db, f)) else 'does not exist'
                    if w:
                        return Violation('files', '%s: after the requests %s, of file %s %s' % (who, [l[-1] for at, k, l in plan['bad']], f, w))
    b, d = runs
    for q in range(n):
        lb, ld = b.log(q).split('\n'), d.log(q).split('\n')
        if not b.ok():
            m = min(len(lb), len(ld)) - 1
            lb, ld = lb[:m], ld[:m]
        if lb != ld and not (plan['final'] and plan['final'][0] == 'settings'):
            i = next((i for i in range(min(len(lb), len(ld))) if lb[i] != ld[i]), min(len(lb), len(ld)))
            return Violation('garbage', '%s: the outcome of a request depends on the heap: process %d logs %r or %r' % (who, q, (lb[i] if i < len(lb) else '')[:150], (ld[i] if i < len(ld) else '')[:150]))
    if b.ok() != d.ok():
        return Violation('garbage', '%s: whether a request is refused depends on the heap: %s; %s' % (who, b.describe()[-200:], d.describe()[-200:]))
    reached = max(sum(x.startswith('bad ') for x in b.log(q).split('\n')) for q in range(n))
    c.notes['nontrivial'] = int(reached > 0)
    c.notes['requests'] = reached
    c.notes['ended_the_job'] = int(not b.ok())
    return None


def request(plan, died):
    if not died:
        return 'none'
    w = died.split()
    return str(plan['final'][1]) if w[1] == 'final' else plan['bad'][int(w[1])][2][-1]


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'steps': [s[0] for s in plan['steps']], 'requests': [b[2][-1] for b in plan['bad']], 'final': plan['final'], 'seed': plan['sim']['seed']}


def shrink(plan):
    if plan['final']:
        q = copy.deepcopy(plan)
        q['final'] = None
        if q['bad']:
            yield q
    for i in range(len(plan['bad'])):
        q = copy.deepcopy(plan)
        del q['bad'][i]
        if q['bad'] or q['final']:
            yield q
    if len(plan['steps']) > 1:
        q = copy.deepcopy(plan)
        q['steps'] = plan['steps'][:1]
        for b in q['bad']:
            b[0] = min(b[0], 1)
        yield q
    yield from program.shrink_np(plan)
    yield from program.shrink_scene(plan)
