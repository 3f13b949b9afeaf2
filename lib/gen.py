"""Seeded generator of simulation scenes (geometry, materials, solver settings)
and of operation sequences, rendered as MPB control files."""
import math

PRELUDE = r'''
(define (hx x)
  (cond ((boolean? x) (if x "true" "false"))
        ((and (number? x) (real? x)) (sim-hex x))
        ((number? x) (string-append (sim-hex (real-part x)) " " (sim-hex (imag-part x))))
        ((string? x) (string-append "s:" (list->string (map (lambda (c) (if (char-whitespace? c) #\_ c)) (string->list x)))))
        ((symbol? x) (symbol->string x))
        ((vector? x) (hx (vector->list x)))
        ((null? x) "nil")
        ((list? x) (if (null? (cdr x)) (hx (car x)) (string-append (hx (car x)) " " (hx (cdr x)))))
        ((pair? x) (string-append (hx (car x)) " " (hx (cdr x))))
        (else "other")))
(define (obs label x) (sim-log (string-append label " " (hx x))))
(define pi (* 4 (atan 1)))
(define (re x) (real-part x))
(define (im x) (imag-part x))
(define (tr m) (sqmatrix-diag m))
(define (matl m) (let ((n (sqmatrix-size m)))
  (apply append (map (lambda (i) (map (lambda (j) (sqmatrix-ref m i j)) (arith-sequence 0 1 n))) (arith-sequence 0 1 n)))))
'''


def f(x):
    s = repr(round(float(x), 6))
    return s


def v3(v):
    return '(vector3 %s %s %s)' % tuple(f(x) for x in v)


def c3(v):
    return '(cvector3 %s %s %s)' % tuple('%s%s%si' % (f(a), '+' if b >= 0 else '-', f(abs(b))) for a, b in v)


def choice(rng, **w):
    """weighted choice among keyword names"""
    t = rng.random() * sum(w.values())
    for k, x in w.items():
        t -= x
        if t < 0:
            return k
    return list(w)[-1]


def material(rng, sc, depth=0, plain=False):
    """Scheme expression of a random material obeying the scene's symmetry"""
    kinds = dict(diel=6.0, aniso=2.0)
    if sc['mu']:
        kinds['mu'] = 4.0
        if sc['mu'] != 'iso':
            kinds['muaniso'] = 1.5
    if sc['herm']:
        kinds['herm'] = 3.0
    if not plain:
        kinds['func'] = 1.0
        if not sc['inv'] and sc['grids']:
            kinds['grid'] = sc['grids']
    k = choice(rng, **kinds)
    e = lambda: 1.0 + rng.random() * 11
    zoff = 0.0 if sc['zmirror'] else 1.0
    yoff = 0.0 if sc['ymirror'] else 1.0
    if k == 'diel':
        return '(make dielectric (%s))' % ('epsilon %s' % f(e()) if rng.random() < .8 else 'index %s' % f(math.sqrt(e())))
    if k == 'mu':
        return '(make medium (epsilon %s) (mu %s))' % (f(e()), f(1 + rng.random() * sc.get('mumax', 3)))
    o = [(rng.random() - .5) * 1.2 * yoff, (rng.random() - .5) * 1.2 * zoff, (rng.random() - .5) * 1.2 * zoff * yoff]
    d = [2 + rng.random() * 8 for _ in range(3)]
    if k == 'aniso':
        return '(make medium-anisotropic (epsilon-diag %s) (epsilon-offdiag %s))' % (v3(d), v3(o))
    if k == 'muaniso':
        m = [1 + rng.random() * 2 for _ in range(3)]
        return '(make medium-anisotropic (epsilon-diag %s) (mu-diag %s) (mu-offdiag %s))' % (
            v3(d), v3(m), v3([x * .3 for x in o]))
    if k == 'herm':
        oc = [(o[0] * .5, (rng.random() - .5) * 1.5), (o[1], (rng.random() - .5) * zoff), (o[2], (rng.random() - .5) * zoff)]
        if sc['mu'] is True and rng.random() < .5:
            return '(make medium-anisotropic (epsilon-diag %s) (epsilon-offdiag %s) (mu-diag %s) (mu-offdiag %s))' % (
                v3(d), c3(oc), v3([1.5, 1.7, 2.0]), c3([(0, .3), (0, 0), (0, 0)]))
        return '(make medium-anisotropic (epsilon-diag %s) (epsilon-offdiag %s))' % (v3(d), c3(oc))
    if k == 'func':
        a, b = 3 + rng.random() * 4, 1 + rng.random() * 1.5
        t = 'cos (* 2 pi (vector3-x p))' if sc['inv'] or rng.random() < .5 else 'sin (* 2 pi (+ (vector3-x p) (vector3-x p)))'
        if sc['inv']:
            pass
        if rng.random() < .5:
            return '(make material-function (material-func (lambda (p) (make dielectric (epsilon (+ %s (* %s (%s))))))))' % (f(a), f(b), t)
        return ('(make material-function (material-func (lambda (p) (if (> (%s) 0.2) (make medium-anisotropic (epsilon-diag %s)) '
                '(make dielectric (epsilon %s))))))' % (t, v3(d), f(a)))
    if k == 'grid':
        return grid_material(rng, sc)
    raise AssertionError(k)


def grid_material(rng, sc):
    n = [rng.randint(2, 5), rng.randint(2, 5), rng.randint(2, 4) if sc['dim'] == 3 else 1]
    fn = rng.choice(['(lambda (x y z) (+ 0.5 (* 0.4 (sin (+ (* 5 x) (* 3 y) z)))))',
                     '(lambda (x y z) (if (< (+ (* x x) (* y y) (* z z)) 0.09) 0.9 0.15))',
                     '(lambda (x y z) (abs (cos (+ x (* 7 y)))))'])
    e0 = 1 + rng.random() * 2
    return '(make material-grid (material-grid-kind %s) (epsilon-min %s) (epsilon-max %s) (size %s) (matgrid-init %s))' % (
        rng.choice(['U-MIN', 'U-PROD', 'U-SUM']), f(e0), f(e0 + 4 + rng.random() * 5), v3(n), fn)


def scene(rng, dim=None, inv=False, herm=False, mu=None, grids=1.0, epsfile=False, small=False, mirror=None, square=None, mumax=3):
    """a random scene; the symmetry flags restrict what it may contain"""
    sc = {'dim': dim or rng.choice([2, 2, 3]), 'inv': inv, 'herm': herm}
    sc['mu'] = (rng.random() < .3) if mu is None else mu
    sc['grids'] = grids
    sc['mumax'] = mumax
    d = sc['dim']
    if mirror is None:
        sc['zmirror'] = rng.random() < (.6 if d == 2 else .35)
        sc['ymirror'] = rng.random() < (.3 if d == 3 else .15) and sc['zmirror']
    else:
        sc['zmirror'] = 'z' in mirror
        sc['ymirror'] = 'y' in mirror
    if sc['inv']:
        # real-symmetric materials only
        sc['herm'] = False
    s = [0.7 + rng.random() * .8 for _ in range(3)]
    if rng.random() < .5:
        s = [1.0, 1.0, 1.0]
    if d == 1:
        sc['size'] = [s[0], None, None]
        sc['grid'] = [rng.randint(8, 20), 1, 1]
    elif d == 2:
        sc['size'] = [s[0], s[1], None]
        lo, hi = (4, 9) if small else (5, 13)
        sc['grid'] = [rng.randint(lo, hi), rng.randint(lo, hi), 1]
    else:
        sc['size'] = s
        lo, hi = (3, 5) if small else (3, 7)
        sc['grid'] = [rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(lo, hi)]
    if square if square is not None else rng.random() < .2:
        sc['grid'] = [sc['grid'][0]] * d + [1] * (3 - d)
    # the parity projections presuppose as many positive as negative frequencies
    if sc['zmirror'] and sc['grid'][2] > 1:
        sc['grid'][2] += sc['grid'][2] % 2
    if sc['ymirror'] and sc['grid'][1] > 1:
        sc['grid'][1] += sc['grid'][1] % 2
    sc['basis'] = None
    if d > 1 and not sc['ymirror'] and rng.random() < .45:
        flat = [[[1, 0, 0], [.5, .866025, 0], [0, 0, 1]], [[.9, .3, 0], [-.2, 1, 0], [0, 0, 1]], [[1, .25, 0], [.35, .85, 0], [0, 0, 1.1]]]
        skew = [[[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], [[1, .1, 0], [.2, .9, .1], [0, .15, 1]], [[1, .2, -.15], [.25, .9, .1], [-.1, .3, 1.05]]]
        sc['basis'] = rng.choice(flat if d == 2 or sc['zmirror'] else skew)
    sc['mesh'] = rng.choice([1, 2, 3, 3])
    objs = []
    nobj = rng.choice([1, 1, 2, 2, 3])
    for _ in range(nobj):
        c = [0.0, 0.0, 0.0]
        if rng.random() < .55:
            c = [round((rng.random() - .5) * .9, 3) for _ in range(3)]
        if sc['zmirror'] or d < 3:
            c[2] = 0.0
        if sc['ymirror'] or d < 2:
            c[1] = 0.0
        m = material(rng, sc)
        r = .12 + rng.random() * .3
        shape = choice(rng, sphere=2.0, block=3.0, cylinder=2.0, ellipsoid=.7, cone=.0 if (inv or sc['zmirror']) else .5)
        if shape in ('block', 'ellipsoid') and (sc['ymirror'] or sc['zmirror'] or d < 3):
            dims = [.2 + rng.random() * .7, .2 + rng.random() * .7, .2 + rng.random() * .7]
        else:
            dims = [.15 + rng.random() * .7 for _ in range(3)]
        for sgn in ((1, -1) if inv and any(c) else (1,)):
            cc = [sgn * x for x in c]
            if shape == 'sphere':
                o = '(make sphere (center %s) (radius %s) (material %s))' % (v3(cc), f(r), m)
            elif shape == 'cylinder':
                o = '(make cylinder (center %s) (radius %s) (height %s) (axis 0 0 1) (material %s))' % (
                    v3(cc), f(r), 'infinity' if d < 3 or rng.random() < .5 else f(dims[2]), m)
            elif shape == 'cone':
                o = '(make cone (center %s) (radius %s) (radius2 %s) (height %s) (axis 0 0 1) (material %s))' % (v3(cc), f(r), f(r * .3), f(dims[2] + .2), m)
            else:
                o = '(make %s (center %s) (size %s %s %s) (material %s))' % (
                    shape, v3(cc), f(dims[0]), f(dims[1]), 'infinity' if d < 3 else f(dims[2]), m)
            objs.append(o)
    sc['geometry'] = objs
    sc['default'] = None
    if rng.random() < .25:
        # the default material fills everything, so keep it simple
        sc['default'] = material(rng, sc, plain=True)
    sc['deps'] = bool(epsfile)
    sc['bands'] = rng.randint(2, 5)
    sc['kp'] = [kpoint(rng, sc) for _ in range(3)]
    # solver settings
    sc['tol'] = 1e-9
    sc['block'] = rng.choice([-11, -11, -11, 1, 2, 3, 7, -2])
    sc['nwork'] = rng.choice([3, 3, 3, 2, 4])
    sc['davidson'] = rng.random() < .15 and not sc['mu']
    if sc['davidson']:
        sc['nwork'] = rng.choice([4, 5, 6])
    sc['target'] = 0.0
    sc['simple'] = rng.random() < .15
    sc['forcemu'] = rng.random() < .12 and not sc['davidson']
    return sc


def kpoint(rng, sc):
    d = sc['dim']
    t = rng.random()
    if t < .15:
        return [0, 0, 0]
    if t < .35:
        k = [rng.choice([0, .5]) for _ in range(3)]
    else:
        k = [round((rng.random() - .5) * 1.1, 3) for _ in range(3)]
    if d < 3 and not (rng.random() < .2 and not sc['zmirror']):
        k[2] = 0
    if d < 2:
        k[1] = 0
    if sc['zmirror']:
        k[2] = 0 if d < 3 or rng.random() < .8 else .5
    if sc['ymirror']:
        k[1] = 0
    return k


def scene_scm(sc, extra=''):
    o = [PRELUDE]
    d = sc['dim']
    o.append('(set! geometry-lattice (make lattice (size %s)%s))' % (
        ' '.join('no-size' if x is None else f(x) for x in sc['size']),
        '' if not sc['basis'] else ' ' + ' '.join('(basis%d %s)' % (i + 1, ' '.join(f(x) for x in b)) for i, b in enumerate(sc['basis']))))
    o.append('(set! grid-size %s)' % v3(sc['grid']))
    o.append('(set! mesh-size %d)' % sc['mesh'])
    if sc['default']:
        o.append('(set! default-material %s)' % sc['default'])
    o.append('(set! geometry (list %s))' % '\n  '.join(sc['geometry']))
    o.append('(set! num-bands %d)' % sc['bands'])
    o.append('(set! k-points (list %s))' % ' '.join(v3(k) for k in sc['kp']))
    o.append('(set! tolerance %s)' % repr(sc['tol']))
    if sc['block'] != -11:
        o.append('(set! eigensolver-block-size %d)' % sc['block'])
    if sc['nwork'] != 3:
        o.append('(set! eigensolver-nwork %d)' % sc['nwork'])
    if sc['davidson']:
        o.append('(set! eigensolver-davidson? true)')
    if sc['simple']:
        o.append('(set! simple-preconditioner? true)')
    if sc['forcemu']:
        o.append('(set! force-mu? true)')
    if sc['target']:
        o.append('(set! target-freq %s)' % f(sc['target']))
    if sc.get('det'):
        o.append('(set! deterministic? true)')
    o.append(extra)
    return '\n'.join(o) + '\n'


def scene_shrinks(sc):
    """simpler variants of a scene, most drastic first"""
    def w(**kw):
        n = dict(sc)
        n.update(kw)
        return n
    if len(sc['geometry']) > 1:
        for i in range(len(sc['geometry'])):
            yield w(geometry=sc['geometry'][:i] + sc['geometry'][i + 1:])
    if sc['default']:
        yield w(default=None)
    if len(sc['kp']) > 1:
        for i in range(len(sc['kp'])):
            yield w(kp=sc['kp'][:i] + sc['kp'][i + 1:])
    if sc['basis']:
        yield w(basis=None)
    for k, v in (('block', -11), ('nwork', 3), ('davidson', False), ('simple', False), ('forcemu', False), ('target', 0.0), ('mesh', 3)):
        if sc[k] != v:
            yield w(**{k: v})
    if sc['bands'] > 2:
        yield w(bands=sc['bands'] - 1)
    for i in range(3):
        if sc['grid'][i] > 4:
            g = list(sc['grid'])
            g[i] = max(4, g[i] - 3)
            yield w(grid=g)


# ------------------------------------------------------------------ operations
def rpt(rng):
    return v3([round((rng.random() - .5) * 1.6, 3) for _ in range(3)])


OBJ = ['(list (make sphere (center 0.1 0 0) (radius 0.3) (material air)))',
       '(list (make block (center 0 0.1 0) (size 0.5 0.4 infinity) (material air)) (make sphere (center 0.3 0.2 0.1) (radius 0.25) (material air)))']
INTF = ['(lambda (F eps r) (+ (vector3-cdot F F) (* eps 0.1 (vector3-x F))))',
        '(lambda (F eps r) (* eps (vector3-y F) (vector3-x r)))',
        '(lambda (F eps r) (+ (vector3-z F) (vector3-x F) (* 0.3 (vector3-y F))))']
INTE = ['(lambda (e eps r) (* e eps))', '(lambda (e eps r) (+ e (* 0.1 (vector3-x r)) (* .2 (vector3-y r))))', '(lambda (e eps r) e)']


def op_field(rng, sc, get=None):
    b = rng.randint(1, sc['bands'])
    w = get or rng.choice('dheb')
    o = ['(get-%sfield %d)' % (w, b)]
    for _ in range(2):
        p = rpt(rng)
        o.append('(obs "Q:%sf" (list (get-bloch-field-point %s) (get-field-point %s)))' % (w, p, p))
    if rng.random() < .6:
        o.append('(obs "Q:%sint" (compute-field-integral %s))' % (w, rng.choice(INTF)))
    if rng.random() < .4:
        o.append('(obs "Q:%scvf" (list (cvector-field-get-point cur-field %s) (cvector-field-get-point-bloch cur-field %s)))' % (w, rpt(rng), rpt(rng)))
    return o


def op_energy(rng, sc):
    b = rng.randint(1, sc['bands'])
    w = rng.choice('db' if sc['mu'] or sc['forcemu'] else 'dhb')
    o = ['(get-%sfield %d)' % (w, b), '(obs "Q:energy%s" (compute-field-energy))' % w]
    p = rpt(rng)
    o.append('(obs "Q:ept" (list (get-energy-point %s) (rscalar-field-get-point cur-field %s)))' % (p, p))
    lo = round(1 + rng.random() * 5, 2)
    if rng.random() < .6:
        # bounds no pixel's dielectric constant falls on exactly, in practice
        o.append('(obs "D:edie" (compute-energy-in-dielectric %s %s))' % (f(lo + .00137), f(lo + 4.00219)))
    if rng.random() < .6:
        o.append('(obs "Q:eint" (compute-energy-integral %s))' % rng.choice(INTE))
    if rng.random() < .5:
        o.append('(obs "Q:eobj" (compute-energy-in-object-list %s))' % rng.choice(OBJ))
    return o


def op_eps(rng, sc):
    o = ['(get-epsilon)']
    for _ in range(2):
        p = rpt(rng)
        o.append('(obs "Q:epspt" (list (get-epsilon-point %s) (rscalar-field-get-point cur-field %s)))' % (p, p))
        o.append('(obs "Q:epsinv" (get-epsilon-inverse-tensor-point %s))' % p)
    o.append('(obs "Q:epsi" (integrate-fields (lambda (r e) (* e (+ 1 (vector3-x r) (* .5 (vector3-y r))))) cur-field))')
    return o


def op_mu(rng, sc):
    return ['(get-mu)', '(obs "E:usingmu" (using-mu?))', '(get-epsilon)', '(obs "Q:epst" (rscalar-field-get-point cur-field %s))' % rpt(rng)]


def op_vg(rng, sc):
    b = rng.randint(1, sc['bands'])
    d = v3([round(rng.random() + .1, 2), round(rng.random(), 2), round(rng.random(), 2) if sc['dim'] == 3 else 0])
    t = rng.randint(0, 3)
    return [['(obs "V:vg" (compute-group-velocity-component %s))' % d],
            ['(obs "V:vg1c" (compute-1-group-velocity-component %s %d))' % (d, b)],
            ['(obs "V:vg1" (compute-1-group-velocity %d))' % b],
            ['(obs "V:vg1r" (compute-1-group-velocity-reciprocal %d))' % b, '(obs "V:vgs" (compute-group-velocities))']][t]


def op_parity(rng, sc):
    return ['(obs "Q:zpar" (compute-zparities))', '(obs "Q:ypar" (compute-yparities))']


def op_dompw(rng, sc):
    b = rng.randint(1, sc['bands'])
    return ['(obs "P:dompw" (get-dominant-planewave %d))' % b]


def op_poynting(rng, sc):
    b = rng.randint(1, sc['bands'])
    p = rpt(rng)
    return ['(get-poynting %d)' % b, '(obs "Q:poyn" (list (cvector-field-get-point cur-field %s) (get-field-point %s)))' % (p, p),
            '(obs "Q:poynint" (integrate-fields (lambda (r F) (vector3-dot F (vector3 1 .5 .25))) cur-field))']


def op_totpwr(rng, sc):
    b = rng.randint(1, sc['bands'])
    return ['(get-tot-pwr %d)' % b, '(obs "Q:totp" (list (get-energy-point %s) (compute-energy-integral %s)))' % (rpt(rng), INTE[2])]


def op_charge(rng, sc):
    b = rng.randint(1, sc['bands'])
    p = rpt(rng)
    return ['(get-charge-density %d)' % b, '(obs "Q:charge" (list (get-bloch-cscalar-point %s) (get-cscalar-point %s)))' % (p, p),
            '(obs "Q:chargei" (integrate-fields (lambda (r c) (* c (conj c))) cur-field))']


def op_evdot(rng, sc):
    n = rng.randint(1, sc['bands'])
    b = rng.randint(1, sc['bands'] - n + 1)
    b2 = rng.randint(1, sc['bands'] - n + 1)
    o = ['(define ev (get-eigenvectors %d %d))' % (b, n), '(obs "Q:dot" (matl (dot-eigenvectors ev %d)))' % b2]
    if rng.random() < .5:
        o += ['(define M (dot-eigenvectors ev %d))' % b,
              '(obs "Q:sqm" (matl (sqmatrix-mult M (sqmatrix-diagm (list %s)))))' % ' '.join(f(rng.random()) for _ in range(n))]
    return o


def op_setev(rng, sc):
    n = rng.randint(1, sc['bands'])
    b = rng.randint(1, sc['bands'] - n + 1)
    b2 = rng.randint(1, sc['bands'] - n + 1)
    return ['(define ev0 (get-eigenvectors 1 %d))' % sc['bands'], '(define ev (get-eigenvectors %d %d))' % (b, n),
            '(scale-eigenvector %d %s)' % (b2, '0.6' if sc['inv'] else '0.6+0.8i'), '(set-eigenvectors ev %d)' % b2,
            '(obs "Q:setdot" (matl (dot-eigenvectors ev0 1)))', '(get-%sfield %d)' % (rng.choice('hd'), b2),
            '(obs "Q:setf" (get-bloch-field-point %s))' % rpt(rng), '(set-eigenvectors ev0 1)']


def op_phasecons(rng, sc):
    b = rng.randint(1, sc['bands'])
    return ['(define ev0 (get-eigenvectors 1 %d))' % sc['bands'], '(scale-eigenvector %d %s)' % (b, '-1' if sc['inv'] else '0.6+0.8i'),
            '(obs "Q:phc" (fix-phase-consistency ev0 1))', '(obs "Q:phd" (matl (dot-eigenvectors ev0 1)))', '(set-eigenvectors ev0 1)']


def op_evio(rng, sc):
    n = rng.randint(0, 99)
    return ['(save-eigenvectors "evs%d")' % n, '(define ev0 (input-eigenvectors "evs%d" %d))' % (n, sc['bands']),
            '(obs "Q:evio" (matl (dot-eigenvectors ev0 1)))', '(output-eigenvectors (get-eigenvectors 1 1) "evo%d")' % n,
            '(randomize-fields)', '(load-eigenvectors "evs%d")' % n, '(obs "Q:evio2" (matl (dot-eigenvectors ev0 1)))']


def fresh(f, p):
    """a field just made is zero everywhere"""
    return '(obs "Q:fresh" (list (cvector-field-get-point-bloch %s %s) (integrate-fields (lambda (r F) (+ (magnitude (vector3-x F)) (* 2 (magnitude (vector3-y F))) (* 3 (magnitude (vector3-z F))))) %s)))' % (f, p, f)


def op_map(rng, sc):
    b1, b2 = rng.randint(1, sc['bands']), rng.randint(1, sc['bands'])
    w = rng.choice('dhe')
    p = rpt(rng)
    t = rng.randint(0, 3)
    if t == 0:
        return ['(get-%sfield %d)' % (w, b1), '(define F1 (field-copy cur-field))', '(get-%sfield %d)' % (w, b2),
                '(define F2 (field-make F1))', fresh('F2', p), '(field-map! F2 (lambda (a b) (vector3+ a (vector3-scale 0.5 b))) F1 cur-field)',
                '(obs "Q:map" (list (cvector-field-get-point F2 %s) (cvector-field-get-point-bloch F2 %s)))' % (p, p),
                '(obs "Q:mapi" (integrate-fields (lambda (r a b) (vector3-cdot a b)) F1 F2))',
                '(field-load F2)', '(obs "Q:mapl" (list (get-bloch-field-point %s) (cur-field? cur-field) (fields-conform? F1 F2)))' % p]
    if t == 1:
        return ['(get-%sfield %d)' % (w, b1), '(define R1 (rscalar-field-make cur-field))',
                '(obs "Q:freshr" (list (rscalar-field-get-point R1 %s) (integrate-fields (lambda (r x) (abs x)) R1)))' % p,
                '(field-map! R1 (lambda (a) (re (vector3-cdot a a))) cur-field)',
                '(obs "Q:rmap" (list (rscalar-field-get-point R1 %s) (integrate-fields (lambda (r x) (* x (vector3-x r))) R1)))' % p,
                '(field-load R1)', '(obs "Q:rmapl" (list (get-energy-point %s) (compute-energy-integral %s)))' % (p, INTE[1])]
    if t == 2:
        return ['(get-epsilon)', '(define R1 (field-copy cur-field))', '(get-%sfield %d)' % (w, b1), '(define V1 (cvector-field-make R1))', fresh('V1', p),
                '(field-map! V1 (lambda (e F) (vector3-scale e F)) R1 cur-field)', '(obs "Q:vmap" (cvector-field-get-point-bloch V1 %s))' % p,
                '(cvector-field-nonbloch! V1)', '(obs "Q:vnb" (cvector-field-get-point V1 %s))' % p, '(field-load V1)',
                '(obs "Q:vl" (list (get-field-point %s) (get-bloch-field-point %s)))' % (p, p)]
    return ['(get-dfield %d)' % b1, '(compute-field-energy)', '(define E1 (field-copy cur-field))', '(get-bfield %d)' % b1, '(compute-field-energy)',
            '(field-map! E1 (lambda (a b) (- a b)) E1 cur-field)', '(obs "Q:ediff" (list (integrate-fields (lambda (r a) (* a a)) E1) (rscalar-field-get-point E1 %s)))' % p,
            '(field-set! cur-field E1)', '(obs "Q:eset" (get-energy-point %s))' % p]


def op_phase(rng, sc):
    b = rng.randint(1, sc['bands'])
    w = rng.choice('dheb')
    return ['(define ev0 (get-eigenvectors 1 %d))' % sc['bands'], '(get-%sfield %d)' % (w, b), '(define Fc (field-copy cur-field))', '(cvector-field-nonbloch! Fc)',
            '(obs "C:cond" (list (magnitude (integrate-fields (lambda (r F) (vector3-dot F F)) Fc)) (re (integrate-fields (lambda (r F) (vector3-cdot F F)) Fc)) (list-ref freqs %d)))' % (b - 1),
            '(fix-%sfield-phase %d)' % (w, b), '(obs "S:fixf" (get-bloch-field-point %s))' % rpt(rng),
            '(get-hfield %d)' % b, '(obs "S:fixh" (list (get-bloch-field-point %s) (get-bloch-field-point %s)))' % (rpt(rng), rpt(rng)),
            '(set-eigenvectors ev0 1)']


def op_dpwr(rng, sc):
    b = rng.randint(1, sc['bands'])
    return ['((apply output-dpwr-in-objects (cons (lambda (b) (print "x" b)) (cons 2.0 %s))) %d)' % (rng.choice(OBJ), b)]


def op_cscalar(rng, sc):
    b1, b2 = rng.randint(1, sc['bands']), rng.randint(1, sc['bands'])
    p, q = rpt(rng), rpt(rng)
    o = ['(get-charge-density %d)' % b1, '(define C1 (field-copy cur-field))', '(define C2 (field-make C1))',
         '(obs "Q:freshc" (list (cscalar-field-get-point C2 %s) (integrate-fields (lambda (r c) (magnitude c)) C2)))' % p,
         '(get-charge-density %d)' % b2, '(field-map! C2 (lambda (a b) (- a (* 0.5 b))) C1 cur-field)',
         '(obs "Q:cmap" (list (cscalar-field-get-point C1 %s) (cscalar-field-get-point C2 %s) (integrate-fields (lambda (r a b) (* a (conj b) (+ 1 (* .3 (vector3-x r))))) C1 C2)))' % (p, q)]
    t = rng.randint(0, 2)
    if t == 0:
        o += ['(field-load C2)', '(obs "Q:cload" (list (get-cscalar-point %s) (get-bloch-cscalar-point %s) (cur-field? cur-field) (fields-conform? C1 cur-field)))' % (p, q)]
    elif t == 1:
        o += ['(field-set! C1 C2)', '(field-set! cur-field C1)', '(obs "Q:cset" (list (cscalar-field-get-point C1 %s) (get-cscalar-point %s)))' % (q, p)]
    else:
        o += ['(define CR (rscalar-field-make C2))', '(field-map! CR (lambda (c) (re (* c (conj c)))) C2)', '(field-map! C1 (lambda (c x) (* c x)) C1 CR)',
              '(obs "Q:cmix" (list (rscalar-field-get-point CR %s) (cscalar-field-get-point C1 %s) (integrate-fields (lambda (r a x) (+ (re a) (* 2 (im a)) x)) C1 CR)))' % (p, q)]
    return o


def op_matrix(rng, sc):
    n = rng.randint(1, sc['bands'])
    b = rng.randint(1, sc['bands'] - n + 1)
    b2 = rng.randint(1, sc['bands'] - n + 1)
    i, j = rng.randrange(n), rng.randrange(n)
    d = ' '.join(f(.2 + rng.random()) for _ in range(n))
    ev = '(define el (sqmatrix-eigvals M))'
    sums = '(obs "Q:eigs" (list (apply + el) (apply + (map (lambda (x) (* x x)) el)) (apply + (map (lambda (x) (* x x x)) el))))'
    return ['(define ev (get-eigenvectors %d %d))' % (b, n), '(define M (sqmatrix-mult (sqmatrix-diagm (list %s)) (dot-eigenvectors ev %d)))' % (d, b2),
            '(sqmatrix-set M %d %d %s)' % (i, j, f(rng.random() - .5) if sc['inv'] else '%s%si' % (f(rng.random()), '+0.25')), '(obs "Q:mset" (matl M))',
            '(obs "E:size" (sqmatrix-size M))', ev, sums, '(obs "Q:mafter" (matl M))', '(obs "E:pred" (list (sqmatrix? M) (sqmatrix? ev) (evectmatrix? ev) (evectmatrix? M) (sqmatrix? 1)))']


def op_env(rng, sc):
    b = rng.randint(1, sc['bands'])
    o = ['(obs "E:mpi" (list (= (+ 1 (mpi-max (mpi-proc-index))) (mpi-num-procs)) (= 0 (mpi-max (- (mpi-proc-index)))) (has-hermitian-eps?) (get-kpoint-index) (mpi-max 2.5)))',
         '(get-%s)' % rng.choice(['hfield %d' % b, 'charge-density %d' % b, 'tot-pwr %d' % b, 'epsilon']),
         '(define FC (field-copy cur-field))', '(obs "E:fpred" (map (lambda (x) (list (field? x) (rscalar-field? x) (cscalar-field? x) (cvector-field? x) (cur-field? x))) (list cur-field FC 2 "x")))']
    if rng.random() < .6:
        o += ['(get-%sfield %d)' % (rng.choice('bd'), b), '(obs "Q:envE" (compute-field-energy))',
              '(obs "Q:eobjs" (compute-energy-in-objects %s))' % rng.choice(OBJ).replace('(list ', '', 1)[:-1]]
    return o


OPS = {'field': (op_field, 3), 'energy': (op_energy, 3), 'eps': (op_eps, 1.5), 'mu': (op_mu, .7), 'vg': (op_vg, 2), 'parity': (op_parity, 1),
       'dompw': (op_dompw, .7), 'poynting': (op_poynting, .7), 'totpwr': (op_totpwr, .7), 'charge': (op_charge, 1), 'evdot': (op_evdot, 1),
       'setev': (op_setev, .7), 'phasecons': (op_phasecons, .5), 'evio': (op_evio, .6), 'map': (op_map, 1.5), 'phase': (op_phase, .8), 'dpwr': (op_dpwr, .4),
       'cscalar': (op_cscalar, .9), 'matrix': (op_matrix, .7), 'env': (op_env, .5)}


def ops(rng, sc, n, only=None, without=()):
    names = [k for k in OPS if (not only or k in only) and k not in without]
    w = {k: OPS[k][1] for k in names}
    out = []
    for _ in range(n):
        k = choice(rng, **w)
        out.append([k, OPS[k][0](rng, sc)])
    return out


def ops_scm(l):
    return '\n'.join('(sim-log "op %s")\n%s' % (k, '\n'.join(x)) for k, x in l) + '\n'


OUT_FIELD = ['hfield', 'hfield-x', 'hfield-y', 'hfield-z', 'bfield', 'bfield-z', 'dfield', 'dfield-x', 'dfield-y', 'dfield-z', 'efield', 'efield-x', 'efield-y',
             'efield-z', 'bpwr', 'hpwr', 'dpwr', 'charge-density', 'poynting', 'poynting-x', 'poynting-z', 'tot-pwr']


def out_ops(rng, sc, n):
    o = []
    for _ in range(n):
        b = rng.randint(1, sc['bands'])
        t = rng.random()
        if t < .15:
            o.append(['outeps', ['(output-epsilon)']])
        elif t < .22:
            o.append(['outmu', ['(output-mu)']])
        elif t < .3:
            o.append(['outev', ['(save-eigenvectors "sev%d")' % rng.randint(0, 9)]])
        elif t < .36:
            o.append(['outev2', ['(output-eigenvectors (get-eigenvectors %d 1) "oev%d")' % (b, b)]])
        elif t < .42:
            o.append(['outmap', ['(get-dfield %d)' % b, '(define F1 (field-copy cur-field))', '(get-hfield %d)' % b,
                                 '(field-map! cur-field (lambda (a b) (vector3+ a b)) F1 cur-field)', '(output-field-to-file %d "m%d-")' % (rng.choice([-1, 0, 1, 2]), b)]])
        else:
            k = rng.choice(OUT_FIELD)
            o.append(['out', ['(output-%s %d)' % (k, b)]])
    return o
