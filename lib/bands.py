"""Band calculations checked against the dense reference model."""
import os, re
import numpy as np
import gen as G, h5, dense

SOLVE_FAIL = ('failure to converge', 'singular', 'non-independent', 'not enough workspace', 'inexplicable', 'too many emergency')


def parities(rng, sc, p=.5):
    par = []
    z = sc['zmirror'] and not any(k[2] for k in sc['kp'])      # MPB refuses a parity the k-point does not have
    y = sc['ymirror'] and not any(k[1] for k in sc['kp'])
    if z:
        par += [1, 2]
    if y:
        par += [4, 8] + ([5, 6, 9, 10] if z else [])
    return rng.choice(par) if par and rng.random() < p else 0


def effective_parity(p, k):
    if k[2]:
        p &= ~3
    if k[1]:
        p &= ~12
    return p


def solver_settings(rng, sc):
    """random eigensolver configuration; nothing in it may change the answer"""
    fl = []
    if rng.random() < .5:
        for name, pr in (('EIGS_RESET_CG', .6), ('EIGS_REORTHOGONALIZE', .7), ('EIGS_PROJECT_PRECONDITIONING', .3), ('EIGS_FORCE_EXACT_LINMIN', .3), ('EIGS_VERBOSE', .2),
                         ('EIGS_ORTHOGONAL_PRECONDITIONER', .2), ('EIGS_ORTHONORMALIZE_FIRST_STEP', .4), ('EIGS_DYNAMIC_RESET_CG', .3)):
            # that projection is not B-orthogonal: it is only meant for the problem without a permeability
            if rng.random() < pr and not (name == 'EIGS_PROJECT_PRECONDITIONING' and (sc['mu'] or sc['forcemu'])):
                fl.append(name)
        if not fl:
            fl = ['EIGS_RESET_CG']
    sc['flags'] = fl
    return sc


def settings_scm(sc):
    return '(set! eigensolver-flags (+ %s))\n' % ' '.join(sc['flags']) if sc.get('flags') else ''


def structure(cwd, sc, mpi=False, eps='job-epsilon.h5', mu='job-mu.h5', inv=False):
    """inverse tensors the job wrote, in serial orientation; None when the model does not apply"""
    d = h5.read(os.path.join(cwd, eps))
    if d is None:
        return None
    d = d['data']
    n = tuple(sc['grid'])
    sh = (n[1], n[0], n[2]) if mpi else n
    if d['data'].size != n[0] * n[1] * n[2]:
        return None
    e = dense.tensor(d, 'epsilon_inverse', sh)
    R = np.array(d['lattice vectors'])
    if mpi:
        e = e.transpose(1, 0, 2, 3, 4)
        R = R[[1, 0, 2]]
    m = None
    if os.path.exists(os.path.join(cwd, mu)):
        x = np.array(h5.read(os.path.join(cwd, mu))['data']['data']).reshape(sh)
        if mpi:
            x = x.transpose(1, 0, 2)
        m = (1 / x)[..., None, None] * np.eye(3)
    if inv:
        f = e[np.ix_(*[(-np.arange(q)) % q for q in n])]
        if np.abs(f - e).max() > 1e-9:
            return None
    return n, R, e, m


def reference(st, k, parity, nb, target=0.0):
    """the nb frequencies MPB should report, and the whole spectrum; None when the parity is not a symmetry of the discretised problem"""
    n, R, e, m = st
    w, clean = dense.solve(n, R, np.array(k, float), e, m, parity)
    if not clean:
        return None
    w = np.sort(w)
    if target:
        i = np.argsort(np.abs(w * np.abs(w) - target ** 2))[:nb]
        return np.sort(w[i]), w
    return w[:nb], w
