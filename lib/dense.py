"""A small executable reference model of the plane-wave Maxwell eigenproblem:
dense matrices over all transverse plane waves of the grid, diagonalised by
LAPACK.  It shares no code with MPB; its input is the inverse dielectric (and
permeability) tensor on the grid, as MPB wrote it."""
import numpy as np, scipy.linalg as sl

SIGN = -1


def tensor(d, name, shape):
    t = np.zeros(shape + (3, 3), complex)
    ax = 'xyz'
    for i in range(3):
        for j in range(i, 3):
            k = '%s.%s%s' % (name, ax[i], ax[j])
            v = np.array(d[k], float).reshape(shape).astype(complex)
            if k + '.i' in d:
                v = v + 1j * np.array(d[k + '.i'], float).reshape(shape)
            t[..., i, j] = v
            if i != j:
                t[..., j, i] = v.conj()
    return t


def recip(R):
    """rows of R are lattice vectors; returns rows of reciprocal vectors / 2pi"""
    return np.linalg.inv(R).T


def basis(n, R, k):
    """for every grid frequency, k+G and its two transverse unit vectors"""
    G = recip(R)
    ks = []
    for x in range(n[0]):
        kx = x - n[0] if x >= max(1, n[0] // 2) else x
        for y in range(n[1]):
            ky = y - n[1] if y >= max(1, n[1] // 2) else y
            for z in range(n[2]):
                kz = z - n[2] if z >= max(1, n[2] // 2) else z
                ks.append(np.dot(k, G) - (kx * G[0] + ky * G[1] + kz * G[2]))
    K = np.array(ks)
    m, nn = np.zeros_like(K), np.zeros_like(K)
    for i, q in enumerate(K):
        if not q.any():
            nn[i], m[i] = (0, 1, 0), (0, 0, 1)
            continue
        a = np.cross((0, 0, 1), q) if (q[0] or q[1]) else np.array((0, 1., 0))
        nn[i] = a / np.linalg.norm(a)
        b = np.cross(nn[i], q)
        m[i] = b / np.linalg.norm(b)
    return K, m, nn


def operator(n, T):
    """matrix of multiplication by the tensor field T between grid frequencies"""
    N = n[0] * n[1] * n[2]
    j = np.stack(np.meshgrid(*[np.arange(q) for q in n], indexing='ij'), -1).reshape(-1, 3) / np.array(n)
    m = np.stack(np.meshgrid(*[np.arange(q) for q in n], indexing='ij'), -1).reshape(-1, 3)
    F = np.exp(SIGN * 2j * np.pi * j @ m.T) / np.sqrt(N)      # r x freq
    M = np.zeros((N, 3, N, 3), complex)
    T = T.reshape(N, 3, 3)
    for a in range(3):
        for b in range(3):
            if T[:, a, b].any():
                M[:, a, :, b] = F.conj().T @ (T[:, a, b][:, None] * F)
    return M.reshape(3 * N, 3 * N)


def problem(n, R, k, einv, minv=None):
    K, m, nn = basis(n, R, k)
    N = len(K)
    B = np.zeros((3 * N, 2 * N))
    for i in range(N):
        B[3 * i:3 * i + 3, 2 * i] = m[i]
        B[3 * i:3 * i + 3, 2 * i + 1] = nn[i]
    C = np.zeros((3 * N, 3 * N))
    for i, q in enumerate(K):
        C[3 * i:3 * i + 3, 3 * i:3 * i + 3] = [[0, -q[2], q[1]], [q[2], 0, -q[0]], [-q[1], q[0], 0]]
    E = operator(n, einv)
    A = C.T @ E @ C
    if minv is None:
        return B.T @ A @ B, None
    # MPB projects H = mu^-1 B onto the transverse basis before applying the curls
    U = B.T @ operator(n, minv) @ B
    A = B.T @ A @ B
    return U @ A @ U, U


def parity_basis(n, which, sign):
    """orthonormal basis of the subspace the parity constraint keeps, in (m, n) coordinates"""
    nx, ny, nz = n
    N = nx * ny * nz
    idx = np.arange(N).reshape(n)
    part = np.zeros(N, int)
    for x in range(nx):
        for y in range(ny):
            for z in range(nz):
                part[idx[x, y, z]] = idx[x, y, (nz - z) % nz] if which == 'z' else idx[x, (ny - y) % ny, z]
    P = np.zeros((2 * N, 2 * N))
    sm, sn = (1, -1) if which == 'z' else (-1, 1)
    for i in range(N):
        P[2 * i, 2 * part[i]] = sm * sign
        P[2 * i + 1, 2 * part[i] + 1] = sn * sign
    return P


def solve(n, R, k, einv, minv=None, parity=0):
    """(all frequencies ascending, does the parity constraint commute with the operator)

    On a finite grid the mirror image of a Nyquist component is not on the grid,
    so the constraint may commute only approximately; MPB's iteration is then
    not well defined to full accuracy either."""
    A, U = problem(n, R, k, einv, minv)
    projs = []
    if parity & 3:
        projs.append(parity_basis(n, 'z', +1 if parity & 1 else -1))
    if parity & 12:
        projs.append(parity_basis(n, 'y', +1 if parity & 4 else -1))
    clean = True
    if projs:
        sc = np.abs(A).max()
        I = np.eye(len(A))
        M = I
        for P in projs:
            clean = clean and np.abs(A @ P - P @ A).max() < 1e-9 * sc
            if U is not None:
                clean = clean and np.abs(U @ P - P @ U).max() < 1e-9 * np.abs(U).max()
            M = M @ (I + P) / 2
        w, v = np.linalg.eigh((M + M.T) / 2)
        Q = v[:, w > .5]
        A = Q.T @ A @ Q
        if U is not None:
            U = Q.T @ U @ Q
    A = (A + A.conj().T) / 2
    if U is None:
        w = sl.eigvalsh(A)
    else:
        w = sl.eigvalsh(A, (U + U.conj().T) / 2)
    return np.sign(w) * np.sqrt(np.abs(w)), clean
