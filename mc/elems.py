"""Memoryless elements with their documented laws, written independently of the implementation."""
import numpy as np
import ref
from seqs import A
from tmdsimpy import nlforces as nl


class Elem:
    """obj: element under test.  law(u, v) -> (f, df/du, df/dv, distance to a kink) for local vectors u, v (scalars loops)."""

    def __init__(self, name, obj, law, Q, T, velocity=False):
        self.name, self.obj, self.law, self.Q, self.T, self.velocity = name, obj, law, Q, T, velocity

    def glob(self, X, V):
        """global force, tangents w.r.t. X and V, kink distance"""
        f, a, b, d = self.law(self.Q @ X, self.Q @ V)
        return self.T @ f, self.T @ a @ self.Q, self.T @ b @ self.Q, d


def scalar_law(fun):
    """fun(i, u, v) -> (f, fu, fv, dist) for local DOF i"""
    def law(u, v):
        n = len(u)
        f, a, b, d = np.zeros(n), np.zeros((n, n)), np.zeros((n, n)), np.inf
        for i in range(n):
            f[i], a[i, i], b[i, i], di = fun(i, float(u[i]), float(v[i]))
            d = min(d, di)
        return f, a, b, d
    return law


def at(p, i):
    return float(np.atleast_1d(p)[i if np.size(p) > 1 else 0])


def cubic(Q, T, k, cls=None):
    return (cls or nl.CubicForce)(Q, T, k), scalar_law(lambda i, u, v: (at(k, i) * u * u * u, 3 * at(k, i) * u * u, 0.0, np.inf)), False


def quintic(Q, T, k):
    return nl.QuinticForce(Q, T, k), scalar_law(lambda i, u, v: (at(k, i) * u * u * u * u * u, 5 * at(k, i) * u * u * u * u, 0.0, np.inf)), False


def cubdamp(Q, T, c):
    return nl.CubicDamping(Q, T, c), scalar_law(lambda i, u, v: (at(c, i) * v * v * v, 0.0, 3 * at(c, i) * v * v, np.inf)), True


def unilat(Q, T, k, N=None, d=None):
    kw = {}
    if N is not None:
        kw['Npreload'] = N
    if d is not None:
        kw['delta'] = d
    N0, d0 = (0.0 if N is None else N), (0.0 if d is None else d)

    def one(i, u, v):
        g = u - at(d0, i)
        if g > 0:
            return at(k, i) * g - at(N0, i), at(k, i), 0.0, abs(g)
        return -at(N0, i), 0.0, 0.0, abs(g)
    return nl.UnilateralSpring(Q, T, k, **kw), scalar_law(one), False


def poly(Q, T, E, qq):
    E, qq = np.asarray(E, float), np.asarray(qq)

    def law(u, v):
        n, c = E.shape
        f, a = np.zeros(n), np.zeros((n, n))
        for t in range(c):
            mono = 1.0
            for j in range(n):
                mono *= float(u[j]) ** int(qq[t, j])
            for i in range(n):
                f[i] += E[i, t] * mono
            for j in range(n):
                if qq[t, j] == 0:
                    continue
                dm = float(qq[t, j]) * float(u[j]) ** (int(qq[t, j]) - 1)
                for l in range(n):
                    if l != j:
                        dm *= float(u[l]) ** int(qq[t, l])
                for i in range(n):
                    a[i, j] += E[i, t] * dm
        return f, a, np.zeros((n, n)), np.inf
    return nl.GenPolyForce(Q, T, E.copy(), qq.copy()), law, False


def iwanbb(Q, T, kt, Fs, chi, beta):
    def one(i, u, v):
        d = beta + (chi + 1) / (chi + 2)
        pm = Fs * (1 + beta) / (kt * d)
        R = Fs * (chi + 1) / (pm ** (chi + 2) * d)
        S = Fs * beta / (pm * d)
        a, s = abs(u), np.sign(u)
        near = min(abs(a - pm), a + 0.01 if chi < 0 else np.inf)
        if a >= pm:
            return s * Fs, 0.0, 0.0, near
        st = R * (pm ** (chi + 1) - a ** (chi + 1)) / (chi + 1) + S
        return s * (R * a ** (chi + 2) / (chi + 2) + a * st), st, 0.0, near
    return nl.ConservativeIwanBB(Q, T, kt, Fs, chi, beta), scalar_law(one), False


def mats(nnl, nd, seed):
    """generic Q (nnl, nd) and T (nd, nnl), T not the transpose of Q"""
    return np.round(ref.lattice_mat(nnl, nd, 11 + seed), 3) + 0.0, np.round(ref.lattice_mat(nd, nnl, 23 + seed), 3) + 0.0


SPECS = [
    ('cubic1', 1, lambda Q, T: cubic(Q, T, np.array([1.7]))),
    ('cubic2', 2, lambda Q, T: cubic(Q, T, np.array([1.7, -0.6]))),
    ('cubicf', 2, lambda Q, T: cubic(Q, T, 0.8)),
    ('quintic1', 1, lambda Q, T: quintic(Q, T, np.array([0.9]))),
    ('quintic2', 2, lambda Q, T: quintic(Q, T, np.array([0.9, -1.3]))),
    ('cubdamp1', 1, lambda Q, T: cubdamp(Q, T, np.array([0.31]))),
    ('cubdamp2', 2, lambda Q, T: cubdamp(Q, T, np.array([0.31, 0.07]))),
    ('unilat', 1, lambda Q, T: unilat(Q, T, 1.3)),
    ('unilat+', 1, lambda Q, T: unilat(Q, T, 1.3, 0.4, 0.25)),
    ('unilat-', 1, lambda Q, T: unilat(Q, T, 2.1, -0.3, -0.25)),
    ('unilat2', 2, lambda Q, T: unilat(Q, T, np.array([1.3, 0.7]), np.array([0.5, 0.0]), np.array([0.0, -0.5]))),
    ('unilatf', 2, lambda Q, T: unilat(Q, T, 1.1, 0.2, 0.1)),
    ('poly1', 1, lambda Q, T: poly(Q, T, [[0.7, -0.4]], [[2], [3]])),
    ('poly2', 2, lambda Q, T: poly(Q, T, [[0.7, -0.4, 0.2, 1.1, 0.6], [0.3, 0.9, -0.8, 0.05, -0.2]], [[2, 1], [0, 3], [1, 0], [1, 2], [0, 0]])),
    ('poly2f', 2, lambda Q, T: poly(Q, T, [[0.7, -0.4], [0.3, 0.9]], np.array([[1.0, 1.0], [4.0, 0.0]]))),
    ('iwanbb', 1, lambda Q, T: iwanbb(Q, T, 1.2, 0.5, -0.5, 0.3)),
    ('iwanbb0', 1, lambda Q, T: iwanbb(Q, T, 0.8, 0.3, 0.25, 0.0)),
]
NAMES = [s[0] for s in SPECS]


def make(name, nd, seed=0, Q=None, T=None):
    for n, nnl, fac in SPECS:
        if n == name:
            q, t = mats(nnl, nd, seed + NAMES.index(name))
            Q = q if Q is None else Q
            T = t if T is None else T
            obj, law, vel = fac(A(Q, own=False), A(T, own=False))
            return Elem(name, obj, law, Q, T, vel)
    raise KeyError(name)


def aft_ref(el, Ug, w, h, Nt):
    """Projection of the law along the motion: (F, dF/dU, dF/dw, kink distance); U in the documented ordering."""
    nd = el.Q.shape[1]
    X = np.asarray(Ug, float).reshape(ref.nhc(h), nd)
    x, v1 = ref.time_series(Nt, h, X, 0), ref.time_series(Nt, h, X, 1)
    B, B1 = ref.basis_matrix(Nt, h, 0), ref.basis_matrix(Nt, h, 1)
    n = X.size
    f, dX, dw, near = np.zeros((Nt, nd)), np.zeros((Nt, nd, n)), np.zeros((Nt, nd)), np.inf
    for i in range(Nt):
        F, a, b, d = el.glob(x[i], w * v1[i])
        near = min(near, d)
        f[i] = F
        dX[i] = np.kron(B[i], a).reshape(nd, n) + np.kron(w * B1[i], b).reshape(nd, n)
        dw[i] = b @ v1[i]
    Fh = ref.fourier(h, f).ravel()
    J = ref.fourier(h, dX.reshape(Nt, nd * n)).reshape(n, n)
    return Fh, J, ref.fourier(h, dw).ravel(), near
