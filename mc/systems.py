"""Systems with generic matrices and mixtures of elements, and their reference residuals."""
import numpy as np
import ref
import elems
from seqs import A
from tmdsimpy import VibrationSystem
from tmdsimpy.nlforces import JenkinsForce, VectorJenkins, Iwan4Force, VectorIwan4

HYST = {'jenkins': (JenkinsForce, (1.4, 0.45)), 'vjenkins': (VectorJenkins, (0.9, 0.3)),
        'iwan': (Iwan4Force, (1.1, 0.4, -0.5, 0.2, 5)), 'viwan': (VectorIwan4, (0.8, 0.6, 0.1, 0.0, 4))}


class Hyst:
    """hysteretic single-slider-network element with reference"""

    def __init__(self, name, nd, seed=0):
        cls, par = HYST[name]
        self.name = name
        self.Q, self.T = elems.mats(1, nd, 37 + seed + sorted(HYST).index(name))
        if len(par) == 2:
            self.obj = cls(A(self.Q, own=False), A(self.T, own=False), *par)
            self.kts, self.fss = np.array([par[0]]), np.array([par[1]])
        else:
            kt, Fs, chi, beta, N = par
            self.obj = cls(A(self.Q, own=False), A(self.T, own=False), kt, Fs, chi, beta, Nsliders=N)
            phi, w, _ = ref.iwan_params(kt, Fs, chi, beta, N)
            self.kts, self.fss = w, w * phi
        self.sl = [ref.Slider(k, f) for k, f in zip(self.kts, self.fss)]

    # static state machine
    def reset(self):
        self.sl = [ref.Slider(k, f) for k, f in zip(self.kts, self.fss)]

    def static(self, X, commit=False):
        u = float(self.Q[0] @ X)
        pk = [s.peek(u) for s in self.sl]
        f, near = sum(p[0] for p in pk), min(p[2] for p in pk)
        k = sum(min(p[1]) if len(p[1]) == 1 else 0.0 for p in pk)
        if commit:
            for s in self.sl:
                s.move(u)
        return self.T[:, 0] * f, self.T @ self.Q * k, near

    def aft_ref(self, U, w, h, Nt):
        n = ref.nhc(h)
        c = np.asarray(U).reshape(n, -1) @ self.Q[0]
        u = ref.time_series(Nt, h, c[:, None])[:, 0]
        B = ref.basis_matrix(Nt, h)
        u0, d0 = (c[0], np.eye(n)[0]) if h[0] == 0 else (0.0, np.zeros(n))
        F, G, near, _ = ref.steady_slider(u, self.kts, self.fss, u0, B, d0)
        Fh, Gh = ref.fourier(h, F[:, None])[:, 0], ref.fourier(h, G)
        return (Fh[:, None] * self.T[:, 0][None, :]).ravel(), np.kron(Gh, self.T @ self.Q), np.zeros(len(U)), near * 10


def make_elem(name, nd, seed=0):
    return Hyst(name, nd, seed) if name in HYST else elems.make(name, nd, seed)


def matrices(nd, seed=0, sym=False):
    A = ref.lattice_mat(nd, nd, 3 + seed)
    M = np.eye(nd) * 1.3 + 0.2 * A @ A.T
    C = 0.1 * np.eye(nd) + 0.15 * ref.lattice_mat(nd, nd, 5 + seed)
    K = 2.0 * np.eye(nd) + 0.6 * ref.lattice_mat(nd, nd, 9 + seed)
    if sym:
        C, K = 0.5 * (C + C.T), 0.5 * (K + K.T)
    return M, C, K


class Sys:
    def __init__(self, nd, names, seed=0, mats=None, sym=False):
        self.nd = nd
        self.M, self.C, self.K = mats if mats is not None else matrices(nd, seed, sym)
        self.els = [make_elem(n, nd, seed + 2 * i) for i, n in enumerate(names)]
        self.vib = VibrationSystem(A(self.M, ro=False, own=False), A(self.K, ro=False, own=False), C=A(self.C, ro=False, own=False))
        for e in self.els:
            self.vib.add_nl_force(e.obj)

    def nl(self, U, w, h, Nt):
        n = len(U)
        F, J, Fw, near = np.zeros(n), np.zeros((n, n)), np.zeros(n), np.inf
        for e in self.els:
            f, j, fw, d = e.aft_ref(U, w, h, Nt) if isinstance(e, Hyst) else elems.aft_ref(e, U, w, h, Nt)
            F, J, Fw, near = F + f, J + j, Fw + fw, min(near, d)
        return F, J, Fw, near

    def E(self, w, h, C=None):
        """dynamic stiffness and its frequency derivative; E is exactly quadratic in w"""
        C = self.C if C is None else C
        E0, E1, E2 = (ref.harmonic_E(self.M, C, self.K, x, h) for x in (0.0, 1.0, -1.0))
        a, b = 0.5 * (E1 + E2) - E0, 0.5 * (E1 - E2)
        return E0 + b * w + a * w * w, b + 2 * a * w

    def hbm(self, U, w, Fl, h, Nt):
        E, Ew = self.E(w, h)
        F, J, Fw, near = self.nl(U, w, h, Nt)
        return E @ U + F - Fl, E + J, Ew @ U + Fw, near


def cmp_res(rec, r, want, key, where, near=np.inf, rtol=1e-8, atol=1e-9):
    names = ('residual', 'Jacobian', 'parameter derivative')
    for i, (g, x) in enumerate(zip(r, want)):
        if i and near < 1e-7:
            break
        rec.close(g, x, '%s/%s' % (key, names[i]), where, rtol=rtol, atol=atol)
    rec.step()
