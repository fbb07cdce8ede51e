"""Boring reference models, written from the documented definitions (no FFT, no vectorised tricks)."""
import itertools
import math

import numpy as np


def subsets(items, minlen=1):
    items = list(items)
    for n in range(minlen, len(items) + 1):
        for c in itertools.combinations(items, n):
            yield list(c)


def comps(h):
    """Harmonic components in the documented order: [0], then cos, sin for each harmonic."""
    out = []
    for k in h:
        k = int(k)
        if k == 0:
            out.append((0, 'c'))
        else:
            out.append((k, 'c'))
            out.append((k, 's'))
    return out


def nhc(h):
    return len(comps(h))


def basis_value(k, kind, tau, order=0):
    """order-th derivative w.r.t. theta=2*pi*tau of cos(k theta) / sin(k theta)."""
    a = 2.0 * math.pi * ((k * tau) % 1.0)
    ph = a + order * math.pi / 2.0
    if k == 0:
        return 1.0 if order == 0 else 0.0
    r = order % 4
    c, s = math.cos(a), math.sin(a)
    if kind == 'c':
        v = (c, -s, -c, s)[r]
    else:
        v = (s, c, -s, -c)[r]
    return (float(k) ** order) * v


_basis_cache = {}


def basis_matrix(Nt, h, order=0):
    key = (Nt, tuple(int(k) for k in h), order)
    if key not in _basis_cache:
        B = np.array([[basis_value(k, kind, n / Nt, order) for (k, kind) in comps(h)] for n in range(Nt)])
        _basis_cache[key] = B.reshape(Nt, -1)
    return _basis_cache[key]


def time_series(Nt, h, X, order=0):
    """X (Nhc, nd) -> (Nt, nd); derivative with respect to the angle theta (frequency 1)."""
    return basis_matrix(Nt, h, order) @ np.asarray(X, float)


def fourier(h, x):
    """(Nt, nd) -> (Nhc, nd), trapezoid (= exact below Nyquist) projection."""
    x = np.asarray(x, float)
    Nt = x.shape[0]
    B = basis_matrix(Nt, h, 0)
    W = B.T @ x * (2.0 / Nt)
    for i, (k, kind) in enumerate(comps(h)):
        if k == 0:
            W[i] *= 0.5
    return W


def fd_grad(f, x, eps=1e-6):
    """Central difference Jacobian (only where an analytic oracle does not exist)."""
    x = np.asarray(x, float)
    cols = []
    for i in range(x.size):
        d = np.zeros_like(x)
        d[i] = eps
        cols.append((np.asarray(f(x + d), float) - np.asarray(f(x - d), float)) / (2 * eps))
    return np.array(cols).T


def harmonic_E(M, C, K, w, h):
    """Dynamic stiffness from the time domain: M x'' + C x' + K x for each unit coefficient."""
    M, C, K = (np.asarray(a, float) for a in (M, C, K))
    nd = C.shape[0]
    hmax = max(int(k) for k in h)
    Nt = 2 * hmax + 4
    n = nhc(h) * nd
    E = np.zeros((n, n))
    for i in range(n):
        X = np.zeros(n)
        X[i] = 1.0
        Xm = X.reshape(nhc(h), nd)
        f = (w ** 2 * time_series(Nt, h, Xm, 2) @ M.T + w * time_series(Nt, h, Xm, 1) @ C.T
             + time_series(Nt, h, Xm, 0) @ K.T)
        E[:, i] = fourier(h, f).reshape(-1)
    return E


def lattice_vec(n, seed=0):
    """Deterministic 'generic' vector with no structure (irrational rotation), entries in (-1,1)\\{0}."""
    g = (math.sqrt(5) - 1) / 2
    v = np.array([((seed * 7 + 3 + 2 * i) * g) % 1.0 for i in range(n)])
    return 2 * v - 1 + 0.003


def lattice_mat(n, m=None, seed=0):
    m = n if m is None else m
    return lattice_vec(n * m, seed).reshape(n, m)


# --------------------------------------------------------------------------- sliders
class Slider:
    """Spring (kt) in series with a Coulomb slider (limit fs): force after moving to u."""

    def __init__(self, kt, fs, u0=0.0, f0=0.0):
        self.kt, self.fs, self.u, self.f = float(kt), float(fs), float(u0), float(f0)

    def peek(self, u):
        """(force, set of admissible tangents, distance to the stick/slip switch)"""
        p = self.kt * (u - self.u) + self.f
        if p > self.fs:
            f, t = self.fs, {0.0}
        elif p < -self.fs:
            f, t = -self.fs, {0.0}
        else:
            f, t = p, {self.kt}
        if abs(abs(p) - self.fs) <= 1e-9 * max(1.0, self.fs, abs(p)):
            t = {0.0, self.kt}
        return f, t, abs(abs(p) - self.fs)

    def move(self, u):
        f = self.peek(u)[0]
        self.u, self.f = float(u), f
        return f


def iwan_params(kt, Fs, chi, beta, N, alpha=1.0):
    """Segalman (2005) four-parameter Iwan: slip displacements and weights, documented midpoint discretisation."""
    phimax = Fs * (1 + beta) / (kt * (beta + (chi + 1) / (chi + 2)))
    R = Fs * (chi + 1) / (phimax ** (chi + 2) * (beta + (chi + 1) / (chi + 2)))
    S = Fs * beta / (phimax * (beta + (chi + 1) / (chi + 2)))
    if alpha > 1:
        d0 = phimax * (alpha - 1) / (alpha ** N - 1)
    else:
        d0 = phimax / N
    phi, wts, left = [], [], 0.0
    for m in range(N):
        d = d0 * alpha ** m
        mid = left + 0.5 * d
        phi.append(mid)
        wts.append(R * mid ** chi * d)
        left += d
    phi.append(phimax)
    wts.append(S)
    return np.array(phi), np.array(wts), phimax


def steady_slider(u, kts, fss, u0, B=None, dB0=None, maxcycles=60):
    """
    Periodic steady-state of parallel sliders driven through the series u (Nt,), every slider starting at (u0, 0).
    Returns force series, gradient series (Nt, Nhc) w.r.t. the coefficients behind u (B = du/dX, dB0 = du0/dX),
    and the smallest distance of any slider from the stick/slip switch in the last cycle.
    """
    u = np.asarray(u, float)
    kts, fss = np.atleast_1d(kts).astype(float), np.atleast_1d(fss).astype(float)
    n = kts.size
    up, fp = float(u0), np.zeros(n)
    if B is not None:
        dup, dfp = np.array(dB0, float), np.zeros((n, B.shape[1]))
    else:
        dup = dfp = None
    prev = None
    for cyc in range(maxcycles):
        F = np.zeros(len(u))
        G = None if B is None else np.zeros((len(u), B.shape[1]))
        near = np.inf
        for i, ui in enumerate(u):
            p = kts * (ui - up) + fp
            near = min(near, np.min(np.abs(np.abs(p) - fss)))
            f = np.minimum(np.maximum(p, -fss), fss)
            if B is not None:
                stuck = (np.abs(p) <= fss)
                dfp = np.where(stuck[:, None], kts[:, None] * (B[i] - dup)[None, :] + dfp, 0.0)
                dup = B[i]
                G[i] = dfp.sum(axis=0)
            up, fp = float(ui), f
            F[i] = f.sum()
        if prev is not None and np.array_equal(prev, F):
            break
        if prev is not None and np.max(np.abs(prev - F)) <= 1e-13 * max(1.0, np.max(np.abs(F))) and cyc >= 3:
            break
        prev = F
    return F, G, near, fp
