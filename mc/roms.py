"""Complex-arithmetic models of the reduced order models (own derivation from the modal equation of motion)."""
import numpy as np


def nhc(h):
    return int(sum(1 if k == 0 else 2 for k in h))


def to_complex(row, h, nd):
    """row of harmonic coefficients -> {harmonic: complex vector z}, motion = Re(z exp(i h W t))"""
    out, i = {}, 0
    for k in h:
        if k == 0:
            out[0] = row[i:i + nd] + 0j
            i += nd
        else:
            out[int(k)] = row[i:i + nd] - 1j * row[i + nd:i + 2 * nd]
            i += 2 * nd
    return out


def to_real(z, h, nd):
    return np.concatenate([z[0].real if k == 0 else np.r_[z[int(k)].real, -z[int(k)].imag] for k in h]) if len(h) else np.zeros(0)


def frc(bb, h, nd, drive, w=None, zeta=None):
    """Response of the single nonlinear mode.  drive: (M,) complex phi^H F per backbone point.
    -> rows (frequency, point index, complex modal amplitude), ordered along the curve, low side first."""
    M = bb.shape[0]
    wn = bb[:, -3] if w is None else w * np.ones(M)
    xi = bb[:, -2] / (2 * wn) if zeta is None else zeta * np.ones(M)
    low, high = [], []
    for m in range(M):
        q = 10.0 ** bb[m, -1]
        # |wn^2 - W^2 + 2 i xi wn W|^2 q^2 = |drive|^2, as a quadratic in s = W^2
        a, b, c = 1.0, -2 * wn[m] ** 2 * (1 - 2 * xi[m] ** 2), wn[m] ** 4 - (abs(drive[m]) / q) ** 2
        disc = b * b - 4 * a * c
        mid = -b / 2
        if abs(disc) < 1e-10 * wn[m] ** 4:
            return None                                   # tangency: not judged
        if disc < 0:
            continue
        for s, dst in ((mid - np.sqrt(disc) / 2, low), (mid + np.sqrt(disc) / 2, high)):
            if abs(s) < 1e-10 * wn[m] ** 2:
                return None
            if s > 0:
                W = np.sqrt(s)
                amp = drive[m] / (wn[m] ** 2 - s + 2j * xi[m] * wn[m] * W)
                dst.append((W, m, amp))
    return low + high[::-1]


def rotate(z, ang):
    """subtract the phase ang at harmonic 1 (time shift) from all harmonics"""
    return {k: (v if k == 0 else v * np.exp(-1j * k * ang)) for k, v in z.items()}


def lin_interp(X, v, r):
    """one row"""
    if v < r[0] or v > r[-1]:
        return X[0] * np.nan
    k = min(max(int(np.sum(r <= v)) - 1, 0), len(r) - 2)
    t = (v - r[k]) / (r[k + 1] - r[k])
    return (1 - t) * X[k] + t * X[k + 1]
