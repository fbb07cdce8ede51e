"""C22: the EPMC reduced order model against the modal equation of motion in complex form and against exact linear systems."""
import itertools
import numpy as np
import ref
import roms
from systems import matrices
from tmdsimpy import VibrationSystem
from tmdsimpy.roms import epmc

ID = 'C22'
LEVEL = 'model_checking'
RULE = ('all harmonic sets with 1 as first oscillating harmonic within {0..4}, 1-3 DOFs, backbones of 1-4 points with hardening/softening/constant frequency, damping and amplitude decades such that points have two, one or no response, '
        'all force patterns (cos, sin, both, phi^H F given as scalars or arrays), overrides of frequency and damping (none, scalar, array); constant-amplitude version at nodes, between and outside. Every returned row is compared with the '
        'complex modal equation; for linear systems each row is substituted into the harmonic balance residual. State = (configuration, backbone point, branch); transition = one ROM evaluation.')
ASSUMPTIONS = ['backbone points exactly at the tangency between two responses and none are not judged']


def hsets():
    out = []
    for z in ([], [0]):
        for k in range(4):
            for s in itertools.combinations((2, 3, 4), k):
                out.append(np.array(z + [1] + list(s)))
    return out


def cases(tier):
    out = [dict(kind='linear', nd=nd, h=h.tolist()) for nd in (1, 2, 3) for h in hsets()]
    for nd in (1, 2, 3):
        for h in hsets():
            out.append(dict(kind='force', nd=nd, h=h.tolist(), Ms=[1, 2, 4] if tier == 'quick' else [1, 2, 3, 4, 6]))
            out.append(dict(kind='disp', nd=nd, h=h.tolist()))
    return out


def backbone(nd, h, M, shape, seed):
    n = roms.nhc(h)
    base = ref.lattice_mat(M, n * nd, seed) * 0.3
    i0 = nd if h[0] == 0 else 0
    base[:, i0:i0 + 2 * nd] += np.r_[1.0 + 0.2 * np.arange(nd), 0.3 - 0.4 * np.arange(nd)]
    la = np.linspace(-3.0, 0.5, M) if M > 1 else np.array([-1.0])
    s = np.linspace(0, 1, M) if M > 1 else np.array([0.0])
    w = 3.0 * (1 + {'hard': 0.3, 'soft': -0.2, 'flat': 0.0}[shape] * s)
    z = 0.01 + 0.15 * s
    return np.hstack((base, w[:, None], (2 * z * w)[:, None], la[:, None]))


def run(case, rec):
    globals()['run_' + case['kind']](case, rec)


def compare_rows(rec, out, rows, bb, h, nd, where):
    F, q, ph = out
    n = roms.nhc(h) * nd
    if not rec.expect(F.shape == (len(rows), n + 1) and q.shape == (len(rows),) and ph.shape == (len(rows),), 'number of responses', lambda: where() + ' %s, expected %d' % (F.shape, len(rows))):
        return
    for i, (W, m, amp) in enumerate(rows):
        rec.outcome('row')
        qm = 10.0 ** bb[m, -1]
        rec.close(F[i, -1], W, 'frequency', where, rtol=1e-7)
        rec.close(q[i], qm, 'modal amplitude', where, rtol=1e-10)
        rec.close(abs(amp), qm, 'model', where, rtol=1e-5)
        rec.close(np.exp(-1j * ph[i]), amp / abs(amp), 'modal phase', where, rtol=1e-6)
        z = roms.to_complex(bb[m, :n], h, nd)
        want = {k: (v if k == 0 else v * qm * (amp / abs(amp)) ** k) for k, v in z.items()}
        rec.close(F[i, :n], roms.to_real(want, h, nd), 'displacement', lambda: where() + ' row %d' % i, rtol=1e-5)


def run_force(case, rec):
    nd, h = case['nd'], np.array(case['h'])
    n = roms.nhc(h) * nd
    i0 = nd if h[0] == 0 else 0
    for M, shape, seed in itertools.product(case['Ms'], ('hard', 'soft', 'flat'), (3, 8)):
        bb = backbone(nd, h, M, shape, seed)
        pats = {'cos': (1.0, 0.0), 'sin': (0.0, -1.0), 'both': (0.7, 0.4)}
        for pn, (fc, fs) in pats.items():
            for mag in (1e-4, 0.02, 1.0, 30.0, 0.0):
                Fl = 0.5 * ref.lattice_vec(n, 4)          # other harmonics must not matter
                fv = ref.lattice_vec(nd, 6) + 1.0
                Fl[i0:i0 + nd] = mag * fc * fv
                Fl[i0 + nd:i0 + 2 * nd] = mag * fs * ref.lattice_vec(nd, 7)
                Fz = Fl[i0:i0 + nd] - 1j * Fl[i0 + nd:i0 + 2 * nd]
                phi = bb[:, i0:i0 + nd] - 1j * bb[:, i0 + nd:i0 + 2 * nd]
                drive = phi.conj() @ Fz
                for wn, w in (('none', None), ('float', 2.5), ('array', 2.0 + 0.3 * np.arange(M))):
                    for zn, z in (('none', None), ('float', 0.05), ('array', 0.3 - 0.05 * np.arange(M)), ('heavy', 0.9)):
                        if (wn, zn) not in (('none', 'none'), ('float', 'none'), ('none', 'float'), ('array', 'array'), ('array', 'none'), ('none', 'array'), ('none', 'heavy'), ('float', 'float')):
                            continue
                        for how in ('Fl', 'given'):
                            where = lambda: 'h=%s nd=%d M=%d %s force %s*%g w %s zeta %s via %s' % (h.tolist(), nd, M, shape, pn, mag, wn, zn, how)
                            bb_, Fl_ = bb.copy(), Fl.copy()
                            kw = dict(w=None if w is None else w * 1, zeta=None if z is None else z * 1)
                            if how == 'Fl':
                                kw['Fl'] = Fl_
                            else:
                                if wn == 'array' and M > 1:
                                    continue
                                d = drive
                                kw['phiH_Fl_real'], kw['phiH_Fl_imag'] = (d.real.copy(), d.imag.copy()) if M > 1 else (float(d.real[0]), float(d.imag[0]))
                            out = epmc.constant_force(bb_, nd, h.copy(), **kw)
                            rec.step()
                            rec.expect(np.array_equal(bb, bb_) and np.array_equal(Fl, Fl_), 'arguments modified', where)
                            rows = roms.frc(bb, h, nd, drive, w, z)
                            if rows is None:
                                continue
                            rec.state(h.tolist(), nd, M, shape, pn, mag, wn, zn, len(rows))
                            rec.outcome(len(rows))
                            compare_rows(rec, out, rows, bb, h, nd, where)
            # both or neither
        rec.trace()


def run_linear(case, rec):
    """exact: a linear system forced in one mode responds in that mode only"""
    nd, h = case['nd'], np.array(case['h'])
    n = roms.nhc(h) * nd
    i0 = nd if h[0] == 0 else 0
    for seed in (1, 5):
        M_, C_, K_ = matrices(nd, seed, sym=True)
        a, b = 0.05, 0.02
        vib = VibrationSystem(M_, K_, C=a * M_ + b * K_)
        L = np.linalg.cholesky(M_)
        w2, V = np.linalg.eigh(np.linalg.solve(L, np.linalg.solve(L, K_).T))
        V = np.linalg.solve(L.T, V)
        for i in range(nd):
            if w2[i] <= 0.05:
                continue
            w, phi = np.sqrt(w2[i]), V[:, i]
            la = np.linspace(-4, 1, 9)
            for ang in (0.0, 0.8, np.pi / 2, 2.5):
                bb = np.zeros((la.size, n + 3))
                bb[:, i0:i0 + nd] = phi * np.cos(ang)
                bb[:, i0 + nd:i0 + 2 * nd] = phi * np.sin(ang)
                bb[:, -3], bb[:, -2], bb[:, -1] = w, a + b * w2[i], la
                for fc, fs in ((1.0, 0.0), (0.0, 0.3), (-0.4, 0.7), (1e-3, 0)):
                    Fl = np.zeros(n)
                    Fl[i0:i0 + nd] = fc * (M_ @ phi)
                    Fl[i0 + nd:i0 + 2 * nd] = fs * (M_ @ phi)
                    out, q, ph = epmc.constant_force(bb, nd, h, Fl=Fl)
                    rec.step()
                    rec.state(h.tolist(), nd, seed, i, ang, fc, fs)
                    rec.outcome('linear', len(out))
                    for row in out:
                        R = vib.hbm_res(row, Fl, h, Nt=2 ** 5)[0]
                        rec.expect(np.max(np.abs(R)) <= 1e-7 * (np.max(np.abs(Fl)) + np.max(np.abs(row[:-1])) * (w2[i] + row[-1] ** 2)), 'linear response does not satisfy the equation of motion',
                                   lambda: 'h=%s nd=%d mode %d angle %g force (%g,%g) row %s residual %s' % (h.tolist(), nd, i, ang, fc, fs, row, R))
                    # linear resonance: points exist exactly up to the peak amplitude
                    zeta = (a + b * w2[i]) / (2 * w)
                    peak = np.hypot(fc, fs) / (2 * zeta * w2[i] * np.sqrt(1 - zeta ** 2)) if zeta < np.sqrt(0.5) else np.hypot(fc, fs) / w2[i]
                    stat = np.hypot(fc, fs) / w2[i]
                    want = sum((1 if 10.0 ** x < stat else 2 if 10.0 ** x < peak else 0) for x in la)
                    if all(abs(10.0 ** x / peak - 1) > 1e-6 and abs(10.0 ** x / stat - 1) > 1e-6 for x in la):
                        rec.expect(len(out) == want, 'number of linear responses', lambda: 'h=%s nd=%d mode %d: %d, expected %d' % (h.tolist(), nd, i, len(out), want))
                        rec.expect(np.all(np.diff(out[:, -1]) > 0), 'linear response not ordered by frequency', lambda: '%s' % out[:, -1])
        rec.trace()


def run_disp(case, rec):
    nd, h = case['nd'], np.array(case['h'])
    n = roms.nhc(h) * nd
    i0 = nd if h[0] == 0 else 0
    for M, shape, seed in itertools.product((2, 4), ('hard', 'soft', 'flat'), (3, 8)):
        bb = backbone(nd, h, M, shape, seed)
        cps = [np.eye(nd)[i] for i in range(nd)] + [1.0 + 0.5 * np.arange(nd)]
        for ci, cp in enumerate(cps):
            phi = bb[:, i0:i0 + nd] - 1j * bb[:, i0 + nd:i0 + 2 * nd]
            A = np.abs(phi @ cp) * 10.0 ** bb[:, -1]
            if np.any(np.diff(A) <= 0):
                continue
            Om = np.array([0.3, 2.0, 3.0, 3.01, 7.0])
            F = ref.lattice_vec(nd, 4) + 1.2
            for wn, w in (('none', None), ('float', 2.5), ('array', 2.0 + 0.3 * np.arange(M))):
                for zn, z in (('none', None), ('float', 0.05), ('array', 0.3 - 0.05 * np.arange(M))):
                    lin = bb.copy()
                    if w is not None:
                        lin[:, -3] = w
                    if z is not None:
                        lin[:, -2] = 2 * lin[:, -3] * z
                    lin[:, -1] = 10.0 ** bb[:, -1]
                    for a in list(A) + [0.3 * A[0] + 0.7 * A[1], 0.5 * (A[-1] + A[-2]), 0.9 * A[0], 1.1 * A[-1]]:
                        where = lambda: 'h=%s nd=%d M=%d %s control %d amplitude %g of %s w %s zeta %s' % (h.tolist(), nd, M, shape, ci, a, A, wn, zn)
                        bb_, F_, Om_, cp_ = bb.copy(), F.copy(), Om.copy(), cp.copy()
                        f, pt = epmc.constant_displacement(bb_, h, F_, Om_, cp_, a, w=w, zeta=z)
                        rec.step()
                        rec.state(h.tolist(), nd, M, shape, ci, round(a, 9), wn, zn)
                        rec.expect(np.array_equal(bb, bb_) and np.array_equal(F, F_) and np.array_equal(Om, Om_) and np.array_equal(cp, cp_), 'arguments modified', where)
                        want = roms.lin_interp(lin, a, A)
                        if abs(a - A[0]) < 1e-12 * a or abs(a - A[-1]) < 1e-12 * a:
                            # amplitude recomputed with rounding may fall outside by one ulp
                            if np.isnan(pt).all():
                                continue
                            want = lin[0] if abs(a - A[0]) < 1e-12 * a else lin[-1]
                        if np.isnan(want).any():
                            rec.expect(np.isnan(f).all() and np.isnan(pt).all() and f.shape == Om.shape, 'amplitude outside the backbone', lambda: where() + ' %s' % f)
                            rec.outcome('outside')
                            continue
                        rec.outcome('inside')
                        q, wm, zm = want[-1], want[-3], want[-2] / (2 * want[-3])
                        p = want[i0:i0 + nd] - 1j * want[i0 + nd:i0 + 2 * nd]
                        mag = np.abs(q * (wm ** 2 - Om ** 2 + 2j * zm * wm * Om)) / np.abs(p.conj() @ F)
                        rec.close(f, mag, 'force magnitude', where, rtol=1e-7)
                        rec.close(pt, np.r_[want[:-1], np.log10(q)], 'interpolated backbone point', where, rtol=1e-9)
        rec.trace()
