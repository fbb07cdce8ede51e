import itertools
import numpy as np
import ref
from systems import Sys, HYST, cmp_res

ID = 'C11'
LEVEL = 'model_checking'
RULE = ('all (harmonic set, superharmonic) pairs (subsets of {0..4} with 1; superharmonic any member above 1) x element mixtures of size 1..2 x 1-3 DOFs x without / with modal filter x constraint scales x '
        'force- and amplitude/phase-controlled variants x lattice states. Oracle: normalised inner product of the superharmonic response with the force of the lower-harmonic motion, by direct projection. '
        'State = (mixture, harmonics, superharmonic, DOFs, filter); transition = one residual evaluation.')
ASSUMPTIONS = ['derivatives are not compared when a sample lies exactly on a switch', 'states with zero excitation or zero response are excluded (the phase is undefined)']
POOL = ['cubic2', 'cubdamp1', 'unilat+', 'poly2', 'jenkins', 'iwan', 'viwan']


def cases(tier):
    out = []
    hs = [h for h in ref.subsets(range(5)) if 1 in h and len(h) in (2, 3, 4) and max(h) > 1]
    if tier == 'quick':
        hs = [h for h in hs if len(h) < 4 or h in ([0, 1, 2, 3], [1, 2, 3, 4])]
    for h in hs:
        for rhi in h:
            if rhi < 2:
                continue
            for size in (1, 2):
                for i, names in enumerate(itertools.combinations_with_replacement(POOL, size)):
                    if size == 2 and tier == 'quick' and (i + rhi + len(h)) % 4:
                        continue
                    for nd in ((1, 2, 3) if size == 1 else (2,)):
                        out.append(dict(els=list(names), h=h, rhi=rhi, nd=nd))
    out.sort(key=lambda c: len(c['els']))
    return out


def single_ref(s, U, w, h, rhi, Nt, filt):
    nd, n = s.nd, len(U)
    pos = [i for i, (k, _) in enumerate(ref.comps(h)) if k == rhi]
    i0, i1 = pos[0] * nd, (pos[0] + 2) * nd
    V = U.copy()
    V[i0:] = 0.0
    F, J, Fw, near = s.nl(V, w, h, Nt)
    P = np.eye(2 * nd)
    S = np.eye(2 * nd)
    if filt is not None:
        P = np.kron(np.eye(2), filt[None, :])
        S = np.kron(np.eye(2), (filt @ s.M)[None, :])
    a, b = -P @ F[i0:i1], S @ U[i0:i1]
    na, nb = np.sqrt(a @ a), np.sqrt(b @ b)
    g = float(a @ b) / (na * nb) if na > 0 else np.nan
    dU, ok = np.zeros(n + 1), na > 1e-6 and nb > 1e-6
    if ok:
        da, db = b / (na * nb) - g * a / na ** 2, a / (na * nb) - g * b / nb ** 2
        dU[:i0] = -(P @ J[i0:i1, :i0]).T @ da
        dU[i0:i1] = S.T @ db
        dU[-1] = -(P @ Fw[i0:i1]) @ da
    return g, dU, near, ok


def run(case, rec):
    h, nd, rhi = case['h'], case['nd'], case['rhi']
    ha = np.array(h)
    n = ref.nhc(h) * nd
    st = nd if h[0] == 0 else 0
    s = Sys(nd, case['els'], seed=len(h) + rhi)
    grad_only = any(e in HYST for e in case['els'])
    cnt = 0
    for k, (w, Fm, Nt, cs) in enumerate([(1.3, 0.7, 64, 1.0), (0.5, -1.2, 32, 25.0), (2.2, 3.0, 64, 0.01)]):
        for filt in (None, ref.lattice_vec(nd, k + 4)):
            U = ref.lattice_vec(n, k + nd) * (1.0, 1.6, 0.7)[k]
            Fl = ref.lattice_vec(n, k + 13)
            where = lambda: '%s h=%s superharmonic %d nd=%d filter=%s w=%s' % (case['els'], h, rhi, nd, filt is not None, w)
            g, dg, near1, ok = single_ref(s, U, w, h, rhi, Nt, filt)
            if not ok:
                rec.outcome('undefined phase')
                continue
            cnt += 1
            r = s.vib.vprnm_single_eqn(U, w, ha, rhi, Nt=Nt, superharmonic_filter=filt)
            cmp_res(rec, (np.ravel(r[0]), r[1]), (np.array([g]), dg), 'phase condition', where, near1, rtol=1e-7, atol=1e-8)
            # trailing extra unknowns are allowed
            r = s.vib.vprnm_single_eqn(np.hstack((U, 3.0, 4.0)), w, ha, rhi, Nt=Nt, superharmonic_filter=filt)
            rec.close(np.ravel(r[0]), [g], 'phase condition/extra unknowns', where, rtol=1e-7, atol=1e-8)
            # --- force controlled
            Fs = np.concatenate([Fl[:st], Fm * Fl[st:]])
            R, J, Jw, near = s.hbm(U, w, Fs, h, Nt)
            D = np.zeros((n + 1, n + 1))
            D[:n, :n], D[:n, n], D[n] = J, Jw, cs * dg
            dF = np.concatenate([np.zeros(st), -Fl[st:], [0.0]])
            X = np.hstack((U, w, Fm))
            X0, F0 = X.copy(), Fl.copy()
            r = s.vib.vprnm_res(X, ha, rhi, Fl, Nt=Nt, superharmonic_filter=filt, constraint_scale=cs)
            cmp_res(rec, r, (np.append(R, cs * g), D, dF), 'vprnm', where, min(near, near1), rtol=1e-7, atol=1e-8)
            rec.expect(np.array_equal(X, X0) and np.array_equal(Fl, F0), 'input modified', where)
            if not grad_only:
                q = s.vib.vprnm_res(X, ha, rhi, Fl, Nt=Nt, superharmonic_filter=filt, constraint_scale=cs, calc_grad=False)
                rec.close(q[0], np.append(R, cs * g), 'vprnm/no gradient', where, rtol=1e-7, atol=1e-8)
            if cs == 1.0:
                q = s.vib.vprnm_res(X, ha, rhi, Fl, Nt=Nt, superharmonic_filter=filt)
                rec.close(q[0], np.append(R, g), 'vprnm/default scale', where, rtol=1e-7, atol=1e-8)
            # --- amplitude and phase controlled
            order, amp, Fc, Fsn = k, 0.8 + k, 0.9, -0.4
            recov = ref.lattice_vec(nd, k + 8)
            c1, s1 = slice(st, st + nd), slice(st + nd, st + 2 * nd)
            Fa = np.zeros(n)
            Fa[:st], Fa[c1], Fa[s1] = Fl[:st], Fc * Fl[c1], Fsn * Fl[c1]
            R, J, Jw, near = s.hbm(U, w, Fa, h, Nt)
            D = np.zeros((n + 3, n + 3))
            D[:n, :n], D[:n, n + 2] = J, Jw
            D[c1, n], D[s1, n + 1] = -Fl[c1], -Fl[c1]
            D[n, c1], D[n + 1, s1] = w ** order * recov, w ** order * recov
            D[n, n + 2] = order * w ** (order - 1) * (recov @ U[c1]) if order else 0.0
            D[n + 1, n + 2] = order * w ** (order - 1) * (recov @ U[s1]) if order else 0.0
            D[n + 2, :n], D[n + 2, n + 2] = cs * dg[:n], cs * dg[n]
            dA = np.zeros(n + 3)
            dA[n] = -1.0
            want = np.concatenate([R, [w ** order * (recov @ U[c1]) - amp, w ** order * (recov @ U[s1]), cs * g]])
            X = np.hstack((U, Fc, Fsn, w, amp))
            r = s.vib.vprnm_amp_phase_res(X, Fl, ha, rhi, recov, order, Nt=Nt, superharmonic_filter=filt, constraint_scale=cs)
            cmp_res(rec, r, (want, D, dA), 'vprnm amplitude/phase', where, min(near, near1), rtol=1e-7, atol=1e-8)
            if not grad_only:
                q = s.vib.vprnm_amp_phase_res(X, Fl, ha, rhi, recov, order, Nt=Nt, superharmonic_filter=filt, constraint_scale=cs, calc_grad=False)
                rec.close(q[0], want, 'vprnm amplitude/phase/no gradient', where, rtol=1e-7, atol=1e-8)
            rec.state(tuple(case['els']), tuple(h), rhi, nd, filt is not None, k)
            rec.outcome('defined', min(near, near1) < 1e-7)
    rec.trace(cnt)
    rec.sample('%s h=%s superharmonic %d nd=%d' % (case['els'], h, rhi, nd))
