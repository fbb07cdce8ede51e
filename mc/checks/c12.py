import itertools
import numpy as np
import ref
from systems import Sys, HYST, cmp_res

ID = 'C12'
LEVEL = 'model_checking'
RULE = ('amplitude-controlled, amplitude/phase-controlled (over frequency and over amplitude) and base-excited residuals: all harmonic subsets of {0..3} with 1 x every recovery pattern (each single DOF, a combination) x derivative orders 0..2 x '
        'every proper base DOF subset x element mixtures of size 0..2 x lattice states. Oracle: forced projection with the documented force scaling plus the documented constraint. '
        'State = (mixture, harmonics, DOFs, control); transition = one residual evaluation.')
ASSUMPTIONS = ['derivatives are not compared when a sample lies exactly on a switch']
POOL = ['cubic2', 'cubdamp1', 'unilat+', 'poly2', 'jenkins', 'viwan']


def cases(tier):
    out = []
    hs = [h for h in ref.subsets(range(4)) if h[:1] == [1] or h[:2] == [0, 1]]
    for size in (0, 1, 2):
        for i, names in enumerate(itertools.combinations_with_replacement(POOL, size)):
            for j, h in enumerate(hs):
                if size == 2 and tier == 'quick' and (i + j) % 3:
                    continue
                for nd in (1, 2, 3):
                    out.append(dict(els=list(names), h=h, nd=nd))
    return out


def run(case, rec):
    h, nd = case['h'], case['nd']
    ha = np.array(h)
    n = ref.nhc(h) * nd
    st = nd if h[0] == 0 else 0
    c1, s1 = slice(st, st + nd), slice(st + nd, st + 2 * nd)
    s = Sys(nd, case['els'], seed=len(h) + 1)
    nograd = not any(e in HYST for e in case['els'])
    Nt = 32
    recs = [np.eye(nd)[i] for i in range(nd)] + ([ref.lattice_vec(nd, 3)] if nd > 1 else [np.array([-1.7])])
    for k, (w, sc, Fm) in enumerate([(1.3, 1.0, 0.7), (0.6, 2.0, -1.4)]):
        U = ref.lattice_vec(n, k + nd) * sc
        Fl = ref.lattice_vec(n, k + 13)
        F0 = Fl.copy()
        base = s.hbm(U, w, np.zeros(n), h, Nt)
        Fdyn = np.concatenate([np.zeros(st), Fl[st:]])
        Fst = np.concatenate([Fl[:st], np.zeros(n - st)])
        F2 = np.zeros(n)
        F2[:st], F2[c1], F2[s1] = Fl[:st], Fm * Fl[c1], 0.45 * Fl[c1]
        for ri, recov in enumerate(recs):
            for order in (0, 1, 2):
                amp = 0.5 + order + k
                where = lambda: '%s h=%s nd=%d recov=%s order=%d w=%s' % (case['els'], h, nd, recov.tolist(), order, w)
                uc, us = float(recov @ U[c1]), float(recov @ U[s1])
                p = w ** order
                # ---- amplitude control
                R = np.append(base[0] - Fst - Fm * Fdyn, p * p * (uc ** 2 + us ** 2) - amp ** 2)
                D = np.zeros((n + 1, n + 1))
                D[:n, :n], D[:n, n] = base[1], -Fdyn
                D[n, c1], D[n, s1] = 2 * p * p * uc * recov, 2 * p * p * us * recov
                dw = np.append(base[2], 2 * order * w ** (2 * order - 1) * (uc ** 2 + us ** 2))
                X = np.hstack((U, Fm, w))
                X0 = X.copy()
                r = s.vib.hbm_amp_control_res(X, Fl, ha, recov, amp, order, Nt=Nt)
                cmp_res(rec, r, (R, D, dw), 'amplitude control', where, base[3])
                # ---- amplitude and phase control
                R2 = np.concatenate([base[0] - F2, [p * uc - amp, p * us]])
                D2 = np.zeros((n + 2, n + 2))
                D2[:n, :n] = base[1]
                D2[c1, n], D2[s1, n + 1] = -Fl[c1], -Fl[c1]
                D2[n, c1], D2[n + 1, s1] = p * recov, p * recov
                q = order * w ** (order - 1) if order else 0.0
                dw2 = np.concatenate([base[2], [q * uc, q * us]])
                Y = np.hstack((U, Fm, 0.45, w))
                Z = np.hstack((U, Fm, 0.45, amp))
                r = s.vib.hbm_amp_phase_control_res(Y, Fl, ha, recov, amp, order, Nt=Nt)
                cmp_res(rec, r, (R2, D2, dw2), 'amplitude/phase control', where, base[3])
                dA = np.zeros(n + 2)
                dA[n] = -1.0
                r = s.vib.hbm_amp_phase_control_dA_res(Z, Fl, ha, recov, w, order, Nt=Nt)
                cmp_res(rec, r, (R2, D2, dA), 'amplitude/phase control over amplitude', where, base[3])
                if nograd and ri == 0:
                    for f, a, want in ((s.vib.hbm_amp_control_res, (X, Fl, ha, recov, amp, order), R),
                                       (s.vib.hbm_amp_phase_control_res, (Y, Fl, ha, recov, amp, order), R2),
                                       (s.vib.hbm_amp_phase_control_dA_res, (Z, Fl, ha, recov, w, order), R2)):
                        rec.close(f(*a, Nt=Nt, calc_grad=False)[0], want, 'no gradient', where, rtol=1e-8, atol=1e-9)
                rec.expect(np.array_equal(X, X0) and np.array_equal(Fl, F0), 'input modified', where)
                rec.state(tuple(case['els']), tuple(h), nd, k, ri, order)
        # ---- base excitation
        for m in range(1, 2 ** nd - 1):
            flag = np.array([bool(m >> i & 1) for i in range(nd)])
            mask = np.tile(flag, ref.nhc(h))
            R, D, dw = base[0][~mask], base[1][~mask][:, ~mask], base[2][~mask]
            where = lambda: '%s h=%s nd=%d base=%s w=%s' % (case['els'], h, nd, flag.tolist(), w)
            r = s.vib.hbm_base_res(np.append(U[~mask], w), U[mask], flag, ha, Nt=Nt)
            cmp_res(rec, r, (R, D, dw), 'base excitation', where, base[3])
            rec.state('base', tuple(case['els']), tuple(h), m, k)
        rec.outcome(base[3] < 1e-7)
    rec.trace()
    rec.sample('%s h=%s nd=%d' % (case['els'], h, nd))
