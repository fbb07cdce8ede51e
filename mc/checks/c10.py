import itertools
import numpy as np
import ref
from systems import Sys, HYST, matrices, cmp_res

ID = 'C10'
LEVEL = 'model_checking'
RULE = ('all harmonic subsets of {0..3} (thorough {0..5}) containing 1 x element mixtures of size 0..2 x 1-3 DOFs x amplitude decades x lattice shapes, frequencies and dampings of both signs; and for every '
        'linear system, every mode x amplitude x harmonic set. Oracle: defining equations by direct projection. State = (mixture, harmonics, DOFs, amplitude); transition = one residual evaluation.')
ASSUMPTIONS = ['derivatives are not compared when a sample lies exactly on a switch']
POOL = ['cubic2', 'cubdamp1', 'unilat+', 'poly2', 'jenkins', 'viwan', 'iwan', 'quintic2']


def cases(tier):
    out = []
    H = 3 if tier == 'quick' else 5
    hs = [h for h in ref.subsets(range(H + 1)) if 1 in h and (h[0] == 1 or h[:2] == [0, 1]) and len(h) <= 4]
    for h in hs:
        for nd in (1, 2, 3):
            out.append(dict(kind='linear', h=h, nd=nd))
    for size in (0, 1, 2):
        for names in itertools.combinations_with_replacement(POOL, size):
            for i, h in enumerate(hs):
                for nd in ((1, 2, 3) if size < 2 and tier != 'quick' else (1 + (i + len(names)) % 3,)):
                    out.append(dict(kind='res', els=list(names), h=h, nd=nd))
    return out


def epmc_ref(s, U, w, xi, la, Fl, h, Nt):
    nd, n, st = s.nd, len(U), (s.nd if h[0] == 0 else 0)
    A = 10.0 ** la
    sc = np.concatenate([np.ones(st), A * np.ones(n - st)])
    E, Ew = s.E(w, h, s.C - xi * s.M)
    Ex = ref.harmonic_E(0 * s.M, -s.M, 0 * s.M, w, h)
    F, J, Fw, near = s.nl(sc * U, w, h, Nt)
    X = sc * U
    Fs = np.concatenate([Fl[:st], np.zeros(n - st)])
    Fd = np.concatenate([np.zeros(st), Fl[st:]])
    c, si = U[st:st + nd], U[st + nd:st + 2 * nd]
    R = np.concatenate([E @ X + F - Fs, [c @ s.M @ c + si @ s.M @ si - 1.0], [Fd @ U]])
    D = np.zeros((n + 2, n + 2))
    D[:n, :n] = (E + J) @ np.diag(sc)
    D[:n, n] = Ew @ X + Fw
    D[:n, n + 1] = Ex @ X
    D[n, st:st + nd] = c @ (s.M + s.M.T)
    D[n, st + nd:st + 2 * nd] = si @ (s.M + s.M.T)
    D[n + 1, :n] = Fd
    dsc = np.concatenate([np.zeros(st), A * np.log(10.0) * np.ones(n - st)])
    a = np.concatenate([(E + J) @ (dsc * U), [0.0, 0.0]])
    return R, D, a, near


def run(case, rec):
    h, nd = case['h'], case['nd']
    ha = np.array(h)
    n = ref.nhc(h) * nd
    st = nd if h[0] == 0 else 0
    if case['kind'] == 'linear':
        for sd in range(4):
            M, _, K = matrices(nd, sd, sym=True)
            a, b = (0.02, 0.0, -0.01, 0.3)[sd], (0.01, 0.05, 0.0, 0.001)[sd]
            s = Sys(nd, [], mats=(M, a * M + b * K, K))
            L = np.linalg.cholesky(M)
            lam, Y = np.linalg.eigh(np.linalg.inv(L) @ K @ np.linalg.inv(L).T)
            Phi = np.linalg.inv(L).T @ Y
            if np.any(lam <= 0):
                rec.outcome('indefinite')
                continue
            for m in range(nd):
                for la in (-6.0, -2.0, 0.0, 1.0):
                    for ang in (0.0, 0.7, np.pi / 2, 4.0):
                        w = np.sqrt(lam[m])
                        U = np.zeros(n)
                        U[st:st + nd] = Phi[:, m] * np.cos(ang)
                        U[st + nd:st + 2 * nd] = Phi[:, m] * np.sin(ang)
                        Fl = np.zeros(n)
                        if st:
                            Fl[:st] = ref.lattice_vec(nd, m)
                            U[:st] = np.linalg.solve(K, Fl[:st])
                        v = ref.lattice_vec(nd, m + 5)      # phase condition: quadrature to the mode
                        Fl[st:st + nd], Fl[st + nd:st + 2 * nd] = -np.sin(ang) * v, np.cos(ang) * v
                        xi = a + b * lam[m]
                        R = s.vib.epmc_res(np.hstack((U, w, xi, la)), Fl, ha)[0]
                        rec.step()
                        rec.close(R, np.zeros(n + 2), 'linear mode is a solution',
                                  lambda: 'h=%s mode %d of %d log amplitude %s' % (h, m, nd, la), atol=1e-9 * max(1.0, 10.0 ** la))
                        rec.state('lin', tuple(h), nd, sd, m, la, ang)
            rec.trace()
        return
    s = Sys(nd, case['els'], seed=len(h) + 3)
    first = None
    for k, (w, xi, la, Nt) in enumerate([(1.3, 0.04, 0.0, 32), (0.6, -0.1, -1.3, 16), (2.0, 0.0, 0.5, 32), (-0.9, 0.3, -4.0, 16)]):
        U = ref.lattice_vec(n, k + nd)
        Fl = ref.lattice_vec(n, k + 13)
        if k == 1:
            Fl[st + nd:] = 0.0
        if k == 3:
            U[:st] = 0.0
        X = np.hstack((U, w, xi, la))
        X0, F0 = X.copy(), Fl.copy()
        want = epmc_ref(s, U, w, xi, la, Fl, h, Nt)
        r = s.vib.epmc_res(X, Fl, ha, Nt=Nt)
        where = lambda: '%s h=%s nd=%d w=%s xi=%s log amplitude=%s' % (case['els'], h, nd, w, xi, la)
        cmp_res(rec, r, want[:3], 'epmc', where, want[3])
        rec.expect(np.array_equal(X, X0) and np.array_equal(Fl, F0), 'input modified', where)
        if not any(e in HYST for e in case['els']):
            rec.close(s.vib.epmc_res(X, Fl, ha, Nt=Nt, calc_grad=False)[0], want[0], 'epmc/no gradient', where, rtol=1e-8, atol=1e-9)
        rec.state(tuple(case['els']), tuple(h), nd, k)
        first = first or (X, Fl, Nt, r)
        rec.outcome(bool(want[3] < 1e-7))
    r = s.vib.epmc_res(first[0], first[1], ha, Nt=first[2])
    for a, b in zip(r, first[3]):
        rec.close(a, b, 'depends on earlier evaluations', str(case), rtol=1e-13, atol=1e-13)
    rec.close(s.vib.epmc_res(X, Fl, ha)[0], s.vib.epmc_res(X, Fl, ha, Nt=128)[0], 'default sampling', str(case), rtol=1e-12)
    rec.trace()
    rec.sample('%s h=%s nd=%d' % (case['els'], h, nd))
