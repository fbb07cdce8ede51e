"""C26: linear frequency responses and linear initial guesses against direct solutions."""
import itertools
import io
import contextlib
import numpy as np
import ref
import elems
from systems import Sys
from tmdsimpy import VibrationSystem
from tmdsimpy.solvers import NonlinearSolver
from tmdsimpy.jax.solvers import NonlinearSolverOMP
from tmdsimpy.utils import harmonic as hutils

ID = 'C26'
LEVEL = 'model_checking'
RULE = ('(a) modal response: systems of 1-4 DOFs (full, diagonal, repeated frequencies, free-floating excluded) x 5 damping definitions x cosine/sine force patterns (units, generic, none) x frequency lists (static, below, at and around every resonance, unsorted with repeats, scalar) '
        'x 1..N+1 and default modes x both solvers; (b) base excitation: every non-empty proper subset of base DOFs of 2-4 DOF systems x motions x damping x modes; (c) initial guesses: every harmonic set inside {0..3} (thorough {0..4}) containing 1 x {HBM, amplitude, amplitude+phase, VPRNM} x all or fewer modes x '
        'control order 0-2 x recovery vectors x force patterns x static displacement, whose residual must vanish. Oracle: direct complex solution and (with fewer modes) the explicit modal sum over the lowest modes. State = configuration; transition = one compared response.')
ASSUMPTIONS = ['undamped systems are not driven exactly at resonance', 'with fewer modes than DOFs eigenvalues are distinct', 'proportional damping (documented)']
SOLVERS = {'base': NonlinearSolver, 'omp': NonlinearSolverOMP}
AB = [(0.0, 0.0), (0.05, 0.0), (0.0, 0.03), (0.02, 0.01), (1.5, 2.0)]


def sysmats(nd, kind):
    if kind == 'diag':
        return np.diag(1.0 + 0.5 * np.arange(nd)), np.diag(3.0 + 2.0 * np.arange(nd) ** 2)
    if kind == 'rep':
        A = ref.lattice_mat(nd, nd, 50) + 2 * np.eye(nd)
        return A @ A.T, A @ np.diag([2.0, 2.0, 5.0, 5.0][:nd]) @ A.T
    A, B = ref.lattice_mat(nd, nd, 40 + nd), ref.lattice_mat(nd, nd, 60 + nd)
    return np.eye(nd) + 0.3 * A @ A.T, np.diag(2.0 + 1.5 * np.arange(nd)) + 0.8 * B @ B.T


def cases(tier):
    full = tier != 'quick'
    out = []
    for nd in (1, 2, 3, 4):
        for kind in ('full', 'diag') + (('rep',) if nd > 1 else ()):
            for ab in range(len(AB)):
                out.append(dict(kind='frf', nd=nd, sys=kind, ab=ab))
    for nd in (2, 3, 4) + ((5,) if full else ()):
        for flag in itertools.product((0, 1), repeat=nd):
            if 0 < sum(flag) < nd:
                out.append(dict(kind='base', nd=nd, flag=list(flag)))
    for h in ref.subsets(range(5 if full else 4)):
        if 1 in h:
            for nd in (1, 2, 3):
                out.append(dict(kind='guess', h=h, nd=nd))
    for h in ref.subsets(range(4)):
        if 1 in h and (full or len(h) < 4):
            for nd, modes in ((2, 1), (3, 2), (5, 5), (5, 4), (5, None), (4, 9)):
                out.append(dict(kind='guess', h=h, nd=nd, modes=modes))
    return out


def run(case, rec):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()['run_' + case['kind']](case, rec)


def freqs(K, M, damped):
    wn = np.sqrt(np.sort(np.linalg.eigvals(np.linalg.solve(M, K)).real))
    out = [0.0, 0.37 * wn[0]]
    for x in wn:
        out += [0.999 * x, 1.02 * x] + ([x] if damped else [])
    out += [3.1 * wn[-1]]
    return wn, out


def direct(M, C, K, w, F):
    z = np.linalg.solve(K - w * w * M + 1j * w * C, F)
    return z.real, -z.imag


def modal(M, K, ab, w, F, m):
    """sum over the m lowest modes"""
    L = np.linalg.cholesky(M)
    Li = np.linalg.inv(L)
    A = Li @ K @ Li.T
    lam, Y = np.linalg.eigh(0.5 * (A + A.T))
    P = Li.T @ Y
    z = sum(P[:, i] * (P[:, i] @ F) / (lam[i] - w * w + 1j * w * (ab[0] + ab[1] * lam[i])) for i in range(m))
    return z.real, -z.imag


def run_frf(case, rec):
    nd = case['nd']
    M, K = sysmats(nd, case['sys'])
    ab = AB[case['ab']]
    C = ab[0] * M + ab[1] * K
    wn, ws = freqs(K, M, min(2 * (ab[0] / (2 * w) + ab[1] * w / 2) for w in np.sqrt(np.linalg.eigvals(np.linalg.solve(M, K)).real)) > 1e-6)
    pats = [np.eye(nd)[i] for i in range(nd)] + [ref.lattice_vec(nd, 4)]
    sins = [None, 0 * pats[0]] + pats
    order = list(ws) + [ws[2], ws[0]]
    order = order[::2] + order[1::2]
    vib = VibrationSystem(M.copy(), K.copy(), ab=list(ab))
    other = VibrationSystem(M.copy(), K.copy(), C=np.eye(nd) * 0.3)
    other.set_new_C(ab=list(ab))
    e = elems.make('cubic1', nd)
    other.add_nl_force(e.obj)
    for sname, (fi, Fc), (si, Fs) in itertools.product(SOLVERS, enumerate(pats), enumerate(sins)):
        sol = SOLVERS[sname]()
        F = Fc - 1j * (0 if Fs is None else Fs)
        for neigs in [None] + list(range(1, nd + 2)):
            m = min(nd, 3 if neigs is None else neigs)
            if case['sys'] == 'rep' and m < nd:
                continue
            where = lambda: 'nd=%d %s ab=%s solver=%s cos=%s sin=%s neigs=%s' % (nd, case['sys'], ab, sname, Fc, Fs, neigs)
            kw = {} if neigs is None else dict(neigs=neigs)
            if Fs is not None:
                kw['Flsin'] = Fs.copy()
            want = []
            for w in order:
                a, b = direct(M, C, K, w, F) if m == nd else modal(M, K, ab, w, F, m)
                want.append(np.r_[a, b, w])
            want = np.array(want)
            wa, fa = np.array(order), Fc.copy()
            v = (vib, other)[(fi + si) % 2]
            got = v.linear_frf(wa, fa, sol, **kw)
            if rec.expect(got.shape == want.shape, 'layout', lambda: where() + ' %s expected %s' % (got.shape, want.shape)):
                sc = np.max(np.abs(want[:, :-1]), axis=1, keepdims=True) + 1e-12
                worst = np.max(np.abs(got[:, :-1] - want[:, :-1]) / sc)
                rec.expect(worst < 1e-7, 'response', lambda: where() + ' relative error %s got %s expected %s' % (worst, got, want))
                rec.expect(np.array_equal(got[:, -1], wa), 'frequency column', where)
            one = v.linear_frf(order[1], fa, sol, **kw)
            rec.close(one, want[1:2], 'scalar frequency', where, rtol=1e-7)
            rec.expect(np.array_equal(wa, order) and np.array_equal(fa, Fc), 'input modified', where)
            rec.step(len(order) + 1)
            rec.outcome('frf', m == nd, ab[0] > 1)
            rec.state(nd, case['sys'], ab, sname, fi, si, neigs)
        rec.trace()
    try:
        VibrationSystem(M, K, C=np.eye(nd)).linear_frf(np.array([1.0]), pats[0], NonlinearSolver())
        rec.fail('no proportional damping', 'modal response without proportional damping did not raise')
    except AssertionError:
        pass
    rec.sample('nd=%d %s ab=%s' % (nd, case['sys'], ab))


def run_base(case, rec):
    nd, flag = case['nd'], np.array(case['flag'], bool)
    f = ~flag
    nf = int(f.sum())
    for kind in ('full', 'diag'):
        M, K = sysmats(nd, kind)
        for ab in AB[1:]:
            C = ab[0] * M + ab[1] * K
            vib = VibrationSystem(M.copy(), K.copy(), ab=list(ab))
            g = np.ix_(f, f)
            wn, ws = freqs(K[g], M[g], True)
            for Ub in ([1.0, 0.0], [0.0, 1.0], [0.7, -1.3]):
                for neigs in (None, nf, nf + 1) + ((1,) if nf > 1 else ()):
                    m = min(nf, 3 if neigs is None else neigs)
                    where = lambda: 'nd=%d %s base=%s ab=%s motion=%s neigs=%s' % (nd, kind, case['flag'], ab, Ub, neigs)
                    want = []
                    for w in ws:
                        D = K - w * w * M + 1j * w * C
                        F = -(D[f][:, flag].sum(axis=1)) * (Ub[0] - 1j * Ub[1])
                        a, b = direct(M[g], C[g], K[g], w, F) if m == nf else modal(M[g], K[g], ab, w, F, m)
                        want.append(np.r_[a, b, w])
                    want = np.array(want)
                    ub, fl, wa = np.array(Ub), flag.copy(), np.array(ws)
                    got = vib.linear_frf_base(wa, ub, fl, NonlinearSolver(), **({} if neigs is None else dict(neigs=neigs)))
                    rec.step(len(ws))
                    rec.state(nd, tuple(case['flag']), kind, ab, tuple(Ub), neigs)
                    if rec.expect(got.shape == want.shape, 'layout', where):
                        sc = np.max(np.abs(want[:, :-1]), axis=1, keepdims=True) + 1e-12
                        rec.expect(np.max(np.abs(got[:, :-1] - want[:, :-1]) / sc) < 1e-7, 'base excitation response', lambda: where() + ' got %s expected %s' % (got, want))
                    rec.expect(np.array_equal(ub, Ub) and np.array_equal(fl, flag) and np.array_equal(wa, ws), 'input modified', where)
                    if m == nf:
                        # the harmonic balance residual with the same base motion vanishes at the response
                        nb = int(flag.sum())
                        for r in got[1:4]:
                            R = vib.hbm_base_res(np.r_[r[:-1], r[-1]], np.r_[np.full(nb, ub[0]), np.full(nb, ub[1])], flag, np.array([1]))[0]
                            rec.close(R, 0 * R, 'residual at the response', where, atol=1e-7 * (1 + np.max(np.abs(r)) * np.max(np.abs(K))))
                    rec.outcome('base', nf, int(flag.sum()), m == nf)
            rec.trace()
    rec.sample('nd=%d base=%s' % (nd, case['flag']))


def run_guess(case, rec):
    nd, h = case['nd'], case['h']
    n = ref.nhc(h)
    o = nd * (h[0] == 0)
    harr = np.array(h)
    M, K = sysmats(nd, 'full')
    sol = NonlinearSolver()
    nl = Sys(nd, ['cubic1', 'poly1'], mats=(M, 0 * M, K))
    recs = [np.eye(nd)[0], ref.lattice_vec(nd, 8)]
    modes = case.get('modes', nd)
    m = min(nd, 3 if modes is None else modes)
    mk = {} if modes is None else dict(neigs=modes)

    def lin(w, F):
        a, b = direct(M, C, K, w, F) if m == nd else modal(M, K, ab, w, F, m)
        return a - 1j * b

    def zero(R, U, key, where, amp=1.0):
        """only the response of all modes satisfies the equations"""
        if m == nd:
            check0(rec, R, U, K, key, where, amp)
    for ab in (AB[1], AB[3], AB[4]) if modes == nd and 'modes' not in case else (AB[3],):
        vib = VibrationSystem(M.copy(), K.copy(), ab=list(ab))
        C = ab[0] * M + ab[1] * K
        wn, _ = freqs(K, M, True)
        for wi, w in enumerate((0.37 * wn[0], wn[0], 1.7 * wn[-1])):
            for pi, (c, s) in enumerate(((1, 0), (0, 1), (0.5, -0.8))):
                Fl = np.zeros(n * nd)
                v = ref.lattice_vec(nd, 3 + pi)
                Fl[o:o + nd], Fl[o + nd:o + 2 * nd] = c * v, s * v
                xs = ref.lattice_vec(nd, 14)
                for stat in (False, True) if h[0] == 0 else (False, 'ignored'):
                    F = Fl.copy()
                    if stat is True:
                        F[:nd] = K @ xs
                    sk = dict(Xstat=xs.copy()) if stat else {}
                    where = lambda: 'modes=%s nd=%d h=%s ab=%s w=%s force %s static=%s' % (modes, nd, h, ab, w, (c, s), stat)
                    rec.state(nd, tuple(h), ab, wi, pi, stat)
                    rec.trace()
                    # HBM
                    for fm in (1.0, -2.5):
                        F0 = F.copy()
                        U = hutils.predict_harmonic_solution(vib, w, F, harr, sol, ('HBM', 'hbm')[wi % 2], fmag=fm, **mk, **sk)
                        rec.expect(np.array_equal(F, F0), 'input modified', where)
                        Fx = fm * F
                        if stat is True:
                            Fx[:nd] = K @ xs
                        if rec.expect(U.shape == (n * nd + 1,) and U[-1] == w, 'layout HBM', where):
                            zero(vib.hbm_res(U, Fx, harr)[0], U, 'HBM guess', where)
                            z = lin(w, fm * (c - 1j * s) * v)
                            rec.close(U[o:o + 2 * nd], np.r_[z.real, -z.imag], 'HBM guess response', where, rtol=1e-7)
                        rec.step()
                    for order, amp, (ri, R) in itertools.product((0, 1, 2), (0.03, 4.0), enumerate(recs)):
                        ck = dict(control_amp=amp, control_recov=R.copy(), control_order=order, **mk, **sk)
                        U = hutils.predict_harmonic_solution(vib, w, F, harr, sol, 'HBM_AMP', **ck)
                        rec.step()
                        if rec.expect(U.shape == (n * nd + 2,) and U[-1] == w, 'layout amplitude', where):
                            if stat is not True:
                                zero(vib.hbm_amp_control_res(U, F, harr, R, amp, order)[0], U, 'amplitude guess', where, amp)
                            else:
                                rec.close(U[:nd], xs, 'static part', where)
                                F2 = F.copy()
                                F2[:nd] = K @ xs
                                zero(vib.hbm_amp_control_res(U, F2, harr, R, amp, order)[0], U, 'amplitude guess', where, amp)
                            z = lin(w, (c - 1j * s) * v)
                            z = z * amp / (abs(R @ z) * w ** order)
                            rec.close(U[o:o + 2 * nd], np.r_[z.real, -z.imag], 'amplitude guess response', where, rtol=1e-7)
                            z = R @ U[o:o + nd], R @ U[o + nd:o + 2 * nd]
                            rec.close(np.hypot(*z) * w ** order, amp, 'controlled amplitude', where, rtol=1e-8)
                        if s:
                            continue
                        for eq in ('HBM_AMP_PHASE', 'VPRNM_AMP_PHASE'):
                            if eq[0] == 'V' and (len(h) - (h[0] == 0) < 2 or order == 1):
                                continue
                            for rhi in ([k for k in h if k > 1] if eq[0] == 'V' else [None]):
                                vk = dict(rhi=rhi, vib_sys_nl=nl.vib, vprnm_calc_grad=bool(ri)) if rhi else {}
                                U = hutils.predict_harmonic_solution(vib, w, F, harr, sol, eq, **ck, **vk)
                                rec.step()
                                rec.outcome(eq, rhi)
                                ext = 4 if rhi else 3
                                if not rec.expect(U.shape == (n * nd + ext,), 'layout ' + eq, where):
                                    continue
                                P = U.copy()
                                if rhi:
                                    rec.expect(U[-1] == amp, 'amplitude entry', where)
                                    P = U[:-1].copy()
                                    i = ref.nhc([k for k in h if k < rhi]) * nd
                                    base = P[:-3].copy()
                                    base[i:i + 2 * nd] = 0
                                    Fn = nl.nl(base, w, h, 128)[0][i:i + 2 * nd]
                                    z = lin(rhi * w, -(Fn[:nd] - 1j * Fn[nd:]))
                                    rec.close(P[i:i + 2 * nd], np.r_[z.real, -z.imag], 'superharmonic guess', where, rtol=1e-6, atol=1e-9 * np.max(np.abs(base)) ** 3)
                                    P[i:i + 2 * nd] = 0
                                rec.expect(P[-1] == w, 'frequency entry', where)
                                z = lin(w, c * v)
                                r = R @ z
                                g = amp / (abs(r) * w ** order) * abs(r) / r
                                rec.close(P[o:o + 2 * nd], np.r_[(g * z).real, -(g * z).imag], 'response of the guess with phase', where, rtol=1e-7)
                                rec.close(P[-3:-1], np.r_[g.real, -g.imag], 'force of the guess with phase', where, rtol=1e-7)
                                if stat is True:
                                    rec.close(P[:nd], xs, 'static part', where)
                                zero(vib.hbm_amp_phase_control_res(P, F, harr, R, amp, order)[0], P, eq + ' guess', where, amp)
                                rec.expect(R @ P[o:o + nd] > 0, 'phase', where)
            if not rec.outcomes:
                rec.outcome('guess')
    rec.sample('nd=%d h=%s' % (nd, h))


def check0(rec, R, U, K, key, where, amp=1.0):
    rec.expect(np.isfinite(R).all() and np.max(np.abs(R)) < 1e-7 * (amp + (1 + np.max(np.abs(U[:-1]))) * np.max(np.abs(K))), key, lambda: where() + ' residual %s' % R)
