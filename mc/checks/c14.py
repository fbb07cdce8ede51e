import itertools
import numpy as np
from scipy.integrate import solve_ivp
import ref
import elems
from systems import Sys, matrices
from tmdsimpy.postprocess import shooting as post

ID = 'C14'
LEVEL = 'model_checking'
RULE = ('element mixtures of size 0..3 (complete for 0-2 over the displacement-dependent pool, same kind twice included) x 1-3 DOFs x forcing patterns (none, cosine, sine, both) x initial states and frequencies of a lattice, '
        'plus exact steady states of linear systems. Oracle: an independent high-order integration of the full equation of motion with its variational equations. State = (mixture, DOFs, forcing, initial state); transition = one shooting evaluation.')
ASSUMPTIONS = ['the integrator of the implementation is compared at 1e-5 relative accuracy (2e-3 with contact corners)', 'elements depending on velocity are outside shooting (documented)']
POOL = ['cubic2', 'quintic1', 'unilat+', 'poly2', 'iwanbb', 'unilat-', 'poly1']


def cases(tier):
    out = [dict(els=[], nd=nd, steady=True) for nd in (1, 2, 3)]
    mixes = [list(c) for k in (0, 1, 2) for c in itertools.combinations_with_replacement(POOL, k)]
    mixes += [list(c) for c in itertools.combinations(POOL, 3)] if tier != 'quick' else [['cubic2', 'unilat+', 'poly2'], ['quintic1', 'iwanbb', 'poly1']]
    for i, m in enumerate(mixes):
        for nd in ((1, 2, 3) if len(m) < 2 or tier != 'quick' else (1 + i % 3,)):
            out.append(dict(els=m, nd=nd, steady=False))
    return out


def reference(s, z0, w, Fl, Nt):
    nd = s.nd
    Mi = np.linalg.inv(s.M)

    def rhs(t, y):
        U, V = y[:nd], y[nd:2 * nd]
        S = y[2 * nd:2 * nd + 4 * nd * nd].reshape(2 * nd, 2 * nd)
        sw = y[-2 * nd:]
        F, J = s.C @ V + s.K @ U, s.K.copy()
        for e in s.els:
            f, a, _, _ = e.glob(U, V)
            F, J = F + f, J + a
        c, si = np.cos(w * t), np.sin(w * t)
        A = np.block([[np.zeros((nd, nd)), np.eye(nd)], [-Mi @ J, -Mi @ s.C]])
        dz = np.concatenate([V, Mi @ (Fl[:nd] * c + Fl[nd:2 * nd] * si - F)])
        fw = np.concatenate([np.zeros(nd), Mi @ (t * (-Fl[:nd] * si + Fl[nd:2 * nd] * c))])
        return np.concatenate([dz, (A @ S).ravel(), A @ sw + fw])
    T = 2 * np.pi / w
    y0 = np.concatenate([z0, np.eye(2 * nd).ravel(), np.zeros(2 * nd)])
    r = solve_ivp(rhs, (0, T), y0, method='DOP853', rtol=1e-9, atol=1e-11, t_eval=np.linspace(0, T, Nt + 1), max_step=T / 48)
    y = r.y[:, -1]
    S = y[2 * nd:2 * nd + 4 * nd * nd].reshape(2 * nd, 2 * nd)
    zdot = rhs(T, y)[:2 * nd]
    return y[:2 * nd] - z0, S, y[-2 * nd:] - 2 * np.pi / w ** 2 * zdot, r.y[:2 * nd]


def run(case, rec):
    nd = case['nd']
    if case['steady']:
        for sd in range(3):
            M, C, K = matrices(nd, sd)
            s = Sys(nd, [], mats=(M, 0.3 * np.eye(nd) + 0.2 * C, K))
            for w in (0.6, 1.1, 2.4):
                for f in ((1, 0), (0, 1), (0.5, -1.2)):
                    v = ref.lattice_vec(nd, sd)
                    Fl = np.concatenate([f[0] * v, f[1] * v])
                    z = np.linalg.solve(K - w * w * M + 1j * w * s.C, (f[0] - 1j * f[1]) * v)
                    z0 = np.concatenate([z.real, (1j * w * z).real])
                    R, J, dw, aux = s.vib.shooting_res(np.append(z0, w), Fl, return_aux=True)
                    rec.step()
                    where = lambda: 'linear steady state nd=%d w=%s' % (nd, w)
                    rec.close(R, 0 * R, 'steady state is a zero', where, atol=1e-6 * (1 + np.max(np.abs(z0))))
                    t = np.arange(129) / 128 * 2 * np.pi
                    rec.close(aux[1], np.real(z[:, None] * np.exp(1j * t)[None, :]), 'steady state time series', where, rtol=1e-5, atol=1e-7)
                    rec.close(aux[2], np.real(1j * w * z[:, None] * np.exp(1j * t)[None, :]), 'steady state velocity series', where, rtol=1e-5, atol=1e-7)
                    rec.state('steady', nd, sd, w, f)
                    rec.trace()
        return
    s = Sys(nd, case['els'], seed=2 + len(case['els']), mats=(lambda a: (a[0], 0.5 * a[1], a[2]))(matrices(nd, 6)))
    kink = any(n[:6] in ('unilat', 'iwanbb') for n in case['els'])
    rt = 2e-3 if kink else 2e-5
    jt = 3e-2 if kink else 2e-5
    rows, wants = [], []
    for k, (w, amp, Nt, f) in enumerate([(1.2, 0.6, 128, (1, 0)), (0.7, 0.3, 128, (0, 1)), (2.6, 1.0, 64, (0.5, -1.2)), (1.7, 0.8, 128, (0, 0))]):
        z0 = ref.lattice_vec(2 * nd, k + nd) * amp
        v = ref.lattice_vec(2 * nd, k + 9)
        Fl = np.concatenate([f[0] * v[:nd], f[1] * v[nd:]])
        for _ in range(12):             # stay inside the basin of bounded motion
            try:
                want = reference(s, z0, w, Fl, Nt)
                if len(want[3][0]) == Nt + 1 and np.max(np.abs(want[3])) < 4 and np.max(np.abs(want[1])) < 30:
                    break
            except (ValueError, IndexError, FloatingPointError):
                pass
            z0, Fl = 0.5 * z0, 0.5 * Fl
        X = np.append(z0, w)
        X0, F0 = X.copy(), Fl.copy()
        where = lambda: '%s nd=%d w=%s forcing=%s z0=%s' % (case['els'], nd, w, Fl.tolist(), z0.tolist())
        r = s.vib.shooting_res(X, Fl) if Nt == 128 else s.vib.shooting_res(X, Fl, Nt=Nt)
        rec.step()
        sc = max(1.0, np.max(np.abs(want[3])))
        rec.close(r[0], want[0], 'residual', where, rtol=0, atol=rt * sc)
        rec.close(r[1], want[1] - np.eye(2 * nd), 'state Jacobian', where, rtol=jt, atol=jt)
        rec.close(r[2], want[2], 'frequency derivative', where, rtol=jt * 3, atol=jt * sc)
        q = s.vib.shooting_res(X, Fl, Nt=Nt, return_aux=True)
        for a, b in zip(q[:3], r):
            rec.expect(np.array_equal(a, b), 'auxiliary output changes the result', where)
        rec.close(q[3][0], want[1], 'monodromy', where, rtol=jt, atol=jt)
        rec.close(q[3][1], want[3][:nd], 'displacement series', where, rtol=rt, atol=rt)
        rec.close(q[3][2], want[3][nd:], 'velocity series', where, rtol=rt, atol=rt)
        rec.expect(np.array_equal(X, X0) and np.array_equal(Fl, F0), 'input modified', where)
        rec.state(tuple(case['els']), nd, k)
        y, yd, stable, ev = post.time_stability(s.vib, np.vstack([X, X]), Fl, Nt=Nt)
        mags = np.max(np.abs(np.linalg.eigvals(want[1])))
        for c in (0, 1):
            rec.close(y[:, :, c], q[3][1], 'post-processed displacement', where, rtol=1e-12)
            rec.close(yd[:, :, c], q[3][2], 'post-processed velocity', where, rtol=1e-12)
            rec.close(ev[c], mags, 'Floquet multiplier', where, rtol=max(1e-3, 5 * jt), atol=1e-6)
            if abs(mags - 1) > max(2e-3, 10 * jt):
                rec.expect(bool(stable[c]) == (mags < 1), 'stability', where)
        rec.outcome('stable' if mags < 1 else 'unstable', kink)
    rec.trace()
    rec.sample('%s nd=%d' % (case['els'], nd))
