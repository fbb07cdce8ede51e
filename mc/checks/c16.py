"""C16: continuation with the real solvers on curves known in closed form, for all configurations."""
import itertools
import numpy as np
import ref
import tmdsimpy
from tmdsimpy.continuation import Continuation
from tmdsimpy.solvers import NonlinearSolver
from tmdsimpy.jax.solvers import NonlinearSolverOMP
from tmdsimpy.nlforces.cubic_stiffness import CubicForce
from tmdsimpy.vibration_system import VibrationSystem

ID = 'C16'
CASE_LIMIT = 1500
LEVEL = 'model_checking'
RULE = ('analytic curves (line, two S-curves with two folds, wavy curve with many folds, ellipse travelled for several laps, backtracking fold, mixed linear curves in 1-4 unknowns, Duffing frequency response of the real system) '
        'times all combinations of direction, FracLam {0,.2,.4,.5,.6,.7,1}, corrector, conditioning (none, vector, dynamic), residual scaling, step bounds, solver (package Newton solver, plain Newton), FracLamList. Every stored point: residual, '
        'orientation det[J;t] constant, curve parameter strictly monotone, step measured in the documented metric inside [dsmin,dsmax] and growing at most by MaxIncrease, first step towards the end, end bracketed or step limit/backtrack limit. '
        'Component level: predict and correct_res on a lattice of points, previous points, weights, conditionings. State = (curve, configuration, point index); transition = one continuation step.')
ASSUMPTIONS = ['step sizes are small compared with the curvature of the curve', 'runs with pure parameter control (FracLam=1) may stop at a fold',
               'no component of the state vector vanishes as a whole (documented division by its norm)']


# ---------------------------------------------------------------- curves
class Curve:
    """z = T^-1 (X - x0); z0 = s, z_i = q_i(s), lam = p(s)"""

    def __init__(self, p, dp, s0, s1, n=1, seed=3):
        self.p, self.dp, self.s0, self.s1, self.n = (lambda s: 0.1 * p(s)), (lambda s: 0.1 * dp(s)), s0, s1, n
        self.T = np.eye(n) + 0.3 * ref.lattice_mat(n, n, seed)
        self.Ti = np.linalg.inv(self.T)
        self.S = np.eye(n) + 0.25 * ref.lattice_mat(n, n, seed + 2)
        self.x0 = 12.0 + np.arange(n)
        self.q = [lambda s: 0.0 * s, lambda s: 0.3 * s + 0.2, lambda s: 0.05 * s * s - 1.0, lambda s: 0.4 * np.sin(0.7 * s)]
        self.dq = [lambda s: 0.0 * s, lambda s: 0.3, lambda s: 0.1 * s, lambda s: 0.28 * np.cos(0.7 * s)]

    def start(self):
        return self.point(self.s0)

    def point(self, s):
        z = np.array([s] + [self.q[i](s) for i in range(1, self.n)])
        return np.r_[self.x0 + self.T @ z, self.p(s)]

    def param(self, X):
        return (self.Ti @ (X[:-1] - self.x0))[0]

    def fun(self, X, calc_grad=True):
        z = self.Ti @ (X[:-1] - self.x0)
        s = z[0]
        R = np.r_[self.p(s) - X[-1], [z[i] - self.q[i](s) for i in range(1, self.n)]]
        if not calc_grad:
            return (self.S @ R,)
        dz = np.zeros((self.n, self.n))
        dz[0, 0] = self.dp(s)
        for i in range(1, self.n):
            dz[i, i] = 1.0
            dz[i, 0] = -self.dq[i](s)
        return self.S @ R, self.S @ dz @ self.Ti, self.S @ np.r_[-1.0, np.zeros(self.n - 1)]


class Ellipse:
    def __init__(self, start_ang, rot):
        self.n = 1
        self.a0, self.rot = start_ang, rot
        self.x0, self.l0, self.a, self.b = 4.0, 2.0, 1.5, 1.0

    def start(self):
        return np.array([self.x0 + self.a * np.cos(self.a0), self.l0 + self.b * np.sin(self.a0)])

    def param(self, X):
        return np.arctan2((X[-1] - self.l0) / self.b, (X[0] - self.x0) / self.a)

    def fun(self, X, calc_grad=True):
        u, v = (X[0] - self.x0) / self.a, (X[1] - self.l0) / self.b
        R = np.array([u * u + v * v - 1])
        if not calc_grad:
            return (R,)
        return R, np.array([[2 * u / self.a]]), np.array([2 * v / self.b])


class Duffing:
    """one DOF hardening/softening oscillator solved by the real harmonic balance residual"""
    def __init__(self, alpha, W0):
        self.n = 2
        self.sys = VibrationSystem(np.array([[1.0]]), np.array([[1.0]]), C=np.array([[0.06]]))
        self.sys.add_nl_force(CubicForce(np.array([[1.0]]), np.array([[1.0]]), np.array([alpha])))
        self.alpha, self.W0 = alpha, W0
        self.F = np.array([0.3, 0.0])

    def start(self):
        W = self.W0
        return np.r_[0.3 / (1 - W * W), 0.01, W]

    def amp_err(self, X):
        A2 = X[0] ** 2 + X[1] ** 2
        return ((1 + 0.75 * self.alpha * A2 - X[2] ** 2) ** 2 + (0.06 * X[2]) ** 2) * A2 - 0.09

    def fun(self, X, calc_grad=True):
        out = self.sys.hbm_res(X, self.F, np.array([1]), Nt=32, calc_grad=calc_grad)
        return out


CURVES = {
    'line': (lambda s: s, lambda s: 1.0 + 0 * s, 0.2, 2.2),
    'steep': (lambda s: 6 * s, lambda s: 6.0 + 0 * s, 0.2, 1.2),
    'S': (lambda s: s ** 3 / 3 - s, lambda s: s * s - 1, -2.2, 2.3),
    'S2': (lambda s: s + 1.8 * np.sin(s), lambda s: 1 + 1.8 * np.cos(s), 0.3, 8.0),
    'wavy': (lambda s: 0.3 * s + 0.9 * np.sin(1.5 * s), lambda s: 0.3 + 1.35 * np.cos(1.5 * s), 0.0, 9.0),
}


def make(name, n=1, d=1):
    if name in CURVES:
        p, dp, a, b = CURVES[name]
        if d < 0:
            a, b = b, a
        return Curve(p, dp, a, b, n)
    if name == 'ellipse':
        return Ellipse(-0.4 if d > 0 else 0.4, d)
    if name == 'fold':
        return Curve(lambda s: d * (0.4 - 0.5 * (s - 2.0) ** 2), lambda s: -d * (s - 2.0), 1.2, 9.0, n)
    return Duffing(0.05, 0.4 if d > 0 else 1.9) if name == 'hard' else Duffing(-0.002, 0.4 if d > 0 else 1.9)


class Plain(NonlinearSolver):
    """plain Newton, independent of the package (the linear solves are the package's)"""

    def nsolve(self, fun, X0, verbose=True, xtol=None, **kw):
        X = np.array(X0, dtype=float)
        for i in range(25):
            R, J = fun(X)[:2]
            if not np.isfinite(R).all():
                break
            dX = np.linalg.solve(J, -R)
            X = X + dX
            if np.max(np.abs(dX)) < 1e-10:
                R, J = fun(X)[:2]
                return X, R, J, dict(message='ok', nfev=i + 2, njev=i + 2, success=True)
        return X, R, J, dict(message='no', nfev=25, njev=25, success=False)


SOLVERS = {
    'plain': lambda: Plain(),
    'newton': lambda: NonlinearSolverOMP(config=dict(max_steps=25, reform_freq=1, verbose=False, xtol=1e-9, stopping_tol=['xtol'])),
}


def cases(tier):
    out = []
    full = tier != 'quick'
    curves = [('line', 1), ('line', 3), ('steep', 2), ('S', 1), ('S', 2), ('S', 4), ('S2', 2), ('wavy', 1), ('ellipse', 1), ('fold', 1), ('fold', 2), ('hard', 2)]
    if full:
        curves += [('line', 2), ('line', 4), ('S', 3), ('S2', 1), ('S2', 4), ('wavy', 2), ('wavy', 3), ('fold', 3), ('soft', 2), ('steep', 1)]
    out.append(dict(kind='parts', full=full))
    for name, n in curves:
        for d in (1, -1):
            for solver in ('plain',) + (('newton',) if (name, n) in (('S', 2), ('line', 3), ('ellipse', 1), ('hard', 2)) and (full or name != 'hard') else ()):
                for corr in ('Ortho', 'Pseudo'):
                    out.append(dict(kind='trace', curve=name, n=n, d=d, solver=solver, corr=corr, full=full))
    slow = [c for c in out if c['kind'] == 'trace' and (c['solver'] != 'plain' or c['curve'] in ('hard', 'soft'))]
    return slow + [c for c in out if c not in slow]


def run(case, rec):
    np.seterr(all='ignore')
    if case['kind'] == 'parts':
        return parts(case, rec)
    full = case['full']
    name, n, d = case['curve'], case['n'], case['d']
    if name == 'fold':
        backs = (0.03, 0.1)
    elif name == 'ellipse':
        backs = (np.inf, 2.5) if case['solver'] == 'plain' else (2.5,)
    else:
        backs = (np.inf,)
    fracs = (0.0, 0.2, 0.4, 0.5, 0.6, 0.7, 1.0) if full else (0.0, 0.4, 0.7, 1.0)
    slow = case['solver'] != 'plain' or name in ('hard', 'soft')
    for fl in fracs:
        for cond in ('none', 'vec', 'dyn') if full or not slow else ('none', 'dyn'):
            for rs in ((None, 0.01, 'vec') if full and not slow else ((None,) if cond != 'vec' else ('vec', 0.01))):
                for steps in ('small', 'wide', 'fixed') if full or not slow else ('wide',):
                    for back in backs:
                        for lst in ([], [0.5]) if fl == 1.0 else ([],):
                            trace(case, fl, cond, rs, steps, back, lst, rec)


def trace(case, fl, cond, rs, steps, back, lst, rec):
    name, n, d = case['curve'], case['n'], case['d']
    if (name == 'ellipse' and fl == 0.0) or (fl == 1.0 and name not in ('line', 'steep')):
        return                                              # metric degenerates on the loop / parameter control cannot pass a fold
    cur = make(name, n, d)
    X0 = cur.start()
    lam0 = X0[-1]
    if isinstance(cur, Curve):
        lam1 = cur.p(cur.s1) if name != 'fold' else lam0 + d * 0.5
    elif name == 'ellipse':
        lam1 = cur.l0 + d * 5.0
    else:
        lam1 = 1.9 if d > 0 else 0.4
    CtoP = None
    if cond == 'vec':
        CtoP = np.r_[1.5 + 0.5 * np.arange(cur.n), 2.0] * np.r_[-1.0, np.ones(cur.n)]
    elif cond == 'dyn':
        CtoP = np.r_[1.0 + np.arange(cur.n), 2.5]
    RP = None if rs is None else (rs if rs != 'vec' else 1.0 + np.arange(cur.n + 1.0))
    # step sizes in the metric (1-b) |dX|^2/|X|^2 + b dlam^2 of the conditioned space, so that the physical step stays below hx
    hx = {'hard': 0.25, 'soft': 0.25, 'ellipse': 0.22, 'wavy': 0.1}.get(name, 0.16)
    c0 = np.ones(cur.n + 1) if CtoP is None else np.maximum(np.abs(CtoP), np.abs(X0) if cond == 'dyn' else 0)
    big = np.max(c0[:-1]) * np.linalg.norm(X0[:-1] / c0[:-1])
    top = hx * np.sqrt(1 - fl) / big if fl < 1 else 0.5 * hx / c0[-1]
    if name in ('hard', 'soft'):
        top = 0.06 * np.sqrt(1 - fl)
    ds0, dsmin, dsmax = {'small': (0.5 * top, 0.1 * top, 0.8 * top), 'wide': (0.3 * top, 0.02 * top, top), 'fixed': (0.6 * top, 0.6 * top, 0.6 * top)}[steps]
    maxs = 300 if name != 'ellipse' else 120
    cfg = dict(FracLam=fl, ds0=ds0, dsmin=dsmin, dsmax=dsmax, MaxSteps=maxs, verbose=-1, corrector=case['corr'], DynamicCtoP=cond == 'dyn',
               FracLamList=list(lst), backtrackStop=back, TargetNfev={'small': 6, 'wide': 12, 'fixed': 20}[steps], MaxIncrease={'small': 1.2, 'wide': 1.5, 'fixed': 1.2}[steps])
    cbs = []
    cfg['callback'] = lambda X, t: cbs.append((np.copy(X), np.copy(t)))
    solver = SOLVERS[case['solver']]()
    cont = Continuation(solver, ds0=1.0, CtoP=None if CtoP is None else CtoP.copy(), RPtoC=RP if not isinstance(RP, np.ndarray) else RP.copy(), config=cfg)
    guess = X0.copy()
    guess[:-1] *= 1.002
    H = cont.continuation(cur.fun, guess, lam0, lam1)
    rec.trace()
    rec.step(len(H))
    where = lambda: '%s n=%d dir %d solver %s %s FracLam %s list %s cond %s scaling %s steps %s backtrack %s' % (name, n, d, case['solver'], case['corr'], fl, lst, cond, rs, steps, back)
    C0 = np.ones(cur.n + 1) if CtoP is None else np.abs(CtoP)
    rec.expect(H[0, -1] == lam0, 'first point is not at the start parameter', where)
    s_prev, ori_prev, ds_prev = None, None, None
    bs = [fl] + lst
    ttol = 1e-5
    for k in range(len(H)):
        rec.state(name, n, d, case['solver'], case['corr'], fl, cond, rs, steps, back, len(lst), k)
        R, J, Jl = cur.fun(H[k])
        if not rec.expect(np.max(np.abs(R)) < 1e-6, 'stored point is not a solution', lambda: where() + ' point %d residual %s' % (k, R)):
            return
        if name in ('hard', 'soft'):
            rec.expect(abs(cur.amp_err(H[k])) < 1e-5, 'closed form of the response', lambda: where() + ' point %d' % k)
        if k == 0:
            P = np.r_[H[0, :-1], lam0 - d]
            dprev = np.r_[np.zeros(cur.n), d]
        # travel direction at point k
        _, _, Vt = np.linalg.svd(np.hstack((J, Jl[:, None])))
        t = Vt[-1]
        A = np.vstack((np.hstack((J, Jl[:, None])), t))
        ori = np.sign(np.linalg.det(A))
        if k == 0:
            if t[-1] * d < 0:
                t, ori = -t, -ori
            ori_prev = ori
        elif ori != ori_prev:
            t = -t
        if k + 1 < len(H):
            dX = H[k + 1] - H[k]
            if not rec.expect(dX @ t > 0 if cond == 'none' else (dX / C0 ** 2) @ t > 0 or dX @ t > 0, 'travels backwards', lambda: where() + ' point %d: %s -> %s, tangent %s' % (k, H[k], H[k + 1], t)):
                return
            if k == 0:
                rec.expect(d * dX[-1] > 0, 'first step goes away from the requested end', where)
            C = np.maximum(np.abs(H[k]), C0) if cond == 'dyn' else C0
            okay, best = False, None
            for b in bs:
                c = (1 - b) / np.linalg.norm(H[k, :-1] / C[:-1]) ** 2
                tc, dc = t / C, dX / C
                tc = tc / np.sqrt(c * tc[:-1] @ tc[:-1] + b * tc[-1] ** 2)
                if case['corr'] == 'Ortho':
                    ds = c * tc[:-1] @ dc[:-1] + b * tc[-1] * dc[-1]
                else:
                    ds = np.sqrt(c * dc[:-1] @ dc[:-1] + b * dc[-1] ** 2)
                if dsmin * (1 - ttol) - 1e-9 <= ds <= dsmax * (1 + ttol) + 1e-9 and (k > 0 or ds <= ds0 * (1 + ttol)) and (
                        ds_prev is None or ds <= max(ds_prev * cfg['MaxIncrease'] * (1 + 10 * ttol), dsmin * (1 + ttol))):
                    okay, best = True, ds
                    break
                best = ds
            if not rec.expect(okay, 'step size', lambda: where() + ' point %d: step %s previous %s bounds [%s, %s]' % (k, best, ds_prev, dsmin, dsmax)):
                return
            ds_prev = best
        # callback direction is the tangent of the point it started from
        if k + 1 < len(H) and k + 1 < len(cbs):
            g = cbs[k + 1][1]
            cosang = g @ t / np.linalg.norm(g) / np.linalg.norm(t)
            rec.expect(cosang > 1 - 1e-6, 'prediction direction is not the tangent', lambda: where() + ' point %d: %s, tangent %s' % (k, g, t))
        if hasattr(cur, 'param'):
            s = cur.param(H[k])
            if s_prev is not None:
                ds_ = s - s_prev
                if name == 'ellipse':
                    ds_ = (ds_ + np.pi) % (2 * np.pi) - np.pi
                sgn = 1.0 if not isinstance(cur, Curve) else np.sign(cur.s1 - cur.s0)
                if name == 'ellipse':
                    sgn = d
                if not rec.expect(0 < ds_ * sgn < 1.2, 'does not advance along the curve', lambda: where() + ' point %d parameter %s -> %s' % (k, s_prev, s)):
                    return
            s_prev = s
    rec.expect(len(cbs) == len(H) + 1, 'callbacks', lambda: where() + ' %d for %d points' % (len(cbs), len(H)))
    g = cbs[-1][1]
    # termination
    dl = d * H[:, -1]
    rec.expect(np.all(dl[:-1] < d * lam1), 'went on behind the end', where)
    rec.expect(np.all(dl[:-1] > d * lam0 - back), 'went on behind the backtrack limit', where)
    if dl[-1] >= d * lam1:
        kind = 'end'
    elif dl[-1] <= d * lam0 - back:
        kind = 'backtrack'
    elif len(H) == maxs:
        kind = 'limit'
    else:
        kind = 'failed'
    rec.outcome(name, kind)
    folds = name not in ('line', 'steep')
    if kind == 'failed':
        ok = fl == 1.0 and folds and not lst
        rec.expect(ok, 'stopped early', lambda: where() + ' after %d points at %s' % (len(H), H[-1]))
    else:
        if kind != 'limit':
            ct = g @ t / np.linalg.norm(g) / np.linalg.norm(t)
            rec.expect(ct > 1 - 1e-6, 'final direction is not the tangent', where)
        want = {'line': 'end', 'steep': 'end', 'S': 'end', 'S2': 'end', 'hard': 'end', 'soft': 'end', 'fold': 'backtrack'}.get(name)
        if want == 'end' and np.isinf(back):
            rec.expect(kind in ('end', 'limit'), 'termination', lambda: where() + ' ' + kind)
    rec.sample(where() + ': %d points, %s' % (len(H), kind))


# ---------------------------------------------------------------- components
class Quad:
    """R_i = a_i.X + X.Q_i.X with all cross terms"""
    def __init__(self, n):
        self.n = n
        self.A = ref.lattice_mat(n, n + 1, 4) + np.hstack((2 * np.eye(n), np.zeros((n, 1))))
        self.Q = np.array([0.2 * ref.lattice_mat(n + 1, n + 1, 9 + i) for i in range(n)])

    def fun(self, X, calc_grad=True):
        R = self.A @ X + np.einsum('ijk,j,k->i', self.Q, X, X)
        if not calc_grad:
            return (R,)
        J = self.A + np.einsum('ijk,k->ij', self.Q + self.Q.transpose(0, 2, 1), X)
        return R, J[:, :-1], J[:, -1]


def parts(case, rec):
    ns = (1, 2, 3, 5) if case['full'] else (1, 2, 3)
    for n in ns:
        fun = Quad(n).fun
        for b, cond, rs, corr in itertools.product((0.0, 0.25, 0.5, 1.0), (1.0, 'vec'), (None, 0.03, 'vec', 'dyn'), ('Ortho', 'Pseudo', 'ortho', 'PSEUDO')):
            CtoP = np.ones(n + 1) if cond == 1.0 else np.r_[0.4 + 0.9 * np.arange(n), 3.0]
            RP = {None: 1.0, 'vec': 1.0 + np.arange(n), 'dyn': 1.0}.get(rs, rs)
            for seed in range(3 if not case['full'] else 8):
                X = ref.lattice_vec(n + 1, seed) + 1.5
                for sg in (1, -1):
                    prev = X - sg * 0.1 * (ref.lattice_vec(n + 1, seed + 5) + np.r_[0.2 * np.ones(n), 0.5])
                    dp = sg * (ref.lattice_vec(n + 1, seed + 7) + 0.3)
                    cont = Continuation(NonlinearSolver(), CtoP=CtoP.copy(), RPtoC=RP, config=dict(FracLam=b, corrector=corr, DynamicCtoP=rs == 'dyn', verbose=-1))
                    args = [X.copy(), prev.copy(), dp.copy()]
                    t = cont.predict(fun, *args)
                    rec.step()
                    rec.state(n, b, cond, rs, corr, seed, sg)
                    where = lambda: 'n=%d FracLam %s cond %s scaling %s %s point %d sign %d' % (n, b, cond, rs, corr, seed, sg)
                    rec.expect(all(np.array_equal(x, y) for x, y in zip(args, (X, prev, dp))), 'predict modified its arguments', where)
                    R, J, Jl = fun(X)
                    Jt = np.hstack((J, Jl[:, None]))
                    rec.expect(np.max(np.abs(Jt @ (t * CtoP))) < 1e-9 * np.max(np.abs(t)) * 30, 'direction is not tangent', lambda: where() + ' %s' % t)
                    c = (1 - b) / np.linalg.norm(X[:-1] / CtoP[:-1]) ** 2
                    ip = lambda x, y: c * x[:-1] @ y[:-1] + b * x[-1] * y[-1]
                    rec.close(ip(t, t), 1.0, 'direction is not a unit step', where)
                    proj = ip(t, (X - prev) / CtoP)
                    rec.expect(proj > -1e-12, 'direction reverses', lambda: where() + ' %s' % proj)
                    # corrector equations
                    for ds in (0.05, 1.3):
                        for off in range(3):
                            Y = X / CtoP + ds * t + 0.1 * off * ref.lattice_vec(n + 1, off + 20)
                            Ra, Ja = cont.correct_res(fun, Y.copy(), X / CtoP, ds, t.copy())
                            (Rb,) = cont.correct_res(fun, Y.copy(), X / CtoP, ds, t.copy(), calc_grad=False)
                            rec.step(2)
                            rec.close(Rb, Ra, 'residual without gradient', where, rtol=1e-13)
                            Rf, Jf, Jlf = fun(Y * CtoP)
                            # the curve equations up to one positive factor
                            if np.ndim(RP) == 0 and rs != 'dyn':
                                f = RP
                            else:
                                i = int(np.argmax(np.abs(Rf)))
                                f = Ra[i] / Rf[i]
                                rec.expect(np.isfinite(f) and f > 0, 'residual scaling', lambda: where() + ' %s' % f)
                            rec.close(Ra[:-1], f * Rf, 'curve residual', where, rtol=1e-9)
                            rec.close(Ja[:-1], f * np.hstack((Jf, Jlf[:, None])) * CtoP, 'curve Jacobian', where, rtol=1e-9)
                            D = Y - X / CtoP
                            if corr.upper() == 'ORTHO':
                                want = ip(D - ds * t, t) / ds
                                grad = np.r_[c * t[:-1], b * t[-1]] / ds
                            else:
                                want = (ip(D, D) - ds ** 2) / ds ** 2
                                grad = 2 * np.r_[c * D[:-1], b * D[-1]] / ds ** 2
                            rec.close(Ra[-1], want, 'parameterisation residual', where, rtol=1e-9, atol=1e-10)
                            rec.close(Ja[-1], grad, 'parameterisation Jacobian', where, rtol=1e-9)
                    rec.trace()
