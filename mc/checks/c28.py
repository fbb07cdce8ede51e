"""C28: every route through the package to a forced periodic response arrives at the same motion."""
import itertools
import numpy as np
import ref
import elems
from systems import Sys, HYST
from tmdsimpy.continuation import Continuation
from tmdsimpy.solvers import NonlinearSolver
from tmdsimpy.jax.solvers import NonlinearSolverOMP
from tmdsimpy.postprocess import continuation as cpost
from tmdsimpy.utils import harmonic as hutils

ID = 'C28'
CASE_LIMIT = 900
LEVEL = 'model_checking'
RULE = ('operating points (frequency, force level) on a 3 x 3 lattice are the states; moves are analyses that lead to a neighbouring point: frequency or force continuation, amplitude control, amplitude and phase control, amplitude continuation, '
        'a direct solve from a neighbour or from the linear guess. Every sequence of moves up to the depth is executed on the same system, solver and continuation objects, for all mixtures of elements, harmonic sets and solver/continuation settings listed. '
        'Oracle: every stored point satisfies the projected equation of motion and the documented constraint, the end is bracketed, and the response at the new point equals the one of a reference Newton solver, whatever the route. State = (system, setting, point); transition = one analysis.')
ASSUMPTIONS = ['systems and force levels for which the response is unique (checked by the reference solver from several starts)', 'full Newton steps: quasi-Newton steps may jump to another branch and are decided step by step in C17']

W = [0.8, 1.05, 1.3]
FM = [0.25, 0.4, 0.55]
SYSTEMS = {
    'cubic': (2, ['cubic1'], [0, 1, 3]), 'damped': (2, ['cubdamp1', 'quintic1'], [1, 3]), 'poly': (2, ['poly2'], [0, 1, 2, 3]), 'gap': (2, ['unilat+', 'cubdamp1'], [0, 1, 2, 3]),
    'slip': (2, ['jenkins'], [0, 1, 3]), 'slip3': (3, ['vjenkins', 'cubic1'], [1, 3]), 'iwan': (1, ['viwan'], [0, 1, 3]), 'backbone': (1, ['iwanbb', 'cubdamp1'], [1, 3, 5]), 'linear': (3, [], [0, 1, 2]),
    'two slips': (2, ['iwan', 'jenkins'], [0, 1, 2, 3]),
}


def omp(**kw):
    return NonlinearSolverOMP(config=dict(dict(max_steps=30, verbose=False, xtol=1e-10, stopping_tol=['xtol']), **kw))


SETTINGS = {
    'root': (lambda: NonlinearSolver(), dict(corrector='Ortho'), None),
    'newton': (lambda: omp(), dict(corrector='Pseudo'), 'vector'),
    'dynamic': (lambda: omp(), dict(corrector='Ortho', DynamicCtoP=True, FracLam=0.3), 'vector'),
    'weights': (lambda: omp(rtol=1e-9, stopping_tol=['rtol']), dict(corrector='Pseudo', FracLam=0.7, FracLamList=[0.7, 0.4], MaxIncrease=1.5, TargetNfev=6), None),
    'search': (lambda: omp(line_search_iters=4, max_steps=60), dict(corrector='Ortho', FracLam=0.4), None),
}


class World:
    def __init__(self, name, setting):
        self.name, self.setting = name, setting
        nd, els, h = SYSTEMS[name]
        A = ref.lattice_mat(nd, nd, 3)
        M = np.eye(nd) + 0.1 * A @ A.T
        K = np.diag(1.0 + np.arange(nd)) + 0.1 * (A + A.T)
        self.ab = (0.3, 0.15)
        keep = elems.mats
        elems.mats = lambda nnl, n, seed: (keep(nnl, n, seed)[0], 0.4 * keep(nnl, n, seed)[0].T)
        self.s = Sys(nd, els, seed=1, mats=(M, self.ab[0] * M + self.ab[1] * K, K))
        elems.mats = keep
        self.s.vib.set_new_C(ab=self.ab)
        self.vib, self.nd, self.h, self.ha = self.s.vib, nd, h, np.array(h)
        self.n, self.h0 = ref.nhc(h) * nd, nd * (h[0] == 0)
        self.Nt = 32
        self.Fs, self.Fd = np.zeros(self.n), np.zeros(self.n)
        if self.h0:
            self.Fs[:nd] = 0.2 * ref.lattice_vec(nd, 4)
        self.Fd[self.h0:self.h0 + nd] = np.r_[1.0, 0.4 * ref.lattice_vec(nd, 2)[1:]]
        self.recov = np.r_[1.0, 0.3 * ref.lattice_vec(nd, 6)[1:]]
        self.order = len(name) % 3
        self.hyst = any(e in HYST for e in els)
        mk, self.cfg, self.cond = SETTINGS[setting]
        self.solver = mk()
        self.cont = {}
        self.refs = {}
        E0, E1, E2 = (ref.harmonic_E(self.s.M, self.s.C, self.s.K, x, h) for x in (0.0, 1.0, -1.0))
        self.E = lambda w: E0 + 0.5 * (E1 - E2) * w + (0.5 * (E1 + E2) - E0) * w * w

    # ---- reference
    def residual(self, U, w, F):
        return self.E(w) @ U + self.s.nl(U, w, self.h, self.Nt)[0] - F

    def newton(self, U, w, F, its=60):
        for i in range(its):
            f, J = self.s.nl(U, w, self.h, self.Nt)[:2]
            R = self.E(w) @ U + f - F
            dU = -np.linalg.solve(self.E(w) + J, R)
            step = 1.0
            while step > 1e-3 and np.linalg.norm(self.residual(U + step * dU, w, F)) > np.linalg.norm(R) * (1 - 0.1 * step) + 1e-13:
                step *= 0.5
            U = U + step * dU
            if np.max(np.abs(dU)) < 1e-12:
                return U
        return None

    def at(self, iw, iF):
        if (iw, iF) not in self.refs:
            F = self.Fs + FM[iF] * self.Fd
            sols = []
            for start in (0 * F, np.linalg.solve(self.E(W[iw]), F), ref.lattice_vec(self.n, 3)):
                U = self.newton(start, W[iw], F)
                if U is not None:
                    sols.append(U)
            assert sols and all(np.max(np.abs(U - sols[0])) < 1e-7 for U in sols), 'reference response is not unique'
            self.refs[iw, iF] = sols[0]
        return self.refs[iw, iF]

    # ---- analyses of the package
    def run(self, kind, fun, X0, lam0, lam1, ds=0.05):
        """continuation from lam0 to lam1 of the unknowns X0; returns (rows, response at lam1)"""
        X0 = np.hstack((X0 + 1e-5 * ref.lattice_vec(len(X0), 7), lam0))
        CtoP = None
        if self.cond:
            CtoP = hutils.harmonic_wise_conditioning(X0, self.nd, self.ha, delta=1e-2)
        if kind not in self.cont:
            cfg = dict(dict(verbose=-1, dsmax=0.2, dsmin=1e-4, xtol=1e-10, callback=self.callback), **self.cfg)
            self.cont[kind] = Continuation(self.solver, ds0=ds, CtoP=CtoP, config=cfg)
        self.saved = []
        rows = self.cont[kind].continuation(fun, X0, lam0, lam1)
        d = np.sign(lam1 - lam0)
        assert len(rows) > 1 and d * rows[-1, -1] >= d * lam1 and d * rows[-2, -1] < d * lam1, 'end %s not bracketed: %s' % (lam1, rows[:, -1])
        assert len(self.saved) == len(rows) + 1 and np.array_equal(np.array([x[0] for x in self.saved[:-1]]), rows), 'callback did not see the stored points'
        assert np.isnan(self.saved[0][1]).all() and np.isnan(self.saved[-1][0]).all(), 'first or last callback'
        two = cpost.linear_interp(rows[-2:], d * lam1, reference_values=d * rows[-2:, -1])[0] if len(rows) % 2 else cpost.linear_interp(rows, d * lam1, reference_values=d * rows[:, -1])[0]
        return rows, two[:-1]

    def callback(self, X, d):
        self.saved.append((X.copy(), d.copy()))

    def solve(self, U, iw, iF):
        F = self.Fs + FM[iF] * self.Fd
        w = W[iw]

        def fun(U, calc_grad=True):
            return self.vib.hbm_res(np.hstack((U, w)), F, self.ha, Nt=self.Nt, **({} if calc_grad else dict(calc_grad=False)))[:2 if calc_grad else 1]
        X, R, J, sol = self.solver.nsolve(fun, U, verbose=False, **({} if self.setting == 'root' else dict(xtol=1e-11)))
        return X, sol['success']


def kw(calc_grad):
    return {} if calc_grad else dict(calc_grad=False)


def moves():
    m = [('w', 1), ('w', -1), ('F', 1), ('F', -1), ('amp', 1), ('amp', -1), ('phase', 1), ('phase', -1), ('level', 1), ('level', -1), ('jump', 1), ('jump', -1), ('guess', 1)]
    return m


def moved(iw, iF, kind, d):
    jw, jF = iw + d * (kind in ('w', 'amp', 'phase')), iF + d * (kind in ('F', 'level'))
    if kind == 'jump':
        jw, jF = (iw + 1, iF - 1) if d > 0 else (iw - 1, iF + 1)
    if kind == 'guess':
        jw, jF = (iw + 1) % 3, (iF + 1) % 3
    return (jw, jF) if 0 <= jw < 3 and 0 <= jF < 3 else None


def cases(tier):
    out = []
    full = tier != 'quick'
    for name in SYSTEMS:
        for setting in SETTINGS:
            hyst = any(e in HYST for e in SYSTEMS[name][1])
            if setting in ('search', 'root') and hyst or (name, setting) == ('linear', 'root'):       # (MINPACK needs a smooth residual and some distance to go)
                continue
            for start, first in itertools.product((0, 1, 2), range(13)):
                if moved(start, start, *moves()[first]) and (full or start == (first + len(name)) % 3 or start == 1 and not moved(*[(first + len(name)) % 3] * 2, *moves()[first])):
                    if full or (first + len(name) + len(setting)) % 4 == 0 and not (setting == 'search' and first % 2):
                        out.append(dict(name=name, setting=setting, start=start, first=first, depth=3 if full else 2))
    return out


def apply(W_, op, U, iw, iF, rec, where):
    """one analysis; returns the new response and point, or None when the move leaves the lattice"""
    kind, d = op
    v, nd, h0, ha, Nt, n = W_.vib, W_.nd, W_.h0, W_.ha, W_.Nt, W_.n
    if moved(iw, iF, kind, d) is None:
        return None
    jw, jF = moved(iw, iF, kind, d)
    w0, w1, f0, f1 = W[iw], W[jw], FM[iF], FM[jF]
    unit = W_.Fs + W_.Fd

    def near(R, key, sc=1.0):
        rec.expect(np.all(np.isfinite(R)) and np.max(np.abs(R)) < 2e-6 * sc, key, lambda: '%s residual %s' % (where(), R))

    def force_to(U, fa, w):
        """force continuation at w from level fa to f1"""
        if abs(fa - f1) < 1e-6:
            return U
        fun = lambda X, calc_grad=True: _dFl(v, X, w, unit, ha, Nt, calc_grad)
        rows, X = W_.run('F', fun, U, fa, f1)
        for r in rows:
            near(W_.residual(r[:n], w, W_.Fs + r[-1] * W_.Fd), 'point of the force continuation')
        return X

    if kind == 'w':
        F = W_.Fs + f0 * W_.Fd
        fun = lambda X, calc_grad=True: v.hbm_res(X, F, ha, Nt=Nt, **kw(calc_grad))
        rows, U = W_.run('w', fun, U, w0, w1)
        for r in rows:
            near(W_.residual(r[:n], r[-1], F), 'point of the frequency continuation')
    elif kind == 'F':
        U = force_to(U, f0, w0)
    elif kind == 'amp':
        c, s = W_.recov @ U[h0:h0 + nd], W_.recov @ U[h0 + nd:h0 + 2 * nd]
        amp = w0 ** W_.order * np.hypot(c, s)
        fun = lambda X, calc_grad=True: v.hbm_amp_control_res(X, unit, ha, W_.recov, amp, W_.order, Nt=Nt, **kw(calc_grad))
        rows, X = W_.run('amp', fun, np.hstack((U, f0)), w0, w1)
        for r in rows:
            near(W_.residual(r[:n], r[-1], W_.Fs + r[-2] * W_.Fd), 'point of the amplitude controlled continuation')
            c, s = W_.recov @ r[h0:h0 + nd], W_.recov @ r[h0 + nd:h0 + 2 * nd]
            near(np.array([r[-1] ** W_.order * np.hypot(c, s) - amp]), 'amplitude of the amplitude controlled continuation')
        U = force_to(X[:n], X[n], w1)
    elif kind in ('phase', 'level'):
        c, s = W_.recov @ U[h0:h0 + nd], W_.recov @ U[h0 + nd:h0 + 2 * nd]
        phi, amp = np.arctan2(s, c), w0 ** W_.order * np.hypot(c, s)
        X0 = np.hstack((hutils.rotate_subtract_phase(U, nd, ha, phi, 1)[0], f0 * np.cos(phi), -f0 * np.sin(phi)))
        if kind == 'phase':
            fun = lambda X, calc_grad=True: v.hbm_amp_phase_control_res(X, unit, ha, W_.recov, amp, W_.order, Nt=Nt, **kw(calc_grad))
            rows, X = W_.run('phase', fun, X0, w0, w1)
        else:
            a1 = amp * f1 / f0
            fun = lambda X, calc_grad=True: v.hbm_amp_phase_control_dA_res(X, unit, ha, W_.recov, w0, W_.order, Nt=Nt, **kw(calc_grad))
            rows, X = W_.run('level', fun, X0, amp, a1)
        for r in rows:
            wr, ar = (r[-1], amp) if kind == 'phase' else (w0, r[-1])
            F = W_.Fs.copy()
            F[h0:h0 + nd], F[h0 + nd:h0 + 2 * nd] = r[n] * W_.Fd[h0:h0 + nd], r[n + 1] * W_.Fd[h0:h0 + nd]
            near(W_.residual(r[:n], wr, F), 'point of the phase controlled continuation')
            near(np.array([wr ** W_.order * (W_.recov @ r[h0:h0 + nd]) - ar, wr ** W_.order * (W_.recov @ r[h0 + nd:h0 + 2 * nd])]), 'amplitude and phase of the phase controlled continuation')
        U = hutils.rotate_subtract_phase(X[:n], nd, ha, np.arctan2(X[n + 1], X[n]), 1)[0]
        U = force_to(U, np.hypot(X[n], X[n + 1]), w1)
    elif kind == 'guess':
        U = hutils.predict_harmonic_solution(v, w1, unit, ha, W_.solver, 'HBM', fmag=f1, neigs=nd)[:-1]
    bump = 1e-5 * ref.lattice_vec(n, 7)                              # (MINPACK reports no progress when it starts on the solution)
    U, ok = W_.solve(U + bump, jw, jF)
    want = W_.at(jw, jF)
    if kind in ('jump', 'guess') and not ok:                         # a solve from far away may fail, but says so
        rec.outcome('failed solve', W_.setting)
        return None
    rec.expect(ok, 'solve at the end of a continuation', where)
    rec.close(U, want, 'response at the new operating point', where, rtol=1e-6, atol=1e-7)
    rec.outcome(kind, d)
    return want + bump, jw, jF


def _dFl(v, X, w, F, ha, Nt, calc_grad):
    return v.hbm_res_dFl(X, w, F, ha, Nt=Nt, **kw(calc_grad))


def run(case, rec):
    np.seterr(all='ignore')
    W_ = World(case['name'], case['setting'])
    ops = moves()
    iw, iF = [(0, 0), (1, 1), (2, 2)][case['start']]

    def visit(U, iw, iF, hist, depth):
        for k, op in enumerate(ops):
            if not hist and k != case['first']:
                continue
            seq = hist + [list(op)]
            out = apply(W_, op, U, iw, iF, rec, lambda: '%s %s from %s moves %s' % (case['name'], case['setting'], case['start'], seq))
            if out is None:
                continue
            rec.step()
            rec.state(case['name'], case['setting'], out[1], out[2])
            if depth > 1:
                visit(*out, seq, depth - 1)
            else:
                rec.trace()

    visit(W_.at(iw, iF) + 1e-5 * ref.lattice_vec(W_.n, 7), iw, iF, [], case['depth'])
    rec.sample('%s with %s: all %d-step routes beginning with %s' % (case['name'], case['setting'], case['depth'], ops[case['first']]))
