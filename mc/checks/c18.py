"""
C18: the line search.  The directional residual G(alpha) is scripted: every trial is answered by a letter,
all letter sequences up to the trial budget are enumerated against a model of the bisection rule; then the
Newton + line search combination is replayed on a lattice of real functions.
"""
import contextlib
import io
import itertools
import numpy as np
from tmdsimpy.jax.solvers import NonlinearSolverOMP

ID = 'C18'
LEVEL = 'model_checking'
RULE = ('all answer sequences of length <= 1+line_search_iters (iters 0-4 quick, 0-6 thorough) over a 5 letter alphabet of the directional residual (larger/smaller than the tolerance, both signs, exact zero), both initial signs, '
        'tolerances {0.2,0.5,0.9}, same-sign option, 1-3 unknowns; returned step, residual, evaluation count and every evaluated point are compared with a bisection model. Newton with line search on scalar and 2D functions '
        'is compared step by step with a model. State = (bracket, letter); transition = one trial evaluation.')
ASSUMPTIONS = ['residuals along the line are finite', 'when the residual is exactly orthogonal to the step at the full step, returning either the full step or the bisection result is accepted']
LET = [-2.0, -0.31, 0.0, 0.29, 1.9]


def cases(tier):
    out = []
    for it in range(0, 5 if tier == "quick" else 7):
        for tol in (0.2, 0.5, 0.9):
            for same in (True, False):
                for n in (1, 2, 3):
                    out.append(dict(kind='script', it=it, tol=tol, same=same, n=n))
    for it in (1, 2, 3, 5):
        for same in (True, False):
            for rf in (1, 2):
                out.append(dict(kind='newton', it=it, same=same, rf=rf))
    return out


def run(case, rec):
    np.seterr(all='ignore')
    globals()['run_' + case['kind']](case, rec)


def bisect(G, it, tol, same):
    """-> (alpha, trial points, exact?) for a callable G(alpha) giving the directional residual."""
    g0, g1 = G(0.0), G(1.0)
    pts = [1.0]
    if g1 * g0 > 0 or (not same and abs(g1) < tol * abs(g0)):
        return 1.0, pts
    lo, hi, glo, ghi = 0.0, 1.0, g0, g1
    for _ in range(it):
        mid = 0.5 * (lo + hi)
        pts.append(mid)
        gm = G(mid)
        if gm * glo < 0:
            hi, ghi = mid, gm
        else:
            lo, glo = mid, gm
        if abs(glo if same else gm) < tol * abs(g0):
            break
    a = lo if same or abs(glo) < abs(ghi) else hi
    return (hi if a == 0.0 else a), pts


def run_script(case, rec):
    n, it, tol, same = case['n'], case['it'], case['tol'], case['same']
    X = np.array([0.5, -1.25, 2.0])[:n]
    D = np.array([2.0, -1.0, 0.5])[:n]
    orth = np.array([[0.0], [1.0, 2.0], [1.0, 2.0, 0.0]][n - 1]) if n > 1 else np.zeros(1)
    unit = D / (D @ D)
    conf = dict(line_search_iters=it, line_search_tol=tol, line_search_same_sign=same, verbose=n == 3)
    s = NonlinearSolverOMP(config=conf)
    full = dict(s.config)
    for g0 in (-1.0, 1.0):
        skip = None
        for script in itertools.product(range(5), repeat=it + 1):
            if skip is not None and script[:len(skip)] == skip:
                continue
            ans = {0.0: g0}
            seq = [LET[i] for i in script]

            def G(a):
                if a not in ans:
                    ans[a] = seq[len(ans) - 1]
                return ans[a]
            alpha, pts = bisect(G, it, tol, same)
            skip = script[:len(pts)]
            used = seq[:len(pts)]
            calls = []

            def res(k, g):
                return g * unit + (0.1 * k) * orth

            def fun(Xa, calc_grad=True):
                calls.append(np.array(Xa, copy=True))
                return (res(len(calls), seq[min(len(calls), len(seq)) - 1]),)
            X_, D_, R_ = X.copy(), D.copy(), res(0, g0)
            with contextlib.redirect_stdout(io.StringIO()):      # printing changes nothing
                got, sol = s.line_search(fun, X_, R_, D_)
            where = lambda: 'G(0)=%g trials %s iters %d tol %g same_sign %s n=%d' % (g0, used, it, tol, same, n)
            rec.trace()
            rec.step(len(calls))
            rec.state(it, tol, same, n, g0, used)
            rec.outcome(float(got))
            rec.expect(np.isfinite(got) and 0 < got <= 1, 'step outside (0,1]', lambda: where() + ' alpha %s' % got)
            rec.expect(len(calls) <= it + 1 and sol['nfev'] == len(calls), 'trial budget / count', lambda: where() + ' %d trials, reported %s' % (len(calls), sol['nfev']))
            for c in calls:
                a = (c - X) @ D / (D @ D)
                rec.expect(np.max(np.abs(c - X - a * D)) < 1e-12 and -1e-12 <= a <= 1 + 1e-12, 'trial off the search line', lambda: where() + ' %s' % c)
            rec.expect(np.array_equal(X_, X) and np.array_equal(D_, D) and np.array_equal(R_, res(0, g0)) and s.config == full, 'inputs modified', where)
            if used[0] == 0.0:
                ok = got == 1.0 or got == alpha
                rec.expect(ok, 'step', lambda: where() + ' alpha %s' % got)
                continue
            rec.expect(got == alpha, 'step', lambda: where() + ' alpha %s, bisection gives %s' % (got, alpha))
            if rec.expect(len(calls) == len(pts), 'number of trials', lambda: where() + ' %d, bisection %d' % (len(calls), len(pts))):
                for c, p in zip(calls, pts):
                    rec.close(c, X + p * D, 'trial point', where, rtol=1e-13)
            if 'R(alpha)' in sol and alpha in pts:
                rec.close(sol['R(alpha)'], res(pts.index(alpha) + 1, ans[alpha]), 'reported residual of the step', where)
            # what the rule is for
            if used[0] * g0 > 0:
                rec.expect(got == 1.0, 'full step not returned although acceptable', where)
            rec.sample(where() + ' -> alpha %g' % got)


FUNS = {
    'atan': (lambda x: (np.arctan(x), np.diag(1 / (1 + x ** 2))), 1),
    'cubic': (lambda x: (x ** 3 - 2 * x + 2.0, np.diag(3 * x ** 2 - 2)), 1),
    'stiff': (lambda x: (x + 20 * np.maximum(x - 1, 0) - 3, np.diag(1 + 20.0 * (x > 1))), 1),
    'linear2': (lambda x: (np.array([[2.0, 1], [-0.5, 1]]) @ x - np.array([1.0, 2]), np.array([[2.0, 1], [-0.5, 1]])), 2),
    'spring2': (lambda x: (np.array([x[0] + 5 * x[0] ** 3 - x[1], 2 * x[1] - x[0] + np.tanh(4 * x[1]) - 1]), np.array([[1 + 15 * x[0] ** 2, -1], [-1, 2 + 4 / np.cosh(4 * x[1]) ** 2]])), 2),
}


def run_newton(case, rec):
    it, same, rf = case['it'], case['same'], case['rf']
    for name, (f, n) in FUNS.items():
        for x0 in itertools.product((-3.0, -0.6, 0.4, 1.7), repeat=n):
            tol, steps = 0.5, 8
            s = NonlinearSolverOMP(config=dict(line_search_iters=it, line_search_tol=tol, line_search_same_sign=same, verbose=False, reform_freq=rf, max_steps=steps, xtol=1e-6))
            calls = []

            def fun(X, calc_grad=True):
                calls.append((np.array(X, copy=True), calc_grad))
                R, J = f(np.asarray(X))
                return (R, J) if calc_grad else (R,)
            X, R, J, sol = s.nsolve(fun, np.array(x0))
            where = lambda: '%s from %s iters %d same_sign %s reform %d' % (name, x0, it, same, rf)
            rec.trace()
            rec.step(len(calls))
            rec.state(name, x0)
            rec.outcome(name, bool(sol['success']))
            rec.expect(len(calls) <= sol['nfev'] * (it + 2), 'evaluation budget', where)
            # independent model of Newton / BFGS with line search
            x, H, sv, Rold = np.array(x0), None, None, None
            ok = False
            judged = True
            traj = [x.copy()]
            for k in range(steps):
                Rk, Jk = f(x)
                if k % rf == 0:
                    H = np.linalg.inv(Jk)
                else:
                    y = Rk - Rold
                    if abs(sv @ y) < 1e-9 * np.linalg.norm(sv) * np.linalg.norm(y) or not np.linalg.norm(y) > 1e-9:
                        judged = False
                        break
                    V = np.eye(n) - np.outer(y, sv) / (sv @ y)
                    H = V.T @ H @ V + np.outer(sv, sv) / (sv @ y)
                d = -H @ Rk
                gs = {}

                def G(a):
                    gs[a] = d @ f(x + a * d)[0]
                    return gs[a]
                a, pts = bisect(G, it, tol, same)
                # decisions too close to rounding are not judged
                g0 = abs(gs[0.0])
                if any(abs(v) < 1e-9 * g0 or abs(abs(v) - tol * g0) < 1e-9 * g0 for v in list(gs.values())[1:]) or g0 < 1e-13:
                    judged = False
                    break
                u = np.linalg.norm(d)
                x = x + a * d
                sv, Rold = a * d, Rk
                traj.append(x.copy())
                if u < 1e-6:
                    ok = True
                    break
            if judged:
                rec.expect(bool(sol['success']) == ok, 'success', lambda: where() + ' %s, model %s' % (sol['success'], ok))
                rec.close(X, x, 'final point', where, rtol=1e-6, atol=1e-8)
            main = [c[0] for c in calls]
            for t in traj[:-1]:
                rec.expect(any(np.max(np.abs(m - t)) <= 1e-6 * (1 + np.max(np.abs(t))) for m in main), 'iterate of the line search model not visited', lambda: where() + ' %s' % t)
            if sol['success'] and rf == 1:
                rec.expect(np.linalg.norm(f(np.asarray(X))[0]) < 1e-3, 'reported root is none', lambda: where() + ' %s' % X)
