"""
C17: truthfulness of the nonlinear solvers.  The residual function is scripted: every evaluation is answered
by a letter (residual size, Jacobian size, nan, inf, singular), all letter sequences up to the iteration
budget are enumerated and the real nsolve is compared with an independent Newton / dense BFGS model.
"""
import contextlib
import copy
import io
import itertools
import warnings
import numpy as np
import ref
from tmdsimpy.solvers import NonlinearSolver
from tmdsimpy.jax.solvers import NonlinearSolverOMP

ID = 'C17'
LEVEL = 'model_checking'
RULE = ('all answer sequences of length <= max_steps (3; 4 for the reduced alphabet; thorough one more) over an 11 letter alphabet of residual/Jacobian answers (large, medium, tiny residual, tiny step with large residual, '
        'large step with tiny residual, sign change, exact zero, nan, inf, nan Jacobian, singular Jacobian), times stopping and accepting tolerance subsets, Jacobian reuse 1-3, tolerance sources, verbosity (with and without line search), exceptions at each call; closed-form problems x starts with line search for every tolerance kind (the energy belongs to the step taken); all sequences of settings edits and solutions (depth 3; thorough 4) against a new solver with the merged settings. '
        'Sequences that only differ after the run stopped are explored once. State = (config, answers consumed); transition = one evaluation. The scipy based solver is compared on a lattice of problems with and without roots.')
ASSUMPTIONS = ['decisions within 1e-7 (relative) of a tolerance are not judged', 'a function evaluated at a non-finite point answers nan',
               'finite residual with an infinite Jacobian is not part of the alphabet', 'scipy.optimize.root itself is trusted for its flag on problems with a root']
LET = {'A': (1.0, 1.0), 'B': (1e-3, 1.0), 'C': (1e-9, 1.0), 'D': (1.0, 1e9), 'E': (1e-9, 1e-9), 'M': (-0.5, 1.0), 'Z': (0.0, 1.0),
       'N': (np.nan, 1.0), 'I': (np.inf, 1.0), 'K': (1.0, np.nan), 'S': (1.0, 0.0)}
TOLS = dict(rtol=1e-6, xtol=1e-5, etol=1e-8, xtol_rel=2e-4, rtol_rel=1e-5, etol_rel=3e-3)
KEYS = ['xtol', 'rtol', 'etol', 'xtol_rel', 'rtol_rel', 'etol_rel']
J0 = np.array([[1.0, 0.3], [-0.2, 1.1]])
DIR = np.array([0.6, 0.8])
XS = np.array([0.25, -1.5])


def cases(tier):
    out = []
    extra = 0 if tier == 'quick' else 1
    stops = [[k] for k in KEYS] + [[], ['xtol', 'rtol'], ['xtol_rel', 'etol_rel'], list(KEYS)]
    for st in stops:
        for ac in [[]] + [[k] for k in KEYS if k not in st][:6] + [['etol', 'rtol_rel']]:
            for rf in (1, 2, 3):
                alpha = 'ABCDEMZNIKS' if rf == 1 else 'ABCMZNIS'
                out.append(dict(kind='script', stop=st, acc=ac, rf=rf, steps=3 + extra, alpha=alpha))
    for st, ac in ((['xtol'], []), (['rtol'], ['xtol']), (['etol'], ['xtol_rel']), (['rtol_rel'], ['etol_rel']), (['xtol_rel'], [])):
        for rf in (1, 2, 3, 4):
            for a in 'ABCM':
                out.append(dict(kind='script', stop=st, acc=ac, rf=rf, steps=4 + extra, alpha='ABCM', first=a))
        for steps in (1, 2):
            out.append(dict(kind='script', stop=st, acc=ac, rf=2, steps=steps, alpha='ABCMZNIS'))
    for src in ('arg', 'config', 'none', 'both'):
        for rf in (1, 2):
            out.append(dict(kind='xtol', src=src, rf=rf))
    for rf in (1, 2):
        out.append(dict(kind='raise', rf=rf))
    for first in 'ABCMZNIS':
        out.append(dict(kind='verbose', first=first, steps=3))
    for first in 'ABCM':
        out.append(dict(kind='verbose', first=first, steps=5))
    for st, ac in [([k], []) for k in KEYS] + [(['rtol_rel', 'etol'], ['xtol_rel']), ([], ['etol']), ([], ['etol_rel']), (['xtol', 'etol_rel'], ['rtol'])]:
        for it in (1, 3):
            for rf in (1, 2, 3):
                out.append(dict(kind='search', stop=st, acc=ac, it=it, rf=rf, steps=7 + 3 * extra))
    for first in range(len(EDITS)):
        out.append(dict(kind='edit', first=first, depth=3 + extra))
    for n in (1, 2, 3):
        out.append(dict(kind='scipy', n=n))
    return out


class Fun:
    def __init__(self, script, raise_at=None):
        self.script, self.calls, self.raise_at = script, [], raise_at

    def __call__(self, X, calc_grad=True):
        i = len(self.calls)
        self.calls.append((np.array(X, copy=True), bool(calc_grad)))
        if i == self.raise_at:
            raise ValueError('scripted')
        r, j = LET[self.script[i]] if i < len(self.script) else LET['A']
        R = r * DIR
        J = j * J0
        if not np.isfinite(X).all():
            R = R * np.nan
        if not calc_grad:
            return (R, 'ignored')
        return R, J


def near(v, tol):
    return np.isfinite(v) and abs(abs(v) - tol) <= 1e-7 * tol


def decide(keys, tols, vals):
    """-> (decision, ambiguous)"""
    dec, amb = False, False
    for k in keys:
        v = vals[k]
        if near(v, tols[k]):
            amb = True
        elif abs(v) < tols[k]:
            dec = True
    return dec, amb and not dec


def model(script, stop, acc, rf, steps, tols):
    """Independent Newton / BFGS run.  Returns dict(success, X, R, J, nfev, njev, points, loose) or None if ambiguous."""
    X = XS.copy()
    pts, H, s, Rold = [], None, None, None
    invJ0 = np.linalg.inv(J0)
    nj = 0
    r0 = u0 = e0 = None
    vals = None
    for i in range(steps):
        r, j = LET[script[i]]
        R = r * DIR
        newton = i % rf == 0
        pts.append((X.copy(), newton))
        if newton:
            nj += 1
            J = j * J0
        if not np.isfinite(R).all():
            return dict(success=False, X=None if not np.isnan(R).any() else X, R=R, J=J, pts=pts, nj=nj, loose=not np.isnan(R).any())
        if newton:
            if not np.isfinite(J).all():
                return dict(success=False, X=X, R=R, J=J, pts=pts, nj=nj, loose=False)
            if j == 0:
                return dict(success=False, X=None, R=None, J=None, pts=pts, nj=nj, loose=True)
            H = invJ0 / j
        else:
            y = R - Rold
            sy = s @ y
            if not abs(sy) > 0:
                return dict(success=False, X=None, R=None, J=None, pts=pts, nj=nj, loose=True)
            V = np.eye(2) - np.outer(y, s) / sy
            H = V.T @ H @ V + np.outer(s, s) / sy
        new = -H @ R
        u, rn = np.linalg.norm(new), np.linalg.norm(R)
        e = np.inf if i == 0 else R @ s
        if i == 0:
            r0, u0, e0 = rn, u, np.inf
        if i == 1:
            e0 = abs(e)
        with np.errstate(all='ignore'):
            vals = dict(xtol=u, rtol=rn, etol=e, xtol_rel=np.float64(u) / u0, rtol_rel=np.float64(rn) / r0, etol_rel=np.float64(e) / e0)
        X = X + new
        s, Rold = new, R
        ok, amb = decide(stop, tols, vals)
        if amb:
            return None
        if ok:
            return dict(success=True, X=X, R=R, J=J, pts=pts, nj=nj, loose=False, vals=vals)
    ok, amb = decide(acc, tols, vals)
    if amb:
        return None
    return dict(success=ok, X=X, R=R, J=J, pts=pts, nj=nj, loose=False, vals=vals)


def compare(rec, m, got, fun, where):
    X, R, J, sol = got
    calls = fun.calls
    rec.step(len(calls))
    rec.trace()
    rec.outcome(bool(sol['success']), len(calls))
    rec.expect(bool(sol['success']) == m['success'], 'success flag', lambda: where() + ' reported %s, tolerances say %s (%s)' % (sol['success'], m['success'], m.get('vals')))
    rec.expect(sol['nfev'] == len(calls) and sol['njev'] == sum(c[1] for c in calls), 'evaluation counts', lambda: where() + ' %s' % {k: sol[k] for k in ('nfev', 'njev')})
    n = len(m['pts'])
    if m['loose']:
        rec.expect(n <= len(calls) <= n + 1, 'number of evaluations', where)
    else:
        rec.expect(len(calls) == n, 'number of evaluations', lambda: where() + ' %d, model %d' % (len(calls), n))
    for k in range(min(n, len(calls))):
        sc = max(1.0, np.max(np.abs(m['pts'][k][0])))
        rec.close(calls[k][0], m['pts'][k][0], 'iterate', lambda: where() + ' evaluation %d' % k, rtol=1e-7, atol=1e-10 * sc)
        rec.expect(calls[k][1] == m['pts'][k][1], 'Jacobian requested when it should be reused (or vice versa)', where)
    if m['X'] is not None:
        rec.close(X, m['X'], 'returned point', where, rtol=1e-7)
    if m['R'] is not None and not m['loose']:
        rec.expect(np.array_equal(np.asarray(R), m['R'], equal_nan=True), 'returned residual', where)
        rec.expect(np.array_equal(np.asarray(J), m['J'], equal_nan=True), 'returned Jacobian', where)


def run(case, rec):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    globals()['run_' + case['kind']](case, rec)


def run_script(case, rec):
    conf = dict(TOLS, max_steps=case['steps'], reform_freq=case['rf'], verbose=False, stopping_tol=list(case['stop']), accepting_tol=list(case['acc']))
    keep = copy.deepcopy(conf)
    s = NonlinearSolverOMP(config=conf)
    full = copy.deepcopy(s.config)
    skip = None
    X0 = XS.copy()
    for script in itertools.product(case['alpha'], repeat=case['steps']):
        script = ''.join(script)
        if case.get('first') and script[0] != case['first']:
            continue
        if skip and script.startswith(skip):
            continue
        skip = None
        m = model(script, case['stop'], case['acc'], case['rf'], case['steps'], TOLS)
        if m is None:
            continue
        used = script[:len(m['pts'])]
        skip = used
        rec.state(case['stop'], case['acc'], case['rf'], case['steps'], used)
        f = Fun(script)
        where = lambda: 'answers %s stop %s accept %s reform %d max %d' % (used, case['stop'], case['acc'], case['rf'], case['steps'])
        g = f if case['rf'] > 1 else (lambda X: f(X))
        got = s.nsolve(g, X0)
        compare(rec, m, got, f, where)
        rec.expect(np.array_equal(X0, XS), 'initial guess modified', where)
        rec.expect(conf == keep and s.config == full, 'settings modified', where)
        rec.sample(where() + ' -> success %s after %d evaluations' % (got[3]['success'], got[3]['nfev']))


def run_xtol(case, rec):
    """the step tolerance in force: argument, else config, else 1e-6 N; it does not stick"""
    src = case['src']
    eps = {'arg': 1e-4, 'config': 1e-2, 'none': 2e-6, 'both': 1e-4}[src]
    conf = dict(max_steps=3, reform_freq=case['rf'], verbose=False)
    if src in ('config', 'both'):
        conf['xtol'] = 1e-2
    s = NonlinearSolverOMP(config=conf)
    full = copy.deepcopy(s.config)
    sizes = [1.0, 3e-2, 3e-3, 3e-4, 3e-5, 5e-6, 1.5e-6, 3e-7, 1e-9]
    for a, b, c in itertools.product(sizes, repeat=3):
        seq = (a, b, c)
        for r in range(2):
            calls = []

            def f(X, calc_grad=True):
                calls.append(1)
                R = seq[len(calls) - 1] * DIR
                return (R, np.eye(2)) if calc_grad else (R,)
            X, R, J, sol = s.nsolve(f, XS.copy(), **({'xtol': 1e-4} if src in ('arg', 'both') else {}))
            rec.step(len(calls))
            rec.state(src, case['rf'], seq[:len(calls)])
            if case['rf'] == 1:
                k = next((i for i, v in enumerate(seq) if v < eps), None)
                rec.expect(sol['success'] == (k is not None) and len(calls) == (3 if k is None else k + 1), 'step tolerance',
                           lambda: 'xtol from %s, steps %s: success %s after %d' % (src, seq, sol['success'], len(calls)))
            elif a < eps:
                rec.expect(sol['success'] and len(calls) == 1, 'step tolerance', lambda: 'xtol from %s, steps %s' % (src, seq))
            else:
                rec.expect(len(calls) > 1, 'step tolerance', lambda: 'xtol from %s, steps %s' % (src, seq))
            rec.expect(s.config == full, 'settings modified', 'xtol %s' % src)
        rec.trace()


def run_raise(case, rec):
    conf = dict(TOLS, max_steps=4, reform_freq=case['rf'], verbose=False, xtol=None)
    for script in itertools.product('ABM', repeat=4):
        script = ''.join(script)
        for at in range(4):
            s = NonlinearSolverOMP(config=conf)
            full = copy.deepcopy(s.config)
            f = Fun(script, raise_at=at)
            where = lambda: 'answers %s, exception at evaluation %d, reform %d' % (script, at, case['rf'])
            err = None
            try:
                s.nsolve(f if case['rf'] > 1 else (lambda X: f(X)), XS.copy(), xtol=1e-12)
            except ValueError as e:
                err = e
            rec.step(len(f.calls))
            rec.state(case['rf'], script[:at + 1], at)
            if len(f.calls) > at:
                rec.expect(err is not None, 'exception of the residual function swallowed', where)
            rec.expect(s.config == full, 'settings modified by a failing call', where)
            # a later call behaves as on a fresh solver
            f1, f2 = Fun('BCCC'), Fun('BCCC')
            a = s.nsolve(f1, XS.copy())
            b = NonlinearSolverOMP(config=conf).nsolve(f2, XS.copy())
            rec.expect(a[3] == b[3] and np.array_equal(a[0], b[0]), 'later call affected', lambda: where() + ' %s %s' % (a[3], b[3]))
            rec.trace()


def run_verbose(case, rec):
    steps = case['steps']
    for script in itertools.product('ABCMZNIS' if steps == 3 else 'ABCM', repeat=steps - 1):
        script = case['first'] + ''.join(script)
        for rf, ls in ((1, 0), (2, 0), (1, 2), (2, 2)):
            if ls and set(script) & set('NIS'):
                continue
            outs = []
            for mode in ((False, None), (True, False), (False, True), (True, None)):
                s = NonlinearSolverOMP(config=dict(TOLS, max_steps=steps, reform_freq=rf, verbose=mode[0], stopping_tol=['rtol', 'xtol_rel'], accepting_tol=['etol', 'rtol_rel'],
                                                   line_search_iters=ls, line_search_same_sign=len(script.strip('A')) % 2 == 0))
                full = copy.deepcopy(s.config)
                buf = io.StringIO()
                f = Fun(script)
                where = lambda: 'verbose %s answers %s reform %d line search %d' % (mode, script, rf, ls)
                with contextlib.redirect_stdout(buf):
                    X, R, J, sol = s.nsolve(f if rf > 1 or ls else (lambda X: f(X)), XS.copy(), verbose=mode[1])
                talk = mode[0] if mode[1] is None else mode[1]
                rec.expect(bool(buf.getvalue()) == talk, 'verbosity', lambda: where() + ' printed %r' % buf.getvalue()[:80])
                rec.expect(s.config == full, 'settings modified', where)
                outs.append((np.asarray(X).tobytes(), sol['success'], sol['nfev'], sol['njev']))
                rec.step(len(f.calls))
            rec.state(rf, ls, script)
            rec.trace()
            rec.expect(all(o == outs[0] for o in outs), 'printing changes the result', lambda: 'answers %s reform %d: %s' % (script, rf, [o[1:] for o in outs]))


# ---------------------------------------------------------------- with line search
def run_search(case, rec):
    """Newton / BFGS with line search on closed-form problems: the energy belongs to the step that was taken."""
    from checks.c18 import FUNS, bisect
    tols = dict(rtol=1e-3, xtol=1e-3, etol=1e-4, xtol_rel=1e-2, rtol_rel=1e-2, etol_rel=1e-2)
    it, rf, steps = case['it'], case['rf'], case['steps']
    for name, same in itertools.product(FUNS, (True, False)):
        f, n = FUNS[name]
        for x0 in itertools.product((-3.0, -0.6, 0.4, 1.7), repeat=n):
            for mu in (0.5, 0.1):
                m = search_model(f, np.array(x0), it, mu, same, rf, steps, case['stop'], case['acc'], tols, bisect)
                if m is None:
                    continue
                s = NonlinearSolverOMP(config=dict(tols, line_search_iters=it, line_search_tol=mu, line_search_same_sign=same, verbose=False, reform_freq=rf, max_steps=steps,
                                                   stopping_tol=list(case['stop']), accepting_tol=list(case['acc'])))
                n_eval = [0]

                def fun(X, calc_grad=True):
                    n_eval[0] += 1
                    R, J = f(np.asarray(X))
                    return (R, J) if calc_grad else (R,)
                X, R, J, sol = s.nsolve(fun, np.array(x0))
                where = lambda: '%s from %s, line search %d (tol %g, same sign %s), reform %d, stop %s accept %s' % (name, x0, it, mu, same, rf, case['stop'], case['acc'])
                rec.trace()
                rec.step(n_eval[0])
                rec.state(name, x0, it, mu, same, rf, case['stop'], case['acc'])
                rec.outcome('search', bool(sol['success']), sol['nfev'])
                rec.expect(bool(sol['success']) == m[0] and sol['nfev'] == m[2], 'outcome with line search', lambda: where() + ' success %s after %d iterations, tolerances say %s after %d' % (sol['success'], sol['nfev'], m[0], m[2]))
                rec.close(X, m[1], 'final point with line search', where, rtol=1e-6, atol=1e-8)


def search_model(f, x, it, mu, same, rf, steps, stop, acc, tols, bisect):
    n = len(x)
    H = s = Rold = None
    for i in range(steps):
        R, J = f(x)
        if i % rf == 0:
            if abs(np.linalg.det(J)) < 1e-9:
                return None
            H = np.linalg.inv(J)
        else:
            y = R - Rold
            if abs(s @ y) < 1e-7 * np.linalg.norm(s) * np.linalg.norm(y) or not np.linalg.norm(y) > 1e-9:
                return None
            V = np.eye(n) - np.outer(y, s) / (s @ y)
            H = V.T @ H @ V + np.outer(s, s) / (s @ y)
        d = -H @ R
        gs = {}

        def G(a):
            gs[a] = d @ f(x + a * d)[0]
            return gs[a]
        a, pts = bisect(G, it, mu, same)
        g0 = abs(gs[0.0])
        if g0 < 1e-13 or any(abs(v) < 1e-8 * g0 or abs(abs(v) - mu * g0) < 1e-8 * g0 for k, v in gs.items() if k):
            return None
        full, rn, e = np.linalg.norm(d), np.linalg.norm(R), np.inf if i == 0 else R @ s
        if i == 0:
            r0, u0, a0, e0 = rn, full, a, np.inf
        if i == 1:
            e0 = abs(e)
        x, s, Rold = x + a * d, a * d, R
        for keys, out in ((stop, True), (acc, False)):
            if not out and i < steps - 1:
                continue
            answers = set()
            # the size of a step is judged only where the full and the shortened step agree
            for u, ur in ((full, full / u0), (a * full, a * full / u0), (a * full, a * full / (a0 * u0))):
                with np.errstate(all='ignore'):
                    dec, amb = decide(keys, tols, dict(xtol=u, rtol=rn, etol=e, xtol_rel=ur, rtol_rel=rn / r0, etol_rel=np.float64(e) / e0))
                answers.add(None if amb else dec)
            if len(answers) > 1 or None in answers:
                return None
            if answers.pop():
                return True, x, i + 1
    return False, x, steps


# ---------------------------------------------------------------- settings edited between solutions
EDITS = [dict(max_steps=2), dict(max_steps=12), dict(reform_freq=3), dict(reform_freq=1), dict(xtol=1e-2), dict(xtol=None), dict(stopping_tol=['rtol'], rtol=1e-3),
         dict(stopping_tol=['etol_rel', 'xtol'], etol_rel=1e-4), dict(accepting_tol=['rtol_rel'], rtol_rel=0.3), dict(line_search_iters=2, line_search_tol=0.2), dict(line_search_iters=0),
         dict(line_search_same_sign=False), {}, 'solve', 'solve tol', 'other']


def run_edit(case, rec):
    """One solver whose settings are edited between solutions equals a new solver created with the merged settings."""
    A = np.array([[1.0, 0.4], [-0.3, 1.5]])

    def fun(X, calc_grad=True):
        R = np.arctan(A @ X) + 0.3 * A @ X - np.array([0.4, 0.9])
        J = np.diag(1 / (1 + (A @ X) ** 2) + 0.3) @ A
        return (R, J) if calc_grad else (R,)

    def show(s, **kw):
        X, R, J, sol = s.nsolve(fun, np.array([3.0, -2.0]), verbose=False, **kw)
        return X.tobytes(), np.asarray(R).tobytes(), np.asarray(J).tobytes(), sol['success'], sol['nfev'], sol['njev']
    ref_results = {}
    base = dict(verbose=False, line_search_same_sign=True)
    for rest in itertools.product(range(len(EDITS)), repeat=case['depth'] - 1):
        ops = [EDITS[case['first']]] + [EDITS[i] for i in rest]
        given = dict(base)
        s, twin = NonlinearSolverOMP(config=given), NonlinearSolverOMP(config=given)
        merged = dict(base)
        where = lambda: 'operations %s' % ops
        for op in ops:
            if isinstance(op, dict):
                arg = copy.deepcopy(op)
                s.edit_config(arg)
                merged.update(op)
                rec.expect(arg == op, 'settings of the caller modified', where)
            elif op == 'other':                    # another solver of the same class is used and edited in between
                NonlinearSolverOMP(config=given).edit_config(dict(max_steps=1, stopping_tol=[], xtol=5.0))
            else:
                show(s, **(dict(xtol=0.5) if op == 'solve tol' else {}))
            rec.step()
        key = str(sorted(merged.items()))
        if key not in ref_results:
            ref_results[key] = show(NonlinearSolverOMP(config=dict(merged)))
        rec.state(key)
        rec.trace()
        rec.outcome('edited', ref_results[key][3], ref_results[key][4])
        rec.expect(show(s) == ref_results[key], 'solution with edited settings differs from a new solver', where)
        rec.expect(given == base and twin.config == NonlinearSolverOMP(config=base).config, 'editing one solver changes another', where)


def run_scipy(case, rec):
    n = case['n']
    s = NonlinearSolver()
    A = ref.lattice_mat(n, n, 7) + 3 * np.eye(n)
    b = ref.lattice_vec(n, 3)
    probs = {'linear': (lambda x: (A @ x - b, A.copy()), True), 'cubic': (lambda x: (A @ x + x ** 3 - b, A + np.diag(3 * x ** 2)), True),
             'no root': (lambda x: (x ** 2 + 1, np.diag(2 * x)), False), 'nan': (lambda x: (x * np.nan, np.eye(n)), False), 'inf': (lambda x: (x * 0 + np.inf, np.eye(n)), False),
             'nan jac': (lambda x: (x * 0 + 1, np.eye(n) * np.nan), False), 'singular': (lambda x: (x * 0 + 1, np.zeros((n, n))), False),
             'cliff': (lambda x: (np.where(x > 1.5, np.nan, x - 3), np.eye(n)), False)}
    for name, (f, root) in probs.items():
        for x0 in itertools.product((-2.0, 0.5, 1.0), repeat=n):
            for xtol in (None, 1e-3, 1e-10):
                X0 = np.array(x0)
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    X, R, J, sol = s.nsolve(f, X0, verbose=False, xtol=xtol)
                where = lambda: '%s from %s xtol %s' % (name, x0, xtol)
                rec.state(name, x0, xtol)
                rec.step()
                rec.trace()
                rec.expect(bool(sol['success']) == root, 'success flag (scipy)', lambda: where() + ' %s' % sol['message'])
                rec.expect(np.array_equal(X0, np.array(x0)), 'initial guess modified', where)
                rec.expect(not buf.getvalue(), 'printed', where)
                Rw, Jw = f(X)
                rec.expect(np.array_equal(R, Rw, equal_nan=True) and np.array_equal(J, Jw, equal_nan=True), 'returned residual/Jacobian are not those of the point', where)
                if root:
                    tol = 1e-6 * n if xtol is None else xtol
                    Xe, Re, Je, se = s.nsolve(f, X, verbose=False, xtol=1e-13)
                    rec.expect(np.linalg.norm(X - Xe) <= 50 * tol * max(1, np.linalg.norm(Xe)) + 1e-10, 'root', lambda: where() + ' %s %s' % (X, Xe))
