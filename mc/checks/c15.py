"""
C15: the continuation step-control protocol.  The nonlinear solver is replaced by a scripted one: every
call is answered by the next letter of a script (converged in few / many evaluations, or failed with
garbage); all scripts up to a depth are enumerated, so every success/failure history is explored.  The
loop under test is the real Continuation.continuation.
"""
import contextlib
import copy
import io
import itertools
import numpy as np
from tmdsimpy.continuation import Continuation
from tmdsimpy.solvers import NonlinearSolver

ID = 'C15'
LEVEL = 'model_checking'
RULE = ('all answer scripts of length <= 6 (quick; 8 thorough) over {converged fast, converged slowly, failed} for the scripted nonlinear solver (afterwards it always converges), times directions, '
        'verbosity {-1,0,1,3}, FracLam lists, conditioning given or not, dynamic conditioning, step bounds, step limits, both correctors, backtracking curves. Every nsolve call (its '
        'start point = step size), every callback, the returned history, printed output and the settings afterwards are compared with a model of the protocol; each run is repeated on the same object, also after runs ended by an exception of the callback or the residual at every possible call, and after runs of problems of other sizes. '
        'State = (model step, step size, retry state); transition = one solver call.')
ASSUMPTIONS = ['the scripted solver answers converged only with points of the curve']
NFEV = {'s': 4, 'l': 61}


class Line:
    """lam = lam, x = a lam + b"""
    a = np.array([0.7, -0.3])
    b = np.array([1.0, 2.0])

    def fun(self, X, calc_grad=True):
        R = np.array([X[0] + 0.2 * X[1] - 0.2 * (self.a[1] * X[2] + self.b[1]) - self.a[0] * X[2] - self.b[0],
                      3 * (X[1] - self.a[1] * X[2] - self.b[1])])
        if not calc_grad:
            return (R,)
        return R, np.array([[1.0, 0.2], [0.0, 3.0]]), np.array([-0.2 * self.a[1] - self.a[0], -3 * self.a[1]])


class Fold:
    """lam = lamf - d*(x - xf)^2 with x moving monotonically: runs forward, folds and goes backwards."""
    def __init__(self, d):
        self.d = d

    def fun(self, X, calc_grad=True):
        x, lam = X
        R = np.array([lam - self.d * (0.4 - 0.5 * (x - 2.0) ** 2)])
        if not calc_grad:
            return (R,)
        return R, np.array([[self.d * (x - 2.0)]]), np.array([1.0])


class Scripted(NonlinearSolver):
    def __init__(self, script):
        super().__init__()
        self.script = script
        self.calls = []       # (x0, answer)
        self.args = []
        self.mismatch = []    # calls whose residual without gradient differs

    def nsolve(self, fun, X0, verbose=True, xtol=None, **kw):
        i = len(self.calls)
        letter = self.script[i] if i < len(self.script) else 's'
        out = fun(X0)
        bare = fun(X0.copy(), calc_grad=False)
        if not (isinstance(bare, tuple) and np.array_equal(bare[0], out[0])):
            self.mismatch.append(i)
        self.calls.append((np.array(X0, copy=True), letter, np.array(out[0], copy=True)))
        self.args.append((verbose, xtol))
        if letter == 'f':
            bad = X0 * 0 + (np.nan if i % 2 else 1e6)
            return bad, out[0] * np.nan, out[1], dict(message='no', nfev=17, njev=17, success=False)
        X = np.array(X0, dtype=float)
        for _ in range(60):
            R, J = fun(X)[:2]
            dx = np.linalg.solve(J, -R)
            X = X + dx
            if np.max(np.abs(dx)) < 1e-13 * (1 + np.max(np.abs(X))):
                break
        return X, fun(X)[0], fun(X)[1], dict(message='ok', nfev=NFEV[letter], njev=1, success=True)


CONFIGS = []


def configs(tier):
    out = []
    base = dict(curve='line', dir=1, verbose=0, fl=[], ctop=None, dyn=False, dsmin=0.02, dsmax=0.12, ds0=0.08, maxs=30, corr='Ortho', inc=1.2, back=None, rptoc=None)
    def add(**kw):
        c = dict(base)
        c.update(kw)
        if c not in out:
            out.append(c)
    for v in (-1, 0, 1, 3):
        for fl in ([], [1.0], [0.5, 0.9, 1.0]):
            add(verbose=v, fl=fl)
    for d in (1, -1):
        for ctop in (None, [2.0, 0.5, 4.0]):
            for dyn in (False, True):
                for rptoc in (None, [0.5, 3.0, 1.0]):
                    add(dir=d, ctop=ctop, dyn=dyn, rptoc=rptoc, verbose=-1, fl=[0.9])
    for maxs in (1, 2, 3, 5):
        for v in (-1, 0):
            add(maxs=maxs, verbose=v)
            add(maxs=maxs, verbose=v, fl=[1.0], dir=-1)
    for ds0, dsmin, dsmax in ((0.08, 0.08, 0.08), (0.08, 0.05, 0.09), (0.08, None, None), (0.05, 0.03, 1.0)):
        for corr in ('Ortho', 'Pseudo'):
            add(ds0=ds0, dsmin=dsmin, dsmax=dsmax, corr=corr, verbose=-1)
            add(ds0=ds0, dsmin=dsmin, dsmax=dsmax, corr=corr, inc=3.0, verbose=1)
    for d in (1, -1):
        for back in (None, 0.1, 0.5):
            add(curve='fold', dir=d, back=back, verbose=-1, maxs=16, ds0=0.15, dsmin=0.05, dsmax=0.2)
    return out


def cases(tier):
    depth = 6 if tier == 'quick' else 8
    out = []
    for c in configs(tier):
        for first in ('s', 'l', 'f'):
            out.append(dict(cfg=c, first=first, depth=depth if c['maxs'] > 3 else min(depth, 5)))
    for c in configs(tier):
        if c['verbose'] < 1 and c['maxs'] > 3:
            out.append(dict(abort=1, cfg=c, depth=depth - 2))
    for rptoc in (None, 2.0, 3, 'np', 'arr'):
        for dyn in (False, True):
            out.append(dict(sizes=1, rptoc=rptoc, dyn=dyn))
    return out


class Stop(Exception):
    pass


def build(cfg, script, conf_extra=None):
    """problem, solver and Continuation object of one configuration (see one())"""
    d = cfg['dir']
    if cfg['curve'] == 'line':
        curve, lam0, lam1, start = Line(), 0.1, 0.1 + d * 0.9, np.array([0.9, 1.9, 7.77])
    else:
        curve = Fold(d)
        lam0 = d * (0.4 - 0.5 * 0.8 ** 2)
        lam1, start = lam0 + d * 5.0, np.array([1.25, -7.0])
    conf = dict(FracLam=0.5, MaxSteps=cfg['maxs'], verbose=cfg['verbose'], corrector=cfg['corr'], MaxIncrease=cfg['inc'], DynamicCtoP=cfg['dyn'], TargetNfev=20,
                FracLamList=list(cfg['fl']))
    for k in ('dsmin', 'dsmax'):
        if cfg[k] is not None:
            conf[k] = cfg[k]
    if cfg['back'] is not None:
        conf['backtrackStop'] = cfg['back']
    conf.update(conf_extra or {})
    sol = Scripted(script)
    cont = Continuation(sol, ds0=cfg['ds0'], CtoP=None if cfg['ctop'] is None else np.array(cfg['ctop'][:start.size]),
                        RPtoC=None if cfg['rptoc'] is None else np.array(cfg['rptoc'][:start.size]), config=conf)
    return curve, lam0, lam1, start, sol, cont


def observe(sol, cont, fun, start, lam0, lam1, cb):
    sol.calls, sol.args = [], []
    del cb[:]
    with contextlib.redirect_stdout(io.StringIO()):
        hist = cont.continuation(fun, start.copy(), lam0, lam1)
    return hist.tobytes(), [c[0].tobytes() + c[2].tobytes() for c in sol.calls], [b''.join(x) for x in cb]


def aborted(case, rec):
    """A run that is ended by an error of the callback or of the residual function at any point leaves no trace."""
    cfg = case['cfg']
    for script in ['s' + ''.join(r) for r in itertools.product('sf', repeat=case['depth'] - 1)]:
        cb = []
        fuse = dict(cb=-1, fun=-1)
        count = dict(cb=0, fun=0)

        def burn(which):
            count[which] += 1
            if count[which] == fuse[which]:
                raise Stop()

        def callback(X, dX):
            burn('cb')
            cb.append((np.array(X).tobytes(), np.array(dX).tobytes()))
        curve, lam0, lam1, start, sol, cont = build(cfg, script, dict(callback=callback))

        def fun(X, calc_grad=True):
            burn('fun')
            return curve.fun(X, calc_grad)
        settings = {k: copy.copy(v) for k, v in cont.config.items()}
        want = observe(sol, cont, fun, start, lam0, lam1, cb)
        total = dict(count)
        for which in ('cb', 'fun'):
            every = max(1, total[which] // 12) if which == 'fun' else 1
            for k in range(1, total[which] + 1, every):
                where = lambda: 'script %s, %s raises in call %d, %s' % (script, which, k, cfg)
                fuse[which] = k
                count['cb'] = count['fun'] = 0
                up = False
                try:
                    observe(sol, cont, fun, start, lam0, lam1, cb)
                except Stop:
                    up = True
                fuse[which] = -1
                rec.expect(up, 'error of a user function swallowed', where)
                rec.expect(all(cont.config[x] is settings[x] or cont.config[x] == settings[x] for x in settings), 'settings changed by an aborted run', where)
                rec.step()
                rec.state('abort', which, k, script)
            got = observe(sol, cont, fun, start, lam0, lam1, cb)
            rec.trace()
            rec.expect(got == want, 'run after aborted runs differs', lambda: '%s raised at every call, script %s, %s' % (which, script, cfg))
    rec.outcome('aborted')


def sizes(case, rec):
    """One object follows problems of different size one after the other; each run equals that of a new object."""
    rp = {'np': np.float64(0.5), 'arr': np.array([4.0])}.get(case['rptoc'], case['rptoc'])

    def make():
        return Continuation(NonlinearSolver(), ds0=0.1, RPtoC=rp, config=dict(verbose=-1, DynamicCtoP=case['dyn'], FracLam=0.6))

    def problem(n):
        A = np.eye(n) + 0.1 * np.arange(n * n).reshape(n, n)
        return lambda X, calc_grad=True: ((A @ X[:-1] - 2 - X[-1] * np.arange(1, n + 1), A, -1.0 * np.arange(1, n + 1)) if calc_grad
                                          else (A @ X[:-1] - 2 - X[-1] * np.arange(1, n + 1),))
    ref = {(n, d): make().continuation(problem(n), np.r_[np.ones(n), 0.0], 0.0, d) for n in (1, 2, 4) for d in (0.7, -0.7)}
    for seq in itertools.product(sorted(ref), repeat=3):
        c = make()
        for n, d in seq:
            where = lambda: 'sizes %s, %s' % (seq, case)
            try:
                got = c.continuation(problem(n), np.r_[np.ones(n), 0.0], 0.0, d)
            except Exception as e:
                rec.fail('run after one of another size', where() + ' %s' % e)
                return
            rec.step()
            rec.expect(np.array_equal(got, ref[n, d]), 'run depends on earlier runs', where)
            # a residual that always returns its gradient (no calc_grad argument) is enough for this solver
            f = problem(n)
            rec.expect(np.array_equal(c.continuation(lambda X: f(X), np.r_[np.ones(n), 0.0], 0.0, d), ref[n, d]), 'residual without calc_grad argument', where)
        rec.state('sizes', seq, str(case))
        rec.trace()


def run(case, rec):
    if case.get('abort'):
        return aborted(case, rec)
    if case.get('sizes'):
        return sizes(case, rec)
    cfg = case['cfg']
    for rest in itertools.product('slf', repeat=case['depth'] - 1):
        one(cfg, case['first'] + ''.join(rest), rec)
        if case['first'] == 'f':
            break           # initial solve fails, nothing follows


def one(cfg, script, rec):
    d = cfg['dir']
    if cfg['curve'] == 'line':
        curve = Line()
        lam0, lam1 = (0.1, 0.1 + d * 0.9)
        start = np.array([0.9, 1.9, 7.77])
    else:
        curve = Fold(d)
        x0 = 1.2
        lam0 = d * (0.4 - 0.5 * (x0 - 2.0) ** 2)
        lam1 = lam0 + d * 5.0
        start = np.array([1.25, -7.0])
    N = start.size - 1
    userlist = list(cfg['fl'])
    cb = []
    conf = dict(FracLam=0.5, MaxSteps=cfg['maxs'], verbose=cfg['verbose'], corrector=cfg['corr'], MaxIncrease=cfg['inc'], DynamicCtoP=cfg['dyn'], TargetNfev=20,
                xtol=1.25e-7, callback=lambda X, dX: cb.append((np.array(X, copy=True), np.array(dX, copy=True))))
    for k, key in (('dsmin', 'dsmin'), ('dsmax', 'dsmax')):
        if cfg[k] is not None:
            conf[key] = cfg[k]
    if cfg['back'] is not None:
        conf['backtrackStop'] = cfg['back']
    if userlist:
        conf['FracLamList'] = userlist
    given = {k: (list(v) if isinstance(v, list) else v) for k, v in conf.items()}
    ctop = None if cfg['ctop'] is None else np.array(cfg['ctop'][:N + 1])
    ctop_in = None if ctop is None else ctop.copy()
    rptoc = None if cfg['rptoc'] is None else np.array(cfg['rptoc'][:N + 1])
    rptoc_in = None if rptoc is None else rptoc.copy()
    sol = Scripted(script)
    cont = Continuation(sol, ds0=cfg['ds0'], CtoP=ctop_in, RPtoC=rptoc_in, config=conf)
    settings = {k: copy.copy(v) for k, v in cont.config.items()}
    nruns = 2
    first = None
    for r in range(nruns):
        where = lambda: 'script %s run %d %s' % (script, r + 1, cfg)
        sol.calls, sol.args = [], []
        del cb[:]
        X0 = start.copy()
        buf = io.StringIO()
        hist, err = None, None
        with contextlib.redirect_stdout(buf):
            try:
                hist = cont.continuation(curve.fun, X0, lam0, lam1)
            except AssertionError as e:
                err = e
        rec.trace()
        rec.step(len(sol.calls))
        rec.expect(not sol.mismatch, 'residual without gradient differs', lambda: where() + ' solves %s' % sol.mismatch)
        rec.expect(np.array_equal(X0, start), 'start point of the caller modified', where)
        rec.expect(ctop is None or np.array_equal(ctop, ctop_in), 'CtoP of the caller modified', where)
        rec.expect(rptoc is None or np.array_equal(rptoc, rptoc_in), 'RPtoC of the caller modified', where)
        rec.expect(set(conf) == set(given) and all(conf[k] is given[k] or conf[k] == given[k] for k in given), 'config of the caller modified', where)
        rec.expect(list(cont.config) == list(settings) and all(cont.config[k] is settings[k] or cont.config[k] == settings[k] for k in settings), 'settings changed by a run',
                   lambda: where() + ' %s' % {k: (cont.config[k], settings[k]) for k in settings if cont.config[k] != settings[k]})
        if cfg['verbose'] < 0:
            rec.expect(buf.getvalue() == '', 'printed although silent', lambda: where() + ' ' + buf.getvalue()[:200])
        if script[0] == 'f':
            rec.outcome('initial failure')
            rec.expect(err is not None and len(sol.calls) == 1 and not cb, 'failed initial solution must be reported', where)
            continue
        rec.expect(err is None, 'assertion raised', lambda: where() + ' %s' % err)
        check_run(cfg, script, curve, lam0, lam1, start, ctop, sol, cb, hist, rec, where, userlist)
        obs = (hist.tobytes(), len(sol.calls), b''.join(c[2].tobytes() for c in sol.calls))
        if first is None:
            first = obs
        else:
            rec.expect(obs == first, 'second identical run differs', where)


def check_run(cfg, script, curve, lam0, lam1, start, ctop, sol, cb, hist, rec, where, userlist):
    """Replays the protocol on the model and compares each solver call, callback and result."""
    d = cfg['dir']
    N = start.size - 1
    base = np.ones(N + 1) if ctop is None else ctop
    ds0 = cfg['ds0']
    dsmin = ds0 / 5 if cfg['dsmin'] is None else cfg['dsmin']
    dsmax = ds0 * 5 if cfg['dsmax'] is None else cfg['dsmax']
    back = np.inf if cfg['back'] is None else cfg['back']
    fls = userlist if userlist and userlist[0] == 0.5 else [0.5] + userlist
    calls = sol.calls
    rec.expect(all(a[1] == 1.25e-7 for a in sol.args), 'xtol not passed to the solver', where)
    rec.close(calls[0][0], start[:-1] / base[:-1], 'initial guess', where, rtol=1e-12)
    scale0 = 1.0 if cfg['rptoc'] is None else np.array(cfg['rptoc'][:N])
    rec.close(calls[0][2], scale0 * curve.fun(np.r_[start[:-1], lam0])[0], 'residual of the initial solution', where, rtol=1e-10)
    rec.expect(hist.shape[1] == N + 1 and 1 <= hist.shape[0] <= cfg['maxs'], 'shape of the history', where)
    rec.expect(np.isfinite(hist).all(), 'unconverged point stored', lambda: where() + ' %s' % hist)
    for p in hist:
        rec.expect(np.max(np.abs(curve.fun(p)[0])) < 1e-7, 'stored point does not satisfy the residual', lambda: where() + ' %s' % p)
    rec.expect(hist[0, -1] == lam0, 'first point is not at lam0', where)
    npts, ds, ci = 1, ds0, 1
    stuck = False
    dirs = []
    fl_last = fls[0]
    while npts < cfg['maxs'] and d * hist[npts - 1, -1] < d * lam1 and d * hist[npts - 1, -1] > d * (lam0 - d * back):
        cur = hist[npts - 1]
        scale = np.maximum(np.abs(cur), base) if cfg['dyn'] else base
        ok = False
        for b in fls:
            fl_last = b
            while True:
                letter = script[ci] if ci < len(script) else 's'
                rec.state(cfg['curve'], npts, round(ds, 12), fls.index(b), letter, cfg['maxs'])
                if not rec.expect(ci < len(calls), 'gave up early', lambda: where() + ' after %d solves' % len(calls)):
                    return
                x0 = calls[ci][0]
                delta = x0 - cur / scale
                c = (1 - b) / np.sum((cur[:-1] / scale[:-1]) ** 2)
                size = np.sqrt(c * np.sum(delta[:-1] ** 2) + b * delta[-1] ** 2)
                rec.close(size, ds, 'step size', lambda: where() + ' solve %d (FracLam %g)' % (ci, b), rtol=1e-8)
                # tangent of the curve at the current point
                R, J, Jl = curve.fun(cur)
                rec.close(J @ (delta[:-1] * scale[:-1]) + Jl * delta[-1] * scale[-1], np.zeros(N), 'prediction not along the tangent', where, atol=1e-8)
                if npts == 1:
                    if b > 0:
                        rec.expect(d * delta[-1] > 0, 'first step goes away from lam1', where)
                else:
                    prev = (cur - hist[npts - 2]) / scale
                    rec.expect(c * delta[:-1] @ prev[:-1] + b * delta[-1] * prev[-1] > 0, 'prediction reverses direction', where)
                ci += 1
                if letter != 'f':
                    ok = True
                    break
                rec.outcome('failed solve')
                if not ds > dsmin:
                    break
                ds = max(ds / 2, dsmin)
            if ok:
                break
        if not ok:
            stuck = True
            break
        if not rec.expect(hist.shape[0] > npts, 'converged point not stored', where):
            return
        dirs.append((delta / ds) * scale)
        ds = min(max(ds * min(20 / NFEV[letter], cfg['inc']), dsmin), dsmax)
        npts += 1
    rec.outcome('stuck' if stuck else 'maxsteps' if npts == cfg['maxs'] else 'end' if d * hist[-1, -1] >= d * lam1 else 'backtrack')
    rec.expect(hist.shape[0] == npts, 'number of stored points', lambda: where() + ' %d, model %d' % (hist.shape[0], npts))
    rec.expect(len(calls) == ci, 'number of solves', lambda: where() + ' %d, model %d' % (len(calls), ci))
    # callbacks: one per stored point, one at the end
    if not rec.expect(len(cb) == npts + 1, 'number of callbacks', lambda: where() + ' %d, expected %d' % (len(cb), npts + 1)):
        return
    for i in range(npts):
        rec.expect(np.array_equal(cb[i][0], hist[i]), 'callback point', lambda: where() + ' %d' % i)
    rec.expect(np.isnan(cb[0][1]).all() and cb[0][1].shape == (N + 1,), 'first callback direction', where)
    for i in range(1, npts):
        rec.close(cb[i][1], dirs[i - 1], 'callback direction', lambda: where() + ' point %d' % i, rtol=1e-7, atol=1e-9)
    rec.expect(np.isnan(cb[-1][0]).all() and cb[-1][0].shape == (N + 1,), 'last callback point', where)
    R, J, Jl = curve.fun(hist[-1])
    t = cb[-1][1]
    if rec.expect(np.isfinite(t).all() and np.linalg.norm(t) > 0, 'last callback direction', where):
        u = t / np.linalg.norm(t)
        rec.close(J @ u[:-1] + Jl * u[-1], np.zeros(N), 'last callback direction is not the tangent', where, atol=1e-7)
        ref = hist[-1] - hist[-2] if npts > 1 else np.r_[np.zeros(N), d]
        s2 = base
        rec.expect((u / s2) @ (ref / s2) > 0, 'last callback direction reversed', lambda: where() + ' %s %s' % (u, ref))
    if len(rec.samples) < 2:
        rec.sample('%s %s -> %d points, solves %s' % (script, cfg, npts, ''.join(c[1] for c in calls)))
