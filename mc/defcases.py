"""Documented default values: leaving an optional argument out gives what passing its documented default gives.

For every public routine every subset of size one of the optional arguments (and all of them together) is left
out; the answer is compared with the call that passes all documented defaults.  The data are such that another
default would change the answer.
"""
import contextlib
import io
import warnings

import numpy as np

import elems
import ref
from systems import HYST, Hyst, Sys, matrices


def flat(r):
    if r is None:
        return []
    if isinstance(r, dict):
        return [x for k in sorted(r) if isinstance(r[k], (int, float, np.ndarray)) for x in flat(r[k])]
    if isinstance(r, (tuple, list)):
        return [x for y in r for x in flat(y)]
    if isinstance(r, str):
        return [r]
    return [np.array(r, dtype=float)]


def v(n, k):
    return ref.lattice_vec(n, k)


def D(label, call, **defaults):
    """call(**kw) with documented defaults"""
    return (label, call, defaults)


AFT = dict(Nt=128, tol=1e-7)
RES = dict(Nt=128, aft_tol=1e-7)
H3 = np.array([0, 1, 2, 3])


def el_aft(label, el, scale=1.5, **kw):
    n = el().Q.shape[1] * ref.nhc([0, 1, 3])
    return D('aft of ' + label, lambda **k: el().aft(v(n, 4) * scale, 1.3, np.array([0, 1, 3]), **k), **dict(AFT, **kw))


def el_force(label, el, scale=1.0):
    def f(**kw):
        out = []
        for amp in (1.0, 16.0, 128.0):
            e = el()
            n = e.Q.shape[1]
            if hasattr(e, 'init_history'):
                e.init_history()
            a = v(n, 2) * scale * amp
            b = -0.7 * a
            if n == e.Q.shape[0] > 1:           # contact stays closed
                a[-1], b[-1] = scale, 1.3 * scale
            e.force(a, update_hist=True)
            out.append(e.force(b, **kw))
            # a part of the way back tells whether the way there was committed
            out.append([e.force(b + c * (a - b)) for c in (0.05, 0.2)])
        return out
    return D('static force of ' + label, f, update_hist=False)


def ctor(label, cls, args, n, scale=1.0, static=True, bias=0.0, **defaults):
    def f(**kw):
        e = cls(*args(), **kw)
        h = np.array([0, 1, 2])
        B = np.zeros(n * 5)
        B[n - 1] = bias                      # permanent normal contact, so that no separation erases the start
        out = [e.aft(v(n * 5, k) * scale + b, 1.1, h, Nt=32) for k in (3, 8) for b in ([0 * B] if bias == 0 else [0 * B, B])]
        if static:
            for k in (2, 6, 7):
                a = e.force(v(n, k) * scale, **({'update_hist': True} if static == 'hist' else {}))
                out.append(a)
        return out
    return D('construction of ' + label, f, **defaults)


def c02():
    from tmdsimpy.utils import harmonic as hu
    M, C, K = matrices(2, 3)
    return [D('harmonic_stiffness', lambda **k: hu.harmonic_stiffness(M, C, K, 1.3, H3, **k), calc_grad=True, only_C=False)]


def c03():
    from tmdsimpy.utils import harmonic as hu
    return [D('harmonic_wise_conditioning', lambda **k: hu.harmonic_wise_conditioning(np.array([1e-9, 1e-6, 1e-3, 1e-5, 1.0, 1e-7, 1e-3]), 1, H3[:3], **k), delta=1e-4)]


def c04():
    from tmdsimpy.nlforces import Iwan4Force, VectorIwan4
    out = [el_force(n, lambda n=n: Hyst(n, 2).obj) for n in sorted(HYST)]
    for cls in (Iwan4Force, VectorIwan4):
        out.append(ctor(cls.__name__, cls, lambda: (np.array([[1.0, -0.5]]), np.array([[1.0], [2.0]]), 1.1, 0.4, -0.5, 0.2), 2, static='hist', Nsliders=100, alphasliders=1.0))
    return out


def c05():
    out = [el_aft(n, lambda n=n: Hyst(n, 2).obj, max_repeats=2, atol=1e-10, rtol=1e-10) for n in sorted(HYST)]
    for mod, cls in (('jenkins_element', 'JenkinsForce'), ('vector_jenkins', 'VectorJenkins')):
        c = getattr(__import__('tmdsimpy.jax.nlforces.' + mod, fromlist=['x']), cls)
        args = lambda: (np.array([[1.0, -0.5]]), np.array([[2.0], [0.75]]), 1.4, 0.45)
        out.append(ctor('jax ' + cls, c, args, 2, static=False, u0=0))
        out.append(ctor('sticking jax ' + cls, c, lambda args=args: args()[:3] + (50.0,), 2, static=False, u0=0))
        out.append(el_aft('jax ' + cls, lambda c=c, args=args: c(*args())))
    return out


def c07():
    from tmdsimpy.nlforces import UnilateralSpring
    return [ctor('UnilateralSpring', UnilateralSpring, lambda: (np.array([[1.0, -0.5]]), np.array([[2.0], [0.75]]), 1.4), 2, Npreload=0, delta=0)]


def c08():
    return [el_aft(n, lambda n=n: elems.make(n, 2, 1).obj, calc_grad=True) for n in elems.NAMES]


MIXED = ['cubic2', 'viwan']


def sysd(fs):
    return [D(name, lambda f=f, **k: f(Sys(2, MIXED, seed=2, sym=True), **k), **kw) for name, f, kw in fs]


def c09():
    U = np.append(v(14, 1), 1.3)
    return sysd([('hbm_res', lambda s, **k: s.vib.hbm_res(U, v(14, 4), H3, **k), dict(RES, calc_grad=True)),
                 ('total_aft', lambda s, **k: s.vib.total_aft(U[:-1], 1.3, H3, **k), dict(RES, calc_grad=True))])


def c10():
    U = np.concatenate((v(14, 1), [1.3, 0.03, -0.2]))
    return sysd([('epmc_res', lambda s, **k: s.vib.epmc_res(U, v(14, 4), H3, **k), dict(RES, calc_grad=True))])


def c11():
    U = np.concatenate((v(14, 1), [1.3, 0.4]))
    kw = dict(RES, calc_grad=True, superharmonic_filter=None)
    return sysd([('vprnm_single_eqn', lambda s, **k: s.vib.vprnm_single_eqn(U[:14], 1.3, H3, 3, **k), kw),
                 ('vprnm_res', lambda s, **k: s.vib.vprnm_res(U, H3, 3, v(14, 4), **k), dict(kw, constraint_scale=1.0)),
                 ('vprnm_amp_phase_res', lambda s, **k: s.vib.vprnm_amp_phase_res(np.concatenate((v(14, 1), [0.4, 0.3, 1.2, 0.7])), v(14, 4), H3, 3, np.array([1.0, 0.5]), 1, **k), dict(kw, constraint_scale=1.0))])


def c12():
    r = np.array([1.0, 0.5])
    kw = dict(RES, calc_grad=True)
    return sysd([('hbm_res_dFl', lambda s, **k: s.vib.hbm_res_dFl(np.append(v(14, 1), 0.4), 1.3, v(14, 4), H3, **k), kw),
                 ('hbm_amp_control_res', lambda s, **k: s.vib.hbm_amp_control_res(np.concatenate((v(14, 1), [0.4, 1.3])), v(14, 4), H3, r, 0.3, 1, **k), kw),
                 ('hbm_amp_phase_control_res', lambda s, **k: s.vib.hbm_amp_phase_control_res(np.concatenate((v(14, 1), [0.4, 0.2, 1.3])), v(14, 4), H3, r, 0.3, 1, **k), kw),
                 ('hbm_amp_phase_control_dA_res', lambda s, **k: s.vib.hbm_amp_phase_control_dA_res(np.concatenate((v(14, 1), [0.4, 0.2, 0.3])), v(14, 4), H3, r, 1.3, 1, **k), kw),
                 ('hbm_base_res', lambda s, **k: s.vib.hbm_base_res(np.append(v(7, 1), 1.3), v(7, 4), np.array([True, False]), H3, **k), RES)])


def c13():
    from tmdsimpy import VibrationSystem
    M, C, K = matrices(2, 4)

    def make(**k):
        s = VibrationSystem(M, K, **k)
        return s.M, s.K, s.C

    def newc(**k):
        s = VibrationSystem(M, K, C=C.copy())
        s.set_new_C(**k)
        return s.C
    return [D('VibrationSystem', make, C=None, ab=None), D('set_new_C', newc, C=None, ab=None)]


def c14():
    from tmdsimpy.postprocess.shooting import time_stability
    s = lambda: Sys(2, ['cubic2'], seed=2, sym=True)
    X = np.append(v(4, 1), 1.3)
    return [D('shooting_res', lambda **k: s().vib.shooting_res(X, v(4, 4), **k), Nt=128, return_aux=False),
            D('time_stability', lambda **k: time_stability(s().vib, X[None, :], v(4, 4), **k), Nt=128)]


def line(X, calc_grad=True):
    x, lam = X
    R = np.array([x - np.tanh(3 * lam) + 0.1 * x ** 3])
    return (R, np.array([[1 + 0.3 * x ** 2]]), np.array([-3 / np.cosh(3 * lam) ** 2])) if calc_grad else (R,)


def fold(X, calc_grad=True):
    x, lam = X
    R = np.array([lam - 2.5 * (x - x ** 3)])
    return (R, np.array([[-2.5 * (1 - 3 * x ** 2)]]), np.ones(1)) if calc_grad else (R,)


def stiff(X, calc_grad=True):
    """large residual scale, so that scaling of residual and unknowns matters"""
    x, lam = X
    R = np.array([1e3 * (x - 1 - lam ** 2)])
    return (R, np.array([[1e3]]), np.array([-2e3 * lam])) if calc_grad else (R,)


CONT = dict(FracLam=0.5, MaxSteps=500, TargetNfev=20, DynamicCtoP=False, verbose=100, xtol=None, corrector='Ortho', FracLamList=[], backtrackStop=np.inf, MaxIncrease=1.2, nsolve_verbose=False, callback=None)


class Stubborn:
    """a solver whose answers depend on nothing but the call count: some failures, some slow answers"""

    def __init__(self, real, script):
        self.real, self.script, self.k = real, script, 0

    def __getattr__(self, name):
        return getattr(self.real, name)

    def nsolve(self, fun, X0, verbose=True, xtol=None):
        X, R, J, sol = self.real.nsolve(fun, X0, verbose=False, xtol=xtol)
        a = self.script[self.k % len(self.script)] if self.k else 5
        self.k += 1
        print('solve', self.k, verbose, xtol)
        return X, R, J, dict(success=a > 0, nfev=abs(a), message='script')


def c15():
    from tmdsimpy.continuation import Continuation
    from tmdsimpy.solvers import NonlinearSolver
    out = []
    for label, fun, X0, ends, ds0, script in (('line', line, np.array([0.2, 0.1]), (0.1, 1.5), 0.02, [5, 5, 5, 60, 5, 25, 19, 21]), ('line with failures', line, np.array([0.2, 0.1]), (0.1, 1.5), 0.05, [5, 5, -5, 9, -5, -5, 30]),
                                              ('fold', fold, np.array([0.1, 0.2475]), (0.2475, 2.0), 0.05, [4, 6]), ('many steps', line, np.array([0.2, 0.1]), (0.1, 1e4), 1e-4, [20]),
                                              ('no way out', line, np.array([0.2, 0.1]), (0.1, 1.5), 0.05, [5, 5] + [-5] * 40)):
        def run(fun=fun, X0=X0, ends=ends, ds0=ds0, script=script, args=(), **kw):
            top = {k: kw.pop(k) for k in ('CtoP', 'RPtoC') if k in kw}
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                X = Continuation(Stubborn(NonlinearSolver(), script), ds0=ds0, config=kw, **top).continuation(fun, X0, *ends)
            return X, buf.getvalue()
        out.append(
            ('Continuation ' + label, run, dict(CONT, dsmax=5 * ds0, dsmin=ds0 / 5, CtoP=None, RPtoC=None)))

    def first(**kw):
        with contextlib.redirect_stdout(io.StringIO()):
            return Continuation(NonlinearSolver(), config=dict(MaxSteps=4), **kw).continuation(line, np.array([0.2, 0.1]), 0.1, 1.0)
    out.append(D('Continuation step size', first, ds0=0.01))
    return out


def c17():
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    from tmdsimpy.solvers import NonlinearSolver
    funs = [('cube', lambda x: (x ** 3, np.diag(3 * x ** 2)), [2.0]), ('overshoot', lambda x: (np.arctan(2 * x), np.diag(2 / (1 + 4 * x ** 2))), [0.65]),
            ('pair', lambda x: (np.array([x[0] ** 2 + x[1] - 3, x[1] ** 2 - x[0] - 1]), np.array([[2 * x[0], 1], [-1, 2 * x[1]]])), [1.0, 3.0]),
            ('slow', lambda x: (x ** 15, np.diag(15 * x ** 14)), [3.0])]
    conf = dict(max_steps=20, reform_freq=1, verbose=True, xtol=None, rtol=None, etol=None, xtol_rel=None, rtol_rel=None, etol_rel=None, stopping_tol=['xtol'], accepting_tol=[], line_search_iters=0, line_search_tol=0.5,
                line_search_same_sign=True)
    out = []
    for label, f, x0 in funs:
        def run(f=f, x0=x0, extra={}, **kw):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                a = NonlinearSolverOMP(config=dict(kw, **extra)).nsolve(lambda X, calc_grad=True: f(np.asarray(X)) if calc_grad else f(np.asarray(X))[:1], np.array(x0))
            return a[:3], [a[3]['success'], a[3]['nfev'], a[3]['njev']], buf.getvalue()
        out.append(('NonlinearSolverOMP ' + label, run, conf))
        ls = {k: x for k, x in conf.items() if k[:4] != 'line' or k[-3:] in ('tol', 'ign')}
        out.append(('NonlinearSolverOMP with line search ' + label, lambda run=run, **kw: run(extra=dict(line_search_iters=3), **kw), {k: x for k, x in ls.items() if k != 'line_search_iters'}))

        def nsolve(f=f, x0=x0, **kw):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                a = NonlinearSolverOMP().nsolve(lambda X: f(np.asarray(X)), np.array(x0), **kw)
            return a[:3], [a[3]['success'], a[3]['nfev']], buf.getvalue()
        out.append(('nsolve ' + label, nsolve, dict(verbose=None, xtol=None)))

        def base(f=f, x0=x0, **kw):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                a = NonlinearSolver().nsolve(lambda X: f(np.asarray(X)), np.array(x0), **kw)
            return a[:3], [a[3]['success'], a[3]['nfev']], buf.getvalue()
        if label != 'slow':
            out.append(('base nsolve ' + label, base, dict(verbose=True, xtol=1e-6 * len(x0))))
    return out


def c18():
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    f = lambda X, calc_grad=True: (np.arctan(np.asarray(X) * 3) + 0.2,)

    def run(conf, **kw):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            s = NonlinearSolverOMP(config=dict(line_search_iters=4, **conf))
            a, sol = s.line_search(f, np.array([1.0]), f(np.array([1.0]))[0], np.array([-8.0]), **kw)
        return a, sol['nfev'], buf.getvalue()
    return [('line_search', lambda **kw: run({}, **kw), dict(verbose=None)), ('line_search settings', lambda **kw: run(kw), dict(verbose=True, line_search_tol=0.5, line_search_same_sign=True))]


def c19():
    from tmdsimpy.solvers import NonlinearSolver
    M, C, K = matrices(5, 3, True)
    f = lambda X, calc_grad=True: (X ** 2, np.diag(2 * X)) if calc_grad else (X ** 2,)

    def cond(grad={}, **k):
        g = NonlinearSolver().conditioning_wrapper(f, np.array([2.0, 3.0]), **k)
        return g(np.array([0.4, 0.7]))
    return [D('eigs', lambda **k: [np.abs(x) for x in NonlinearSolver().eigs(K, **k)], M=None, subset_by_index=[0, 2]),
            D('eigs with mass', lambda **k: [np.abs(x) for x in NonlinearSolver().eigs(K, M, **k)], subset_by_index=[0, 2]),
            D('conditioning_wrapper', cond, RPtoC=1.0),
            D('conditioned function', lambda **k: NonlinearSolver().conditioning_wrapper(f, np.array([2.0, 3.0]))(np.array([0.4, 0.7]), **k), calc_grad=True)]


def c21():
    from tmdsimpy.postprocess import continuation as pc
    x = np.cumsum([0.0, 1.0, 0.5, 2.0, 1.5])
    X, G = np.c_[ref.lattice_mat(5, 2, 3), x], np.c_[ref.lattice_mat(5, 2, 8), np.ones(5)]
    return [D('hermite_upsample', lambda **k: pc.hermite_upsample(X, G, **k), upsample_freq=10, new_lams=None), D('linear_interp', lambda **k: pc.linear_interp(X, np.array([0.3, 2.0]), **k), reference_values=None)]


def c22():
    from tmdsimpy.roms import epmc
    from checks import c22 as c
    nd, h = 2, np.array([0, 1, 3])
    bb = c.backbone(nd, h, 4, 'hard', 3)
    F = v(bb.shape[1] - 3, 4)
    return [D('constant_force', lambda **k: epmc.constant_force(bb, nd, h, Fl=F, **k), w=None, zeta=None, phiH_Fl_real=None, phiH_Fl_imag=None),
            D('constant_displacement', lambda **k: epmc.constant_displacement(bb, h, F[nd:2 * nd], np.array([2.5, 3.0]), np.array([1.0, 0.5]), 0.02, **k), w=None, zeta=None)]


def c23():
    from tmdsimpy.roms import vprnm
    from checks import c23 as c
    import roms
    nd, rhi = 2, 3
    hf, hr, hv = np.array([0, 1]), np.array([1, 2]), np.array([0, 1, 3])
    ef, er, vb = c.backbone(nd, hf, 2.3, 0.1, 5, hi=1.0), c.backbone(nd, hr, 2.0 * rhi * 1.04, 0.05, 11), c.vbone(nd, hv, rhi, 'amp', 17)
    c1 = np.array([1.0, 0.5])
    av = np.array([abs(roms.to_complex(r, hv, nd)[1] @ c1) for r in vb])
    return [D('constant_h1_displacement', lambda **k: vprnm.constant_h1_displacement(ef, hf, er, hr, vb, hv, rhi, c1, 0.5 * (av[1] + av[2]), np.array([0.3, 1.0]), v(nd, 4) + 1.2, **k), extra_Omega=None, correct_force=True)]


def c24():
    from tmdsimpy.jax.nlforces import ElasticDryFriction2D, ElasticDryFriction3D
    out = []
    for d, cls in ((2, ElasticDryFriction2D), (3, ElasticDryFriction3D)):
        Q = np.eye(d)
        out.append(ctor(cls.__name__, cls, lambda Q=Q: (Q, Q.T.copy(), 1.4, 2.0, 8.0), d, static='hist', bias=4.0, u0=0, meso_gap=0))
        out.append(el_aft(cls.__name__, lambda cls=cls, Q=Q: cls(Q, Q.T.copy(), 1.4, 2.0, 0.3), calc_grad=True))
        out.append(el_force(cls.__name__, lambda cls=cls, Q=Q: cls(Q, Q.T.copy(), 1.4, 2.0, 0.3, meso_gap=-0.8)))
    return out


def c25():
    from tmdsimpy.jax.nlforces.roughcontact.rough_contact import RoughContactFriction
    args = lambda: (np.eye(3), 1e-3 * np.eye(3), 192.31e9, .3, 1.4e-3, 620e6, 331.7e6, .3)
    gaps = dict(gaps=np.array([0.0, 1e-6]), gap_weights=np.array([1e3, 2e3]))

    def make(**k):
        return RoughContactFriction(*args(), **gaps, **k)
    out = [ctor('RoughContactFriction', lambda *a, **k: make(**k), lambda: (), 3, scale=1e-5, static='hist', bias=1e-4, u0=0, meso_gap=0, tangent_model='TAN', N_radial_quad=100),
           ctor('sticking RoughContactFriction', lambda *a, **k: make(**k), lambda: (), 3, scale=1e-7, static=False, bias=1e-5, u0=0),
           ctor('RoughContactFriction MIF', lambda *a, **k: make(tangent_model='MIF', **k), lambda: (), 3, scale=1e-5, static='hist', N_radial_quad=100),
           el_aft('RoughContactFriction', make, 1e-5, max_repeats=2, return_local=False, calc_grad=True), el_force('RoughContactFriction', make, 1e-5)]

    def aux(**k):
        return make().force(np.array([1e-6, 2e-6, 1e-5]), **k)
    return out + [D('static force of RoughContactFriction, outputs', aux, return_aux=False)]


def c26():
    from tmdsimpy import VibrationSystem
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.utils import harmonic as hu
    n = 5
    M, C, K = matrices(n, 3, True)
    w = np.array([0.5, 1.1, 2.0])
    mk = lambda: VibrationSystem(M, K, ab=[0.02, 0.03])
    base = np.array([True] + [False] * (n - 1))
    h = np.array([0, 1, 3])
    F = np.zeros(5 * n)
    F[n:2 * n] = v(n, 4)
    nl = lambda: (lambda s: (s.add_nl_force(elems.make('cubic2', n, 1).obj), s)[1])(mk())
    rec = v(n, 8)
    pk = dict(Xstat=None, neigs=3)
    return [D('linear_frf', lambda **k: mk().linear_frf(w, v(n, 4), NonlinearSolver(), **k), neigs=3, Flsin=None),
            D('linear_frf_base', lambda **k: mk().linear_frf_base(w, np.array([0.4, 0.3]), base, NonlinearSolver(), **k), neigs=3),
            D('predict_harmonic_solution HBM_AMP', lambda **k: hu.predict_harmonic_solution(mk(), 0.8, F, h, NonlinearSolver(), 'HBM_AMP', control_amp=0.3, control_recov=rec, control_order=1, **k), fmag=None, rhi=None, vib_sys_nl=None, vprnm_calc_grad=True, **pk),
            D('predict_harmonic_solution VPRNM_AMP_PHASE', lambda **k: hu.predict_harmonic_solution(mk(), 0.8, F, h, NonlinearSolver(), 'VPRNM_AMP_PHASE', control_amp=0.3, control_recov=rec, control_order=1, rhi=3, vib_sys_nl=nl(), **k),
              fmag=None, vprnm_calc_grad=True, **pk),
            D('predict_harmonic_solution HBM', lambda **k: hu.predict_harmonic_solution(mk(), 0.8, F, h, NonlinearSolver(), 'HBM', fmag=2.0, **k), control_amp=None, control_recov=None, control_order=None, **pk)]


def c27():
    from tmdsimpy.utils import harmonic as hu
    from tmdsimpy.postprocess.harmonic import local_harmonic_forces
    return [D('zero_crossing', lambda **k: hu.zero_crossing(np.array([1e9, -1e12, 1e-3, -5.0, -2.0, 4.0]), **k).astype(float), zero_tol=np.inf),
            D('local_harmonic_forces', lambda **k: local_harmonic_forces(Sys(2, ['cubic2', 'jenkins'], seed=2).vib, v(14, 3), 1.2, H3, **k), Nt=128, aft_tol=1e-7)]


TABLE = dict(C02=c02, C03=c03, C04=c04, C05=c05, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C17=c17, C18=c18, C19=c19, C21=c21, C22=c22, C23=c23, C24=c24, C25=c25, C26=c26, C27=c27)
TEXT = '; plus every documented default value (each optional argument left out alone and all together, against passing all of them)'


def cases(prop, tier):
    if prop not in TABLE:
        return []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return [dict(default=i) for i in range(len(TABLE[prop]()))]


def run(prop, case, rec):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    label, call, defaults = TABLE[prop]()[case['default']]

    def answer(kw):
        with contextlib.redirect_stdout(io.StringIO()):
            return flat(call(**kw))
    full = answer(dict(defaults))
    for out in [{k} for k in sorted(defaults)] + ([set(defaults)] if len(defaults) > 1 else []):
        got = answer({k: x for k, x in defaults.items() if k not in out})
        rec.step()
        rec.trace()
        rec.state(label, sorted(out))
        where = lambda: '%s without %s' % (label, sorted(out))
        if not rec.expect(len(got) == len(full), 'default value', lambda: where() + ' returns %d results, with documented defaults %d' % (len(got), len(full))):
            continue
        for a, b in zip(got, full):
            if isinstance(a, str) or isinstance(b, str):
                rec.expect(a == b, 'default value', lambda: where() + ' prints %r, with documented defaults %r' % (a[-200:], b[-200:]))
            else:
                fin = np.isfinite(b) if a.shape == b.shape else np.ones_like(b, dtype=bool)
                if a.shape == b.shape and np.array_equal(np.isfinite(a), fin):
                    a, b = a[fin], b[fin]
                rec.close(a, b, 'default value', where, rtol=1e-12, atol=1e-13)
    rec.sample(label)
