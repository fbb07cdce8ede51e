"""Call-sequence cases (see seqs.py): several calls with different arguments on one object."""
import contextlib
import io
import itertools
import warnings

import numpy as np

import elems
import ref
import seqs
from seqs import A
from systems import HYST, Hyst, Sys, make_elem, matrices

# argument sets that agree in size but differ in content, so that a cache keyed too coarsely shows
HS = [[0, 1, 2], [0, 1, 3], [1, 2], [0, 2, 3]]


def aft_ops(nd, hs, scale=1.0, w0=1.1, Nt=16, nograd=True, force=True, hist=None):
    ops = []

    def q(name, f):
        ops.append((name, 'q', f))

    def aft(h, k, w, Nt, **kw):
        U = ref.lattice_vec(ref.nhc(h) * nd, 5 + k) * scale
        return lambda o: o.aft(A(U), w, A(h), Nt=Nt, **kw)
    for i, h in enumerate(hs):
        q('aft h=%s' % h, aft(h, 0, w0, Nt))
    q('aft other state', aft(hs[0], 3, w0, Nt))
    q('aft other frequency', aft(hs[0], 0, 2.3 * w0, Nt))
    q('aft more samples', aft(hs[0], 0, w0, 2 * Nt))
    if nograd:
        q('aft without gradient', aft(hs[0], 3, w0, Nt, calc_grad=False))
    if force:
        X = ref.lattice_vec(nd, 9) * scale
        q('force', lambda o: o.force(A(X)))
        q('force elsewhere', lambda o: o.force(A(-1.7 * X)))
    if hist is not None:
        q('history', hist)
    return ops


def c05():
    out = []
    for name in sorted(HYST):
        def hist(o):
            u = np.array([0.0, 1.2, -0.4, -1.3, 0.7])
            B = ref.basis_matrix(5, [0, 1]) + 0.125
            return o.local_force_history(A(u[:, None]), A(0 * u[:, None]), A([0, 1]), A(B), A([0.1]))
        out.append((name, lambda name=name: Hyst(name, 2).obj, aft_ops(2, HS[:3], 1.5, nograd=False, force=False, hist=hist), 3))

    def jax(mod, cls, u0):
        def make():
            m = __import__('tmdsimpy.jax.nlforces.' + mod, fromlist=['x'])
            return getattr(m, cls)(A([[1.0, -0.5]]), A([[2.0], [0.75]]), 1.4, 0.45, u0=u0)
        return make
    for mod, cls in (('jenkins_element', 'JenkinsForce'), ('vector_jenkins', 'VectorJenkins')):
        out.append(('jax ' + mod, jax(mod, cls, 0), aft_ops(2, [[0, 1, 2], [0, 1, 3]], 1.5, Nt=16, nograd=False, force=False), 2))
    return out


def c08():
    out = []
    for name in elems.NAMES:
        nd = 2

        def hist(o, name=name):
            n = o.Q.shape[0]
            return o.local_force_history(A(ref.lattice_mat(4, n, 3)), A(ref.lattice_mat(4, n, 8)))
        out.append((name, lambda name=name: elems.make(name, 2, 1).obj, aft_ops(nd, HS[:3], 1.2, hist=hist), 3))
    return out


def mutators(nd, hyst=False):
    C1 = ref.lattice_mat(nd, nd, 31)
    ops = [('set C', 'm', lambda s: s.vib.set_new_C(C=C1.copy())), ('set ab', 'm', lambda s: s.vib.set_new_C(ab=[0.2, 0.05])),
           ('add', 'm', lambda s: s.vib.add_nl_force(make_elem('quintic1', nd, 7).obj)),
           ('replace M', 'm', lambda s: setattr(s.vib, 'M', 2 * s.vib.M)), ('edit K', 'm', lambda s: s.vib.K.__imul__(2))]
    return ops


def sys_cases(mixes, opsf, nd=2, depth=3, **kw):
    out = []
    for names in mixes:
        out.append(('+'.join(names) or 'linear', lambda names=names: Sys(nd, list(names), seed=2, sym=True), opsf(nd, names) + mutators(nd), depth))
    return out


MIX = [('cubic2',), ('cubdamp1', 'unilat+'), ('jenkins',), ('poly2', 'viwan')]
SMALL = [('cubic2',), ('cubdamp1', 'viwan')]


def vec(n, k):
    return A(ref.lattice_vec(n, k))


def c09():
    def ops(nd, names):
        out = []
        for h, k, w, Nt, f in (([0, 1, 2], 1, 1.3, 16, 4), ([0, 1, 3], 1, 1.3, 16, 4), ([0, 1, 2], 2, 1.3, 16, 4), ([0, 1, 2], 1, -0.7, 16, 4), ([0, 1, 2], 1, 1.3, 16, 6)):
            n = ref.nhc(h) * nd
            out.append(('hbm h=%s state %d w=%s force %d' % (h, k, w, f), 'q',
                        lambda s, n=n, h=h, k=k, w=w, Nt=Nt, f=f: s.vib.hbm_res(A(np.append(vec(n, k), w)), vec(n, f), A(h), Nt=Nt)))
        n = 10
        out.append(('force magnitude', 'q', lambda s: s.vib.hbm_res_dFl(A(np.append(vec(n, 1), 0.4)), 1.3, vec(n, 4), A([0, 1, 2]), Nt=16)))
        out.append(('nonlinear force', 'q', lambda s: s.vib.total_aft(vec(n, 1), 1.3, A([0, 1, 3]), Nt=16)))
        return out
    return sys_cases(MIX, ops)


def c10():
    def ops(nd, names):
        out = []
        for h, k, la, f in (([0, 1, 2], 1, -0.5, 4), ([0, 1, 3], 1, -0.5, 4), ([0, 1, 2], 2, -0.5, 4), ([0, 1, 2], 1, 0.3, 4), ([0, 1, 2], 1, -0.5, 6)):
            n = ref.nhc(h) * nd
            out.append(('epmc h=%s state %d amplitude %s force %d' % (h, k, la, f), 'q',
                        lambda s, n=n, h=h, k=k, la=la, f=f: s.vib.epmc_res(A(np.concatenate((vec(n, k), [1.2 + 0.1 * k, 0.03, la]))), vec(n, f), A(h), Nt=16)))
        out.append(('hbm', 'q', lambda s: s.vib.hbm_res(A(np.append(vec(10, 1), 1.3)), vec(10, 4), A([0, 1, 2]), Nt=16)))
        return out
    return sys_cases(MIX, ops)


def c11():
    def ops(nd, names):
        out = []
        filt = ref.lattice_vec(nd, 4)
        for h, rhi, k, fl in (([0, 1, 2, 3], 2, 1, None), ([0, 1, 2, 3], 3, 1, None), ([0, 1, 3, 5], 3, 1, None), ([0, 1, 2, 3], 2, 2, filt), ([0, 1, 2, 3], 2, 1, filt)):
            n = ref.nhc(h) * nd
            out.append(('vprnm h=%s rhi=%d state %d filter %s' % (h, rhi, k, fl is not None), 'q',
                        lambda s, n=n, h=h, rhi=rhi, k=k, fl=fl: s.vib.vprnm_res(A(np.concatenate((vec(n, k), [1.2, 0.4]))), A(h), rhi, vec(n, 4), Nt=32, superharmonic_filter=fl)))
        h = [0, 1, 2, 3]
        out.append(('vprnm amplitude/phase', 'q', lambda s: s.vib.vprnm_amp_phase_res(A(np.concatenate((vec(14, 1), [0.3, 0.2, 1.2, 0.4]))), vec(14, 4), A(h), 3, np.array([0.0, 1.0]), 1, Nt=32)))
        return out
    return sys_cases(SMALL + [('poly2',)], ops)


def c12():
    def ops(nd, names):
        h = np.array([0, 1, 2])
        n = 10
        e0, e1 = np.eye(2)
        U = ref.lattice_vec(n, 1)
        out = []
        for rc, o, a in ((e0, 1, 0.5), (e1, 1, 0.5), (e0, 2, 0.5), (e0, 1, 0.9)):
            out.append(('amplitude control %s %d %s' % (rc, o, a), 'q', lambda s, rc=rc, o=o, a=a: s.vib.hbm_amp_control_res(A(np.concatenate((U, [0.7, 1.3]))), vec(n, 4), h, rc, a, o, Nt=16)))
        out.append(('amplitude/phase', 'q', lambda s: s.vib.hbm_amp_phase_control_res(A(np.concatenate((U, [0.7, 0.2, 1.3]))), vec(n, 4), h, e1, 0.5, 1, Nt=16)))
        out.append(('over amplitude', 'q', lambda s: s.vib.hbm_amp_phase_control_dA_res(A(np.concatenate((U, [0.7, 0.2, 0.5]))), vec(n, 4), h, e1, 1.3, 2, Nt=16)))
        for b in ([True, False], [False, True]):
            out.append(('base %s' % b, 'q', lambda s, b=b: s.vib.hbm_base_res(A(np.append(vec(5, 1), 1.3)), vec(5, 2), A(b), h, Nt=16)))
        return out
    return sys_cases(SMALL, ops)


def c13():
    from tmdsimpy.jax.nlforces.elastic_dry_fric_2d import ElasticDryFriction2D
    nd = 2

    def make(names, dry):
        def f():
            s = Sys(nd, list(names), seed=2, sym=True)
            if dry:
                Q = ref.lattice_mat(2, 2, 3) + 1.5 * np.eye(2)
                s.vib.add_nl_force(ElasticDryFriction2D(A(Q, num=False), A(Q.T, num=False), 2.0, 3.0, 0.5, u0=0))
            s.vib.init_force_history()
            return s
        return f
    X = [ref.lattice_vec(nd, k) * a for k, a in ((4, 0.6), (6, -1.4), (9, 3.0))]
    ops = [('static %d' % i, 'q', lambda s, x=x, i=i: s.vib.static_res(A(x), A(ref.lattice_vec(nd, 11 + i)))) for i, x in enumerate(X)]
    ops += [('commit %d' % i, 'm', lambda s, x=x: s.vib.update_force_history(A(x))) for i, x in enumerate(X)]
    ops += [('reset', 'm', lambda s: s.vib.init_force_history()), ('frictionless', 'm', lambda s: s.vib.set_prestress_mu()), ('friction', 'm', lambda s: s.vib.reset_real_mu())]
    out = []
    for names, dry in ((('cubic2', 'jenkins'), False), (('jenkins', 'unilat+', 'vjenkins'), False), (('poly2',), True)):
        out.append(('+'.join(names) + ('+dry friction' if dry else ''), make(names, dry), ops + mutators(nd), 3))
    return out


def c14():
    def ops(nd, names):
        out = []
        for k, w, f in ((1, 1.3, 4), (2, 1.3, 4), (1, 0.9, 4), (1, 1.3, 7)):
            out.append(('shooting state %d w=%s force %d' % (k, w, f), 'q', lambda s, k=k, w=w, f=f: s.vib.shooting_res(A(np.append(0.5 * vec(4, k), w)), vec(4, f), Nt=8)))
        return out
    return sys_cases([('cubic2',), ('poly2',)], ops, depth=3)


def c26():
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    out = []
    for cls in (NonlinearSolver, NonlinearSolverOMP):
        sol = cls()

        def make():
            s = Sys(3, ['cubic2'], seed=2, sym=True)
            s.vib.K[:] = s.vib.K + 4 * np.eye(3)
            s.vib.set_new_C(ab=[0.02, 0.01])
            return s
        F, G = ref.lattice_vec(3, 4), ref.lattice_vec(3, 6)
        b1, b2 = np.array([True, False, False]), np.array([False, False, True])
        ops = []
        for name, w, f, n, fs in (('frf', [0.5, 1.9], F, 3, None), ('frf other force', [0.5, 1.9], G, 3, None), ('frf 2 modes', [0.5, 1.9], F, 2, None),
                                  ('frf other frequencies', [0.7, 2.5], F, 3, None), ('frf sine', [0.5, 1.9], F, 3, G)):
            ops.append((name, 'q', lambda s, w=w, f=f, n=n, fs=fs, sol=sol: s.vib.linear_frf(A(w), A(f), sol, neigs=n, Flsin=fs)))
        for name, b, n in (('base 0', b1, 2), ('base 2', b2, 2), ('base 0, 1 mode', b1, 1)):
            ops.append((name, 'q', lambda s, b=b, n=n, sol=sol: s.vib.linear_frf_base(np.array([0.5, 1.9]), np.array([1.0, 0.4]), b, sol, neigs=n)))
        ops += [('set ab', 'm', lambda s: s.vib.set_new_C(ab=[0.3, 0.0])), ('set other ab', 'm', lambda s: s.vib.set_new_C(ab=[0.0, 0.2]))]
        out.append((cls.__name__, make, ops, 3))
    return out


def c24():
    from checks import c24 as c
    out = []
    for dim, par in ((2, c.PAR[0]), (3, c.PAR[1])):
        def make(dim=dim, par=par):
            Q = ref.lattice_mat(dim, dim, 3) + 1.5 * np.eye(dim)
            o = c.make(dim, A(Q, num=False), A(Q.T, num=False), par)
            o.init_history()
            return o
        X, Y = ref.lattice_vec(dim, 4) * 0.7, ref.lattice_vec(dim, 6) * -1.1
        ops = aft_ops(dim, [[0, 1, 2], [0, 1, 3]], 1.3, Nt=16, force=True)
        ops += [('commit', 'm', lambda o, X=X: o.force(A(X), update_hist=True)), ('commit other', 'm', lambda o, Y=Y: o.force(A(Y), update_hist=True)),
                ('frictionless', 'm', lambda o: o.set_prestress_mu()), ('friction', 'm', lambda o: o.reset_real_mu()),
                ('periodic start', 'm', lambda o, X=X: o.set_aft_initialize(A(X))), ('reset', 'm', lambda o: o.init_history())]
        out.append(('dry friction %dD' % dim, make, ops, 3))
    return out


def c25():
    from checks import c25 as c
    out = []
    for tang in ('TAN', 'MIF'):
        L, base = c.MAT[0]['L'], 0.0

        def make(tang=tang):
            return c.element(0, tang, A(c.Q3, num=False), A(c.T3, num=False), 6)
        Qi = np.linalg.inv(c.Q3)
        pt = lambda n, tx, ty: Qi @ (np.array([tx, ty, n]) * L)
        X, Y = pt(1.0, 0.1, -0.1), pt(0.6, -0.2, 0.1)

        def aft(h, mean, w=1.0, Nt=16, **kw):
            U = np.zeros((ref.nhc(h), 3))
            for i in range(ref.nhc(h)):
                U[i] = pt(mean if i == 0 else 0.15 / i, 0.3 / (i + 1), -0.2 / (i + 1))
            return lambda o: o.aft(A(U.ravel()), w, A(h), Nt=Nt, **kw)
        ops = [('aft h=%s' % h, 'q', aft(h, 0.9)) for h in ([0, 1, 2], [0, 1, 3])]
        ops += [('aft other state', 'q', aft([0, 1, 2], 0.4)), ('aft without gradient', 'q', aft([0, 1, 2], 0.4, calc_grad=False)),
                ('force', 'q', lambda o, Y=Y: o.force(A(Y))), ('commit', 'm', lambda o, X=X: o.force(A(X), update_hist=True)),
                ('commit other', 'm', lambda o, Y=Y: o.force(A(Y), update_hist=True)), ('frictionless', 'm', lambda o: o.set_prestress_mu()),
                ('friction', 'm', lambda o: o.reset_real_mu()), ('periodic start', 'm', lambda o, X=X: o.set_aft_initialize(A(X))), ('reset', 'm', lambda o: o.init_history())]
        out.append(('rough contact ' + tang, make, ops, 3))
    return out


class Nothing:
    """plain functions have no object"""


def c01():
    from tmdsimpy.utils import harmonic as hu
    from tmdsimpy.jax import harmonic_utils as jhu
    out = []
    for label, mod, key in (('numpy', hu, lambda h: A(h)), ('jax', jhu, tuple)):
        ops = []
        for h, o, nd, Nt in (([0, 1, 2], 0, 2, 16), ([0, 1, 2], 1, 2, 16), ([0, 1, 3], 2, 2, 16), ([1, 2], 1, 2, 16), ([0, 1, 2], 0, 2, 8)):
            ops.append(('series h=%s order %d Nt=%d' % (h, o, Nt), 'q', lambda _, h=h, o=o, nd=nd, Nt=Nt: np.array(mod.time_series_deriv(Nt, key(h), A(ref.lattice_mat(ref.nhc(h), nd, 4)), o))
                        if mod is jhu else mod.time_series_deriv(Nt, key(h), A(ref.lattice_mat(ref.nhc(h), nd, 4)), o)))
            if o < 2:
                ops.append(('coefficients h=%s Nt=%d' % (h, Nt), 'q', lambda _, h=h, nd=nd, Nt=Nt: np.array(mod.get_fourier_coeff(key(h), A(ref.lattice_mat(Nt, nd, 6))))
                            if mod is jhu else mod.get_fourier_coeff(key(h), A(ref.lattice_mat(Nt, nd, 6)))))
        if mod is hu:
            ops += [('Nhc', 'q', lambda _: np.array([hu.Nhc(A([0, 1, 3])), hu.Nhc(A([1, 3, 4]))]))]
        out.append((label, Nothing, ops, 2))
    return out


def c02():
    from tmdsimpy.utils import harmonic as hu
    ops = []
    for h, w, m, kw in (([0, 1, 2], 1.3, 0, {}), ([0, 1, 3], 1.3, 0, {}), ([1, 2], -0.7, 0, {}), ([0, 1, 2], 1.3, 1, {}), ([0, 1, 2], 1.3, 0, dict(calc_grad=False)), ([0, 1, 2], 1.3, 1, dict(only_C=True)), ([0, 1, 2], 0.0, 1, {})):
        ops.append(('stiffness h=%s w=%s system %d %s' % (h, w, m, kw), 'q', lambda _, h=h, w=w, m=m, kw=kw: hu.harmonic_stiffness(*[A(x) for x in matrices(2, m)], w, A(h), **kw)))
    return [('harmonic stiffness', Nothing, ops, 2)]


def c03():
    from tmdsimpy.utils import harmonic as hu
    ops = []
    for h, nd, ex, delta in (([0, 1, 2], 2, 2, 1e-3), ([0, 1, 2], 2, 2, 0.8), ([0, 1, 3], 2, 1, 0.3), ([1, 2], 1, 3, 1e-3), ([0, 1, 2], 2, 2, 'v')):
        n = ref.nhc(h)
        d = delta if delta != 'v' else 0.6 + np.abs(ref.lattice_vec(len(h) + 1, 4))
        ops.append(('conditioning h=%s nd=%d extra %d delta %s' % (h, nd, ex, delta), 'q', lambda _, h=h, nd=nd, ex=ex, n=n, d=d, delta=delta:
                    hu.harmonic_wise_conditioning(A(ref.lattice_vec(n * nd + ex, 7)), nd, A(h), **({'delta': A(d) if delta == 'v' else d}))))
    return [('conditioning', Nothing, ops, 2)]


def c04():
    out = []
    for name in sorted(HYST):
        def make(name=name):
            o = Hyst(name, 2).obj
            o.init_history()
            return o
        X = [ref.lattice_vec(2, k) * a for k, a in ((4, 0.6), (6, -1.4), (9, 3.0))]
        ops = [('evaluate %d' % i, 'q', lambda o, x=x: o.force(A(x))) for i, x in enumerate(X)]
        ops += [('commit %d' % i, 'm', lambda o, x=x: o.force(A(x), update_hist=True)) for i, x in enumerate(X)]
        ops += [('commit and read %d' % i, 'm', lambda o, x=x: seqs.scribble(seqs.arrays(o.force(A(x), update_hist=True)))) for i, x in enumerate(X[:2])]
        ops += [('reset', 'm', lambda o: o.init_history())]
        out.append((name, make, ops, 4))
    return out


def c07():
    out = []
    for name in elems.NAMES:
        def hist(o, k):
            n = o.Q.shape[0]
            return o.local_force_history(A(ref.lattice_mat(4, n, k)), A(ref.lattice_mat(4, n, k + 5)))
        ops = [('force %d' % k, 'q', lambda o, k=k: o.force(A(ref.lattice_vec(2, k) * 1.3))) for k in (2, 5, 9)]
        ops += [('history %d' % k, 'q', lambda o, k=k: hist(o, k)) for k in (3, 8)]
        out.append((name, lambda name=name: elems.make(name, 2, 1).obj, ops, 3))
    return out


def c19():
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    from checks import c19 as c
    out = []
    for cls in (NonlinearSolver, NonlinearSolverOMP):
        ops = []
        for n in (2, 3, 1):
            ops.append(('solve %d' % n, 'q', lambda s, n=n: s.lin_solve(A(c.A[n]), A(c.B[n]))))
        ops.append(('solve other 3', 'q', lambda s: s.lin_solve(A(c.A[3].T), A(c.B[3]))))
        ops.append(('factor and solve', 'q', lambda s: s.lin_factored_solve(s.lin_factor(A(c.A[3], own=False, num=False)), A(c.B[3], num=False))))
        for n, hi in ((3, 2), (4, 1)):
            ops.append(('eigenvalues %d' % n, 'q', lambda s, n=n, hi=hi: np.abs(s.eigs(A(c.SYM[n]), A(c.MAS[n] + n * np.eye(n)), subset_by_index=[0, hi])[1])))
            ops.append(('eigenvalues without mass %d' % n, 'q', lambda s, n=n, hi=hi: s.eigs(A(c.SYM[n]), subset_by_index=[0, hi])[0]))

        def cond(s, k):
            f = s.conditioning_wrapper(lambda X, calc_grad=True: (c.A[3] @ X - 1.0, c.A[3]), A(ref.lattice_vec(3, k) + 2.0, own=False), RPtoC=A(ref.lattice_vec(3, k + 1) + 3.0, own=False))
            return f(A(c.B[3])), f(A(c.B[3]), False)
        ops += [('conditioned %d' % k, 'q', lambda s, k=k: cond(s, k)) for k in (3, 6)]
        out.append((cls.__name__, cls, ops, 3))
    return out


def c21():
    from tmdsimpy.postprocess import continuation as pc
    x = np.cumsum([0.0, 1.0, 0.5, 2.0, 1.5])
    X, G = np.c_[ref.lattice_mat(5, 2, 3), x], np.c_[ref.lattice_mat(5, 2, 8), np.ones(5)]
    Y = np.c_[ref.lattice_mat(5, 2, 5), 2 * x]
    q = np.array([0.5, 2.0, 4.5, 1.0])
    ops = [('hermite', 'q', lambda _: pc.hermite_interp(A(X), A(G), A(q))), ('hermite other', 'q', lambda _: pc.hermite_interp(A(Y), A(G), A(q))),
           ('hermite elsewhere', 'q', lambda _: pc.hermite_interp(A(X), A(G), A(q[:3] + 0.5))), ('upsample', 'q', lambda _: pc.hermite_upsample(A(X), A(G), upsample_freq=3)),
           ('upsample at', 'q', lambda _: pc.hermite_upsample(A(X), A(G), new_lams=A(q))), ('linear', 'q', lambda _: pc.linear_interp(A(X), A(q))),
           ('linear other', 'q', lambda _: pc.linear_interp(A(Y), A(q))), ('linear reference', 'q', lambda _: pc.linear_interp(A(X), A(q), reference_values=A(x * 2 - 1.0)))]
    return [('interpolation', Nothing, ops, 2)]


def c22():
    from tmdsimpy.roms import epmc
    from checks import c22 as c
    nd, h = 2, np.array([0, 1, 3])
    bb, b2 = c.backbone(nd, h, 4, 'hard', 3), c.backbone(nd, h, 4, 'soft', 8)
    n = bb.shape[1] - 3
    F, G = ref.lattice_vec(n, 4), ref.lattice_vec(n, 7)
    # not whole numbers: the backbone has to stay physical
    B = lambda x: A(x, num=False)
    ops = []
    for name, b, f, kw in (('force', bb, F, {}), ('other backbone', b2, F, {}), ('other force', bb, G, {}), ('given', bb, F, dict(w=2.5, zeta=0.05))):
        ops.append((name, 'q', lambda _, b=b, f=f, kw=kw: epmc.constant_force(B(b), nd, A(h), Fl=B(f), **kw)))
    ops.append(('arrays', 'q', lambda _: epmc.constant_force(B(bb), nd, A(h), Fl=B(F), w=B(np.array([2.0, 2.1, 2.2, 2.3])), zeta=B(np.array([0.1, 0.2, 0.1, 0.3])))))
    for a in (0.02, 0.05):
        for name, b in (('', bb), (' other', b2)):
            ops.append(('amplitude %s%s' % (a, name), 'q', lambda _, a=a, b=b: epmc.constant_displacement(B(b), A(h), B(F[nd:2 * nd]), B(np.array([2.5, 3.0, 3.3])), B(np.array([1.0, 0.5])), a)))
    return [('modal model', Nothing, ops, 2)]


def c23():
    from tmdsimpy.roms import vprnm
    from checks import c23 as c
    nd, rhi = 2, 3
    hf, hr, hv = np.array([0, 1]), np.array([1, 2]), np.array([0, 1, 3])
    ef, er, vb = c.backbone(nd, hf, 2.3, 0.1, 5, hi=1.0), c.backbone(nd, hr, 2.0 * rhi * 1.04, 0.05, 11), c.vbone(nd, hv, rhi, 'amp', 17)
    c1, cr, F = np.array([1.0, 0.5]), np.array([0.3, 1.0]), ref.lattice_vec(nd, 4) + 1.2
    import roms
    av = np.array([abs(roms.to_complex(r, hv, nd)[1] @ c1) for r in vb])
    B = lambda x: A(x, num=False)
    ops = []
    for a in (0.5 * (av[1] + av[2]), 0.3 * av[2] + 0.7 * av[3]):
        for extra, corr in ((None, True), (None, False), (np.array([2.02, 1.99]), True)):
            ops.append(('amplitude %.3f extra %s correction %s' % (a, extra, corr), 'q', lambda _, a=a, extra=extra, corr=corr: vprnm.constant_h1_displacement(
                B(ef), A(hf), B(er), A(hr), B(vb), A(hv), rhi, B(c1), a, B(cr), B(F), extra_Omega=None if extra is None else B(extra), correct_force=corr)))
    return [('superharmonic model', Nothing, ops, 2)]


def c27():
    from tmdsimpy.utils import harmonic as hu
    from tmdsimpy.postprocess.harmonic import local_harmonic_forces
    ops = []
    for h, ph, hr, k in (([0, 1, 2], 0.7, 1, 3), ([0, 1, 3], 0.7, 1, 3), ([0, 1, 2], -2.1, 2, 3), ([0, 1, 2], 0.7, 1, 5)):
        n = ref.nhc(h) * 2 + 3
        ops.append(('rotate h=%s phase %s by %d data %d' % (h, ph, hr, k), 'q', lambda _, n=n, h=h, ph=ph, hr=hr, k=k: hu.rotate_subtract_phase(A(ref.lattice_mat(2, n, k)), 2, A(h), ph, hr)))
    ops.append(('rotate rows', 'q', lambda _: hu.rotate_subtract_phase(A(ref.lattice_mat(2, 13, 3)), 2, A([0, 1, 2]), A(np.array([0.4, -1.0])), 1)))
    ops += [('wrap %d' % k, 'q', lambda _, k=k: hu.shift_pm_pi(A(ref.lattice_vec(6, k) * 9))) for k in (2, 5)]
    ops += [('crossing %d' % k, 'q', lambda _, k=k: hu.zero_crossing(A(ref.lattice_vec(9, k) * 3 + 0.3)).astype(float)) for k in (2, 5)]
    out = [('phases', Nothing, ops, 2)]
    loc = []
    for h, k, w in (([0, 1, 2], 1, 1.3), ([0, 1, 3], 1, 1.3), ([0, 1, 2], 2, 1.3), ([0, 1, 2], 1, 0.4)):
        loc.append(('local h=%s state %d w=%s' % (h, k, w), 'q', lambda s, h=h, k=k, w=w: local_harmonic_forces(s.vib, A(ref.lattice_vec(ref.nhc(h) * 2, k)), w, A(h), Nt=16)))
    loc.append(('residual', 'q', lambda s: s.vib.hbm_res(A(np.append(vec(10, 1), 1.3)), vec(10, 4), A([0, 1, 2]), Nt=16)))
    for names in (('cubic2', 'jenkins'), ('cubdamp1', 'viwan', 'unilat+')):
        out.append(('+'.join(names), lambda names=names: Sys(2, list(names), seed=2, sym=True), loc + [o for o in mutators(2) if o[0] == 'add'], 3))
    return out


TABLE = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C19=c19, C21=c21, C22=c22, C23=c23, C24=c24, C25=c25, C26=c26, C27=c27)
TEXT = ('; plus all sequences of up to 3 calls with equally sized but different arguments (harmonic sets, states, frequencies, forcing) and state changes on ONE object, '
        'each answer compared with that of a fresh object')


def cases(prop, tier):
    """one case per (object, first operation)"""
    if prop not in TABLE:
        return []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return [dict(seq=i, first=k) for i, e in enumerate(TABLE[prop]()) for k in range(len(e[2]))]


def run(prop, case, rec):
    warnings.simplefilter('ignore')
    label, make, ops, depth = TABLE[prop]()[case['seq']]
    with contextlib.redirect_stdout(io.StringIO()):
        f = ops[case['first']]
        seqs.explore(rec, make, ops, depth, label, keep=lambda s: s[0] is f, jax=prop not in ('C21', 'C22'))         # (those take stored branches)
