"""C30: independent objects do not influence each other, however their calls are interleaved."""
import base64
import itertools
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import warnings
import numpy as np
import elems
import faults
import ref
import seqs
import tmdsimpy
from seqs import flat
from systems import HYST, Sys

ID = 'C30'
CASE_LIMIT = 900
LEVEL = 'model_checking'
ROOT = os.path.dirname(os.path.abspath(tmdsimpy.__file__))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULE = ('pairs of objects of one kind with equal shapes and different parameters (elements of all types, systems, solvers, continuations, saving callbacks, plain functions with different arguments). '
        '(a) all interleavings of call sequences of the two objects up to the depth; (b) one preemption: the complete call of one object is executed between any two lines of a call of the other (first and last execution of every line). '
        'Oracle: every answer equals the one obtained in a process of its own that contains only that object. Dictionaries and arrays handed to both objects stay unchanged. State = (pair, interleaving or preempted line); transition = one call.')
ASSUMPTIONS = ['preemption between lines of the package (and its callers), not inside NumPy, SciPy or JAX calls', 'one preemption per call']


def vec(n, k, a=1.0):
    return a * ref.lattice_vec(n, k)


def inst(name):
    build = {
        'cubic': lambda Q, T, v: elems.cubic(Q, T, np.array([1.7, -0.6]) * (1 + v)), 'quintic': lambda Q, T, v: elems.quintic(Q, T, np.array([0.9, -1.3]) * (1 + v)),
        'cubdamp': lambda Q, T, v: elems.cubdamp(Q, T, np.array([0.31, 0.07]) * (1 + v)),
        'unilat': lambda Q, T, v: elems.unilat(Q, T, np.array([1.3, 0.7]) * (1 + v), np.array([0.5, 0.1]) * (1 - 0.3 * v), np.array([0.1, -0.5]) * (1 - 0.2 * v)),
        'poly': lambda Q, T, v: elems.poly(Q, T, np.array([[0.7, -0.4], [0.3, 0.9]]) * (1 + v), [[2, 1], [0, 3]] if v else [[1, 2], [3, 0]]),
        'iwanbb': lambda Q, T, v: elems.iwanbb(Q[:1], T[:, :1], 1.2 * (1 + v), 0.5 * (1 + 0.3 * v), -0.5 + 0.2 * v, 0.3 * (1 - 0.5 * v)),
    }[name]

    def make(v):
        Q, T = elems.mats(2, 2, 5)
        if v == 2:
            Q, T = elems.mats(2, 2, 9)
        return build(Q, T, v if v != 2 else 0)[0]

    n = 1 if name == 'iwanbb' else 2
    ops = [('force', lambda o: o.force(vec(2, 4))), ('harmonic', lambda o: o.aft(vec(10, 6), 1.3, np.array([0, 1, 2]), Nt=16)),
           ('history', lambda o: o.local_force_history(ref.lattice_mat(4, n, 3), ref.lattice_mat(4, n, 8))), ('harmonic without gradient', lambda o: o.aft(vec(10, 7), 0.8, np.array([0, 1, 3]), Nt=16, calc_grad=False))]
    return make, ops, 3


def hyst(name):
    def make(v):
        cls, par = HYST[name]
        Q, T = elems.mats(1, 2, 5 if v != 2 else 9)
        f = 1.0 if v != 1 else 1.6
        o = cls(Q, T, par[0] * f, par[1] / f) if len(par) == 2 else cls(Q, T, par[0] * f, par[1] / f, par[2] + 0.1 * (f > 1), par[3], Nsliders=par[4])
        o.init_history()
        return o
    ops = [('force', lambda o: o.force(vec(2, 4, 0.6))), ('commit', lambda o: o.force(vec(2, 4, 0.6), update_hist=True)), ('commit other', lambda o: o.force(vec(2, 6, -1.4), update_hist=True)),
           ('reset', lambda o: o.init_history())]
    return make, ops, 3


def hyst_aft(name):
    make = hyst(name)[0]
    ops = [('harmonic', lambda o: o.aft(vec(10, 6), 1.3, np.array([0, 1, 2]), Nt=16)), ('other state', lambda o: o.aft(vec(10, 9), 1.3, np.array([0, 1, 2]), Nt=16)), ('other harmonics', lambda o: o.aft(vec(10, 6), 0.8, np.array([0, 1, 3]), Nt=16))]
    return make, ops, 3


def jaxel(kind):
    def make(v):
        f = 1.0 if v != 1 else 1.6
        if kind in ('jenkins', 'vjenkins'):
            from tmdsimpy.jax.nlforces.jenkins_element import JenkinsForce
            from tmdsimpy.jax.nlforces.vector_jenkins import VectorJenkins
            return (JenkinsForce if kind == 'jenkins' else VectorJenkins)(*elems.mats(1, 2, 5 if v != 2 else 9), 1.4 * f, 0.45 / f, u0=0)
        if kind in ('dry2', 'dry3'):
            from checks import c24
            dim = int(kind[-1])
            Q = ref.lattice_mat(dim, dim, 3 if v != 2 else 8) + 1.5 * np.eye(dim)
            kt, kn, mu, gap = c24.PAR[dim - 2]
            o = c24.make(dim, Q, Q.T.copy(), (kt * f, kn / f, mu * f, gap + 0.1 * (f > 1)))
        else:
            from checks import c25
            o = c25.element(1 if v == 1 else 0, 'TAN' if kind == 'rough' else 'MIF', c25.Q3, c25.T3 * (1 + 0.5 * (v == 2)), 6)
        o.init_history()
        return o
    nd = dict(jenkins=2, vjenkins=2, dry2=2, dry3=3).get(kind, 3)
    if kind[:5] == 'rough':
        from checks import c25
        Qi = np.linalg.inv(c25.Q3) * 0.09
        X, Y = Qi @ np.array([0.1, -0.1, 1.0]), Qi @ np.array([-0.2, 0.1, 0.6])
        U = np.zeros((5, 3))
        U[0], U[1], U[2], U[3] = Qi @ np.array([0.0, 0.1, 0.9]), Qi @ np.array([0.2, 0.0, 0.1]), Qi @ np.array([0.1, 0.1, 0.0]), Qi @ np.array([0.0, 0.05, 0.1])
        U = U.ravel()
    else:
        X, Y, U = vec(nd, 4, 0.7), vec(nd, 6, -1.1), vec(5 * nd, 6)
    ops = [('harmonic', lambda o: o.aft(U, 1.0, np.array([0, 1, 2]), Nt=16)), ('other state', lambda o: o.aft(0.8 * U, 1.0, np.array([0, 1, 2]), Nt=16))]
    if kind[-7:] != 'jenkins':
        ops += [('force', lambda o: o.force(Y)), ('commit', lambda o: o.force(X, update_hist=True)), ('frictionless', lambda o: o.set_prestress_mu()), ('periodic start', lambda o: o.set_aft_initialize(X))]
    return make, ops, 2 if kind[:5] == 'rough' else 3


def system(which):
    names = {'mixed': ['cubic2', 'vjenkins'], 'smooth': ['cubdamp1', 'unilat+'], 'slip': ['iwan', 'jenkins']}[which]

    def make(v):
        s = Sys(2, names, seed=2 + 3 * v, sym=True)
        s.vib.K[:] = s.vib.K + 4 * np.eye(2)
        s.vib.set_new_C(ab=[0.02 + 0.03 * v, 0.01])
        s.vib.init_force_history()
        return s.vib
    from tmdsimpy.solvers import NonlinearSolver
    h, F = np.array([0, 1, 2]), vec(10, 4)
    sol = NonlinearSolver()
    ops = [('residual', lambda o: o.hbm_res(np.append(vec(10, 1), 1.3), F, h, Nt=16)), ('modal', lambda o: o.epmc_res(np.append(vec(10, 2), [1.2, 0.05, -0.3]), F, h, Nt=16)),
           ('superharmonic', lambda o: o.vprnm_res(np.append(vec(10, 3), [1.2, 0.4]), h, 2, F, Nt=16)), ('amplitude', lambda o: o.hbm_amp_control_res(np.append(vec(10, 1), [0.7, 1.3]), F, h, np.array([1.0, 0.5]), 0.4, 1, Nt=16)),
           ('phase', lambda o: o.hbm_amp_phase_control_res(np.append(vec(10, 1), [0.7, 0.2, 1.3]), F, h, np.array([1.0, 0.5]), 0.4, 1, Nt=16)),
           ('base', lambda o: o.hbm_base_res(np.append(vec(5, 1), 1.3), vec(5, 2), np.array([True, False]), h, Nt=16)), ('linear', lambda o: o.linear_frf(np.array([0.5, 1.9]), vec(2, 4), sol, neigs=2)),
           ('set damping', lambda o: o.set_new_C(ab=[0.2, 0.05]))]
    if which == 'smooth':
        ops += [('add', lambda o: o.add_nl_force(elems.make('quintic1', 2, 7).obj))]
    if which == 'slip':
        ops = ops[:2] + [('static', lambda o: o.static_res(vec(2, 4, 0.6), vec(2, 7))), ('commit', lambda o: o.update_force_history(vec(2, 6, -1.4))), ('reset', lambda o: o.init_force_history())]
        ops = ops[2:]
    return make, ops, 2 if which != 'slip' else 3


def shooting(_):
    def make(v):
        return Sys(2, ['cubic2'], seed=2 + 3 * v, sym=True).vib
    return make, [('shooting', lambda o: o.shooting_res(np.append(vec(4, 1, 0.5), 1.3), vec(4, 4), Nt=8)), ('other', lambda o: o.shooting_res(np.append(vec(4, 2, 0.5), 0.9), vec(4, 4), Nt=8))], 2


SHARED = dict(max_steps=12, verbose=False, xtol=1e-9, stopping_tol=['xtol'])
AS = {0: np.array([[3.0, 1.0, 0.5], [0.2, 2.0, -1.0], [0.1, 0.4, 1.5]]), 1: np.array([[1.0, -0.3, 0.5], [0.7, 2.5, 0.3], [-0.6, 0.4, 2.0]])}


def solver(kind):
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.jax.solvers import NonlinearSolverOMP

    def fun(X, calc_grad=True):
        R = np.array([X[0] ** 3 + X[1] - 1.0, X[1] ** 3 + 0.5 * X[0] - 0.3])
        return (R, np.array([[3 * X[0] ** 2, 1.0], [0.5, 3 * X[1] ** 2]]))[:2 if calc_grad else 1]

    def make(v):
        if kind == 'root':
            o = NonlinearSolver()
        elif kind == 'shared':
            o = NonlinearSolverOMP(config=SHARED)
        else:
            o = NonlinearSolverOMP(config=[dict(verbose=False, max_steps=20, xtol=1e-9, stopping_tol=['xtol']), dict(verbose=False, max_steps=3, reform_freq=3, rtol=1e-3, stopping_tol=['rtol']),
                                           dict(verbose=False, max_steps=20, line_search_iters=4, etol=1e-6, stopping_tol=['etol'])][v])
        o.var = v % 2
        return o

    def solve(o):
        X, R, J, sol = o.nsolve(fun, np.array([0.9, 0.4 + 0.1 * o.var]))
        return np.asarray(X), R, float(sol['success'])

    def factor(o):
        o.fac = o.lin_factor(AS[o.var])

    def second(o):
        return o.lin_factored_solve(o.fac, vec(3, 4)) if hasattr(o, 'fac') else o.lin_solve(AS[o.var], vec(3, 4))
    ops = [('nsolve', solve), ('factor', factor), ('solve factored', second), ('eigenvalues', lambda o: o.eigs(AS[o.var] + AS[o.var].T, np.eye(3) * 2, subset_by_index=[0, 1])[0])]
    return make, ops, 3


RUN = dict(verbose=-1, dsmax=0.4, dsmin=0.01)


def branch(kind):
    from tmdsimpy.continuation import Continuation
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    keep = {}

    def fun(X, calc_grad=True):
        R = np.array([X[0] ** 3 + X[0] - X[1] - 0.5 * X[2], X[1] + 0.3 * X[0] ** 2 - X[2]])
        return (R, np.array([[3 * X[0] ** 2 + 1, -1.0], [0.6 * X[0], 1.0]]), np.array([-0.5, -1.0]))[:3 if calc_grad else 1]

    def make(v):
        sol = NonlinearSolver() if kind == 'root' else keep.setdefault('s', NonlinearSolverOMP(config=dict(verbose=False, max_steps=20))) if kind == 'one solver' else NonlinearSolverOMP(config=dict(verbose=False, max_steps=20, xtol=1e-9))
        cfg = RUN if kind == 'one config' else [dict(RUN, FracLam=0.4), dict(RUN, corrector='Ortho', DynamicCtoP=True, dsmax=0.3), dict(RUN, FracLamList=[0.6, 0.3], TargetNfev=4)][v]
        o = Continuation(sol, ds0=0.2, CtoP=keep.setdefault('c', np.array([1.0, 0.7, 1.3])) if v < 2 else None, config=cfg)
        return o
    ops = [('run', lambda o: o.continuation(fun, np.array([0.2, 0.1, 0.2]), 0.2, 1.0)), ('run down', lambda o: o.continuation(fun, np.array([0.5, 0.4, 0.8]), 0.8, 0.1)),
           ('predict', lambda o: (o.continuation(fun, np.array([0.2, 0.1, 0.2]), 0.2, 0.4), o.predict(fun, np.array([0.3, 0.2, 0.4]), np.array([0.2, 0.1, 0.2]), np.array([0.1, 0.1, 0.2])))[1]) if kind != 'root' else
           ('short run', lambda o: o.continuation(fun, np.array([0.2, 0.1, 0.2]), 0.2, 0.4))]
    return make, ops, 2


def saver(_):
    from tmdsimpy.utils import continuation as cu

    class Saver:
        def __init__(self, v):
            self.d = SCRATCH[0]
            self.v = v
            self.n = 0
            self.f = os.path.join(tempfile.mkdtemp(dir=self.d) if v == 2 else self.d, '%s%d.npz' % (['points', 'pointsb', 'points'][v], self.n_made()))
            self.g = self.f[:-4] + '.dat'

        made = [0]

        def n_made(self):
            self.made[0] += 1
            return self.made[0]

        def save(self, x):
            x = np.asarray(x) * (1 + self.v)
            cu.continuation_save(x, -x, self.f)

        def stats(self, x):
            x = np.asarray(x) * (1 + self.v)
            cu.print_epmc_stats(x, -x, self.g)

        def read(self):
            out = []
            if os.path.exists(self.f):
                d = np.load(self.f)
                out = [d[k] for k in sorted(d.files)]
            if os.path.exists(self.g):
                out.append(np.frombuffer(open(self.g, 'rb').read(), dtype=np.uint8).astype(float))
            return out
    ops = [('save', lambda o: o.save(vec(5, 3))), ('save other', lambda o: o.save(vec(5, 4))), ('print', lambda o: o.stats(np.abs(vec(5, 6)))), ('read', lambda o: o.read())]
    return Saver, ops, 3


SCRATCH = [None]


class Args:
    def __init__(self, v):
        self.v = v


def functions(kind):
    from tmdsimpy.utils import harmonic as hu
    from tmdsimpy.jax import harmonic_utils as jhu
    from tmdsimpy.postprocess import continuation as pc
    from tmdsimpy.roms import epmc
    from systems import matrices
    h = np.array([0, 1, 2])
    if kind == 'harmonic':
        ops = [('series', lambda o: hu.time_series_deriv(16, h, ref.lattice_mat(5, 2, 3 + o.v), 1)), ('coefficients', lambda o: hu.get_fourier_coeff(h, ref.lattice_mat(16, 2, 3 + o.v))),
               ('stiffness', lambda o: hu.harmonic_stiffness(*matrices(2, o.v), 1.3 + 0.1 * o.v, h)), ('conditioning', lambda o: hu.harmonic_wise_conditioning(vec(12, 3 + o.v), 2, h)),
               ('rotation', lambda o: hu.rotate_subtract_phase(ref.lattice_mat(2, 12, 3 + o.v), 2, h, 0.4 + 0.3 * o.v, 1)), ('jax series', lambda o: np.array(jhu.time_series_deriv(16, (0, 1, 2), ref.lattice_mat(5, 2, 3 + o.v), 1))),
               ('jax coefficients', lambda o: np.array(jhu.get_fourier_coeff((0, 1, 2), ref.lattice_mat(16, 2, 3 + o.v))))]
        return Args, ops, 2
    from checks import c22
    from tmdsimpy.postprocess.harmonic import local_harmonic_forces
    bb = [c22.backbone(2, np.array([0, 1, 3]), 4, t, k) for t, k in (('hard', 3), ('soft', 8), ('hard', 6))]
    F = vec(bb[0].shape[1] - 3, 4)
    x = np.cumsum([0.0, 1.0, 0.5, 2.0, 1.5])
    pts = lambda v: (np.c_[ref.lattice_mat(5, 2, 3 + v), x * (1 + v)], np.c_[ref.lattice_mat(5, 2, 8 + v), np.ones(5)], np.array([0.5, 2.0, 4.5, 1.0]))
    ops = [('modal response', lambda o: epmc.constant_force(bb[o.v], 2, np.array([0, 1, 3]), Fl=F)), ('modal force', lambda o: epmc.constant_displacement(bb[o.v], np.array([0, 1, 3]), F[2:4], np.array([2.5, 3.0]), np.array([1.0, 0.5]), 0.03)),
           ('hermite', lambda o: pc.hermite_interp(*pts(o.v))), ('upsample', lambda o: pc.hermite_upsample(*pts(o.v)[:2], upsample_freq=3)), ('linear', lambda o: pc.linear_interp(pts(o.v)[0], pts(o.v)[2])),
           ('local forces', lambda o: local_harmonic_forces(Sys(2, ['cubic2', 'jenkins'], seed=2 + o.v, sym=True).vib, vec(10, 3 + o.v), 1.3, h, Nt=16))]
    return Args, ops, 2


KINDS = [(inst, n) for n in ('cubic', 'quintic', 'cubdamp', 'unilat', 'poly', 'iwanbb')] + [(hyst, n) for n in sorted(HYST)] + [(hyst_aft, n) for n in sorted(HYST)] + \
    [(jaxel, n) for n in ('jenkins', 'vjenkins', 'dry2', 'dry3', 'rough', 'rough MIF')] + [(system, n) for n in ('mixed', 'smooth', 'slip')] + [(shooting, 'cubic')] + \
    [(solver, n) for n in ('root', 'own', 'shared')] + [(branch, n) for n in ('root', 'own', 'one solver', 'one config')] + [(saver, 'files'), (functions, 'harmonic'), (functions, 'postprocess')]


def answers(ops, make, v, words):
    out = {}
    for w in words:
        o = make(v)
        for k in w[:-1]:
            ops[k][1](o)
        out[w] = flat(ops[w[-1]][1](o))
    return out


def words(ops, depth):
    return [w for L in range(1, depth + 1) for w in itertools.product(range(len(ops)), repeat=L)]


def child(k, v, depth):
    """only objects of variant v exist in this process"""
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    SCRATCH[0] = tempfile.mkdtemp(prefix='c30-')
    try:
        keep = os.dup(1)
        os.dup2(2, 1)
        make, ops, _ = KINDS[k][0](KINDS[k][1])
        out = answers(ops, make, v, words(ops, depth))
        with os.fdopen(keep, 'wb') as f:
            f.write(base64.b64encode(pickle.dumps(out)))
    finally:
        shutil.rmtree(SCRATCH[0], ignore_errors=True)


def isolated(k, v, depth):
    code = 'import sys; sys.path[:0] = %r; from checks import c30; c30.child(%d, %d, %d)' % (sys.path, k, v, depth)
    r = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    assert r.returncode == 0, 'isolated run failed: ' + r.stderr.decode()[-400:]
    return pickle.loads(base64.b64decode(r.stdout))


COUNT = {'mixed': 8, 'smooth': 9}          # number of operations of a system


def cases(tier):
    full = tier != 'quick'
    out = []
    for k, (f, n) in enumerate(KINDS):
        for a, b in (((0, 1), (2, 0), (1, 2)) if full else ((0, 1),)):
            out.append(dict(kind=f.__name__, which=n, index=k, a=a, b=b, mode='interleave', extra=int(full and f in (inst, hyst, saver, functions))))
            slow = f is branch and n != 'root'
            if full or not slow or n == 'own':
                out += [dict(kind=f.__name__, which=n, index=k, a=a, b=b, mode='preempt', all=full, op=i) for i in ((2,) if slow and not full else range(COUNT.get(n, 3)) if f in (branch, system, hyst_aft) else (None,))]
        if not full and f in (inst, hyst, hyst_aft, system):
            out.append(dict(kind=f.__name__, which=n, index=k, a=2, b=0, mode='interleave', extra=0))
    return out


def same(a, b, tol):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=tol, atol=tol * max(1.0, float(np.max(np.abs(y[np.isfinite(y)]), initial=0.0))), equal_nan=True) for x, y in zip(a, b))


def run(case, rec):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    SCRATCH[0] = tempfile.mkdtemp(prefix='c30-')
    shared = [repr(SHARED), repr(RUN)]
    try:
        make, ops, depth = KINDS[case['index']][0](case['which'])
        (interleave if case['mode'] == 'interleave' else preempt)(case, rec, make, ops, depth + case.get('extra', 0))
        rec.expect([repr(SHARED), repr(RUN)] == shared, 'a dictionary handed to two objects was modified', lambda: '%s: %s, was %s' % (case, [repr(SHARED), repr(RUN)], shared))
    finally:
        shutil.rmtree(SCRATCH[0], ignore_errors=True)


def interleave(case, rec, make, ops, depth):
    want = {v: isolated(case['index'], v, depth - 1) for v in (case['a'], case['b'])}
    letters = [(v, k) for v in (case['a'], case['b']) for k in range(len(ops))]
    n = 0
    for w in itertools.product(letters, repeat=depth):
        if len({v for v, k in w}) < 2:
            continue
        for order in ((case['a'], case['b']), (case['b'], case['a']))[:2 if n % 7 == 0 else 1]:          # order of creation
            rec.state(case['which'], order, w)
            objs = {v: make(v) for v in order}
            done = {v: () for v in order}
            kept = []
            for v, k in w:
                got = ops[k][1](objs[v])
                done[v] += (k,)
                got = flat(got)
                rec.step()
                kept.append((v, done[v], got))
            for v, d, got in kept:
                if not rec.expect(same(got, want[v][d], 1e-12), 'another object changes an answer', lambda: '%s %s: calls %s (object, call): answer of object %d is %s, alone %s' % (
                        case['kind'], case['which'], [(x, ops[y][0]) for x, y in w], v, got, want[v][d])):
                    break
            rec.trace()
        n += 1
    rec.state(case['kind'], case['which'], case['a'], case['b'], n)
    rec.sample('%s %s: all %d interleavings of length %d over %s' % (case['kind'], case['which'], n, depth, [o[0] for o in ops]))


def preempt(case, rec, make, ops, depth):
    want = {v: isolated(case['index'], v, 2) for v in (case['a'], case['b'])}
    a, b = case['a'], case['b']
    total = 0
    assert case['op'] is None or len(ops) == COUNT.get(case['which'], 3)
    for i in range(len(ops)) if case['op'] is None else [case['op']]:
        inner = range(len(ops)) if case['all'] else [2] if case['kind'] == 'branch' else sorted({i, (i + 1) % len(ops)})
        for pre in (None, 0) if case['all'] else (None,):
            def start():
                o = make(a)
                if pre is not None:
                    ops[pre][1](o)
                return o
            w = ((pre,) if pre is not None else ()) + (i,)
            ops[i][1](start())
            o = start()
            log = faults.traced(lambda: ops[i][1](o), ROOT)
            for at in faults.points(log, False):
                for j in inner:
                    x, y = start(), make(b)
                    res = []
                    got = []
                    faults.traced(lambda: got.append(ops[i][1](x)), ROOT, at, lambda: res.append(ops[j][1](y)))
                    where = lambda: '%s %s: %s of object %d with %s of object %d before %s %s line %d' % ((case['kind'], case['which'], ops[i][0], a, ops[j][0], b, os.path.basename(log[at - 1][0])) + log[at - 1][1:])
                    rec.step(2)
                    rec.expect(same(flat(got[0]), want[a][w], 1e-12), 'a call of another object in between changes an answer', lambda: '%s: got %s, alone %s' % (where(), flat(got[0]), want[a][w]))
                    if res:
                        rec.expect(same(flat(res[0]), want[b][(j,)], 1e-12), 'a call within a call of another object gives another answer', lambda: '%s: got %s, alone %s' % (where(), flat(res[0]), want[b][(j,)]))
                    else:
                        rec.outcome('line not reached again')
                    if ops[i][0] != 'read':
                        rec.trace()
                total += 1
                rec.state(case['which'], a, ops[i][0], log[at - 1])
    rec.state(case['kind'], case['which'], 'preempt', total)
    rec.sample('%s %s: preemption at %d lines' % (case['kind'], case['which'], total))
