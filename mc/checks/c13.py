import itertools
import warnings
import numpy as np
import ref
from systems import Hyst, make_elem, matrices
from tmdsimpy import VibrationSystem
from tmdsimpy.solvers import NonlinearSolver

ID = 'C13'
LEVEL = 'model_checking'
RULE = ('all operation sequences of length 4 (quick; 5 thorough) over {add memoryless/hysteretic element, set damping matrix / proportional / nothing, evaluate, commit at two displacements, reset history, '
        'frictionless on/off, set periodic start, undamped system evaluation} for systems with 1-3 DOFs built with and without damping. After every operation the static residual and tangent at two probe states, the damping matrix and '
        'the proportional coefficients are compared with a model; at the end the linear response is. State = model state; transition = one operation.')
ASSUMPTIONS = ['tangents are not compared exactly at a slider switch', 'elements with rate-dependent laws are outside the static residual (documented)']
SETS = {'friction': ['cubic2', 'unilat+', 'jenkins', 'vjenkins'], 'iwan': ['poly2', 'iwan', 'viwan', 'jenkins']}


def ops_of(case):
    ops = [('add', n) for n in SETS[case['set']]]
    ops += [('C', 'mat'), ('C', 'ab'), ('C', 'none'), ('C', 'both'), ('commit', 0), ('commit', 1), ('reset',), ('aftinit',)]
    if case['set'] == 'friction':
        ops += [('mu0',), ('mu1',)]
    return ops


def cases(tier):
    out = []
    depth = 4 if tier == 'quick' else 5
    for st in SETS:
        for nd, ctor in ((2, 'none'), (1, 'ab'), (3, 'C')) if tier == 'quick' else itertools.product((1, 2, 3), ('none', 'ab', 'C')):
            n = len(ops_of(dict(set=st)))
            for first in range(n):
                for second in range(n):
                    out.append(dict(set=st, nd=nd, ctor=ctor, first=[first, second], depth=depth if nd == 2 or tier != 'quick' else depth - 1))
    return out


def run(case, rec):
    warnings.simplefilter('ignore')
    nd = case['nd']
    ops = ops_of(case)
    M, C0, K = matrices(nd, 4, sym=True)
    C1 = ref.lattice_mat(nd, nd, 31)
    ab0, ab1 = [0.03, 0.02], [0.2, 0.005]
    lv = [ref.lattice_vec(nd, 2) * 1.2, ref.lattice_vec(nd, 6) * -2.5]
    probes = [ref.lattice_vec(nd, 3) * 0.9, -2.0 * ref.lattice_vec(nd, 8)]
    Fs = ref.lattice_vec(nd, 12)
    solver = NonlinearSolver()

    def play(seq):
        kw = {'none': {}, 'ab': dict(ab=list(ab0)), 'C': dict(C=C0.copy())}[case['ctor']]
        vib = VibrationSystem(M.copy(), K.copy(), **kw)
        C, ab = {'none': (0 * M, None), 'ab': (ab0[0] * M + ab0[1] * K, ab0), 'C': (C0, None)}[case['ctor']]
        els, names = [], []
        for pos, oi in enumerate(seq):
            op = ops[oi]
            where = lambda: 'nd=%d ctor=%s sequence %s' % (nd, case['ctor'], [ops[i] for i in seq[:pos + 1]])
            if op[0] == 'add':
                e = make_elem(op[1], nd, len(els))
                if isinstance(e, Hyst):
                    e.obj.init_history()
                els.append(e)
                names.append(op[1])
                vib.add_nl_force(e.obj)
            elif op == ('C', 'mat'):
                vib.set_new_C(C=C1.copy())
                C, ab = C1, None
            elif op == ('C', 'ab'):
                vib.set_new_C(ab=list(ab1))
                C, ab = ab1[0] * M + ab1[1] * K, ab1
            elif op == ('C', 'both'):
                vib.set_new_C(C=C1.copy(), ab=list(ab0))
                C, ab = ab0[0] * M + ab0[1] * K, ab0
            elif op == ('C', 'none'):
                vib.set_new_C()
            elif op[0] == 'commit':
                vib.update_force_history(lv[op[1]].copy())
                for e in els:
                    if isinstance(e, Hyst):
                        e.static(lv[op[1]], commit=True)
            elif op[0] == 'reset':
                vib.init_force_history()
                for e in els:
                    if isinstance(e, Hyst):
                        for s in e.sl:
                            s.u = s.f = 0.0
            elif op[0] == 'aftinit':
                vib.set_aft_initialize(lv[0].copy())
            elif op[0] in ('mu0', 'mu1'):
                (vib.set_prestress_mu if op[0] == 'mu0' else vib.reset_real_mu)()
                for e in els:
                    if isinstance(e, Hyst):
                        for s, f in zip(e.sl, e.fss):
                            s.fs = 0.0 if op[0] == 'mu0' else float(f)
            rec.step()
            key = op[0]
            for pi, X in enumerate(probes):
                X = X.copy()
                X0 = X.copy()
                R, D = vib.static_res(X, Fs)
                F, J, near = K @ X - Fs, K.copy(), np.inf
                for e in els:
                    if isinstance(e, Hyst):
                        f, j, d = e.static(X)
                    else:
                        f, j, _, d = e.glob(X, 0 * X)
                    F, J, near = F + f, J + j, min(near, d)
                rec.close(R, F, 'static residual after %s' % key, where, rtol=1e-9, atol=1e-9)
                if near > 1e-9:
                    rec.close(D, J, 'static tangent after %s' % key, where, rtol=1e-8, atol=1e-9)
                rec.expect(np.array_equal(X, X0), 'input modified', where)
            rec.close(vib.C, C, 'damping matrix after %s' % key, where, rtol=1e-12)
            rec.expect((vib.ab is None) == (ab is None) and (ab is None or np.allclose(vib.ab, ab)), 'proportional coefficients after %s' % key,
                       lambda: '%s: %r expected %r' % (where(), vib.ab, ab))
            rec.state(case['set'], nd, case['ctor'], names, ab, np.round(C, 9).tolist(),
                      [[(round(s.u, 9), round(s.f, 9), s.fs) for s in e.sl] for e in els if isinstance(e, Hyst)])
            rec.outcome(op, near > 1e-9)
        # the damping that is used is the damping that is stored
        w = np.array([0.7, 1.9])
        Fl = ref.lattice_vec(nd, 7)
        if ab is not None:
            X = vib.linear_frf(w, Fl, solver, neigs=nd)
            for i, wi in enumerate(w):
                z = np.linalg.solve(K - wi ** 2 * M + 1j * wi * C, Fl.astype(complex))
                rec.close(X[i], np.concatenate([z.real, -z.imag, [wi]]), 'linear response after damping update', str([ops[i] for i in seq]), rtol=1e-7, atol=1e-9)
        rec.expect(np.array_equal(vib.M, M) and np.array_equal(vib.K, K), 'matrices modified', str(case))
        rec.trace()

    for rest in itertools.product(range(len(ops)), repeat=case['depth'] - 2):
        play(list(case['first']) + list(rest))
    rec.sample('nd=%d %s: all continuations of %s to length %d' % (nd, case['ctor'], [ops[i] for i in case['first']], case['depth']))
