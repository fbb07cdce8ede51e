"""C19: services of the solver objects (linear solves, stored factors, eigenpairs, conditioning) under all call sequences."""
import itertools
import numpy as np
import ref
from tmdsimpy.solvers import NonlinearSolver
from tmdsimpy.jax.solvers import NonlinearSolverOMP

ID = 'C19'
LEVEL = 'model_checking'
RULE = ('all call sequences of length 4 (quick; 5 thorough) over 14 solver calls (linear solves of several sizes, factorise, solve with first/last stored factor, eigenpairs with default, shared and explicit index lists for 1-4 DOFs, '
        'with and without mass matrix, conditioned function evaluations) on one solver object of each kind; every result is checked by its defining equation and arguments are checked for modification. All scalar/vector '
        'scaling combinations of the conditioning wrapper with and without gradient. State = (calls so far); transition = one call.')
ASSUMPTIONS = ['matrices are well conditioned and eigenvalues distinct']
SOLVERS = {'base': NonlinearSolver, 'omp': NonlinearSolverOMP}
A = {n: ref.lattice_mat(n, n, 10 + n) + 3 * np.eye(n) for n in (1, 2, 3, 4)}
B = {n: ref.lattice_vec(n, 4 + n) for n in (1, 2, 3, 4)}
SYM = {n: (lambda a: (a @ a.T) + np.diag(np.arange(1.0, n + 1)))(ref.lattice_mat(n, n, 20 + n)) for n in (1, 2, 3, 4)}
MAS = {n: (lambda a: 0.2 * (a @ a.T) + np.diag(1.0 + 0.3 * np.arange(n)))(ref.lattice_mat(n, n, 30 + n)) for n in (1, 2, 3, 4)}
OPS = [('solve', 2), ('solve', 3), ('factor', 2), ('factor', 3), ('use', 0), ('use', -1), ('eig', 1, None), ('eig', 2, None), ('eig', 4, None), ('eigM', 4, None),
       ('eigM', 2, 'shared'), ('eigM', 4, 'shared'), ('eigM', 4, (1, 3)), ('cond', 2)]


def cases(tier):
    out = [dict(kind='cond', solver=s, n=n) for s in SOLVERS for n in (1, 2, 3)]
    out += [dict(kind='lin', solver=s, n=n) for s in SOLVERS for n in (1, 2, 3, 4)]
    for s in SOLVERS:
        for a, b in itertools.product(range(len(OPS)), repeat=2):
            out.append(dict(kind='seq', solver=s, first=[a, b], depth=4 if tier == 'quick' else 5))
    return out


def run(case, rec):
    globals()['run_' + case['kind']](case, rec)


def check_eig(rec, got, K, M, lo, hi, where):
    w, V = got
    w, V = np.asarray(w), np.asarray(V)
    n = K.shape[0]
    hi = min(hi, n - 1)
    m = hi - lo + 1
    rec.expect(w.shape == (m,) and V.shape == (n, m), 'number of eigenpairs', lambda: where() + ' %s %s, expected %d' % (w.shape, V.shape, m))
    Mm = np.eye(n) if M is None else M
    allw = np.sort(np.linalg.eigvals(np.linalg.solve(Mm, K)).real)
    rec.close(w, allw[lo:hi + 1], 'eigenvalues', where, rtol=1e-8)
    rec.close(K @ V, Mm @ V * w, 'eigenvectors', where, rtol=1e-8)
    rec.close(V.T @ Mm @ V, np.eye(m), 'mass normalisation', where, rtol=1e-8)


def run_seq(case, rec):
    depth = case['depth']
    for rest in itertools.product(range(len(OPS)), repeat=depth - 2):
        seq = case['first'] + list(rest)
        s = SOLVERS[case['solver']]()
        factors = []
        shared = [0, 2]
        pos = 0

        def where():
            return '%s calls %s' % (case['solver'], [OPS[i] for i in seq[:pos + 1]])
        for pos, i in enumerate(seq):
            op = OPS[i]
            if pos == depth - 1 or seq[pos + 1:] == [0] * (depth - 1 - pos):
                rec.state(case['solver'], seq[:pos + 1])
            rec.step()
            if op[0] in ('solve', 'factor'):
                n = op[1]
                a, b = A[n] + pos * np.eye(n), B[n] * (1 + pos)
                a_, b_ = a.copy(), b.copy()
                if op[0] == 'solve':
                    x = np.asarray(s.lin_solve(a_, b_))
                    rec.close(a @ x, b, 'lin_solve', where)
                else:
                    factors.append((s.lin_factor(a_), a, n))
                rec.expect(np.array_equal(a, a_) and np.array_equal(b, b_), 'arguments modified', where)
            elif op[0] == 'use':
                if factors:
                    f, a, n = factors[op[1]]
                    b = B[n] * (2 + pos)
                    b_ = b.copy()
                    x = np.asarray(s.lin_factored_solve(f, b_))
                    rec.close(a @ x, b, 'lin_factored_solve', where)
                    rec.expect(np.array_equal(b, b_), 'arguments modified', where)
            elif op[0] in ('eig', 'eigM'):
                n = op[1]
                K, M = SYM[n].copy(), (MAS[n].copy() if op[0] == 'eigM' else None)
                if op[2] is None:
                    got, rng = s.eigs(K, *([] if M is None else [M])), (0, 2)
                elif op[2] == 'shared':
                    got, rng = s.eigs(K, M, subset_by_index=shared), (0, 2)
                else:
                    idx = list(op[2])
                    got, rng = s.eigs(K, M, subset_by_index=idx), op[2]
                    rec.expect(idx == list(op[2]), 'index list of the caller modified', where)
                rec.expect(shared == [0, 2], 'index list of the caller modified', where)
                rec.expect(np.array_equal(K, SYM[n]) and (M is None or np.array_equal(M, MAS[n])), 'arguments modified', where)
                check_eig(rec, got, SYM[n], M, rng[0], rng[1], where)
            else:
                n = op[1]
                f = s.conditioning_wrapper(lambda X, calc_grad=True: (A[n] @ X - B[n], A[n]), B[n] + 3.0)
                R, J = f(B[n])
                rec.close(R, A[n] @ (B[n] * (B[n] + 3)) - B[n], 'conditioned residual', where)
                rec.close(J, A[n] * (B[n] + 3), 'conditioned Jacobian', where)
        rec.trace()


def run_cond(case, rec):
    n = case['n']
    s = SOLVERS[case['solver']]()
    for scal in itertools.product((0.5, 1.0, 7.0), repeat=n):
        for rs in [1.0, 0.25, None] + [np.array(r) for r in itertools.product((0.1, 1.0, 4.0), repeat=n)]:
            for extra in (False, True):
                calls = []

                def fun(*args, **kw):
                    calls.append((np.array(args[0]), args[1:], dict(kw)))
                    X = args[0]
                    R = A[n] @ X + X ** 3 - B[n]
                    J = A[n] + np.diag(3 * X ** 2)
                    grad = kw.get('calc_grad', args[1] if len(args) > 1 else True)
                    out = (R, J) if grad else (R,)
                    return out + (('more', 1, 2) if extra else ())
                C = np.array(scal)
                rr = 1.0 if rs is None else rs
                C_, r_ = C.copy(), (rr.copy() if isinstance(rr, np.ndarray) else rr)
                f = s.conditioning_wrapper(fun, C_, **({} if rs is None else {'RPtoC': r_}))
                where = lambda: '%s n=%d CtoP %s RPtoC %s' % (case['solver'], n, scal, rs)
                for Xc in (B[n], -0.5 * B[n] + 1):
                    for grad in (None, True, False):
                        del calls[:]
                        x = Xc.copy()
                        out = f(x) if grad is None else f(x, grad)
                        rec.step()
                        rec.state(n, scal, str(rs), grad)
                        X = Xc * C
                        rec.expect(len(calls) == 1, 'evaluations', where)
                        rec.close(calls[0][0], X, 'point', where)
                        D = np.diag(rr * np.ones(n))
                        rec.close(out[0], D @ (A[n] @ X + X ** 3 - B[n]), 'residual', where)
                        if grad is not False:
                            # a function without the option must do when the gradient is requested
                            rec.expect(not calls[0][1] and not calls[0][2], 'calc_grad passed although the gradient is requested', where)
                            rec.close(out[1], D @ (A[n] + np.diag(3 * X ** 2)) @ np.diag(C), 'Jacobian', where)
                        rec.expect(np.array_equal(x, Xc) and np.array_equal(C, C_) and np.array_equal(rr, r_), 'arguments modified', where)
            rec.trace()


def run_lin(case, rec):
    n = case['n']
    s = SOLVERS[case['solver']]()
    for seed in range(40):
        a = ref.lattice_mat(n, n, seed) + (2 + seed % 3) * np.eye(n)[::-1 if seed % 2 else 1]
        if abs(np.linalg.det(a)) < 1e-2:
            continue
        f = s.lin_factor(a.copy())
        for k in range(n):
            for sc in (1.0, 1e-6, 1e8):
                b = sc * (np.eye(n)[k] + 0.5 * ref.lattice_vec(n, seed))
                where = lambda: '%s n=%d matrix %d rhs %d' % (case['solver'], n, seed, k)
                rec.close(a @ np.asarray(s.lin_solve(a, b)), b, 'lin_solve', where, atol=1e-13 * sc)
                rec.close(a @ np.asarray(s.lin_factored_solve(f, b)), b, 'lin_factored_solve', where, atol=1e-13 * sc)
                rec.step(2)
                rec.state(n, seed, k, sc)
        rec.trace()
