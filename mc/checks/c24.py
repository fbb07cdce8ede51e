"""C24: elastic dry friction against a scalar contact state machine with explicit gradients."""
import copy
import itertools
import numpy as np
import ref
from tmdsimpy import VibrationSystem
from tmdsimpy.jax.nlforces.elastic_dry_fric_2d import ElasticDryFriction2D
from tmdsimpy.jax.nlforces.elastic_dry_fric_3d import ElasticDryFriction3D

ID = 'C24'
LEVEL = 'model_checking'
CASE_LIMIT = 400
RULE = ('(a) static: all operation sequences (depth 3; thorough 4) over evaluate / evaluate+commit at a lattice of tangential x normal displacements (open, touching, light, heavy), re-initialise, prestress friction on/off; '
        '(b) all displacement cycles of 4 (thorough 5) samples over {3 tangential} x {3 normal} levels through the cycle routine for all start options; (c) all harmonic coefficient lattices for several harmonic sets and normal load patterns '
        '(closed, partly open, open, touching) through the harmonic force, with and without gradient, after static history and set_aft_initialize. Model: one spring-slider per direction with explicit derivative propagation. State = (slider, contact) state; transition = one sample.')
ASSUMPTIONS = ['gradients are compared away from exact ties (stick limit, touching)', 'u0=None only with a zeroth harmonic']
PAR = [(1.0, 2.0, 0.4, 0.0), (2.0, 1.0, 0.9, 0.25), (0.5, 3.0, 0.0, -0.5)]     # kt kn mu gap


def make(dim, Q, T, par, u0=0):
    kt, kn, mu, gap = par
    cls = ElasticDryFriction2D if dim == 2 else ElasticDryFriction3D
    return cls(Q, T, kt, kn, mu, u0=u0, meso_gap=gap)


def step(par, mu, up, fp, dup, dfp, u, du, un, dun):
    """one tangential slider under the normal displacement un -> force, dforce, normal, dnormal, distance to a tie"""
    kt, kn, _, gap = par
    N = kn * (un - gap)
    near = abs(N)
    dN = kn * dun
    if N < 0:
        N, dN = 0.0, 0 * dun
    f = kt * (u - up) + fp
    df = kt * (du - dup) + dfp
    if mu == 0 or N == 0:                   # no friction force in a whole neighbourhood
        return 0.0, 0 * df, N, dN, near
    near = min(near, abs(f - mu * N), abs(f + mu * N))
    if f > mu * N:
        f, df = mu * N, mu * dN
    elif f < -mu * N:
        f, df = -mu * N, -mu * dN
    return f, df, N, dN, near


def cycle(dim, par, mu, unl, dunl, start, dstart):
    """steady cycle.  unl (Nt, nl); dunl (Nt, nl, m) derivatives; start (nl,) -> f, df, near, final state"""
    Nt, nl = unl.shape
    m = dunl.shape[2]
    f, df, near = np.zeros((Nt, nl)), np.zeros((Nt, nl, m)), np.inf
    for i in range(nl):
        if i % dim == dim - 1:
            continue
        nrm = i - i % dim + dim - 1
        up, dup, fp, dfp = start[i], dstart[i], 0.0, np.zeros(m)
        last = None
        for rep in range(8):
            for t in range(Nt):
                fp, dfp, N, dN, nr = step(par, mu, up, fp, dup, dfp, unl[t, i], dunl[t, i], unl[t, nrm], dunl[t, nrm])
                up, dup = unl[t, i], dunl[t, i]
                near = min(near, nr)
                f[t, i], df[t, i], f[t, nrm], df[t, nrm] = fp, dfp, N, dN
            if last is not None and abs(last - fp) < 1e-14:
                break
            last = fp
    return f, df, near


def cases(tier):
    full = tier != 'quick'
    out = []
    for dim in (2, 3):
        for p in range(len(PAR)):
            for first in range(len(OPS[dim])):
                out.append(dict(kind='static', dim=dim, p=p, first=first, depth=4 if full else 3))
            for first in range(9):
                out.append(dict(kind='cycle', dim=dim, p=p, Nt=5 if full else 4, first=first))
    hs = [[0, 1], [1], [0], [0, 1, 2], [1, 3]] + ([[0, 1, 3], [1, 2], [0, 2], [0, 1, 2, 3]] if full else [])
    for dim in (2, 3):
        for h in hs:
            for two in (False, True):
                out.append(dict(kind='aft', dim=dim, h=h, two=two, full=full))
    out.sort(key=lambda c: c['kind'] != 'aft')                # compilation is slow: first
    return out


LEV_T, LEV_N = (0.0, 1.0, -1.5), (-1.0, 0.25, 1.0)
_E = [(t, n) for t in (0.0, 0.6, -1.3) for n in (-0.8, 0.3, 1.1)]
OPS = {2: [('e',) + x for x in _E] + [('c',) + x for x in _E] + [('init',), ('pre',), ('real',)]}
OPS[3] = OPS[2]


def mats(dim, two=False):
    if dim == 2:
        return (np.array([[1.0, -0.5], [0.25, 1.0]]), np.array([[1.5, 0.2], [-0.3, 1.0]])) if not two else \
            (np.array([[1.0, 0, 0.0], [0.0, 1.0, 0.2], [0.5, -1.0, 0.0], [0.0, 0.3, 1.0]]), ref.lattice_mat(3, 4, 3))
    return (np.array([[1.0, -0.5, 0.0], [0.25, 1.0, 0.1], [0.0, 0.2, 1.0]]), np.array([[1.5, 0.2, 0.0], [-0.3, 1.0, 0.4], [0.1, 0.0, 0.7]])) if not two else \
        (ref.lattice_mat(6, 4, 5), ref.lattice_mat(4, 6, 3))


def run(case, rec):
    globals()['run_' + case['kind']](case, rec)


# ---------------------------------------------------------------- static sequences
def run_static(case, rec):
    dim, par = case['dim'], PAR[case['p']]
    Q, T = mats(dim)
    Qi = np.linalg.inv(Q)
    # the start of the periodic response does not enter a static history
    import warnings
    warnings.simplefilter('ignore')
    lists = case['first'] % 4 == 1               # matrices that are no arrays are converted (with a warning)
    el = make(dim, Q.tolist() if lists else Q, T.tolist() if lists else T, par, u0=(0, 0.7, None, 0)[case['first'] % 4])
    if case['first'] % 4 == 3:
        el.set_aft_initialize(0.4 * ref.lattice_vec(dim, 8))
    if case['first'] % 3 == 0:
        el.aft(np.linspace(0.1, 1.5, 3 * dim), 1.0, np.array([0, 1]), Nt=8)
    nt = dim - 1
    ops = OPS[dim]

    def model(st, op):
        up, fp, mu = st
        if op[0] == 'init':
            return (np.zeros(nt), np.zeros(nt), mu), None
        if op[0] == 'pre':
            return (up, fp, 0.0), None
        if op[0] == 'real':
            return (up, fp, par[2]), None
        loc = local(op)
        f, J, near = np.zeros(dim), np.zeros((dim, dim)), np.inf
        I = np.eye(dim)
        for i in range(nt):
            f[i], J[i], f[-1], J[-1], nr = step(par, mu, up[i], fp[i], np.zeros(dim), np.zeros(dim), loc[i], I[i], loc[-1], I[-1])
            near = min(near, nr)
        new = (loc[:nt].copy(), f[:nt].copy(), mu) if op[0] == 'c' else st
        return new, (f, J, near)

    def local(op):
        return np.array([op[1], op[2]]) if dim == 2 else np.array([op[1], 0.5 - 0.8 * op[1], op[2]])

    def visit(el, st, hist, depth, only=None):
        for k, op in enumerate(ops):
            if only is not None and k != only:
                continue
            e = copy.deepcopy(el)
            new, want = model(st, op)
            seq = hist + [op]
            where = lambda: '%dD par %s ops %s' % (dim, par, seq)
            if op[0] == 'init':
                e.init_history()
            elif op[0] == 'pre':
                e.set_prestress_mu()
            elif op[0] == 'real':
                e.reset_real_mu()
            else:
                X = Qi @ local(op)
                Xc = X.copy()
                r = e.force(X, update_hist=True) if op[0] == 'c' else e.force(X)
                F, J = np.asarray(r[0]), np.asarray(r[1])
                rec.expect(np.array_equal(X, Xc), 'input modified', where)
                if not rec.close(F, T @ want[0], 'static force', where, rtol=1e-10):
                    return
                if want[2] > 1e-9:
                    rec.close(J, T @ want[1] @ Q, 'static tangent', where, rtol=1e-9)
                    N = want[0][-1]
                    rec.outcome('open' if N == 0 else 'slip' if abs(abs(want[0][0]) - st[2] * N) < 1e-12 else 'stick', st[2] > 0)
            rec.step()
            rec.state(dim, case['p'], [round(float(x), 9) for x in np.r_[new[0], new[1], new[2]]])
            if depth > 1:
                visit(e, new, seq, depth - 1)
            else:
                rec.trace()

    visit(el, (np.zeros(nt), np.zeros(nt), par[2]), [], case['depth'], case['first'])
    rec.sample('%dD par %s: all %d-step sequences starting with %s' % (dim, par, case['depth'], ops[case['first']]))


# ---------------------------------------------------------------- cycles
def run_cycle(case, rec):
    dim, par, Nt = case['dim'], PAR[case['p']], case['Nt']
    Q, T = mats(dim)
    lev = list(itertools.product(LEV_T, LEV_N))
    els = [(u0, make(dim, Q, T, par, u0=u0)) for u0 in (0, None, 0.7, 'arr')[:4] if u0 != 'arr']
    arr = np.array([0.3, 0.9]) if dim == 2 else np.array([0.3, -0.4, 0.9])
    els.append(('arr', make(dim, Q, T, par, u0=arr)))
    h = np.array([0, 1])
    for k, rest in enumerate(itertools.product(range(9), repeat=Nt - 1)):
        s = [lev[case['first']]] + [lev[i] for i in rest]
        unl = np.array([[t, n] if dim == 2 else [t, 0.5 - 0.8 * t * (1 + (j % 2)), n] for j, (t, n) in enumerate(s)])
        u0, el = els[k % 4]
        mean = unl.mean(0)
        start = mean if u0 is None else arr if isinstance(u0, str) else u0 * np.ones(dim)
        if k % 5 == 0:
            el.force(0.4 * np.ones(dim), update_hist=True)
        want, _, _ = cycle(dim, par, par[2], unl, np.zeros((Nt, dim, 1)), start, np.zeros((dim, 1)))
        give = mean if u0 is None or k % 2 else (0 if not isinstance(u0, str) else arr)
        got = el.local_force_history(unl.copy(), 0 * unl, h, np.zeros((Nt, 3)), give)
        where = lambda: '%dD par %s cycle %s start %s' % (dim, par, unl.tolist(), u0)
        rec.close(np.asarray(got[0]), want, 'cycle force', where, rtol=1e-10)
        rec.step(Nt)
        rec.trace()
        rec.state(dim, case['p'], str(u0), [round(float(x), 9) for x in want[-1]])
        rec.outcome('cycle', bool(np.any(want[:, -1] == 0)), bool(np.any(np.abs(want[:, 0]) >= par[2] * want[:, -1] - 1e-12)))
    rec.sample('%dD par %s: all cycles of %d samples from level %s' % (dim, par, Nt, lev[case['first']]))


# ---------------------------------------------------------------- harmonic force
def run_aft(case, rec):
    dim, h, two = case['dim'], case['h'], case['two']
    n = ref.nhc(h)
    harr = np.array(h)
    for p, par in enumerate(PAR):
        Q, T = mats(dim, two)
        nl, nd = Q.shape
        Qp = np.linalg.pinv(Q)
        modes = [0, 0.7, 'aftinit', 'aftzero', 'afttwice'] + ([None] if h[0] == 0 else [])
        els = []
        for u0 in modes:
            el = make(dim, Q, T, par, u0={'aftinit': 0, 'aftzero': 0.7, 'afttwice': None}.get(u0, u0))
            st = u0
            if isinstance(u0, str):
                Xs = 0.0 * ref.lattice_vec(nd, 8) if u0 == 'aftzero' else ref.lattice_vec(nd, 8)
                if u0 == 'aftinit':
                    vib = VibrationSystem(np.eye(nd), np.eye(nd))
                    vib.add_nl_force(el)
                    vib.set_aft_initialize(Xs.copy())
                else:
                    if u0 == 'afttwice':
                        el.set_aft_initialize(1.0 - Xs)
                    el.set_aft_initialize(Xs.copy())
                st = Q @ Xs
            els.append((u0, st, el))
        xs = (0.0, 1.1, -0.7)
        pats = []
        for mean, a, b in ((1.2, 0.3, 0.1), (0.4, 0.9, -0.5), (0.6, 0.0, 0.0), (-1.0, 0.3, 0.2), (0.1, -1.3, 0.6)):
            v = np.zeros(n)
            v[0] = mean if h[0] == 0 else a + 0.2
            if n > 1:
                v[1] = a
            if n > 2:
                v[2] = b
            if n > 3:
                v[3:] = 0.2 * ref.lattice_vec(n - 3, 3)
            pats.append(v)
        tang = list(itertools.product(xs, repeat=n))
        if n > 3 and not case['full']:
            tang = [t for t in tang if sum(x != 0 for x in t) <= 2]
        for ci, c in enumerate(tang):
            if two and ci % 3 and not case['full']:
                continue
            for pi, pat in enumerate(pats):
                L = np.zeros((n, nl))
                for i in range(nl):
                    e = i // dim
                    L[:, i] = (pat if e == 0 else pats[(pi + 2) % 5] * 0.9) if i % dim == dim - 1 else np.roll(np.array(c), i % dim) * (1.0 if e == 0 else -0.6) + (0.15 * i if i % dim else 0)
                X = L @ Qp.T                                    # (n, nd)
                L = X @ Q.T
                Nt = (16, 32)[(ci + pi) % 2 if case['full'] else 0] if n > 1 else 4
                u0, st, el = els[(ci + pi) % len(els)]
                unl = ref.time_series(Nt, h, L)
                B = ref.basis_matrix(Nt, h)
                dunl = np.zeros((Nt, nl, n * nl))
                for i in range(nl):
                    dunl[:, i, i::nl] = B                        # unknown index = comp*nl + i
                start, dstart = np.broadcast_to(np.zeros(nl) if st is None else st, (nl,)), np.zeros((nl, n * nl))
                if st is None:
                    start = L[0]
                    dstart[:, :nl] = np.eye(nl)
                f, df, near = cycle(dim, par, par[2], unl, dunl, start, dstart)
                Fh = ref.fourier(h, f)
                want = (Fh @ T.T).ravel()
                Gh = ref.fourier(h, df.reshape(Nt, -1)).reshape(n, nl, n * nl)
                Jw = np.einsum('ai,kij->kaj', T, Gh).reshape(n * nd, n * nl) @ np.kron(np.eye(n), Q)
                if (ci + pi) % 3 == 0:
                    el.force(0.3 * ref.lattice_vec(nd, ci), update_hist=True)
                U = X.ravel()
                w = (1.0, 3.0)[ci % 2]
                r = el.aft(U.copy(), w, harr, Nt=Nt)
                r0 = el.aft(U.copy(), w, harr, Nt=Nt, calc_grad=False)
                rec.step(2 * Nt)
                where = lambda: '%dD par %s h=%s Nt=%d start %s coefficients %s normal %s' % (dim, par, h, Nt, u0, list(c), pat.tolist())
                if not rec.close(r[0], want, 'harmonic force', where, rtol=1e-9):
                    return
                if (ci + pi) % 5 == 0:                           # frictionless (prestress) and back
                    f0, df0, near0 = cycle(dim, par, 0.0, unl, dunl, start, dstart)
                    el.set_prestress_mu()
                    rp = el.aft(U.copy(), w, harr, Nt=Nt)
                    el.reset_real_mu()
                    rec.step(2 * Nt)
                    rec.close(rp[0], (ref.fourier(h, f0) @ T.T).ravel(), 'harmonic force without friction', where, rtol=1e-9)
                    G0 = ref.fourier(h, df0.reshape(Nt, -1)).reshape(n, nl, n * nl)
                    if np.all(np.abs(unl[:, dim - 1::dim] - par[3]) > 1e-7):
                        rec.close(rp[1], np.einsum('ai,kij->kaj', T, G0).reshape(n * nd, n * nl) @ np.kron(np.eye(n), Q), 'harmonic gradient without friction', where, rtol=1e-8, atol=1e-9)
                rec.close(r0[0], want, 'harmonic force without gradient', where, rtol=1e-9)
                if near > 1e-7:
                    rec.close(r[1], Jw, 'harmonic gradient', where, rtol=1e-8, atol=1e-9)
                    rec.outcome('gradient compared', bool(np.any(f[:, dim - 1::dim] == 0)))
                rec.close(r[2], np.zeros(n * nd), 'frequency gradient', where)
                rec.trace()
                rec.state(dim, p, two, tuple(h), str(u0), ci, pi)
    rec.sample('%dD par %s h=%s: %d coefficient vectors x 5 normal patterns' % (dim, par, h, len(tang)))
