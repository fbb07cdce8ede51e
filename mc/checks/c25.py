"""C25: rough contact against a batched complex-step reference of the asperity laws."""
import copy
import itertools
import numpy as np
import ref
from tmdsimpy import VibrationSystem
from tmdsimpy.jax.nlforces.roughcontact.rough_contact import RoughContactFriction

ID = 'C25'
LEVEL = 'model_checking'
CASE_LIMIT = 800
RULE = ('(a) static: all operation sequences (depth 3; thorough 4) over evaluate / evaluate+commit at a lattice of normal approaches (open, elastic, plastic, deeper plastic, partial unloading, reloading) x tangential positions, re-initialise, prestress friction on/off; '
        '(b) all displacement cycles of 4 samples over {3 tangential} x {4 normal} levels, 1-3 repeats; (c) harmonic coefficient lattices with normal patterns for several harmonic sets, with and without gradient, start displacements and static history; '
        'both tangential models, 2 (3) material sets, 1-3 asperities. Model: asperity laws with one state per asperity/radius, derivatives by complex step. State = committed contact state; transition = one evaluation.')
ASSUMPTIONS = ['gaps are not negative', 'gradients are compared away from exact ties (stick limit, yield point, largest approach, equal maxima)',
               'local_force_history is called with unlth0 equal to the start displacement of the element']
MAT = [dict(E=100.0, nu=0.3, R=1.0, Et=5.0, Sy=3.0, mu=0.35, gaps=[0.0, 0.05, 0.12], w=[1.0, 2.0, 0.5], meso=0.0, L=0.1),
       dict(E=60.0, nu=0.1, R=0.6, Et=0.0, Sy=2.5, mu=0.8, gaps=[0.02, 0.03], w=[0.7, 1.1], meso=0.01, L=0.08),
       dict(E=192.31e9, nu=0.3, R=1.365e-3, Et=620e6, Sy=330e6, mu=0.05, gaps=[0.0, 1e-7, 5e-6], w=[3.0, 10.0, 20.0], meso=0.0, L=3e-7)]


class Model:
    """all arrays carry a leading batch axis b (complex step directions)"""

    def __init__(self, m, tang, nrad):
        self.m, self.tang = m, tang
        E, nu, Sy, R = m['E'], m['nu'], m['Sy'], m['R']
        self.Es = E / (2 * (1 - nu ** 2))
        self.Gs = E / 2 / (1 + nu) / 2 / (2 - nu)
        self.C = 1.295 * np.exp(0.736 * nu)
        self.dy = 2 * (np.pi * self.C * Sy / (4 * self.Es)) ** 2 * (2 * R)
        self.mu = m['mu']
        self.gap = np.array(m['gaps']) + m['meso']
        self.w = np.array(m['w'])
        self.rho = np.linspace(0, 1, nrad)
        wr = np.full(nrad, 1.0)
        wr[0] = wr[-1] = 0.5
        self.wr = wr / wr.sum()
        self.near = np.inf

    def margin(self, x, scale, mask=None):
        x = np.abs(np.real(x)) / scale
        if mask is not None:
            x = x[np.broadcast_to(mask, x.shape)]
        if x.size:
            self.near = min(self.near, float(np.min(x)))

    # ---- normal laws: un, deltam, Fm (b, n) -> force, radius
    def elastic(self, un):
        p = np.where(un.real > 0, un, 0)
        return 4 / 3 * self.Es * np.sqrt(self.m['R']) * p ** 1.5, np.sqrt(self.m['R'] * p)

    def plastic(self, un):
        m, Es, C, R = self.m, self.Es, self.C, self.m['R']
        E, Et, Sy = m['E'], m['Et'], m['Sy']
        un = np.where(un.real > 0.1 * self.dy, un, self.dy)          # only used above the yield point
        q = un / self.dy
        ae = np.sqrt(R * un)
        B = 0.14 * np.exp(23 * Sy / (2 * Es))
        ap = 2 * R * np.pi * C * Sy / (4 * Es) * np.sqrt(q * (q / 1.9) ** B)
        if Et == 0:
            ups = 0 * un
        else:
            s = np.sqrt(E / Sy)
            ups = -2 * s * (Et / E) ** (1 - (un - self.dy) / (4 * R)) / ((4 - 3 * np.exp(-2 * s * Et / E)) * (1 - Et / E))
        a = ae + (ap - ae) * np.exp(ups)
        H = 2.84 - 0.92 * (1 - np.cos(np.pi * a / (2 * R)))
        Fc = 4 / 3 * (R / Es) ** 2 * (C * np.pi * Sy / 2) ** 3
        Fe = 4 / 3 * Es * np.sqrt(R) * un ** 1.5
        Fp = Fc * (np.exp(-0.25 * q ** (5 / 12)) * q ** 1.5 + 4 * H / C * (1 - np.exp(-q ** (5 / 9) / 25)) * q)
        return Fp + (Fe - Fp) * (1 - np.exp(-3.3 * Et / E)), a

    def unload(self, un, dm, Fm):
        ok = (dm.real > 0) & (Fm.real > 0)
        d = np.where(ok, dm, 1.0)
        F = np.where(ok, Fm, 1e-3)
        K = 4 / 3 * self.Es
        db = d * (1 - F / (K * np.sqrt(self.m['R']) * d ** 1.5))     # residual deformation
        Rb = F ** 2 / (K ** 2 * (d - db) ** 3)                       # flattened radius
        x = un - db
        self.margin(x, self.dy, ok)
        ok = ok & (x.real > 0)
        x = np.where(ok, x, 0)
        return K * np.sqrt(Rb) * x ** 1.5, np.sqrt(Rb * x)

    def normal(self, un, dm, Fm):
        y = 1.9 * self.dy
        el = (un.real < y) & (dm.real < y)
        pl = (un.real > dm.real) & (un.real > y)
        self.margin(un - y, self.dy, dm.real < y * (1 + 1e-9))
        self.margin(un - dm, self.dy, dm.real > y * (1 - 1e-9))
        self.margin(un, self.dy, el)
        keep = self.near
        fu, au = self.unload(un, dm, Fm)
        if not np.any(~el & ~pl):
            self.near = keep
        (fe, ae), (fp, ap) = self.elastic(un), self.plastic(un)
        return np.where(pl, fp, np.where(el, fe, fu)), np.where(pl, ap, np.where(el, ae, au))

    # ---- tangential laws; st = (forces (b,n,2), None) or (tractions (b,n,r,2), radii (b,n))
    def virgin(self, b):
        n = self.gap.size
        if self.tang == 'TAN':
            return np.zeros((b, n, 2), complex), None
        return np.zeros((b, n, self.rho.size, 2), complex), np.zeros((b, n), complex)

    def clip(self, f, lim, scale):
        if self.mu:                                                  # without contact or friction: exactly zero
            act = lim.real > 0
            if np.any(act):
                fr, lr = np.broadcast_arrays(f.real, lim.real)
                ar = np.broadcast_to(act, fr.shape)
                self.margin(fr[ar] - lr[ar], scale)
                self.margin(fr[ar] + lr[ar], scale)
        f = np.where(f.real >= lim.real, lim, f)
        return np.where(f.real <= -lim.real, -lim, f)

    def tangential(self, du, fn, a, st):
        """du (b,2)"""
        fscale = max(float(np.max(np.abs(fn.real))), 1e-300)
        if self.tang == 'TAN':
            f = 8 * self.Gs * a[..., None] * du[:, None, :] + st[0]
            f = self.clip(f, (self.mu * fn)[..., None] + 0j, fscale)
            return f, (f, None)
        t0, a0 = st
        n, r = self.gap.size, self.rho
        b = fn.shape[0]
        # history traction at the same physical radius
        x = a[..., None] * r                                        # (b,n,r)
        safe = np.where(a0.real > 0, a0, 1.0)[..., None]
        xi = x / safe
        k = np.clip((xi.real * (r.size - 1) * (1 + 1e-13) + 1e-13).astype(int), 0, r.size - 2)
        t = xi * (r.size - 1) - k
        inside = (a0.real > 0)[..., None] & (xi.real <= 1.0 + 1e-12)
        bi, ni = np.ogrid[:b, :n]
        bi, ni = bi[..., None], ni[..., None]
        h = t0[bi, ni, k] * (1 - t)[..., None] + t0[bi, ni, k + 1] * t[..., None]
        h = np.where(inside[..., None], h, 0)
        # kinks of the interpolation: only harmless when the radius cannot change
        fr = np.abs(xi.real * (r.size - 1) - np.round(xi.real * (r.size - 1)))
        msk = (a0.real > 0)[..., None] & (np.arange(r.size) > 0) & (xi.real < 1 + 1e-9)
        if np.any(msk):
            self.kink = min(self.kink, float(np.min(fr[msk])))
        with np.errstate(divide='ignore'):
            kt = 0.8709 + (1 - 0.8709) / np.sqrt(1 - r ** 2) + 0.0629 * r - 0.8915 * r ** 2 + 0.6998 * r ** 3
        kt[-1] = 0.0
        on = fn.real > 0
        aa = np.where(on, a, 1.0)
        kl = np.where(on[..., None], (8 * self.Gs / (np.pi * aa))[..., None] * kt, 0)
        tn = np.where(on[..., None], (3 * fn / (2 * np.pi * aa ** 2))[..., None] * np.sqrt(1 - r ** 2), 0)
        tau = kl[..., None] * du[:, None, None, :] + h
        tau = self.clip(tau, (self.mu * tn)[..., None] + 0j, max(float(np.max(np.abs(tn.real))), 1e-300))
        f = 2 * np.pi * (a ** 2)[..., None] * np.einsum('bnrk,r->bnk', tau * r[:, None], self.wr)
        return f, (tau, a)

    def total(self, fn, f):
        return np.concatenate((np.einsum('bnk,n->bk', f, self.w), (fn @ self.w)[:, None]), axis=1)

    def static(self, u, state, mu):
        """u (b,3) complex; state = dict(u0, unmax, Fm, st)"""
        self.near = self.kink = np.inf
        self.mu = mu
        b = u.shape[0]
        un = u[:, 2:3] - self.gap
        one = np.ones((b, 1))
        fn, a = self.normal(un, one * (state['unmax'] - self.gap), one * state['Fm'] + 0j)
        st0 = tuple(None if x is None else np.repeat(x, b, axis=0) for x in state['st'])
        f, st = self.tangential(u[:, :2] - state['u0'][:2], fn, a, st0)
        new = dict(u0=u[0].real, unmax=max(state['unmax'], u[0, 2].real), Fm=np.maximum(state['Fm'], fn[0].real),
                   st=tuple(None if x is None else x[:1].real + 0j for x in st))
        # what the evaluation reports about the asperities: radius of contact, permanent approach, flattened radius
        d, F = np.maximum(un[0].real, state['unmax'] - self.gap), new['Fm']
        with np.errstate(all='ignore'):
            db = np.where(F > 0, d * (1 - F / (4 / 3 * self.Es * np.sqrt(self.m['R']) * d ** 1.5)), 0)
            Rb = np.where(F > 0, F ** 2 / ((4 / 3 * self.Es) ** 2 * (d - db) ** 3), self.m['R'])
        # (on the plastic loading curve itself the offset and the original radius are reported)
        self.info = (a[0].real, db, Rb, (F > 0) & ~((un[0].real > state['unmax'] - self.gap) & (un[0].real > 1.9 * self.dy)))
        return self.total(fn, f), new

    def fresh(self):
        return dict(u0=np.zeros(3), unmax=0.0, Fm=np.zeros(self.gap.size), st=self.virgin(1))

    def cycle(self, u, start, repeats, mu):
        """u (b, Nt, 3) -> (b, Nt, 3)"""
        self.near = self.kink = np.inf
        self.mu = mu
        b, Nt = u.shape[:2]
        un = u[:, :, 2].real
        i = int(np.argmax(un[0]))
        others = np.delete(un[0], i)
        if others.size:
            self.margin(np.array([un[0, i] - np.max(others)]), self.dy)
        top = u[:, i, 2:3] - self.gap
        Fm, _ = self.normal(top, np.ones((b, 1)) * (0 - self.gap), np.zeros_like(top))
        up = np.ones((b, 1)) * (np.asarray(start, float)[:2] + 0j)
        st = self.virgin(b)
        out = np.zeros((b, Nt, 3), complex)
        for r in range(repeats):
            for t in range(Nt):
                fn, a = self.unload(u[:, t, 2:3] - self.gap, top, Fm)
                f, st = self.tangential(u[:, t, :2] - up, fn, a, st)
                up = u[:, t, :2]
                out[:, t] = self.total(fn, f)
        return out


def element(mat, tang, Q, T, nrad, u0=0):
    m = MAT[mat]
    return RoughContactFriction(Q, T, m['E'], m['nu'], m['R'], m['Et'], m['Sy'], m['mu'], u0=u0, meso_gap=m['meso'],
                                gaps=np.array(m['gaps']), gap_weights=np.array(m['w']), tangent_model=tang, N_radial_quad=nrad)


Q3, T3 = np.array([[1.0, -0.5, 0.0], [0.25, 1.0, 0.1], [0.0, 0.2, 1.0]]), np.array([[1.5, 0.2, 0.0], [-0.3, 1.0, 0.4], [0.1, 0.0, 0.7]])
# multiples of the length scale: normal, tangential
NRM = [-0.5, 0.3, 1.0, 1.6, 0.8]
TAN = [(0.0, 0.0), (0.05, -0.2)]
PTS = [(n, t) for n in NRM for t in TAN]


def cases(tier):
    full = tier != 'quick'
    out = []
    mats = (0, 1, 2) if full else (0, 1)
    for mat in mats:
        for tang in ('TAN', 'MIF'):
            hs = [[0, 1], [0, 1, 2]] + ([[0], [1], [0, 2, 3]] if full else [[0]] if mat else [[1]])
            for h in hs:
                out.append(dict(kind='aft', mat=mat, tang=tang, h=h, full=full))
    for mat in mats:
        for tang in ('TAN', 'MIF'):
            for part in range(4 if not full else 8):
                out.append(dict(kind='static', mat=mat, tang=tang, part=part, parts=4 if not full else 8, depth=4 if full else 3))
            for part in range(2 if not full else 8):
                out.append(dict(kind='cycle', mat=mat, tang=tang, part=part, parts=2 if not full else 8, Nt=4 if full else 3))
    return out


def run(case, rec):
    np.seterr(all='ignore')
    globals()['run_' + case['kind']](case, rec)


OPS = [('e',) + p for p in PTS] + [('c',) + p for p in PTS] + [('init',), ('pre',), ('real',)]


def run_static(case, rec):
    mat, tang = case['mat'], case['tang']
    m = MAT[mat]
    nrad = 7
    mod = Model(m, tang, nrad)
    Qi = np.linalg.inv(Q3)
    eps = 1e-30
    base = m['gaps'][0] + m['meso']

    def local(op):
        n, (tx, ty) = op[1], op[2]
        return np.array([tx * m['L'], ty * m['L'], base + n * m['L']]) * 1.0

    def visit(el, state, mu, hist, depth):
        for k, op in enumerate(OPS):
            if len(hist) == 1 and k % case['parts'] != case['part']:
                continue
            e = copy.deepcopy(el)
            s2, mu2 = state, mu
            seq = hist + [op]
            where = lambda: 'material %d %s ops %s' % (mat, tang, seq)
            if op[0] == 'init':
                e.init_history()
                s2 = mod.fresh()
            elif op[0] == 'pre':
                e.set_prestress_mu()
                mu2 = 0.0
            elif op[0] == 'real':
                e.reset_real_mu()
                mu2 = m['mu']
            else:
                u = local(op)
                X = Qi @ u
                u = Q3 @ X                                           # repeated levels stay exactly equal
                U = np.repeat(u[None, :] + 0j, 4, axis=0)
                U[1:] += 1j * eps * np.eye(3)
                Fb, new = mod.static(U, state, mu)
                F, J = Fb[0].real, Fb[1:].imag.T / eps
                near, kink = mod.near, mod.kink
                r = e.force(X.copy(), update_hist=True) if op[0] == 'c' else e.force(X.copy())
                if op[0] == 'c':
                    s2 = new
                elif len(hist) == case['depth'] - 1:
                    ra = e.force(X.copy(), return_aux=True)
                    ok = len(ra) == 3 and np.array_equal(ra[0], r[0]) and np.array_equal(ra[1], r[1])
                    if rec.expect(ok, 'static force with extra output differs', where):
                        a, db, Rb, on = mod.info
                        got = [np.asarray(x) for x in ra[2]]
                        rec.close(got[0], new['Fm'], 'reported largest normal force', where, rtol=1e-7, atol=1e-10 * m['E'] * m['L'] ** 2)
                        ts = 1e-7 * np.max(np.abs(new['st'][0])) + 1e-12 * m['E'] * (m['L'] ** 2 if tang == 'TAN' else 1)
                        rec.expect(np.max(np.abs(got[1] - new['st'][0][0].real)) < ts, 'reported tangential state', lambda: where() + ' got %s expected %s' % (got[1], new['st'][0][0].real))
                        rec.close(got[4], a, 'reported contact radius', where, rtol=1e-7, atol=1e-9 * m['L'])
                        rec.close(got[2][on], db[on], 'reported permanent approach', where, rtol=1e-6, atol=1e-7 * m['L'])
                        rec.close(got[3][on], Rb[on], 'reported flattened radius', where, rtol=1e-6)
                        if tang == 'MIF':
                            rec.close(got[5], np.outer(a, mod.rho), 'reported quadrature radii', where, rtol=1e-7, atol=1e-9 * m['L'])
                sc = np.max(np.abs(F)) + 1e-300
                if not rec.expect(np.isfinite(np.asarray(r[0])).all() and np.max(np.abs(np.asarray(r[0]) - T3 @ F)) < 1e-7 * np.max(np.abs(F)) + 1e-12 * m['E'] * m['L'] ** 2, 'static force',
                                  lambda: where() + ' got %s expected %s' % (np.asarray(r[0]), T3 @ F)):
                    return
                if near > 1e-6:
                    Jl = np.linalg.solve(T3, np.asarray(r[1])) @ Qi
                    cols = slice(0, 3) if kink > 1e-6 else slice(0, 2)
                    js = np.max(np.abs(J)) + 1e-9 * m['E'] * m['L']
                    rec.expect(np.max(np.abs(Jl[:, cols] - J[:, cols])) < 1e-6 * js, 'static tangent', lambda: where() + ' got %s expected %s' % (Jl, J))
                    rec.outcome('tangent', cols.stop)
                rec.outcome('contact' if F[2] > 0 else 'open', op[1], bool(state['unmax'] > u[2]))
            rec.step()
            rec.state(mat, tang, mu2, round(s2['unmax'] / m['L'], 9), [round(float(x) / m['L'], 9) for x in s2['u0']], [float('%.8g' % abs(x)) for x in s2['st'][0].real.ravel()[:12]])
            if depth > 1:
                visit(e, s2, mu2, seq, depth - 1)
            else:
                rec.trace()

    # the start of the periodic response does not enter a static history
    import warnings
    warnings.simplefilter('ignore')
    lists = case['part'] % 4 == 1                # matrices that are no arrays are converted (with a warning)
    el = element(mat, tang, Q3.tolist() if lists else Q3, T3.tolist() if lists else T3, nrad, u0=np.array([0.15, -0.1]) * m['L'] if lists else 0)
    if case['part'] % 4 == 2:
        el.set_aft_initialize(np.array([0.2, 0.1, 0.4]) * m['L'])
    if case['part'] % 2:
        el.aft(np.linspace(0.1, 1.5, 9) * m['L'], 1.0, np.array([0, 1]), Nt=8)
    visit(el, mod.fresh(), m['mu'], [], case['depth'])
    rec.sample('material %d %s: all %d-step static sequences, part %d' % (mat, tang, case['depth'], case['part']))


def run_cycle(case, rec):
    mat, tang, Nt = case['mat'], case['tang'], case['Nt']
    m = MAT[mat]
    mod = Model(m, tang, 7)
    base = m['gaps'][0] + m['meso']
    lev = [(base + n * m['L'], t) for n in (-0.4, 0.3, 1.0, 1.5) for t in ((0.0, 0.0), (0.1, -0.04), (-0.35, 0.2))]
    starts = [0, 0.1 * m['L'], np.array([0.2, -0.1]) * m['L'], np.array([0.0, 0.3, 5.0]) * m['L']]
    els = [element(mat, tang, Q3, T3, 7, u0=u0) for u0 in starts]
    for k, seq in enumerate(itertools.product(range(len(lev)), repeat=Nt)):
        if k % case['parts'] != case['part']:
            continue
        u = np.array([[lev[i][1][0] * m['L'], lev[i][1][1] * m['L'], lev[i][0]] for i in seq])
        j = (k // case['parts']) % 4
        el = els[j]
        st = starts[j]
        st = st * np.ones(2) if np.ndim(st) == 0 else st[:2]
        reps = (2, 2, 1, 3)[(k // 7) % 4] if tang == 'TAN' else 2
        want = mod.cycle(u[None] + 0j, st, reps, m['mu'])[0].real
        got = np.asarray(el.local_force_history(u.copy(), 0 * u, 0, 0, np.r_[st, 0.0], **({} if reps == 2 else dict(max_repeats=reps)))[0])
        rec.step(Nt * reps)
        rec.trace()
        rec.state(mat, tang, j, reps, seq)
        rec.outcome('cycle', bool(np.any(want[:, 2] == 0)), reps)
        rec.expect(got.shape == want.shape and np.isfinite(got).all() and np.max(np.abs(got - want)) < 1e-7 * np.max(np.abs(want)) + 1e-12 * m['E'] * m['L'] ** 2, 'cycle force',
                   lambda: 'material %d %s start %s repeats %d cycle %s got %s expected %s' % (mat, tang, st, reps, u.tolist(), got, want))
    rec.sample('material %d %s: all cycles of %d samples' % (mat, tang, Nt))


def run_aft(case, rec):
    mat, tang, h = case['mat'], case['tang'], case['h']
    m = MAT[mat]
    n = ref.nhc(h)
    nrad = 6
    mod = Model(m, tang, nrad)
    L = m['L']
    base = m['gaps'][0] + m['meso']
    starts = [0, np.array([0.2, -0.1]) * L, 'init', 'zero']
    els = [element(mat, tang, Q3, T3, nrad, u0={'init': 0, 'zero': np.array([0.3, 0.2]) * L}[s] if isinstance(s, str) else s) for s in starts]
    Xs = np.linalg.solve(Q3, np.array([0.1, 0.15, 0.7]) * L)
    vib = VibrationSystem(np.eye(3), np.eye(3))
    vib.add_nl_force(els[2])
    vib.set_aft_initialize(Xs.copy())
    els[3].set_aft_initialize(np.zeros(3))
    starts = [np.zeros(2), starts[1], (Q3 @ Xs)[:2], np.zeros(2)]
    Nt = 16 if n > 1 else 4
    B = ref.basis_matrix(Nt, h)
    xs = (0.0, 0.13, -0.4)
    pats = []
    for mean, a, b in ((0.8, 0.21, 0.13), (0.2, 0.37, -0.22), (1.1, 0.9, 0.3), (-1.5, 0.3, 0.2), (0.6, 0.0, 0.02)):
        v = np.zeros(n)
        v[0] = mean if h[0] == 0 else a + 0.4
        if n > 1:
            v[1] = a
        if n > 2:
            v[2] = b
        if n > 3:
            v[3:] = 0.07 * ref.lattice_vec(n - 3, 3)
        pats.append(v)
    tang_l = list(itertools.product(xs, repeat=n))
    if n > 3:
        tang_l = [t for t in tang_l if sum(x != 0 for x in t) <= 2]
    if tang == 'MIF' and not case['full']:
        tang_l = tang_l[::2]
    eps = 1e-30
    harr = np.array(h)
    for ci, c in enumerate(tang_l):
        for pi, pat in enumerate(pats):
            c = np.array(c)
            Lc = np.stack([c, np.roll(c, 1) * 0.7 + 0.031, pat], axis=1) * L
            if h[0] == 0:
                Lc[0, 2] += base
            X = np.linalg.solve(Q3, Lc.T).T                           # (n, 3)
            Lc = X @ Q3.T
            j = (ci + pi) % 4
            m_u = n * 3
            UL = np.repeat(Lc.ravel()[None] + 0j, m_u + 1, axis=0)
            UL[1:] += 1j * eps * np.eye(m_u)
            u = np.einsum('tk,bki->bti', B, UL.reshape(-1, n, 3))
            f = mod.cycle(u, starts[j], 2, m['mu'])
            Fh = np.array([ref.fourier(h, x.real) for x in f[:1]])[0]
            Gh = np.array([ref.fourier(h, x.imag / eps) for x in f[1:]])  # (m_u, n, 3)
            near, kink = mod.near, mod.kink
            want = (Fh @ T3.T).ravel()
            Jw = np.einsum('ai,uki->kau', T3, Gh).reshape(n * 3, m_u) @ np.kron(np.eye(n), Q3)
            el = els[j]
            if (ci + pi) % 5 == 0:
                el.force(np.array([0.1, 0.2, 1.4]) * L + base, update_hist=True)
            U = X.ravel()
            r = el.aft(U.copy(), 1.5, harr, Nt=Nt)
            r0 = el.aft(U.copy(), 1.5, harr, Nt=Nt, calc_grad=False)
            if (ci + pi) % 6 == 1:                                   # frictionless (prestress) and back
                f0 = mod.cycle(u[:1], starts[j], 2, 0.0)[0].real
                el.set_prestress_mu()
                rp = el.aft(U.copy(), 1.5, harr, Nt=Nt)
                el.reset_real_mu()
                w0 = (ref.fourier(h, f0) @ T3.T).ravel()
                rec.step(2 * Nt)
                rec.expect(np.isfinite(np.asarray(rp[1])).all() and np.max(np.abs(np.asarray(rp[0]) - w0)) < 1e-7 * np.max(np.abs(w0)) + 1e-12 * m['E'] * L ** 2, 'harmonic force without friction',
                           lambda: 'material %d %s h=%s start %d tangential %s normal %s got %s expected %s' % (mat, tang, h, j, c.tolist(), pat.tolist(), np.asarray(rp[0]), w0))
            if (ci + pi) % 7 == 2 and (tang == 'TAN' or case['full']):       # number of cycles asked for
                for reps in (1, 3):
                    w0 = (ref.fourier(h, mod.cycle(u[:1], starts[j], reps, m['mu'])[0].real) @ T3.T).ravel()
                    for rp in (el.aft(U.copy(), 1.5, harr, Nt=Nt, max_repeats=reps), el.aft(U.copy(), 1.5, harr, Nt, 1e-7, reps, calc_grad=False)):
                        rec.step(reps * Nt)
                        rec.expect(np.max(np.abs(np.asarray(rp[0]) - w0)) < 1e-7 * np.max(np.abs(w0)) + 1e-12 * m['E'] * L ** 2, 'harmonic force for a number of cycles',
                                   lambda: 'material %d %s h=%s start %d cycles %d tangential %s normal %s got %s expected %s' % (mat, tang, h, j, reps, c.tolist(), pat.tolist(), np.asarray(rp[0]), w0))
                    rec.outcome('cycles', reps, bool(np.max(np.abs(w0 - want)) > 1e-6 * np.max(np.abs(want)) + 1e-300))
            if (ci + pi) % 3 == 0:
                rl, rl0 = el.aft(U.copy(), 1.5, harr, Nt=Nt, return_local=True), el.aft(U.copy(), 1.5, harr, Nt=Nt, calc_grad=False, return_local=True)
                if rec.expect(len(rl) == 3 and len(rl0) == 1 and np.shape(rl[0]) == (3, n) and np.shape(rl[1]) == (3 * n, 3 * n) and np.shape(rl[2]) == (3 * n,), 'local result shapes', lambda: str([np.shape(x) for x in rl])):
                    rec.close((T3 @ np.asarray(rl[0])).ravel('F'), np.asarray(r[0]), 'local harmonic force', lambda: 'material %d %s h=%s' % (mat, tang, h), rtol=1e-10, atol=1e-13 * m['E'] * L ** 2)
                    rec.close(np.asarray(rl0[0]), np.asarray(rl[0]), 'local harmonic force without gradient', lambda: 'material %d %s h=%s' % (mat, tang, h), rtol=1e-9, atol=1e-13 * m['E'] * L ** 2)
                    rec.close(np.kron(np.eye(n), T3) @ np.asarray(rl[1]) @ np.kron(np.eye(n), Q3), np.asarray(r[1]), 'local harmonic gradient', lambda: 'material %d %s h=%s' % (mat, tang, h), rtol=1e-9, atol=1e-12 * m['E'] * L)
            rec.step(2 * Nt)
            rec.trace()
            rec.state(mat, tang, tuple(h), ci, pi)
            where = lambda: 'material %d %s h=%s start %d tangential %s normal %s' % (mat, tang, h, j, c.tolist(), pat.tolist())
            atol = 1e-12 * m['E'] * L ** 2
            if not rec.expect(np.isfinite(np.asarray(r[0])).all() and np.max(np.abs(np.asarray(r[0]) - want)) < 1e-7 * np.max(np.abs(want)) + atol, 'harmonic force', lambda: where() + ' got %s expected %s' % (np.asarray(r[0]), want)):
                return
            rec.expect(np.max(np.abs(np.asarray(r0[0]) - want)) < 1e-7 * np.max(np.abs(want)) + atol, 'harmonic force without gradient', where)
            if near > 1e-6 and kink > 1e-7:
                js = np.max(np.abs(Jw)) + 1e-10 * m['E'] * L
                rec.expect(np.max(np.abs(np.asarray(r[1]) - Jw)) < 1e-6 * js, 'harmonic gradient', lambda: where() + ' got %s expected %s' % (np.asarray(r[1]), Jw))
                rec.outcome('gradient', tang, bool(np.any(f[0, :, 2].real == 0)))
            else:
                rec.outcome('tie', tang)
            rec.expect(np.all(np.asarray(r[2]) == 0), 'frequency gradient', where)
    rec.sample('material %d %s h=%s: %d coefficient vectors x 5 normal patterns' % (mat, tang, h, len(tang_l)))
