"""C27: phase utilities and recovered local forces."""
import itertools
import numpy as np
import ref
import elems
from systems import Sys, Hyst, HYST
from tmdsimpy import VibrationSystem
from tmdsimpy.utils import harmonic as hutils
from tmdsimpy.postprocess import harmonic as post
from checks import c24, c25

ID = 'C27'
LEVEL = 'model_checking'
CASE_LIMIT = 400
RULE = ('(a) phase wrapping of every multiple of pi/12 (thorough pi/48) over +-4 turns, offset and array shape; (b) phase subtraction for every harmonic subset of {0..4} (thorough {0..5}), reference harmonic, 1-3 DOFs, 0-3 trailing entries, 1-3 rows, phase lattice over several turns, '
        'scalar and per-row phases, and every pair of successive rotations, compared with the signal shifted in time; (c) zero crossings of every series of length 1-6 (thorough 8) over 4 signed values x tolerances; '
        '(d) recovered local displacements and forces of mixtures of 0-3 elements (memoryless of every law, slider networks, 2D/3D dry friction, rough contact, with unset, default and set start displacement) for several harmonic sets and '
        'coefficient lattices, compared with the force laws along the motion. State = configuration; transition = one compared result.')
ASSUMPTIONS = ['series without exact zeros for zero crossings', 'without a zeroth harmonic the mean of slider forces is not compared (start displacement undefined)']
DF = [('dry2', 2, 0), ('dry2', 2, None), ('dry2', 2, 'set'), ('dry3', 3, 0), ('dry3', 3, 0.3), ('dry3', 3, 'set'), ('rough', 3, 0), ('rough', 3, 'set')]


def cases(tier):
    full = tier != 'quick'
    out = [dict(kind='wrap', n=48 if full else 12), dict(kind='zero', n=8 if full else 6)]
    for h in ref.subsets(range(6 if full else 5)):
        if h != [0]:
            out.append(dict(kind='rotate', h=h))
    names = [[]] + [[n] for n in elems.NAMES + sorted(HYST) + list(range(len(DF)))]
    mix = [['cubic2', 'jenkins'], ['cubdamp1', 'viwan', 'unilat+'], [0, 'jenkins'], ['cubdamp2', 3], [7, 'cubic1', 2], ['iwan', 'iwan', 5], [1, 6]]
    for m in names + mix:
        for hi in range(4 if not full else 6):
            out.append(dict(kind='local', els=m, h=[[0, 1], [1, 3], [0, 1, 2], [0], [1], [0, 2, 3]][hi], full=full))
    return out


def run(case, rec):
    globals()['run_' + case['kind']](case, rec)


def run_wrap(case, rec):
    n = case['n']
    base = np.arange(-8 * n, 8 * n + 1) * np.pi / n
    for off in (0.0, 1e-9, -1e-9, 0.013, 1.7):
        for shape in ((-1,), (-1, 1), (1, -1)):
            x = (base + off).reshape(shape)
            x0 = x.copy()
            y = hutils.shift_pm_pi(x)
            rec.step(x.size)
            rec.expect(np.array_equal(x, x0), 'input modified')
            rec.expect(y.shape == x.shape, 'shape')
            turns = (y - x) / (2 * np.pi)
            bad = (np.abs(turns - np.round(turns)) > 1e-9) | (y < -np.pi - 1e-12) | (y > np.pi + 1e-12)
            # the closed end belongs to -pi, up to rounding of the input
            exact = x0 == np.pi
            bad |= exact & (y > 0)
            rec.expect(not bad.any(), 'wrap', lambda: 'phase %s -> %s' % (x[bad][:4], y[bad][:4]))
            rec.expect(np.max(np.abs(hutils.shift_pm_pi(y) - y)[np.abs(np.abs(y) - np.pi) > 1e-6]) < 1e-12, 'idempotent')
            rec.state(off, shape)
        for v in base[::7]:
            y = float(hutils.shift_pm_pi(np.array(v + off)))
            rec.expect(abs(np.exp(1j * y) - np.exp(1j * (v + off))) < 1e-9 and -np.pi - 1e-12 <= y <= np.pi + 1e-12, 'wrap scalar', lambda: '%s -> %s' % (v + off, y))
        rec.trace()
    rec.sample('phases -8pi..8pi in steps of pi/%d' % n)


def run_zero(case, rec):
    vals = (-2.0, -0.5, 0.5, 2.0)
    for n in range(1, case['n'] + 1):
        for x in itertools.product(vals, repeat=n):
            X = np.array(x)
            for tol in (None, 1.0, 2.5, 0.1):
                got = hutils.zero_crossing(X) if tol is None else hutils.zero_crossing(X, tol)
                t = np.inf if tol is None else tol
                want = [i + 1 < n and (x[i] < 0) != (x[i + 1] < 0) and abs(x[i]) < t for i in range(n)]
                rec.expect(got.shape == (n,) and list(got) == want, 'zero crossing', lambda: 'series %s tolerance %s: %s expected %s' % (x, tol, got, want))
                rec.step()
            rec.state(x)
        rec.trace()
    rec.sample('all series up to length %d over %s' % (case['n'], vals))


def shift(U, nd, h, phase, hr):
    """coefficients of x(t - t0) with hr*omega*t0 = phase, from the time domain"""
    n = ref.nhc(h)
    out = U.copy()
    th0 = phase / hr
    X = U[:n * nd].reshape(n, nd)
    Nt = 2 * max(h) + 3
    x = np.zeros((Nt, nd))
    for t in range(Nt):
        th = 2 * np.pi * t / Nt - th0
        for c, (k, kind) in enumerate(ref.comps(h)):
            x[t] += X[c] * (np.cos(k * th) if kind == 'c' else np.sin(k * th))
    out[:n * nd] = ref.fourier(h, x).ravel()
    return out


def run_rotate(case, rec):
    h = case['h']
    n = ref.nhc(h)
    phases = [0.0, 0.3, -np.pi / 2, np.pi, 5.1, -13.0]
    for nd, extra, rows, hr in itertools.product((1, 2, 3), (0, 1, 3), (1, 2, 3), [k for k in h if k] + [max(h) + 1]):
        U = np.array([ref.lattice_vec(n * nd + extra, 3 * r + nd) for r in range(rows)])
        for ip, ph in enumerate(phases):
            arrs = [(ph, [ph] * rows)]
            v = np.array([phases[(ip + r) % len(phases)] for r in range(rows)])
            if rows > 1:
                arrs.append((v, list(v)))
            for arg, each in arrs:
                where = lambda: 'h=%s ndof=%d extra=%d rows=%d reference harmonic %d phase %s' % (h, nd, extra, rows, hr, arg)
                inp = U[0].copy() if rows == 1 and ip % 2 else U.copy()
                keep = inp.copy()
                want = np.array([shift(U[r], nd, h, each[r], hr) for r in range(rows)])
                got = hutils.rotate_subtract_phase(inp, nd, np.array(h), arg, hr)
                rec.step(rows)
                rec.close(got, want, 'rotation', where, rtol=1e-10)
                rec.expect(np.array_equal(inp, keep), 'input modified', where)
                rec.expect(got.shape == (rows, n * nd + extra) and np.array_equal(got[:, n * nd:], U[:, n * nd:]), 'trailing entries', where)
                back = hutils.rotate_subtract_phase(got, nd, np.array(h), 1.1 - arg, hr)
                rec.close(back, hutils.rotate_subtract_phase(U, nd, np.array(h), 1.1, hr), 'successive rotations', where, rtol=1e-10)
                rec.state(tuple(h), nd, extra, rows, hr, ip, np.ndim(arg))
        rec.trace()
    rec.sample('h=%s all reference harmonics' % h)


class Dry:
    def __init__(self, i, nd):
        self.kind, d, u0 = DF[i]
        self.dim = d
        self.Q, self.T = np.round(ref.lattice_mat(d, nd, 70 + i), 3), np.round(ref.lattice_mat(nd, d, 80 + i), 3)
        start = 0 if u0 == 'set' else u0
        self.par = c24.PAR[i % 2]
        if self.kind == 'rough':
            self.tang = 'TAN' if u0 == 0 else 'MIF'
            self.obj = c25.element(0, self.tang, self.Q.copy(), self.T.copy(), 6, u0=start)
        else:
            self.obj = c24.make(d, self.Q.copy(), self.T.copy(), self.par, u0=start)
        self.start = start
        if u0 == 'set':
            X = ref.lattice_vec(nd, 8) * (0.2 if self.kind == 'rough' else 1.0)
            self.obj.set_aft_initialize(X)
            self.start = self.Q @ X

    def series(self, u, v, u0):
        """u (Nt, nl) -> force"""
        st = u0 if self.start is None else self.start * np.ones(self.dim)
        if self.kind == 'rough':
            m = c25.Model(c25.MAT[0], self.tang, 6)
            return m.cycle(u[None] + 0j, st[:2], 2, m.mu)[0].real
        z = np.zeros((len(u), self.dim, 1))
        return c24.cycle(self.dim, self.par, self.par[2], u, z, st, np.zeros((self.dim, 1)))[0]


def build(name, nd, i):
    if isinstance(name, int):
        return Dry(name, nd)
    return Hyst(name, nd, i) if name in HYST else elems.make(name, nd, i)


def run_local(case, rec):
    h = case['h']
    n = ref.nhc(h)
    harr = np.array(h)
    for nd in (1, 2, 3):
        els = [build(e, nd, i) for i, e in enumerate(case['els'])]
        if h[0] != 0 and any(getattr(e, 'start', 0) is None for e in els):
            continue
        vib = VibrationSystem(np.eye(nd), np.eye(nd))
        for e in els:
            vib.add_nl_force(e.obj)
        rough = any(getattr(e, 'kind', '') == 'rough' for e in els)
        for k in range(8 if not case['full'] else 24):
            amp = (0.4, 1.0, 2.2)[k % 3] * (0.15 if rough else 1.0)
            Nt = (16, 32)[(k // 3) % 2 if not any(isinstance(e, Dry) for e in els) else 0]
            if k == 7:
                Nt = None
            U = ref.lattice_vec(n * nd, k + 3 * nd) * amp
            w = (1.0, 0.4, 2.5)[k % 3]
            U0 = U.copy()
            got = post.local_harmonic_forces(vib, U, w, harr, Nt=Nt) if Nt else post.local_harmonic_forces(vib, U, w, harr)
            Nt = Nt or 128
            rec.step(len(els))
            rec.trace()
            rec.state(str(case['els']), tuple(h), nd, k)
            where = lambda: '%s nd=%d h=%s case %d' % (case['els'], nd, h, k)
            rec.expect(np.array_equal(U, U0), 'input modified', where)
            if not rec.expect(len(got) == len(els), 'number of elements', where):
                continue
            X = U.reshape(n, nd)
            for e, name, g in zip(els, case['els'], got):
                Uh = X @ e.Q.T
                u = ref.time_series(Nt, h, Uh)
                v = w * ref.time_series(Nt, h, Uh, 1)
                wh = lambda: where() + ' element %s' % name
                rec.close(g[0], Uh, 'local coefficients', wh)
                rec.close(g[1], u, 'local displacements', wh, rtol=1e-9)
                mean = True
                if isinstance(e, Dry):
                    f = e.series(u, v, Uh[0])
                elif isinstance(e, Hyst):
                    f = ref.steady_slider(u[:, 0], e.kts, e.fss, Uh[0, 0] if h[0] == 0 else 0.0)[0][:, None]
                    mean = h[0] == 0
                else:
                    f = np.array([e.law(a, b)[0] for a, b in zip(u, v)])
                a = np.asarray(g[3])
                if not rec.expect(a.shape == f.shape, 'shape', wh):
                    continue
                if mean:
                    rec.close(a, f, 'local forces', wh, rtol=1e-7, atol=1e-9)
                else:
                    rec.close(a - a.mean(axis=0), f - f.mean(axis=0), 'local forces', wh, rtol=1e-7, atol=1e-9)
                rec.close(g[2], ref.fourier(h, f), 'local force coefficients', wh, rtol=1e-7, atol=1e-9)
                rec.outcome('local', str(name) if not isinstance(e, elems.Elem) else 'memoryless')
                # consistent with what the element contributes to the residual
                F = e.obj.aft(U, w, harr, Nt=Nt)[0]
                rec.close(np.asarray(F).ravel(), (np.asarray(g[2]) @ e.T.T).ravel(), 'element contribution', wh, rtol=1e-6, atol=1e-8)
    rec.sample('%s h=%s' % (case['els'], h))
