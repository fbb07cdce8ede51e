import itertools
import numpy as np
import ref
from tmdsimpy.nlforces import Iwan4Force, VectorIwan4, ConservativeIwanBB

ID = 'C06'
LEVEL = 'model_checking'
RULE = ('all parameter combinations of a lattice (stiffness, slip force, exponent, stick ratio, slider count, spacing) x all displacements of a lattice placed '
        'relative to the slip displacement (0, tiny, interior, just below / at / beyond the corner, both signs) x all load-unload-reload sequences over '
        'that lattice. Oracles: the slider network of the documented density, the closed-form integral of the density, Masing\'s rules applied to the '
        'element\'s own virgin curve. State = (parameters, turning points); transition = one force evaluation compared.')
ASSUMPTIONS = ['tangents are not compared at the exact slip displacement of a slider']

LV = [0.0, 1e-3, 0.05, 0.21, 0.5, 0.83, 0.97, 0.999, 1.001, 1.02, 1.7, 40.0]


def cases(tier):
    out = []
    kts, Fss = [1.0, 3.5], [0.7, 2.0]
    chis = [0.0, -0.5, 0.6, -0.9, 1.5]
    betas = [0.0, 0.4, 2.0]
    ns = [(1, 1.0), (2, 1.0), (3, 2.0), (6, 1.2), (20, 1.0), (40, 1.05)] + ([] if tier == 'quick' else [(7, 1.0), (100, 1.0), (100, 1.02)])
    for kt, Fs, chi, beta in itertools.product(kts, Fss, chis, betas):
        out.append(dict(kt=kt, Fs=Fs, chi=chi, beta=beta, ns=ns))
    return out


def closed_form(kt, Fs, chi, beta, u):
    """Integral of the four-parameter density: (force, tangent) on the virgin curve."""
    d = beta + (chi + 1) / (chi + 2)
    phimax = Fs * (1 + beta) / (kt * d)
    R = Fs * (chi + 1) / (phimax ** (chi + 2) * d)
    S = Fs * beta / (phimax * d)
    a = abs(u)
    if a >= phimax:
        return np.sign(u) * Fs, 0.0, phimax
    stuck = R * (phimax ** (chi + 1) - a ** (chi + 1)) / (chi + 1) + S
    return np.sign(u) * (R * a ** (chi + 2) / (chi + 2) + a * stuck), stuck, phimax


def run(case, rec):
    kt, Fs, chi, beta = case['kt'], case['Fs'], case['chi'], case['beta']
    pm = closed_form(kt, Fs, chi, beta, 0.0)[2]
    us = sorted(set([s * x * pm for x in LV for s in (1, -1)]))
    Q, T = np.array([[1.0, -0.5]]), np.array([[2.0], [0.75]])
    lift = np.linalg.pinv(Q)[:, 0]
    P = 'kt=%s Fs=%s chi=%s beta=%s' % (kt, Fs, chi, beta)
    # ---- conservative backbone
    bb = ConservativeIwanBB(Q, T, kt, Fs, chi, beta)
    bb1 = ConservativeIwanBB(np.eye(1), np.eye(1), kt, Fs, chi, beta)
    hist = bb1.local_force_history(np.array(us)[:, None], 0.3 * np.ones((len(us), 1)))
    for i, u in enumerate(us):
        F, k, _ = closed_form(kt, Fs, chi, beta, u)
        X = lift * u + np.array([0.5, 1.0])
        f, df = bb.force(X)
        rec.step(2)
        where = lambda: 'backbone %s u=%s' % (P, u)
        rec.close(f, T[:, 0] * F, 'backbone/force', where, rtol=1e-9, atol=1e-9)
        rec.close(df, T @ Q * k, 'backbone/tangent', where, rtol=1e-8, atol=1e-8)
        rec.close(hist[0][i], [F], 'backbone/history', where, rtol=1e-9, atol=1e-9)
        rec.close(hist[1][i].ravel(), [k], 'backbone/history tangent', where, rtol=1e-8, atol=1e-8)
        rec.close(hist[2][i].ravel(), [0.0], 'backbone/velocity tangent', where)
        rec.state('bb', P, round(u / pm, 6))
    rec.trace()
    # ---- the force is continuous through full slip: the neighbouring floating point numbers
    near = [pm]
    for d in (np.inf, 0.0):
        x = pm
        for _ in range(6):
            x = np.nextafter(x, d)
            near.append(float(x))
    near = np.array(near + [-x for x in near])
    hist = bb1.local_force_history(near[:, None], 0 * near[:, None])
    for i, u in enumerate(near):
        rec.step(2)
        rec.close(bb1.force(np.array([u]))[0], [np.sign(u) * Fs], 'backbone/force at full slip', P, rtol=1e-7)
        rec.close(hist[0][i], [np.sign(u) * Fs], 'backbone/history at full slip', P, rtol=1e-7)
    # ---- two local DOFs at once and several columns of a history
    Q2 = np.array([[1.0, 0.0], [0.0, 1.0]])
    b2 = ConservativeIwanBB(Q2, Q2, kt, Fs, chi, beta)
    for u, v in itertools.product(us[::3], repeat=2):
        f, df = b2.force(np.array([u, v]))
        want = [closed_form(kt, Fs, chi, beta, x) for x in (u, v)]
        rec.step()
        rec.close(f, [w[0] for w in want], 'backbone/two DOFs', P, rtol=1e-9, atol=1e-9)
        rec.close(df, np.diag([w[1] for w in want]), 'backbone/two DOFs tangent', P, rtol=1e-8, atol=1e-8)
    # ---- slider network
    for N, al in case['ns']:
        phi, w, _ = ref.iwan_params(kt, Fs, chi, beta, N, al)
        for cls in (Iwan4Force, VectorIwan4):
            el = cls(Q, T, kt, Fs, chi, beta, Nsliders=N, alphasliders=al)

            def virgin(u):
                el.init_history()
                f, df = el.force(lift * u)
                return f[1] / T[1, 0], df[1, 1] / (T @ Q)[1, 1]
            V = {}
            for u in us:
                f, k = virgin(u)
                V[u] = f
                rec.step()
                where = lambda: '%s %s N=%d alpha=%s u=%s' % (cls.__name__, P, N, al, u)
                rec.close(f, np.sign(u) * np.sum(w * np.minimum(abs(u), phi)), 'virgin curve/force', where, rtol=1e-9, atol=1e-10)
                if np.min(np.abs(phi - abs(u))) > 1e-9:
                    rec.close(k, np.sum(w[phi > abs(u)]), 'virgin curve/tangent', where, rtol=1e-9, atol=1e-10)
                rec.state(cls.__name__, P, N, al, round(u / pm, 6))
            pos = [u for u in us if u > 0]
            fs = [V[u] for u in pos]
            sec = np.diff([0.0] + fs) / np.diff([0.0] + pos)
            rec.expect(np.all(sec >= -1e-9) and np.all(np.diff(sec) <= 1e-9 * max(1, kt)), 'virgin curve/monotone and softening', P)
            # documented meaning of the parameters (exact for a linear density, otherwise up to the midpoint rule)
            lim = {0.0: 1e-9, -0.5: 0.4, 0.6: 0.25, -0.9: 0.85, 1.5: 0.4}[chi] / N ** (0.4 if chi == -0.5 else 0.08 if chi == -0.9 else 1)
            if al == 1.0:
                rec.close(fs[-1], Fs, 'saturation force', P, rtol=max(lim, 1e-9) if chi != 0.0 else 1e-9)
                rec.close(np.sum(w), kt, 'initial stiffness', P, rtol=1e-9 + lim)
                el.init_history()
                rec.close(el.force(lift * 0.0)[1][1, 1] / (T @ Q)[1, 1], kt, 'initial stiffness', P, rtol=1e-9 + lim)
            # ---- Masing sequences: load to A, unload to B, reload to C
            sub = [0.05 * pm, 0.5 * pm, 0.97 * pm, 1.02 * pm, 1.7 * pm]
            for A in sub + [-x for x in sub]:
                for rB in (0.8, 0.0, -0.3, -1.0):
                    for rC in (0.1, 0.7, 1.0):
                        B = rB * A
                        C = B + rC * (A - B)
                        FA = virgin(A)[0]
                        FB = FA - 2 * virgin((A - B) / 2)[0]
                        FC = FB + 2 * virgin((C - B) / 2)[0]
                        el.init_history()
                        el.force(lift * A, update_hist=True)
                        gB = el.force(lift * B, update_hist=True)[0][1] / T[1, 0]
                        gC = el.force(lift * C, update_hist=True)[0][1] / T[1, 0]
                        rec.step(3)
                        where = lambda: '%s %s N=%d alpha=%s load %s unload %s reload %s' % (cls.__name__, P, N, al, A, B, C)
                        rec.close(gB, FB, 'Masing unloading', where, rtol=1e-8, atol=1e-9)
                        rec.close(gC, FC, 'Masing reloading', where, rtol=1e-8, atol=1e-9)
                        rec.trace()
                        rec.outcome(chi, bool(abs(A) > pm), rB, rC)
    rec.sample(P)
