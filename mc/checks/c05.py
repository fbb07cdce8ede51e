import itertools
import numpy as np
import ref
from tmdsimpy import VibrationSystem
from tmdsimpy.nlforces import JenkinsForce, VectorJenkins, Iwan4Force, VectorIwan4

ID = 'C05'
LEVEL = 'model_checking'
RULE = ('(a) every displacement cycle of Nt samples over an integer lattice (all 5^Nt series: plateaus, repeated values, ties '
        'with the slip limit, one-sided cycles) is driven through the periodic-force routine of each slider element, and '
        '(b) every harmonic coefficient vector over {-1,0,1}-scaled lattices for several harmonic sets through the '
        'frequency-domain routine, with earlier static history present. Each sample of each cycle is a transition of the '
        'slider state machine; the oracle iterates the cycle to its exact fixed point. State = (element, slider state).')
ASSUMPTIONS = ['gradients are compared only where no slider sits exactly on the stick/slip switch',
               'JAX vectorised Jenkins (documented demonstration code) is compared on cycles with at most 2*hmax reversals']
CASE_LIMIT = 400

Q2, T2 = np.array([[1.0, -0.5]]), np.array([[2.0], [0.75]])
IW = [(2.0, 1.5, -0.5, 0.25, 4, 1.0), (1.0, 2.0, 0.0, 0.0, 3, 1.0), (3.0, 1.0, 0.6, 1.5, 5, 1.4)]
JP = [(1.0, 0.75), (1.0, 1.0), (2.0, 1.25), (1.0, 1.5), (0.5, 10.0)]


def cases(tier):
    out = []
    Nt = 5 if tier == 'quick' else 6
    lv = [0, 1, -1, 2, -2]
    for p in range(len(JP)):
        for a in lv:
            for b in lv:
                out.append(dict(kind='series', el='jenkins', p=p, Nt=Nt, first=[a, b]))
    for p in range(len(IW)):
        for a in lv:
            for b in lv:
                out.append(dict(kind='series', el='iwan', p=p, Nt=Nt - 1, first=[a, b]))
    hs = [[0, 1], [1], [0], [0, 1, 2], [1, 3], [0, 1, 3], [0, 2], [1, 2]]
    if tier != 'quick':
        hs += [[0, 1, 2, 3], [1, 2, 3], [0, 3], [2, 5]]
    for h in hs:
        n = ref.nhc(h)
        for el, P in (('jenkins', JP), ('iwan', IW)):
            for p in range(len(P)):
                if tier == 'quick' and n >= 5 and p in (2, 4):
                    continue
                out.append(dict(kind='aft', el=el, p=p, h=h, Nts=[16, 32] if n < 5 else [16]))
    for h in ([[0, 1], [1], [0], [0, 1, 2], [1, 3]] if tier == 'quick' else hs):
        out.append(dict(kind='jax', h=h, Nt=32))
    return out


def elements(case, one_dof=False):
    Q, T = (np.eye(1), np.eye(1)) if one_dof else (Q2, T2)
    if case['el'] == 'jenkins':
        kt, Fs = JP[case['p']]
        return [('jenkins', JenkinsForce(Q, T, kt, Fs)), ('vjenkins', VectorJenkins(Q, T, kt, Fs))], [kt], [Fs], Q, T
    kt, Fs, chi, beta, N, al = IW[case['p']]
    phi, w, _ = ref.iwan_params(kt, Fs, chi, beta, N, al)
    return ([('iwan', Iwan4Force(Q, T, kt, Fs, chi, beta, Nsliders=N, alphasliders=al)),
             ('viwan', VectorIwan4(Q, T, kt, Fs, chi, beta, Nsliders=N, alphasliders=al))], w, w * phi, Q, T)


def run(case, rec):
    if case['kind'] == 'series':
        series(case, rec)
    elif case['kind'] == 'aft':
        aft(case, rec)
    else:
        jaxaft(case, rec)


def series(case, rec):
    els, kts, fss, Q, T = elements(case, True)
    Nt = case['Nt']
    h = np.array([0, 1])
    B = ref.basis_matrix(Nt, [0, 1]) + 0.125      # any injective sensitivity of the samples will do
    for rest in itertools.product([0, 1, -1, 2, -2], repeat=Nt - 2):
        u = np.array(list(case['first']) + list(rest), float)
        for u0 in (0.0, float(np.mean(u))):
            dB0 = np.array([1.0, 0.0, 0.0])
            want, gwant, near, fp = ref.steady_slider(u, kts, fss, u0, B, dB0)
            rec.state(case['el'], case['p'], u0, [round(x, 9) for x in fp])
            for name, el in els:
                ft, dft, _ = el.local_force_history(u[:, None].copy(), 0 * u[:, None], h, B, np.array([u0]))
                rec.step(Nt)
                where = lambda: '%s par=%s u=%s start=%s' % (name, (JP if case['el'] == 'jenkins' else IW)[case['p']], u.tolist(), u0)
                if not rec.close(ft[:, 0], want, name + '/steady-force', where):
                    continue
                if near > 1e-9:
                    rec.close(np.asarray(dft)[:, 0, 0, :], gwant, name + '/steady-gradient', where, rtol=1e-8, atol=1e-9)
                rec.trace()
            W = float(np.dot(want, np.roll(u, -1) - np.roll(u, 1)))
            rec.outcome(case['el'], 'dissipates' if W > 1e-9 else 'no loss', near == 0)
    rec.sample('%s cycles %s* of %d samples' % (case['el'], case['first'], Nt))


def aft(case, rec):
    els, kts, fss, Q, T = elements(case)
    kts, fss = np.asarray(kts, float), np.asarray(fss, float)
    h = case['h']
    n = ref.nhc(h)
    lift = np.linalg.pinv(Q)[:, 0]
    null = np.array([0.5, 1.0])
    xs = [0.0, 1.1, -0.7] if n <= 5 else [0.0, 1.1]
    for ci, c in enumerate(itertools.product(xs, repeat=n)):
        c = np.array(c)
        for Nt in case['Nts']:
            u = ref.time_series(Nt, h, c[:, None])[:, 0]
            B = ref.basis_matrix(Nt, h)
            u0, dB0 = (c[0], np.eye(n)[0]) if h[0] == 0 else (0.0, np.zeros(n))
            F, G, near, fp = ref.steady_slider(u, kts, fss, u0, B, dB0)
            Fh = ref.fourier(h, F[:, None])[:, 0]
            Gh = ref.fourier(h, G)
            want = (Fh[:, None] * T[:, 0][None, :]).ravel()
            Jwant = np.kron(Gh, T @ Q)
            U = (c[:, None] * lift[None, :] + ref.lattice_vec(n, ci)[:, None] * null[None, :]).ravel()
            for k, (name, el) in enumerate(els):
                if (ci + k) % 3 == 0:       # earlier static history must not matter
                    el.init_history()
                    el.force(lift * 1.9, update_hist=True)
                    el.force(lift * -0.4, update_hist=True)
                w = (1.0, 2.5)[ci % 2]
                if case['el'] == 'jenkins' and (ci + k) % 4 == 0:
                    frictionless(el, U, w, h, Nt, rec)
                r = el.aft(U.copy(), w, np.array(h), Nt=Nt)
                rec.step(Nt)
                where = lambda: '%s p=%d h=%s Nt=%d coef=%s' % (name, case['p'], h, Nt, c.tolist())
                if not rec.close(r[0], want, name + '/harmonic-force', where, rtol=1e-8, atol=1e-9):
                    continue
                # (without a zeroth harmonic the start of a never slipping slider only shifts the unobserved mean force)
                if near > 1e-7:
                    rec.close(r[1], Jwant, name + '/harmonic-gradient', where, rtol=1e-7, atol=1e-8)
                    rec.outcome('gradient compared')
                rec.close(r[2], np.zeros(len(U)), name + '/frequency-gradient', where)
                rec.trace()
            rec.state(case['el'], case['p'], tuple(h), [round(x, 6) for x in fp])
    rec.sample('%s p=%d h=%s: all %d coefficient vectors' % (case['el'], case['p'], h, len(xs) ** n))


def frictionless(el, U, w, h, Nt, rec):
    """without friction (prestress) the slider carries nothing; afterwards the friction limit is back"""
    vib = VibrationSystem(np.eye(el.Q.shape[1]), np.eye(el.Q.shape[1]))
    vib.add_nl_force(el)
    vib.set_prestress_mu()
    r = el.aft(U.copy(), w, np.array(h), Nt=Nt)
    rec.expect(el.nl_force_type() == 1 and np.max(np.abs(r[0])) < 1e-12 and np.max(np.abs(r[2])) == 0, 'force without friction', lambda: 'h=%s %s' % (h, np.asarray(r[0])))
    rec.step(Nt)
    vib.reset_real_mu()


def reversals(u):
    d = np.sign(np.round(np.diff(np.concatenate([u, u[:1]])), 12))
    return int(np.sum(d != np.roll(d, 1))), bool(np.any(d == 0))


def jaxaft(case, rec):
    import tmdsimpy.jax.nlforces.jenkins_element as je
    import tmdsimpy.jax.nlforces.vector_jenkins as vje
    h, Nt = case['h'], case['Nt']
    n = ref.nhc(h)
    Q, T = Q2, T2
    lift = np.linalg.pinv(Q)[:, 0]
    B = ref.basis_matrix(Nt, h)
    for kt, Fs in (JP[0], JP[2], JP[4]):
        for u0 in (0, 0.5, None):
            if u0 is None and h[0] != 0:
                continue
            mods = [('jax-jenkins', je.JenkinsForce(Q, T, kt, Fs, u0=u0)), ('jax-vjenkins', vje.VectorJenkins(Q, T, kt, Fs, u0=u0))]
            for ci, c in enumerate(itertools.product([0.0, 1.1, -0.7], repeat=n)):
                c = np.array(c)
                u = ref.time_series(Nt, h, c[:, None])[:, 0]
                start, dB0 = (c[0], np.eye(n)[0]) if u0 is None else (u0, np.zeros(n))
                F, G, near, fp = ref.steady_slider(u, [kt], [Fs], start, B, dB0)
                want = (ref.fourier(h, F[:, None])[:, 0][:, None] * T[:, 0][None, :]).ravel()
                Jwant = np.kron(ref.fourier(h, G), T @ Q)
                nrev, flat = reversals(u)
                U = (c[:, None] * lift[None, :]).ravel()
                for name, el in mods:
                    if name == 'jax-vjenkins' and (flat or nrev > 2 * max(h)):
                        continue
                    if ci % 4 == 0 and name == 'jax-jenkins':
                        frictionless(el, U, 1.0, h, Nt, rec)
                    r = el.aft(U.copy(), 1.0, np.array(h), Nt=Nt)
                    rec.step(Nt)
                    where = lambda: '%s kt=%s Fs=%s u0=%s h=%s coef=%s' % (name, kt, Fs, u0, h, c.tolist())
                    if not rec.close(r[0], want, name + '/harmonic-force', where, rtol=1e-8, atol=1e-9):
                        continue
                    if near > 1e-7:
                        rec.close(r[1], Jwant, name + '/harmonic-gradient', where, rtol=1e-7, atol=1e-8)
                    rec.trace()
                rec.state('jax', tuple(h), kt, Fs, u0, [round(x, 6) for x in fp])
    rec.sample('jax h=%s' % h)
