import itertools
import numpy as np
import ref
from tmdsimpy.nlforces import JenkinsForce, VectorJenkins, Iwan4Force, VectorIwan4

ID = 'C04'
LEVEL = 'model_checking'
RULE = ('All operation sequences over {evaluate at x without saving, evaluate at x and save, reset history, frictionless '
        'mode on/off, periodic-force evaluation followed by reset} up to a depth, on real slider objects, each step compared '
        'with a list-of-sliders state machine. x from a lattice that hits the stick/slip switch exactly, reverses, repeats and '
        'skips over it. The caller reuses its displacement array and overwrites the returned arrays. State = (element, slider positions, forces, friction mode).')
ASSUMPTIONS = ['at the exact stick/slip switch either one-sided derivative is accepted']
CASE_LIMIT = 300


def builders():
    Q = np.array([[1.0, -0.5]])
    T = np.array([[2.0], [0.75]])
    Q1, T1 = np.array([[1.0]]), np.array([[1.0]])
    return {
        'jenkins': (lambda: JenkinsForce(Q, T, 2.0, 1.0), Q, T, [2.0], [1.0], True),
        'jenkins1': (lambda: JenkinsForce(Q1, T1, 0.25, 3.0), Q1, T1, [0.25], [3.0], True),
        'vjenkins': (lambda: VectorJenkins(Q, T, 2.0, 1.0), Q, T, [2.0], [1.0], True),
        'iwan': (lambda: Iwan4Force(Q, T, 2.0, 1.5, -0.5, 0.25, Nsliders=4), Q, T, None, None, False),
        'viwan': (lambda: VectorIwan4(Q1, T1, 3.0, 1.0, 0.0, 0.0, Nsliders=5, alphasliders=1.3), Q1, T1, None, None, False),
        'iwan1': (lambda: Iwan4Force(Q1, T1, 1.0, 1.0, 0.5, 2.0, Nsliders=3), Q1, T1, None, None, False),
    }


IW = {'iwan': (2.0, 1.5, -0.5, 0.25, 4, 1.0), 'viwan': (3.0, 1.0, 0.0, 0.0, 5, 1.3), 'iwan1': (1.0, 1.0, 0.5, 2.0, 3, 1.0)}
# local displacement levels; for 'jenkins' 0.5 = first slip exactly at the limit, 1.0 = full reversal span
LEVELS = {'jenkins': [0.0, 0.5, -0.5, 0.625, -1.25, 3.0], 'vjenkins': [0.0, 0.5, -0.5, -1.25, 3.0],
          'jenkins1': [0.0, 12.0, -12.0, 20.0, -7.0]}


def alphabet(name, tier):
    fr = name in ('jenkins', 'jenkins1', 'vjenkins')
    if fr:
        lv = LEVELS[name]
    else:
        phimax = ref.iwan_params(*IW[name])[2]
        lv = [0.0, 0.3 * phimax, -0.3 * phimax, -0.9 * phimax, 1.7 * phimax]
    ops = [('save', u) for u in lv] + [('peek', u) for u in lv[1:4:2]] + [('init',)]
    if fr:
        ops += [('mu0',), ('mu1',)]
    ops += [('aft+init',)]
    return ops


def cases(tier):
    out = []
    for name in builders():
        ops = alphabet(name, tier)
        if tier == 'quick':
            for first in range(len(ops)):
                out.append(dict(name=name, depth=4, first=[first]))
        else:
            for first in itertools.product(range(len(ops)), repeat=2):
                out.append(dict(name=name, depth=5, first=list(first)))
    return out


def run(case, rec):
    name = case['name']
    make, Q, T, kts, fss, fr = builders()[name]
    if kts is None:
        phi, wts, _ = ref.iwan_params(*IW[name])
        kts, fss = wts, wts * phi
    ops = alphabet(name, 'quick')
    nx = Q.shape[1]
    lift = np.linalg.pinv(Q)[:, 0]
    h = np.array([0, 1])
    null = np.array([0.5, 1.0]) if nx == 2 else np.zeros(1)   # Q @ null == 0: must have no effect
    n = len(kts)

    def play(seq):
        el = make()
        el.init_history()
        ms = [ref.Slider(k, f) for k, f in zip(kts, fss)]
        X = np.zeros(nx)    # one array of the caller, filled anew for every call
        for pos, o in enumerate(seq):
            op = ops[o]
            key = '%s/%s' % (name, op[0])
            where = lambda: 'sequence %s' % [ops[i] for i in seq[:pos + 1]]
            if op[0] in ('save', 'peek'):
                u = op[1]
                X[:] = lift * u + null * (0.25 * (pos + 1))
                r = el.force(X, update_hist=True) if op[0] == 'save' else el.force(X)
                parts = [m.peek(u) for m in ms]
                f = sum(p[0] for p in parts)
                rec.close(np.ravel(r[0]), T[:, 0] * f, key + '/force', where, rtol=1e-9, atol=1e-9)
                lo = sum(min(p[1]) for p in parts)
                hi = sum(max(p[1]) for p in parts)
                # rank-one tangent T k Q with k between the one-sided values
                J = np.asarray(r[1], float)
                kk = float(np.ravel(J)[np.argmax(np.abs(np.outer(T[:, 0], Q[0])).ravel())]
                           / np.ravel(np.outer(T[:, 0], Q[0]))[np.argmax(np.abs(np.outer(T[:, 0], Q[0])).ravel())])
                rec.close(J, np.outer(T[:, 0], Q[0]) * kk, key + '/tangent-shape', where, atol=1e-9)
                rec.expect(lo - 1e-9 <= kk <= hi + 1e-9, key + '/tangent',
                           lambda: '%s tangent %r not in [%r, %r]' % (where(), kk, lo, hi))
                for a in r:          # the results belong to the caller
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = 99.0
                rec.expect(abs(f) <= sum(m.fs for m in ms) + 1e-9, key + '/bound', where)
                if op[0] == 'save':
                    for m in ms:
                        m.move(u)
                rec.outcome(name, 'slip' if lo == 0 else 'stick' if lo == hi else 'mixed')
            elif op[0] == 'init':
                el.init_history()
                for m in ms:
                    m.u = m.f = 0.0
            elif op[0] == 'mu0':
                el.set_prestress_mu()
                for m in ms:
                    m.fs = 0.0
            elif op[0] == 'mu1':
                el.reset_real_mu()
                for m, f in zip(ms, fss):
                    m.fs = float(f)
            elif op[0] == 'aft+init':
                U = np.concatenate([lift * 0.3, lift * 1.7, lift * 0.4])
                el.aft(U, 1.3, h, Nt=8)
                el.init_history()
                for m in ms:
                    m.u = m.f = 0.0
            rec.step()
            rec.state(name, [(round(m.u, 9), round(m.f, 9), m.fs) for m in ms])
        rec.trace()

    depth = case['depth'] - len(case['first'])
    for rest in itertools.product(range(len(ops)), repeat=depth):
        play(list(case['first']) + list(rest))
    rec.sample('%s after %s: all %d continuations' % (name, [ops[i] for i in case['first']], len(ops) ** depth))
