import itertools
import numpy as np
import ref
import tmdsimpy.utils.harmonic as hu

ID = 'C02'
LEVEL = 'model_checking'
RULE = ('Every harmonic set h subset of {0..4} (thorough {0..5}) and sparse high sets x 1..3 DOFs x (M,C,K) from unit-entry '
        'matrices (each single entry of M, C or K set, including non-symmetric positions), combinations and generic dense '
        'non-symmetric matrices x frequencies (negative, 0, fractional, integer-typed) x damping-only flag x gradient flag. '
        'Oracle: M x\'\'+C x\'+K x formed in the time domain for every unit coefficient, and the exact derivative of the '
        'resulting quadratic in frequency. Non-trivial = distinct (h, matrices, frequency, flags).')
ASSUMPTIONS = []


def cases(tier):
    top = 4 if tier == 'quick' else 5
    sets = list(ref.subsets(range(top + 1))) + [[1, 9], [0, 7, 12], [3, 5, 7]]
    return [dict(h=h, nd=nd, w=[0.0, 0.7, 3, -1.3, 250.0]) for h in sets for nd in (1, 2, 3)]


def run(case, rec):
    h, nd = case['h'], case['nd']
    Z = np.zeros((nd, nd))
    trip = []
    for which in range(3):
        for i, j in itertools.product(range(nd), range(nd)):
            m = [Z, Z, Z]
            u = Z.copy()
            u[i, j] = 1.0
            m[which] = u
            trip.append(('unit%d%d%d' % (which, i, j), m))
    trip.append(('dense', [ref.lattice_mat(nd, nd, s) * (s + 1) for s in (1, 2, 3)]))
    trip.append(('int', [np.arange(1, nd * nd + 1).reshape(nd, nd) * (s + 1) for s in (1, 2, 3)]))
    for name, (M, C, K) in trip:
        for w in case['w']:
            if name.startswith('unit') and w not in (0.7, 3):
                continue
            for onlyC in (False, True):
                Mr, Kr = (Z, Z) if onlyC else (M, K)
                want = ref.harmonic_E(Mr, C, Kr, w, h)
                d = 1.0
                dwant = (ref.harmonic_E(Mr, C, Kr, w + d, h) - ref.harmonic_E(Mr, C, Kr, w - d, h)) / (2 * d)
                sc = 1e-10 * max(1.0, (w * max(h)) ** 2)
                args = [np.array(a) for a in (M, C, K)]
                key = '%s h=%s nd=%d w=%s only_C=%s' % (name, h, nd, w, onlyC)
                rec.state(name, tuple(h), nd, w, onlyC)
                if onlyC and name == 'dense':
                    rec.step()
                    r = hu.harmonic_stiffness(None, args[1], None, w, np.array(h), only_C=True)
                    rec.close(r[0], want, 'only-C-ignores-M-K', key, atol=sc)
                r = hu.harmonic_stiffness(args[0], args[1], args[2], w, np.array(h), calc_grad=True, only_C=onlyC)
                rec.step()
                rec.expect(len(r) == 2, 'arity', key)
                rec.close(r[0], want, 'stiffness', key, atol=sc)
                rec.close(r[1], dwant, 'frequency-derivative', key, rtol=1e-8, atol=10 * sc)
                r = hu.harmonic_stiffness(args[0], args[1], args[2], w, np.array(h), calc_grad=False, only_C=onlyC)
                rec.step()
                rec.expect(isinstance(r, tuple) and len(r) == 1, 'arity-no-grad', key)
                rec.close(r[0], want, 'stiffness-no-grad', key, atol=sc)
                rec.trace()
                for a, b in zip(args, (M, C, K)):
                    rec.expect(np.array_equal(a, b), 'input-modified', key)
    rec.sample('h=%s nd=%d: %d matrix triples x %d frequencies' % (h, nd, len(trip), len(case['w'])))
