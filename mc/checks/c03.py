import itertools
import numpy as np
import ref
from tmdsimpy.utils import harmonic as hu

ID = 'C03'
LEVEL = 'model_checking'
RULE = ('every non-empty harmonic subset of {0..3} (quick; {0..4} thorough) x 1-3 DOFs x 0..7 trailing unknowns x every assignment of a '
        'magnitude class (zero, below floor, exactly the floor, mixed, large) to each harmonic block x every class for the trailing block x floor given as '
        'default, float, integer, numpy scalar, array or list. State = (harmonics, DOFs, trailing, classes); transition = one entry of the result compared.')
ASSUMPTIONS = []
CLASSES = 'ztfmL'


def cases(tier):
    H = 3 if tier == 'quick' else 4
    return [dict(h=h, nd=nd, m=m) for h in ref.subsets(range(H + 1)) for nd in (1, 2, 3) for m in range(8)]


def block(c, n, floor, seed):
    v = np.abs(ref.lattice_vec(n, seed)) + 0.1
    sgn = np.where((np.arange(n) + seed) % 2 == 0, 1.0, -1.0)
    v = v / np.mean(v)
    if c == 'z':
        return np.zeros(n)
    if c == 't':
        return sgn * v * 0.3 * floor
    if c == 'f':
        return sgn * np.full(n, floor)
    if c == 'm':                      # mean above the floor, single entries below
        w = np.zeros(n)
        w[0] = -3.0 * n * floor
        return w
    return sgn * v * 7.5


def run(case, rec):
    h, nd, m = case['h'], case['nd'], case['m']
    nb = len(h) + (1 if m else 0)
    sizes = [nd if k == 0 else 2 * nd for k in h] + ([m] if m else [])
    arr = [0.5, 0.02, 0.3, 2.0, 0.11][:len(h)] + ([0.07] if m else [])
    floors = [('float', 0.25), ('array', np.array(arr)), ('list', list(arr)), ('int', 1), ('np.float64', np.float64(0.25)), ('default', None)]
    full = list(itertools.product(CLASSES, repeat=nb)) if nb <= 3 else \
        [c for c in itertools.product('zmL', repeat=nb)]
    ha = np.array(h)
    for ci, cl in enumerate(full):
        for fname, fl in floors:
            fv = [1e-4 if fl is None else fl] * nb if np.ndim(fl) == 0 else list(fl)
            X = np.concatenate([block(c, s, f, ci + k) for k, (c, s, f) in enumerate(zip(cl, sizes, fv))])
            want = []
            for k, s in enumerate(sizes):
                blk = X[sum(sizes[:k]):sum(sizes[:k]) + s]
                if k < len(h):
                    want += [max(fv[k], float(sum(abs(x) for x in blk)) / s)] * s
                else:
                    want += [max(fv[k], abs(float(x))) for x in blk]
            X0 = X.copy()
            got = hu.harmonic_wise_conditioning(X, nd, ha) if fl is None else hu.harmonic_wise_conditioning(X, nd, ha, delta=fl)
            rec.step(len(X))
            where = lambda: 'h=%s Ndof=%d extra=%d floor=%s classes=%s' % (h, nd, m, fname, ''.join(cl))
            rec.close(got, np.array(want), 'conditioning/%s' % ('scalar' if np.ndim(fl) == 0 else 'vector'), where, rtol=1e-12)
            rec.expect(np.array_equal(X, X0), 'input modified', where)
            rec.trace()
        rec.state(tuple(h), nd, m, cl)
        rec.outcome(fname, 'm' if m else '')
    rec.sample('h=%s Ndof=%d extra=%d: %d magnitude patterns x %d floors' % (h, nd, m, len(full), len(floors)))
