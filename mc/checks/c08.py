import itertools
import numpy as np
import ref
import elems

ID = 'C08'
LEVEL = 'model_checking'
RULE = ('every memoryless element x harmonic sets (all subsets of {0..3} in quick, {0..5} thorough, at most 7 components) x 1-2 global DOFs x every coefficient vector of a per-component lattice '
        '(complete for up to 5 unknowns, every vector with at most 2 non-zero components plus dense vectors above) x frequencies x sample counts. Oracle: the documented law at the sampling instants, '
        'projected by the defining sums. State = (element, harmonics, coefficients); transition = one harmonic force evaluation.')
ASSUMPTIONS = ['gradients are not compared when a sample lies exactly on a contact corner',
               'force projection is compared at the sample count used by the call (the documented definition of the scheme)']


def cases(tier):
    H = 3 if tier == 'quick' else 5
    out = []
    for h in ref.subsets(range(H + 1)):
        if ref.nhc(h) > 7:
            continue
        for n in elems.NAMES:
            for nd in (1, 2):
                out.append(dict(el=n, h=h, nd=nd, tier=tier))
    out.sort(key=lambda c: (ref.nhc(c['h']) * c['nd']))
    return out


def vectors(n, k, tier):
    if n <= (3 if tier == 'quick' else 4):
        return [np.array(v) for v in itertools.product([0.0, 0.8, -0.55], repeat=n)]
    out = [np.zeros(n)]
    for i in range(n):
        for s in (0.8, -1.1):
            v = np.zeros(n)
            v[i] = s
            out.append(v)
    for i, j in itertools.combinations(range(n), 2):
        v = np.zeros(n)
        v[i], v[j] = 0.7, -0.45
        out.append(v)
    for s in range(4):
        out.append(ref.lattice_vec(n, s + k) * (0.3, 1.0, 1.0, 2.5)[s])
    return out


def run(case, rec):
    h, nd = case['h'], case['nd']
    el = elems.make(case['el'], nd, 3 * len(h))
    o = el.obj
    n = ref.nhc(h) * nd
    ha = np.array(h)
    vs = vectors(n, sum(h), case['tier'])
    for vi, U in enumerate(vs):
        for w, Nt in (((1.3, 16), (0.0, 32)) if vi % 2 else ((2.6, 32), (-0.7, 16))):
            F, J, Fw, near = elems.aft_ref(el, U, w, h, Nt)
            U0 = U.copy()
            r = o.aft(U, w, ha, Nt=Nt)
            rec.step()
            where = lambda: '%s h=%s nd=%d w=%s Nt=%d U=%s' % (el.name, h, nd, w, Nt, U.tolist())
            rec.close(r[0], F, 'harmonic force', where, rtol=1e-9, atol=1e-11)
            if near > 1e-9:
                rec.close(r[1], J, 'gradient', where, rtol=1e-8, atol=1e-10)
                rec.outcome(el.name, 'gradient')
            rec.close(r[2], Fw, 'frequency gradient', where, rtol=1e-8, atol=1e-10)
            rec.expect(np.array_equal(U, U0) and list(ha) == h, 'input modified', where)
            if vi % 7 == 0:
                r2 = o.aft(U, w, ha, Nt=Nt, calc_grad=False)
                rec.close(r2[0], F, 'force without gradient', where, rtol=1e-9, atol=1e-11)
                # the default sample count resolves polynomial laws exactly
                if el.name[:4] in ('cubi', 'quin', 'cubd', 'poly'):
                    r3 = o.aft(U, w, ha)
                    Fe = elems.aft_ref(el, U, w, h, 36)[0] if max(h) <= 5 else F
                    rec.close(r3[0], Fe, 'default sampling', where, rtol=1e-8, atol=1e-10)
            rec.trace()
            rec.state(el.name, tuple(h), nd, vi)
    rec.sample('%s h=%s nd=%d: %d vectors' % (el.name, h, nd, len(vs)))
