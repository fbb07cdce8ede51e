import itertools
import numpy as np
import ref
from systems import Sys, HYST, cmp_res

ID = 'C09'
LEVEL = 'model_checking'
RULE = ('all element mixtures of size 0..2 (quick; 0..3 thorough) from a pool of memoryless and hysteretic elements, including the same kind twice, x harmonic sets x 1-3 DOFs with generic '
        'asymmetric matrices x lattice states, frequencies, forcings and sample counts x evaluation orders A,B,A. Oracle: projection of the equation of motion by the defining sums. '
        'State = (mixture, harmonics, DOFs); transition = one residual evaluation.')
ASSUMPTIONS = ['Jacobians are not compared when a sample lies exactly on a switch', 'calc_grad=False is only demanded of elements that support it']
POOL = ['cubic2', 'cubdamp1', 'unilat+', 'poly2', 'jenkins', 'viwan', 'quintic1', 'vjenkins', 'iwan', 'iwanbb']


def cases(tier):
    out = []
    hs = [[1], [0, 1], [0, 1, 2], [1, 3], [0, 2], [0, 1, 3]] + ([] if tier == 'quick' else [[0], [2], [1, 2, 3], [0, 3, 4]])
    for size in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
        for names in itertools.combinations_with_replacement(POOL, size):
            for hi, h in enumerate(hs):
                nds = (1, 2, 3) if size <= 1 or tier != 'quick' else (1 + (hi + len(names[0])) % 3,)
                for nd in nds:
                    out.append(dict(els=list(names), h=h, nd=nd))
    out.sort(key=lambda c: len(c['els']))
    return out


def run(case, rec):
    h, nd = case['h'], case['nd']
    s = Sys(nd, case['els'], seed=len(h))
    ha = np.array(h)
    n = ref.nhc(h) * nd
    pts = []
    for k, (w, Nt, sc) in enumerate([(1.3, 32, 1.0), (0.4, 16, 0.3), (-0.8, 32, 2.0), (2.7, 32, 1.0)]):
        U = ref.lattice_vec(n, k + nd) * sc
        if k == 3:
            U[:] = 0.0
            U[n - 1] = 1.0
        pts.append((U, w, Nt, ref.lattice_vec(n, k + 20) * (k != 2)))
    seen = {}
    for i in (0, 1, 2, 0, 3, 2, 1):
        U, w, Nt, Fl = pts[i]
        where = lambda: '%s h=%s nd=%d w=%s Nt=%d U=%s' % (case['els'], h, nd, w, Nt, U.tolist())
        Uw, F0 = np.hstack((U, w)), Fl.copy()
        r = s.vib.hbm_res(Uw, Fl, ha, Nt=Nt)
        if i not in seen:
            want = s.hbm(U, w, Fl, h, Nt)
            cmp_res(rec, r, want[:3], 'hbm', where, want[3])
            seen[i] = r
            t = s.vib.total_aft(U, w, ha, Nt=Nt)
            cmp_res(rec, t, s.nl(U, w, h, Nt)[:3], 'total nonlinear force', where, want[3])
            # force magnitude as the unknown parameter
            st = nd if h[0] == 0 else 0
            fac = 0.37 + i
            Fs = Fl * fac
            Fs[:st] = Fl[:st]
            w2 = s.hbm(U, w, Fs, h, Nt)
            dF = -Fl.copy()
            dF[:st] = 0.0
            g = s.vib.hbm_res_dFl(np.hstack((U, fac)), w, Fl, ha, Nt=Nt)
            cmp_res(rec, g, (w2[0], w2[1], dF), 'hbm over force', where, want[3])
            rec.outcome(bool(want[3] < 1e-7))
            if not any(e in HYST for e in case['els']):
                q = s.vib.hbm_res(Uw, Fl, ha, Nt=Nt, calc_grad=False)
                rec.close(q[0], want[0], 'hbm/no gradient', where, rtol=1e-8, atol=1e-9)
                q = s.vib.hbm_res_dFl(np.hstack((U, fac)), w, Fl, ha, Nt=Nt, calc_grad=False)
                rec.close(q[0], w2[0], 'hbm over force/no gradient', where, rtol=1e-8, atol=1e-9)
        else:
            rec.step()
            for a, b in zip(r, seen[i]):
                rec.close(a, b, 'depends on earlier evaluations', where, rtol=1e-13, atol=1e-13)
        rec.expect(np.array_equal(Uw[:-1], U) and np.array_equal(F0, Fl), 'input modified', where)
    # default sample count agrees with an explicit one
    U, w, Nt, Fl = pts[0]
    rec.close(s.vib.hbm_res(np.hstack((U, w)), Fl, ha)[0], s.vib.hbm_res(np.hstack((U, w)), Fl, ha, Nt=128)[0], 'default sampling', str(case), rtol=1e-12)
    rec.expect(np.array_equal(s.vib.M, s.M) and np.array_equal(s.vib.C, s.C) and np.array_equal(s.vib.K, s.K), 'matrices modified', str(case))
    rec.trace()
    rec.state(tuple(case['els']), tuple(h), nd)
    rec.sample('mixture %s h=%s nd=%d' % (case['els'], h, nd))
