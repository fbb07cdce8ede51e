import itertools
import numpy as np
import ref
import elems

ID = 'C07'
LEVEL = 'model_checking'
RULE = ('every element (cubic, quintic, cubic damping, unilateral, general polynomial, conservative distributed slider; 1-2 local DOFs, signs, offsets) x 1-3 global '
        'DOFs x all displacement and velocity vectors of a lattice that contains every corner exactly x all call sequences of length 2 (earlier calls must not matter). '
        'State = (element, local displacement class); transition = one evaluation of the real element compared with the documented law.')
ASSUMPTIONS = ['at an exact corner either one-sided derivative is accepted']

LV = [0.0, 1.0, -1.0, 0.25, -0.25, 0.1, -0.5, 2.0, -1.75, 30.0, 1e-4, 0.39, 0.61]


def cases(tier):
    out = [dict(el=n, nd=nd, seed=s) for n in elems.NAMES for nd in (1, 2, 3) for s in ((0, 5) if tier == 'quick' else (0, 5, 9, 14))]
    return out + [dict(el=n, nd=0, seed=0, eye=True) for n in elems.NAMES]


def run(case, rec):
    nnl = dict((s[0], s[1]) for s in elems.SPECS)[case['el']]
    eye = case.get('eye')
    nd = nnl if eye else case['nd']
    el = elems.make(case['el'], nd, case['seed'], *( (np.eye(nnl), np.eye(nnl)) if eye else (None, None)))
    o = el.obj
    pts = list(itertools.product(LV, repeat=nd)) if nd <= 2 else list(itertools.product([0.0, 1.0, -0.25, -1.75], repeat=3))
    rec.expect(o.nl_force_type() == 0, 'memoryless flag', case['el'])
    prev = None
    for pi, p in enumerate(pts):
        X = np.array(p)
        V = np.array(pts[(pi * 5 + 3) % len(pts)])
        F, a, b, d = el.glob(X, V)
        arg, dF = (V, b) if el.velocity else (X, a)
        A0 = arg.copy()
        f, df = o.force(arg)
        rec.step()
        where = lambda: '%s nd=%d seed=%d x=%s v=%s' % (el.name, nd, case['seed'], X.tolist(), V.tolist())
        rec.close(f, F, 'force law', where, rtol=1e-10, atol=1e-12)
        if d > 1e-12:
            rec.close(df, dF, 'tangent', where, rtol=1e-9, atol=1e-11)
        else:
            side = [el.glob(X + e, V)[1] for e in np.vstack([np.eye(nd), -np.eye(nd)]) * 1e-9]
            rec.expect(any(np.allclose(df, s, rtol=1e-6, atol=1e-6) for s in side), 'tangent at corner', where)
            rec.outcome('corner', el.name)
        rec.expect(np.array_equal(arg, A0), 'input modified', where)
        f2 = o.force(np.array(prev) if prev is not None else arg)
        f3, df3 = o.force(arg)
        rec.expect(np.array_equal(f3, f) and np.array_equal(df3, df), 'depends on earlier calls', where)
        prev = p
        rec.state(el.name, nd, case['seed'], p)
        rec.outcome(el.name, tuple(np.sign(np.round(F, 12)).tolist()))
    # whole history of local displacements at once
    lu = list(itertools.product(LV, repeat=nnl))
    U = np.array(lu)
    W = np.array([lu[(i * 5 + 3) % len(lu)] for i in range(len(lu))])
    U0, W0 = U.copy(), W.copy()
    for sel in (slice(None), slice(0, 1), slice(None, None, -1)):
        ft, du, dv = o.local_force_history(U[sel], W[sel])
        rows = list(range(len(lu)))[sel]
        rec.expect(ft.shape == (len(rows), nnl), 'history shape', el.name)
        for i, r in enumerate(rows):
            f, a, b, d = el.law(U[r], W[r])
            rec.step()
            where = lambda: '%s history u=%s v=%s' % (el.name, U[r].tolist(), W[r].tolist())
            rec.close(ft[i], f, 'history/force law', where, rtol=1e-10, atol=1e-12)
            ga = np.diag(du[i]) if np.ndim(du) == 2 else du[i]
            gb = np.diag(dv[i]) if np.ndim(dv) == 2 else dv[i]
            if d > 1e-12:
                rec.close(ga, a, 'history/displacement derivative', where, rtol=1e-9, atol=1e-11)
                rec.close(gb, b, 'history/velocity derivative', where, rtol=1e-9, atol=1e-11)
        rec.trace()
    rec.expect(np.array_equal(U, U0) and np.array_equal(W, W0), 'history input modified', el.name)
    rec.sample('%s nd=%d: %d states, history of %d instants' % (el.name, nd, len(pts), len(lu)))
