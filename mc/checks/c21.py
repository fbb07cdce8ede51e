"""C21: interpolation of continuation results against the closed-form Hermite basis and piecewise linear functions."""
import itertools
import numpy as np
import ref
from tmdsimpy.postprocess import continuation as pc

ID = 'C21'
LEVEL = 'model_checking'
RULE = ('all gap patterns over {0.01, 1, 40} for 2-5 stored points (quick; 2-7 thorough), all cubic monomials plus lattice data, slope scalings per point over {1, 0.01, 50} , query sets: every node, 3 inner positions per interval, '
        'ends, unsorted, repeated, single, just inside and outside; upsampling factors 1-5; all monotonicity patterns over {-1,0,1} of the control column, all sign patterns of the slopes (must be rejected); reference columns and '
        'external references for the linear version. State = (pattern, query set); transition = one interpolation call.')
ASSUMPTIONS = []


def cases(tier):
    out = []
    mx = 5 if tier == 'quick' else 7
    for M in range(2, mx + 1):
        for first in (0.01, 1.0, 40.0):
            out.append(dict(kind='interp', M=M, first=first))
        out.append(dict(kind='reject', M=M))
    return out


def hermite(x, Y, S, q):
    """textbook cubic Hermite on each interval"""
    out = np.empty((len(q), Y.shape[1]))
    for i, v in enumerate(q):
        k = min(max(int(np.sum(x <= v)) - 1, 0), len(x) - 2)
        hgt = x[k + 1] - x[k]
        t = (v - x[k]) / hgt
        out[i] = (1 + 2 * t) * (1 - t) ** 2 * Y[k] + t * (1 - t) ** 2 * hgt * S[k] + t * t * (3 - 2 * t) * Y[k + 1] + t * t * (t - 1) * hgt * S[k + 1]
    return out


def linear(x, X, q):
    out = np.empty((len(q), X.shape[1]))
    for i, v in enumerate(q):
        if v < x[0] or v > x[-1]:
            out[i] = np.nan
            continue
        k = min(max(int(np.sum(x <= v)) - 1, 0), len(x) - 2)
        t = (v - x[k]) / (x[k + 1] - x[k])
        out[i] = (1 - t) * X[k] + t * X[k + 1]
    return out


def queries(x):
    inner = np.concatenate([x[:-1] + f * np.diff(x) for f in (0.3, 0.5, 0.9)])
    return {'nodes': x.copy(), 'inner': inner, 'all reversed': np.sort(np.r_[x, inner])[::-1].copy(), 'repeated': np.r_[x[-1], x[0], x[0], inner[0], x[-1]],
            'single': inner[:1].copy(), 'first': x[:1].copy(), 'last': x[-1:].copy()}


def run(case, rec):
    globals()['run_' + case['kind']](case, rec)


def run_interp(case, rec):
    M = case['M']
    for rest in itertools.product((0.01, 1.0, 40.0), repeat=M - 2):
        gaps = np.array((case['first'],) + rest)
        for start in (-1.5, 3.0):
            x = start + np.r_[0.0, np.cumsum(gaps)]
            z = (x - x.mean()) / (x[-1] - x[0])
            sc = 1 / (x[-1] - x[0])
            data = {'cubics': (np.stack([z ** 0, z, z ** 2, z ** 3], 1), np.stack([0 * z, sc + 0 * z, 2 * z * sc, 3 * z ** 2 * sc], 1)),
                    'lattice': (ref.lattice_mat(M, 3, 5), ref.lattice_mat(M, 3, 9)), 'one': (ref.lattice_mat(M, 1, 2), ref.lattice_mat(M, 1, 3)),
                    'none': (np.zeros((M, 0)), np.zeros((M, 0)))}
            for name, (Y, S) in data.items():
                X = np.hstack((Y, x[:, None]))
                scal = np.array([(1.0, 0.01, 50.0)[i % 3] for i in range(M)])
                for lab, sl in (('unit', np.ones(M)), ('scaled', scal)):
                    G = np.hstack((S, np.ones((M, 1)))) * sl[:, None]
                    X_, G_ = X.copy(), G.copy()
                    where = lambda: '%s gaps %s start %g slopes %s query %s' % (name, gaps, start, lab, qn)
                    for qn, q in queries(x).items():
                        q_ = q.copy()
                        got = pc.hermite_interp(X_, G_, q_)
                        rec.step()
                        rec.state(gaps.tolist(), start, name, lab, qn)
                        want = np.hstack((hermite(x, Y, S, q), q[:, None]))
                        rec.close(got, want, 'Hermite interpolation', where, rtol=1e-9)
                        if name == 'cubics':
                            zq = (q - x.mean()) * sc
                            rec.close(got[:, :4], np.stack([zq ** 0, zq, zq ** 2, zq ** 3], 1), 'cubic polynomials', where, rtol=1e-9)
                        if qn == 'nodes':
                            rec.close(got, X, 'stored points', where, rtol=1e-12)
                        rec.close(pc.hermite_upsample(X_, G_, new_lams=q_), want, 'hermite_upsample(new_lams)', where, rtol=1e-9)
                        rec.expect(np.array_equal(X, X_) and np.array_equal(G, G_) and np.array_equal(q, q_), 'arguments modified', where)
                    for up in (None, 1, 2, 3, 5):
                        qn = 'upsample %s' % up
                        got = pc.hermite_upsample(X_, G_, **({} if up is None else {'upsample_freq': up}))
                        u = 10 if up is None else up
                        q = np.concatenate([x[k] + np.arange(u) / u * (x[k + 1] - x[k]) for k in range(M - 1)] + [x[-1:]])
                        rec.step()
                        rec.close(got[:, -1], q, 'upsampled positions', where, rtol=1e-12)
                        rec.close(got, np.hstack((hermite(x, Y, S, got[:, -1]), q[:, None])), 'upsampled points', where, rtol=1e-9)
                        rec.close(got[::u], X, 'stored points in upsampled result', where, rtol=1e-9)
                # linear
                refs = {'None': None, 'own': x.copy(), 'external': np.cumsum(np.r_[-2.0, gaps[::-1]])}
                for rn, rv in refs.items():
                    xr = x if rv is None else rv
                    span = xr[-1] - xr[0]
                    qs = queries(xr)
                    qs['outside'] = np.array([xr[0] - 1e-6 * span, xr[0], xr[-1] + 1e-6 * span, xr[-1], -1e9, 1e9, 0.5 * (xr[0] + xr[1])])
                    qs['all outside'] = np.array([xr[0] - 1, xr[-1] + 1])
                    for qn, q in qs.items():
                        X_, q_ = X.copy(), q.copy()
                        r_ = None if rv is None else rv.copy()
                        where = lambda: 'linear %s gaps %s reference %s query %s' % (name, gaps, rn, qn)
                        got = pc.linear_interp(X_, q_, **({} if rv is None else {'reference_values': r_}))
                        rec.step()
                        rec.state('lin', gaps.tolist(), start, name, rn, qn)
                        want = linear(xr, X, q)
                        if not rec.expect(got.shape == want.shape, 'shape', where):
                            continue
                        rec.expect(np.array_equal(np.isnan(got), np.isnan(want)), 'rows outside the range', lambda: where() + ' %s' % got)
                        rec.close(np.nan_to_num(got, nan=0.0), np.nan_to_num(want, nan=0.0), 'linear interpolation', where, rtol=1e-9)
                        rec.expect(np.array_equal(X, X_) and np.array_equal(q, q_) and (rv is None or np.array_equal(rv, r_)), 'arguments modified', where)
        rec.trace()


def rejected(f):
    try:
        f()
    except AssertionError:
        return True
    return False


def run_reject(case, rec):
    M = case['M']
    S = ref.lattice_mat(M, 2, 9)
    for gaps in itertools.product((-1.0, 0.0, 1.0), repeat=M - 1):
        x = 2.0 + np.r_[0.0, np.cumsum(gaps)]
        X = np.hstack((ref.lattice_mat(M, 2, 5), x[:, None]))
        G = np.hstack((S, np.ones((M, 1))))
        good = all(g > 0 for g in gaps)
        q = np.array([x.min(), x.max()]) if good else np.array([x[0]])
        where = lambda: 'control column %s' % x
        rec.state(gaps)
        rec.step(3)
        rec.expect(rejected(lambda: pc.hermite_interp(X, G, q)) != good, 'monotonicity check (Hermite)', where)
        rec.expect(rejected(lambda: pc.hermite_upsample(X, G)) != good, 'monotonicity check (upsample)', where)
        rec.expect(rejected(lambda: pc.linear_interp(X, q)) != good, 'monotonicity check (linear)', where)
        Xg = np.hstack((ref.lattice_mat(M, 2, 5), np.arange(M)[:, None] * 1.0))
        rec.expect(rejected(lambda: pc.linear_interp(Xg, q, reference_values=x)) != good, 'monotonicity check (linear, reference)', where)
    x = np.arange(M) * 1.0
    X = np.hstack((ref.lattice_mat(M, 2, 5), x[:, None]))
    for sg in itertools.product((-1.0, 0.0, 1.0), repeat=M):
        G = np.hstack((S, np.array(sg)[:, None]))
        rec.state('slope', sg)
        rec.step()
        rec.expect(rejected(lambda: pc.hermite_interp(X, G, np.array([0.5]))) != all(s > 0 for s in sg), 'slope check', 'slopes %s' % (sg,))
    G = np.hstack((S, np.ones((M, 1))))
    for q, ok in ((-1e-6, False), (0.0, True), (M - 1.0, True), (M - 1 + 1e-6, False)):
        for other in (0.5, 0.1):
            for order in (1, -1):
                rec.step()
                rec.state('range', q, other, order)
                rec.expect(rejected(lambda: pc.hermite_interp(X, G, np.array([q, other][::order]))) != ok, 'range check', 'query %g of [0,%d]' % (q, M - 1))
    rec.trace()
