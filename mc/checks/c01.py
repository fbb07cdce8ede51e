import numpy as np
import ref
import tmdsimpy.utils.harmonic as hu

ID = 'C01'
LEVEL = 'model_checking'
RULE = ('Every harmonic set h that is a non-empty subset of {0..4} (thorough {0..6}) plus sparse high sets; every even '
        'sample count from the smallest admissible; every derivative order 0..4; every unit coefficient vector of 1..3 '
        'DOFs and one generic vector; numpy and JAX versions; integer dtypes. Non-trivial = a distinct '
        '(h, Nt, order, DOF count, input vector) whose time series is compared sample by sample.')
ASSUMPTIONS = ['linearity between unit vectors is covered by unit vectors plus generic dense vectors, not all reals']


def cases(tier):
    top = 4 if tier == 'quick' else 6
    out = []
    sets = list(ref.subsets(range(top + 1)))
    sets += [[1, 9], [0, 7, 12], [0, 1, 2, 3, 4, 5, 6, 7], [15]]
    for h in sets:
        Nmin = 2 * max(h) + 2
        Nts = [Nmin, Nmin + 2, Nmin + 4] + [n for n in (16, 32, 64, 128, 256) if n >= Nmin]
        if tier == 'quick':
            Nts = Nts[:2] + [n for n in (64, 128) if n >= Nmin]
        out.append(dict(kind='np', h=h, Nts=sorted(set(Nts)), dtypes=['int64', 'int32', 'uint8']))
    for h in sets:
        Nmin = 2 * max(h) + 2
        out.append(dict(kind='jax', h=h, Nts=[Nmin, max(64, Nmin + 2)]))
    return out


def run(case, rec):
    h = case['h']
    if case['kind'] == 'jax':
        import tmdsimpy.jax  # noqa
        import tmdsimpy.jax.harmonic_utils as jhu
        series = lambda Nt, hh, X, o: np.asarray(jhu.time_series_deriv(Nt, tuple(hh), X, o))
        coeff = lambda hh, x: np.asarray(jhu.get_fourier_coeff(tuple(hh), x))
    else:
        series = hu.time_series_deriv
        coeff = hu.get_fourier_coeff
    dt0 = np.array(h)
    n = ref.nhc(h)
    rec.expect(hu.Nhc(dt0) == n, 'component-count', lambda: 'Nhc(%s)=%s, expected %d' % (h, hu.Nhc(dt0), n))
    jax = case['kind'] == 'jax'
    for Nt in case['Nts']:
        for order in range(0, 3 if jax else 5):
            for nd in ((2,) if jax else (1, 2, 3)):
                inputs = [('unit%d' % i, np.eye(n * nd)[i].reshape(n, nd)) for i in range(n * nd)] if not jax else []
                if jax or nd > 1:
                    inputs.append(('generic', ref.lattice_mat(n, nd, order)))
                for name, X in inputs:
                    want = ref.time_series(Nt, h, X, order)
                    Xin = X.copy()
                    got = series(Nt, np.array(h), Xin, order)
                    rec.state(case['kind'], tuple(h), Nt, order, nd, name)
                    rec.step()
                    rec.close(got, want, case['kind'] + '/time-series', lambda: 'h=%s Nt=%d order=%d X=%s' % (
                        h, Nt, order, X.tolist()), rtol=1e-10, atol=1e-11 * max(h + [1]) ** order)
                    rec.expect(np.array_equal(Xin, X), case['kind'] + '/input-modified', 'coefficients modified in place')
                    if order == 0:
                        back = coeff(np.array(h), np.array(got))
                        rec.close(back, X, case['kind'] + '/round-trip', lambda: 'h=%s Nt=%d' % (h, Nt), rtol=1e-10)
                        rec.trace()
            if order == 0 and not jax:
                rec.sample('h=%s Nt=%d order=%d: all unit vectors and a generic one match the cosine/sine sums' % (h, Nt, order))
        # coefficients of every harmonic the sample count resolves, extracted with a *different* set h
        full = list(range(0, Nt // 2))
        Xf = ref.lattice_mat(ref.nhc(full), 2, 5)
        x = ref.time_series(Nt, full, Xf, 0)
        cf = ref.comps(full)
        sel = [cf.index(c) for c in ref.comps(h)]
        got = coeff(np.array(h), x)
        rec.step()
        rec.close(got, Xf[sel], case['kind'] + '/extraction', lambda: 'h=%s Nt=%d with all resolvable harmonics present' % (h, Nt),
                  rtol=1e-9, atol=1e-10)
        for i in range(len(cf)):
            xi = ref.time_series(Nt, full, np.eye(len(cf))[:, i:i + 1], 0)
            if jax and i > 4:
                break
            g = coeff(np.array(h), xi)
            w = np.zeros((n, 1))
            for r, c in enumerate(ref.comps(h)):
                if c == cf[i]:
                    w[r, 0] = 1.0
            rec.state(case['kind'], 'coef', tuple(h), Nt, cf[i])
            rec.step()
            rec.close(g, w, case['kind'] + '/extraction-unit', lambda: 'h=%s Nt=%d pure %s' % (h, Nt, cf[i]), rtol=1e-10, atol=1e-11)
    # sampled series of odd length
    for Nt in (2 * max(h) + 1, 2 * max(h) + 5, 33):
        if Nt <= 2 * max(h):
            continue
        full = list(range(0, (Nt - 1) // 2 + 1))
        Xf = ref.lattice_mat(ref.nhc(full), 2, 7)
        cf = ref.comps(full)
        got = coeff(np.array(h), ref.time_series(Nt, full, Xf, 0))
        rec.step()
        rec.state(case['kind'], 'odd', tuple(h), Nt)
        rec.close(got, Xf[[cf.index(c) for c in ref.comps(h)]], case['kind'] + '/extraction-odd', lambda: 'h=%s Nt=%d' % (h, Nt), rtol=1e-9, atol=1e-10)
    for dt in case.get('dtypes', []):
        hh = np.array(h, dtype=dt)
        Nt = case['Nts'][0]
        X = ref.lattice_mat(n, 2, 1)
        rec.expect(hu.Nhc(hh) == n, 'dtype/count', dt)
        for order in (0, 1, 2):
            rec.step()
            rec.state('dtype', dt, tuple(h), order)
            rec.close(series(Nt, hh, X, order), ref.time_series(Nt, h, X, order), 'dtype/time-series',
                      '%s h=%s' % (dt, h), rtol=1e-10)
        rec.close(coeff(hh, ref.time_series(Nt, h, X, 0)), X, 'dtype/round-trip', '%s h=%s' % (dt, h), rtol=1e-10)
    if not jax:
        # aliasing guard: too few samples must be refused, not silently wrapped
        for Nt in (2 * max(h), 2 * max(h) - 2):
            if Nt >= 2:
                rec.step()
                try:
                    hu.time_series_deriv(Nt, np.array(h), np.zeros((n, 1)), 0)
                    ok = False
                except Exception:
                    ok = True
                rec.expect(ok, 'truncation-refused', 'h=%s Nt=%d was accepted' % (h, Nt))
        rec.step()
        try:
            hu.Nhc(np.array(h + [h[-1]]))
            ok = False
        except Exception:
            ok = True
        rec.expect(ok, 'duplicate-refused', 'h=%s accepted' % (h + [h[-1]]))
