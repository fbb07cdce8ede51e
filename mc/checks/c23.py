"""C23: the superharmonic (VPRNM) reduced order model against a complex-arithmetic superposition model."""
import itertools
import numpy as np
import ref
import roms
from tmdsimpy.roms import vprnm

ID = 'C23'
LEVEL = 'model_checking'
RULE = ('all combinations of fundamental/superharmonic/VPRNM harmonic sets (with and without the zeroth, overlapping or not), superharmonic 2, 3, 5, 1-3 DOFs, both VPRNM layouts, control amplitude at nodes and between, '
        'control vectors, extra frequencies (none, inside, around the peak, outside), force correction on/off; all returned rows, forces and harmonic list are compared with the model, and independence of unused stored points is checked. '
        'State = configuration; transition = one ROM evaluation.')
ASSUMPTIONS = ['with extra frequencies the superharmonic curve is single valued (documented by an assertion)', 'forces at frequencies outside the superharmonic curve are only judged without force correction']


def cases(tier):
    out = []
    for nd in (1, 2, 3):
        for rhi in (2, 3, 5):
            for hf in ([1], [0, 1], [1, 2], [0, 1, 3], [1, 4, 6]) if tier == 'quick' else ([1], [0, 1], [1, 2], [0, 1, 3], [1, 4, 6], [0, 1, 2, 3, 4, 5]):
                out.append(dict(nd=nd, rhi=rhi, hf=hf, full=tier != 'quick'))
    return out


def backbone(nd, h, w0, slope, seed, M=6, lo=-4.0, hi=0.5):
    n = roms.nhc(h)
    b = ref.lattice_vec(n * nd, seed) * 0.3 * np.ones((M, 1)) + ref.lattice_mat(M, n * nd, seed + 1) * 0.02
    i0 = nd if h[0] == 0 else 0
    b[:, i0:i0 + 2 * nd] += np.r_[1.0 + 0.2 * np.arange(nd), 0.4 - 0.3 * np.arange(nd)]
    s = np.linspace(0, 1, M)
    w = w0 * (1 + slope * s)
    z = 0.01 + 0.02 * s
    return np.hstack((b, w[:, None], (2 * z * w)[:, None], np.linspace(lo, hi, M)[:, None]))


def vbone(nd, h, rhi, layout, seed, M=5):
    n = roms.nhc(h)
    s = np.linspace(0, 1, M)
    b = np.zeros((M, n * nd))
    i = 0
    for k in h:
        c = 1 if k == 0 else 2
        amp = 1.0 if k == 1 else 0.15 if k == rhi else 0.03
        blk = ref.lattice_vec(c * nd, seed + int(k)) * 0.2 + (0.8 if k != 1 else np.r_[np.linspace(-1, -0.5, nd), np.linspace(0.7, 1.2, nd)])
        b[:, i * nd:(i + c) * nd] = amp * blk * (0.1 + s[:, None]) + 0.005 * amp * ref.lattice_mat(M, c * nd, seed + 3 * int(k))
        i += c
    W = 2.0 * (1 + 0.05 * s)
    if layout == 'amp':
        tail = np.stack([0.3 + s, -0.2 - 0.5 * s, W, 10.0 * s], 1)
    else:
        tail = np.stack([W, 0.4 + 1.3 * s], 1)
    return np.hstack((b, tail))


def model(ef, hf, er, hr, vb, hv, rhi, c1, a1, cr, F, extra, corr):
    """-> frequency, list of {harmonic: z}, force, harmonics, inside mask   or None (not judged)"""
    nd = c1.size
    sl = lambda h: (nd if h[0] == 0 else 0)
    nv, nf, nr = (roms.nhc(x) * nd for x in (hv, hf, hr))
    hrow = lambda row, h, k: roms.to_complex(row, h, nd)[k]
    av = np.array([abs(hrow(r, hv, 1) @ c1) for r in vb])
    v = roms.lin_interp(vb, a1, av)
    if np.isnan(v).any():
        return None
    W0 = v[-2]
    fv = np.hypot(v[-4], v[-3]) if vb.shape[1] == nv + 4 else v[-1]
    zv = roms.to_complex(v[:nv], hv, nd)
    lin = er.copy()
    lin[:, -1] = 10.0 ** er[:, -1]
    ar = np.array([abs(hrow(r, hr, 1) @ cr) for r in lin]) * lin[:, -1]
    p = roms.lin_interp(lin, abs(zv[rhi] @ cr), ar)
    if np.isnan(p).any():
        return None
    q0, w0, z0 = p[-1], p[-3], p[-2] / (2 * p[-3])
    force_S = 2 * z0 * (rhi * W0) ** 2 * q0                    # resonant modal force at phase resonance
    keep = lin[:, -1] < q0
    bb = np.vstack((lin[keep], p))
    zeta = bb[:, -2] / (2 * bb[:, -3])
    w = bb[:, -3] * rhi * W0 / w0
    bbl = bb.copy()
    bbl[:, -1] = np.log10(bb[:, -1])
    rows = roms.frc(bbl, hr, nd, np.full(len(bb), force_S + 0j), w, zeta)
    if rows is None:
        return None
    S = []
    for Wr, m, amp in rows:
        z = roms.to_complex(bb[m, :nr], hr, nd)
        S.append((Wr, bb[m, -1], {k: (x if k == 0 else x * bb[m, -1] * (amp / abs(amp)) ** k) for k, x in z.items()}))
    pk = min(range(len(S)), key=lambda i: abs(S[i][0] - rhi * W0))
    ang = -np.angle(zv[rhi] @ cr) + np.angle(S[pk][2][1] @ cr)
    S = [(Wr, q, roms.rotate(z, ang)) for Wr, q, z in S]
    Wr = np.array([s[0] for s in S])
    if extra is not None:
        if np.any(np.diff(Wr) <= 0):
            return None
        new = np.sort(np.r_[rhi * extra, Wr])
        mat = np.array([np.r_[s[1], roms.to_real(s[2], hr, nd)] for s in S])
        T = []
        for x in new:
            r = roms.lin_interp(mat, x, Wr)
            T.append((x, r[0], roms.to_complex(r[1:], hr, nd)))
        wpk = S[pk][0]
        S = T
    else:
        wpk = S[pk][0]
    # fundamental
    lf = ef.copy()
    lf[:, -1] = 10.0 ** ef[:, -1]
    af = np.array([abs(hrow(r, hf, 1) @ c1) for r in lf]) * lf[:, -1]
    f = roms.lin_interp(lf, a1, af)
    if np.isnan(f).any():
        return None
    zf = {k: (x if k == 0 else x * f[-1]) for k, x in roms.to_complex(f[:nf], hf, nd).items()}
    drive = abs(roms.to_complex(f[:nf], hf, nd)[1].conj() @ F)
    Fm = lambda W: f[-1] * abs(f[-3] ** 2 - W ** 2 + 1j * f[-2] * W) / drive
    zf = roms.rotate(zf, -np.angle(zv[1] @ c1) + np.angle(zf[1] @ c1))
    hout = sorted({int(hv[0])} | {int(k) for k in hf} | {int(rhi * k) for k in hr})
    out, freq, force = [], [], []
    for Wr_, q, z in S:
        tot = {k: np.zeros(nd, complex) for k in hout}
        if 0 in tot:
            tot[0] = zv.get(0, np.zeros(nd, complex))
        for k, x in zf.items():
            if k:
                tot[k] = tot[k] + x
        for k, x in z.items():
            if k:
                tot[rhi * k] = tot[rhi * k] + x
        out.append(tot)
        freq.append(Wr_ / rhi)
        g = Fm(Wr_ / rhi)
        force.append(g + (fv - Fm(wpk / rhi)) * q / q0 if corr else g)
    return np.array(freq), out, np.array(force), np.array(hout), dict(v=v, zv=zv, q0=q0, W0=W0, keep=keep, fv=fv)


def run(case, rec):
    np.seterr(all='ignore')
    nd, rhi, hf = case['nd'], case['rhi'], np.array(case['hf'])
    hvs = [[1, rhi], [0, 1, rhi], sorted({0, 1, 2, rhi, 3})]
    hrs = [[1], [0, 1], [1, 2], [0, 1, 3]]
    c1s = [np.eye(nd)[0], 1.0 + 0.5 * np.arange(nd)]
    crs = [np.eye(nd)[-1], 1.2 - 0.3 * np.arange(nd)]
    full = case['full']
    lay = list(itertools.product(('amp', 'force'), (0.0, 0.05, -0.03))) if full else [('amp', 0.05), ('force', -0.03), ('force', 0.0)]
    for hv, hr, (layout, slope) in itertools.product(hvs, hrs, lay):
        hv, hr = np.array(hv), np.array(hr)
        ef = backbone(nd, hf, 2.3, 0.1, 5, hi=1.0)
        er = backbone(nd, hr, 2.0 * rhi * 1.04, slope, 11)
        vb = vbone(nd, hv, rhi, layout, 17)
        F = ref.lattice_vec(nd, 4) + 1.2
        for (i1, c1), (ir, cr) in itertools.product(enumerate(c1s), enumerate(crs)):
            if (nd == 1 or not full) and i1 != ir:
                continue
            av = np.array([abs(roms.to_complex(r, hv, nd)[1] @ c1) for r in vb])
            ar = np.array([abs(roms.to_complex(r, hr, nd)[1] @ cr) for r in er]) * 10 ** er[:, -1]
            af = np.array([abs(roms.to_complex(r, hf, nd)[1] @ c1) for r in ef]) * 10 ** ef[:, -1]
            if any(np.any(np.diff(x) <= 0) for x in (av, ar, af)):
                rec.outcome('not monotone')
                continue
            for a1 in (av[2], 0.4 * av[1] + 0.6 * av[2], 0.5 * (av[3] + av[4]))[0 if full else 1:]:
                for en in ('none', 'inside', 'outside'):
                    for corr in (True, False):
                        W0 = np.interp(a1, av, vb[:, -2])
                        extra = {'none': None, 'inside': W0 * np.array([1.0001, 0.999, 1.0, 1.003]), 'outside': W0 * np.array([3.0, 0.9995, 0.05])}[en]
                        args = [ef, hf, er, hr, vb, hv, rhi, c1, a1, cr, F]
                        cp = [np.copy(x) if isinstance(x, np.ndarray) else x for x in args]
                        ex = None if extra is None else extra.copy()
                        where = lambda: 'nd=%d rhi=%d h_fund=%s h_rhi=%s h_vprnm=%s layout %s slope %g control (%d,%d) amp %g extra %s correct %s' % (
                            nd, rhi, hf.tolist(), hr.tolist(), hv.tolist(), layout, slope, i1, ir, a1, en, corr)
                        m = model(*args, extra, corr)
                        if m is None:
                            rec.outcome('unjudged', en)
                            continue
                        freq, zs, force, hout, info = m
                        kw = {} if extra is None and corr else dict(extra_Omega=ex, correct_force=corr)
                        U, fr, hh = vprnm.constant_h1_displacement(*cp, **kw)
                        rec.step()
                        rec.trace()
                        rec.outcome(en, len(freq))
                        rec.sample(where() + ' -> %d points, harmonics %s' % (len(freq), hout.tolist()))
                        rec.state(nd, rhi, hf.tolist(), hr.tolist(), hv.tolist(), layout, slope, i1, ir, round(a1, 9), en, corr)
                        rec.expect(all(np.array_equal(x, y) for x, y in zip(args, cp)) and (extra is None or np.array_equal(ex, extra)), 'arguments modified', where)
                        rec.expect(np.array_equal(hh, hout), 'harmonic list', lambda: where() + ' %s %s' % (hh, hout))
                        n = roms.nhc(hout) * nd
                        if not rec.expect(U.shape == (len(freq), n + 1) and fr.shape == freq.shape, 'shape', lambda: where() + ' %s' % (U.shape,)):
                            continue
                        rec.close(U[:, -1], freq, 'frequencies', where, rtol=1e-7)
                        want = np.array([roms.to_real(z, hout, nd) for z in zs])
                        rec.expect(np.array_equal(np.isnan(U[:, :-1]), np.isnan(want)), 'undefined entries', where)
                        sc = np.nanmax(np.abs(want))
                        rec.expect(np.nanmax(np.abs(U[:, :-1] - want)) < 2e-5 * sc, 'displacements', lambda: where() + ' got %s expected %s' % (U[:, :-1], want))
                        ok = np.isfinite(force)
                        if en != 'outside' or not corr:
                            rec.expect(ok.all(), 'force', where)
                        rec.close(fr[ok], force[ok], 'force', where, rtol=1e-5)
                        # phases of the VPRNM point are recovered (amplitudes only up to interpolation between points)
                        i = int(np.argmin(np.abs(U[:, -1] - info['W0'])))
                        zi = roms.to_complex(U[i, :-1], hout, nd)
                        ph = lambda x, y: abs(np.angle(x / y))
                        if abs(U[i, -1] - info['W0']) < 1e-7 * info['W0']:
                            if rhi not in hf and en != 'inside':
                                rec.expect(ph(zi[rhi] @ cr, info['zv'][rhi] @ cr) < 1e-5, 'superharmonic phase of the VPRNM point', where)
                            rec.expect(ph(zi[1] @ c1, info['zv'][1] @ c1) < 1e-6, 'fundamental phase of the VPRNM point', where)
                            if corr and en == 'none':
                                rec.close(fr[i], info['fv'], 'force of the VPRNM point', where, rtol=1e-5)
                            rec.outcome('peak', en)
                        # stored points that are not used do not matter
                        if en == 'none':
                            more = np.vstack((er, er[-1:] * 1.1 + np.r_[np.zeros(er.shape[1] - 1), 0.5]))
                            k0 = int(np.sum(av <= a1 * (1 - 1e-12)))
                            part = vb[max(k0 - 1, 0):]
                            if part.shape[0] >= 2:
                                U2, fr2, _ = vprnm.constant_h1_displacement(ef, hf, more, hr, part, hv, rhi, c1, a1, cr, F, correct_force=corr)
                                rec.step()
                                rec.close(U2, U, 'unused stored points change the result', where, rtol=1e-7)
                                rec.close(fr2, fr, 'unused stored points change the force', where, rtol=1e-7)
