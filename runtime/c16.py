"""C16 on the real code: the bandwidth-depolarisation operators against numerical averaging over each channel."""
import numpy as np
from rt import need, same, Skip
from rtpipe import freqs, C

XG, WG = np.polynomial.legendre.leggauss(40)


def average(nu, width, phi):
    """mean of exp(2 i phi c^2/f^2) over each channel"""
    f = nu[:, None] + 0.5 * np.asarray(width).reshape(-1, 1) * XG
    return (np.exp(2j * phi * (C / f) ** 2) * WG).sum(1) / 2


def layout(g, lo=2, hi=30):
    nu = freqs(g, lo, hi)
    n = len(nu)
    gap = np.abs(np.diff(nu)).min()
    if g.chance(0.4) or gap < 1e3:
        width = g.uni(0.2, 1, n) * max(gap, 1e6)
    else:
        width = None
    return nu, width


def operator(g):
    from RMtools_1D import rmtools_bwdepol as b
    nu, width = layout(g)
    w = nu[1] - nu[0] if width is None else width
    if np.min(np.abs(w)) == 0 or np.max(np.abs(w) / nu) > 0.3:
        raise Skip
    # no more than a few turns across a channel
    turn = np.abs(C ** 2 * (1 / (nu - np.abs(w) / 2) ** 2 - 1 / (nu + np.abs(w) / 2) ** 2)).max()
    phi = g.pick(0.0, 1.0, -1.0, 1.0, -1.0) * g.uni(0, 10) / turn
    p = g.uni(0.1, 3)
    cond = np.abs((nu + C * np.sqrt(abs(phi)) * 2) / w).max() * 1e-12
    want = average(nu, w * np.ones(len(nu)), phi)
    same('rotation operator', b.rotation_operator(w, nu, phi), want, rtol=1e-7, atol=1e-7 + cond)
    same('channel polarisation', b.analytical_chan_pol(nu, w, phi, p=p), p * want, rtol=1e-7, atol=1e-7 + cond)
    d = b.bwdepol_simulation(phi, nu, width)
    same('simulated q', d[1], want.real, rtol=1e-7, atol=1e-7 + cond)
    same('simulated u', d[2], want.imag, rtol=1e-7, atol=1e-7 + cond)
    i = g.int(0, len(nu) - 1)
    # zero-width limit: ordinary Faraday rotation
    tiny = 1e-3 * nu[i]
    phis = g.uni(-1, 1) * 0.05 / (C ** 2 * (1 / (nu[i] - tiny) ** 2 - 1 / nu[i] ** 2))
    same('narrow channel', b.rotation_operator(tiny, nu[i], phis), np.exp(2j * phis * (C / nu[i]) ** 2), rtol=1e-2, atol=1e-2)


def synthesis(g):
    from RMtools_1D import rmtools_bwdepol as b
    nu, width = layout(g)
    n = len(nu)
    w = (nu[1] - nu[0]) * np.ones(n) if width is None else width
    if np.min(np.abs(w)) == 0 or np.max(np.abs(w) / nu) > 0.3:
        raise Skip
    dims = [g.int(1, 3) for _ in range(g.int(0, 2))]
    Q, U = g.norm(n, *dims), g.norm(n, *dims)
    if g.chance(0.5):
        g.nans(Q, 0.2)
        g.nans(U, 0.2)
    wt = None if g.chance(0.3) else g.uni(0, 2, n)
    if wt is not None and g.chance(0.3):
        wt[g.int(0, n - 1)] = np.nan
    l2 = (C / nu) ** 2
    turn = np.abs(C ** 2 * (1 / (nu - np.abs(w) / 2) ** 2 - 1 / (nu + np.abs(w) / 2) ** 2)).max()
    phi = g.norm(g.int(1, 12)) * 3 / turn
    lam0 = g.uni(0.01, 0.1) if g.chance(0.3) else None
    ok = np.isfinite(Q) & np.isfinite(U)
    W = np.ones(n) if wt is None else np.nan_to_num(wt)
    if wt is not None:
        ok &= np.isfinite(wt).reshape([n] + [1] * len(dims))
    W = W * ok.reshape(n, -1).any(axis=1)
    if W.sum() == 0:
        raise Skip
    keep = [None if a is None else a.copy() for a in (nu, Q, U, phi, width, wt)]
    g.note(n=n, dims=dims, width=width is not None, wt=wt is not None)
    r = b.do_adjoint_rmsynth_planes(nu, Q, U, phi, widths_Hz=width, weightArr=wt, lam0Sq_m2=lam0, log=lambda *a: None)
    for a, k in zip((nu, Q, U, phi, width, wt), keep):
        need(a is None or np.array_equal(a, k, equal_nan=True), 'an input was modified')
    l0 = (W * l2).sum() / W.sum() if lam0 is None else lam0
    same('lambda2_0', r[1], l0, rtol=1e-9)
    op = np.array([average(nu, w, p) for p in phi])
    cond = np.abs((nu + C * np.sqrt(np.abs(phi).max()) * 2) / w).max() * 1e-12
    v = np.where(ok, Q + 1j * U, 0).reshape(n, -1)
    Wp = W[:, None] * ok.reshape(n, -1)
    with np.errstate(all='ignore'):
        K = np.where(Wp.sum(0) > 0, 1 / Wp.sum(0), 0)
    F = np.exp(2j * phi * l0)[:, None] * K * (np.conj(op)[:, :, None] * (W[:, None] * v)[None]).sum(1)
    same('adjoint FDF', np.reshape(r[0], (len(phi), -1)), F, rtol=1e-6, atol=1e-6 + 10 * cond)
    s = g.uni(0.1, 1, n)
    i = b.adjoint_theory(r[2], s, log=lambda *a: None)
    same('depths', i[0], phi, rtol=0, atol=0)
    a2 = np.abs(op) ** 2
    same('sensitivity', i[1], (a2 * W).sum(1) / W.sum(), rtol=1e-6, atol=1e-6 + cond)
    same('noise', i[2], np.sqrt((a2 * (W * s) ** 2).sum(1)) / W.sum(), rtol=1e-5, atol=1e-6 + cond)


def tool(g):
    from RMtools_1D import rmtools_bwdepol as b
    from RMutils.util_misc import create_frac_spectra, calculate_StokesI_model
    nu = freqs(g, 8, 40)
    n = len(nu)
    gap = np.abs(np.diff(nu)).min()
    withw = g.chance(0.5)
    w = g.uni(0.2, 1, n) * max(gap, 1e6) if withw else (nu[1] - nu[0]) * np.ones(n)
    if np.min(np.abs(w)) < 1e4 or np.max(np.abs(w) / nu) > 0.3:
        raise Skip
    l2 = (C / nu) ** 2
    rm = g.uni(-3, 3) / (l2.max() - l2.min())
    I = g.uni(0.5, 5) * (nu / nu.mean()) ** g.uni(-1.5, 1)
    z = 0.3 * np.exp(2j * (rm * l2 + 0.4)) + 0.02 * (g.norm(n) + 1j * g.norm(n))
    sg = g.uni(0.02, 0.1, n)
    dQ, dU = sg * g.uni(0.5, 1.5, n), sg * g.uni(0.5, 1.5, n)
    noI = g.chance(0.4)
    cols = [z.real.copy(), z.imag.copy(), dQ, dU] if noI else [I, I * z.real, I * z.imag, sg, dQ, dU]
    if g.chance(0.5):
        for c in cols:
            if c is not sg and c is not I and g.chance(0.5):
                c[g.r.random(n) < 0.15] = np.nan
    full = [nu] + ([np.ones(n), cols[0], cols[1], np.zeros(n), cols[2], cols[3]] if noI else cols)
    data = np.array([nu] + ([w] if withw else []) + cols)
    wt, order = g.pick('variance', 'uniform'), g.int(0, 3)
    step = 3.8 / (l2.max() - l2.min()) / 6
    g.note(n=n, noI=noI, withw=withw, wt=wt, order=order, rows=len(data))
    full = [np.array(c) for c in full]
    full[0] = full[0] / 1e9
    _, q, u, dq, du, fr = create_frac_spectra(*full, polyOrd=order)
    dqu = (full[5] + full[6]) / 2
    W = 1 / dqu ** 2 if wt == 'variance' else np.ones(n)
    ok = np.isfinite(q) & np.isfinite(u) & np.isfinite(W)
    W = np.where(ok, W, 0)
    if ok.sum() < 4 or fr.fitStatus == 9:
        raise Skip
    md, ad = b.run_adjoint_rmsynth(data.copy(), polyOrd=order, phiMax_radm2=step * 20, dPhi_radm2=step, weightType=wt, log=lambda *a, **k: None, verbose=g.chance(0.5))
    phi = ad['phiArr_radm2']
    need(len(phi) == 41, 'number of depths')
    l0 = (W * l2).sum() / W.sum()
    same('lambda2_0', md['lam0Sq_m2'], l0, rtol=1e-9)
    I0 = 1.0 if noI else calculate_StokesI_model(fr, C / np.sqrt(l0) / 1e9)
    same('Ifreq0', md['Ifreq0'], I0, rtol=1e-6)
    op = np.array([average(nu, w, p) for p in phi])
    F = I0 * np.exp(2j * phi * l0) * (np.conj(op) * np.where(ok, W * (q + 1j * u), 0)).sum(1) / W.sum()
    sens = (np.abs(op) ** 2 * W).sum(1) / W.sum()
    same('FDF', ad['dirtyFDF'], F / sens, rtol=1e-5, atol=1e-5 * abs(I0))
    same('weights', ad['weightArr'], W, rtol=1e-9)
    need(len(ad['phi2Arr_radm2']) == len(ad['RMSFArr']), 'the RMSF and its depth axis differ in length')
    noise = np.sqrt((np.abs(op) ** 2 * np.where(ok, W * np.nan_to_num(dqu), 0) ** 2).sum(1)) / W.sum()
    k = np.argmax((np.abs(F) / noise)[1:-1]) + 1
    p2 = ad['phi2Arr_radm2']
    sim = average(nu, w, phi[k])
    R = np.array([np.exp(2j * p * l0) * (np.conj(average(nu, w, p)) * W * sim).sum() / W.sum() for p in p2])
    same('RMSF', ad['RMSFArr'], R, rtol=1e-5, atol=1e-5)
    need(md['N_channels'] == ok.sum(), 'channel count')


TESTS = [('operator', operator), ('adjoint synthesis', synthesis), ('tool', tool)]
