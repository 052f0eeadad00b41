"""C06 on the real code: one weighting, mask and flux scale throughout the 1D pipeline."""
import numpy as np
from rt import need, same, Skip
from rtpipe import freqs, C


def pipeline(g):
    from RMtools_1D.do_RMsynth_1D import run_rmsynth
    from RMutils.util_misc import create_frac_spectra, calculate_StokesI_model
    nu = freqs(g, 8, 40)
    n = len(nu)
    l2 = (C / nu) ** 2
    superres, wt = g.chance(0.3), g.pick('variance', 'uniform')
    rm = g.uni(-3, 3) / (l2.max() - l2.min())
    I = g.uni(0.5, 5) * (nu / nu.mean()) ** g.uni(-1.5, 1)
    z = 0.3 * np.exp(2j * (rm * l2 + 0.4)) + 0.05 * (g.norm(n) + 1j * g.norm(n))
    src = g.pick('fit', 'none', 'given')
    sg = g.uni(0.02, 0.1, n)
    dI, dQ, dU = sg, sg * g.uni(0.5, 1.5, n), sg * g.uni(0.5, 1.5, n)
    if src == 'none':
        cols = [nu, z.real, z.imag, dQ, dU]
    else:
        cols = [nu, I, I * z.real, I * z.imag, dI, dQ, dU]
    cols = [np.array(c) for c in cols]
    if g.chance(0.6):
        for c in cols[-4 if src == 'none' else -5:]:
            if c is not dI and g.chance(0.6):
                c[g.r.random(n) < 0.15] = np.nan
    if src != 'none' and g.chance(0.2):
        cols[1][g.int(0, n - 1)] = np.nan
    keep = [c.copy() for c in cols]
    mI = I if src == 'given' else None
    order, fam = g.int(0, 3), g.pick('log', 'linear')
    step = 3.8 / (l2.max() - l2.min()) / 6
    k = dict(phiMax_radm2=step * 20, dPhi_radm2=step, weightType=wt, super_resolution=superres, modStokesI=mI, polyOrd=order, fit_function=fam, nBits=64, log=lambda *a: None)
    g.note(n=n, wt=wt, superres=superres, src=src, order=order, fam=fam)
    if src == 'none':
        f, Q, U, dq_, du_ = cols
        full = [f, np.ones(n), Q, U, np.zeros(n), dq_, du_]
    else:
        full = cols
    _, q, u, dq, du, fr = create_frac_spectra(*full, polyOrd=order, fit_function=fam, modStokesI=mI)
    dqu = np.abs(dq + du) / 2
    w = 1 / dqu ** 2 if wt == 'variance' else np.ones(n)
    w = np.where(np.isnan(w) | np.isnan(q) | np.isnan(u), 0, w)
    if (w > 0).sum() < 3 or fr.pcov is None:
        raise Skip
    if np.min(nu[w > 0]) == np.max(nu[w > 0]):
        raise Skip
    md, ad = run_rmsynth(cols, **k)
    for a, b in zip(cols, keep):
        need(np.array_equal(a, b, equal_nan=True), 'an input column was modified')
    l0 = 0.0 if superres else (w * l2).sum() / w.sum()
    f0 = fr.reference_frequency_Hz if superres else C / np.sqrt(l0)
    same('lambda2_0', md['lam0Sq_m2'], l0, rtol=1e-9)
    same('freq0', md['freq0_Hz'], f0, rtol=1e-9)
    if mI is None:
        I0 = calculate_StokesI_model(fr, f0)
    else:
        o = np.argsort(nu)
        I0 = np.interp(f0, nu[o], mI[o])
    same('Ifreq0', md['Ifreq0'], I0, rtol=1e-7)
    phi = ad['phiArr_radm2']
    p = np.where(w > 0, q + 1j * u, 0)
    F = (np.exp(-2j * np.outer(phi, l2 - l0)) * (w * p)).sum(1) / w.sum() * I0
    same('FDF', ad['dirtyFDF'], F, rtol=1e-5, atol=2e-5 * abs(I0))
    R = (np.exp(-2j * np.outer(ad['phi2Arr_radm2'], l2 - l0)) * w).sum(1) / w.sum()
    same('RMSF', ad['RMSFArr'], R, rtol=1e-5, atol=2e-4)
    same('weights', ad['weightArr'], w, rtol=1e-9)
    s = np.nan_to_num(dqu)
    same('dFDFth', md['dFDFth'], abs(I0) * np.sqrt((w ** 2 * s ** 2).sum()) / w.sum(), rtol=1e-7)
    need(md['N_channels'] == (w > 0).sum(), 'channel count %s' % md['N_channels'])
    same('frequency limits', [md['min_freq'], md['max_freq']], [nu[w > 0].min(), nu[w > 0].max()], rtol=1e-12)


TESTS = [('1D pipeline', pipeline)]
