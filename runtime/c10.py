"""C10 on the real code: order selection against an independent enumeration of the fits."""
import numpy as np
from rt import need, same, Skip


def spectrum(g, few=False):
    n = g.int(1, 7) if few else g.int(8, 40)
    nu = np.sort(g.uni(0.8e9, 2.2e9, n))
    x = nu / 1.3e9
    kind = g.pick('flat', 'steep', 'curved', 'wild')
    I = {'flat': np.full(n, 1.0), 'steep': x ** -0.8, 'curved': 1 + 0.6 * (x - 1) - 0.9 * (x - 1) ** 2, 'wild': 1 + 2 * np.sin(7 * x)}[kind]
    s = g.pick(0.003, 0.03, 0.3)
    dI = s * g.uni(0.5, 2, n)
    I = I + dI * g.norm(n)
    if g.chance(0.4):
        g.nans(I, 0.2)
    if g.chance(0.3):
        g.nans(dI, 0.1)
    g.note(n=n, kind=kind, s=s)
    return nu, I, dI


def linear(nu, I, dI, k):
    """weighted least squares polynomial of order k: (chi2, coefficients), in x = nu/nu0"""
    ok = np.isfinite(I) & np.isfinite(dI)
    n0 = 1 / np.sqrt(np.mean(1 / nu[ok] ** 2))
    A = np.vander(nu[ok] / n0, k + 1) / dI[ok, None]
    b = I[ok] / dI[ok]
    p = np.linalg.lstsq(A, b, rcond=None)[0]
    return np.sum((A @ p - b) ** 2), p, n0, ok.sum()


def fixed(g):
    from RMutils.util_misc import fit_StokesI_model
    nu, I, dI = spectrum(g)
    k = g.int(0, 3)
    chi, p, n0, m = linear(nu, I, dI, k)
    if m < k + 2:
        raise Skip
    keep = nu.copy(), I.copy(), dI.copy()
    r = fit_StokesI_model(nu, I, dI, k, 'linear')
    for a, b in zip((nu, I, dI), keep):
        need(np.array_equal(a, b, equal_nan=True), 'an input was modified')
    need(r.polyOrd == k, 'order %s returned for %s' % (r.polyOrd, k))
    same('chi-squared', r.chiSq, chi, rtol=1e-3, atol=1e-4)
    same('criterion', r.AIC, 2 * (k + 1) + chi, rtol=1e-3, atol=1e-4)
    same('reference frequency', r.reference_frequency_Hz, n0, rtol=1e-9)
    same('reduced chi-squared', r.chiSqRed, chi / (m - k - 1), rtol=1e-3, atol=1e-4)
    need(r.dof == m - k - 1, 'dof')
    x = nu / n0
    same('model', np.polyval(r.params, x), np.polyval(p, x), rtol=1e-2, atol=1e-2 * np.nanmax(np.abs(I)))
    need(np.all(np.asarray(r.params)[:5 - k] == 0), 'a higher coefficient is not zero')


def auto(g):
    from RMutils.util_misc import fit_StokesI_model, fit_spec_poly5
    nu, I, dI = spectrum(g, few=g.chance(0.4))
    fam = g.pick('linear', 'log')
    N = g.int(1, 5)
    ok = np.isfinite(I) & np.isfinite(dI)
    if not ok.any():
        raise Skip
    n0 = 1 / np.sqrt(np.mean(1 / nu[ok] ** 2))
    fits = []
    for k in range(N + 1):
        m = fit_spec_poly5(nu[ok] / n0, I[ok], dI[ok], k, fam)
        fits.append((m, 2 * (k + 1) + m.fnorm))
    K = 0
    while K < N and fits[K + 1][0].status != 0 and fits[K + 1][1] < fits[K][1]:
        K += 1
    r = fit_StokesI_model(nu, I, dI, -N, fam)
    need(r.polyOrd == K, 'order %s kept, expected %s of %s' % (r.polyOrd, K, [a for _, a in fits]))
    m, a = fits[K]
    same('criterion', r.AIC, a)
    same('chi-squared', r.chiSq, m.fnorm)
    same('coefficients', r.params, m.params)
    need(r.fitStatus == abs(m.status) and r.nIter == m.niter and r.fit_function == fam, 'status, iterations or family')
    need(r.dof == ok.sum() - K - 1, 'dof')


def weights(g):
    """one very noisy channel hardly influences the fit; a flagged one not at all"""
    from RMutils.util_misc import fit_StokesI_model, calculate_StokesI_model
    n = g.int(8, 20)
    nu = np.linspace(1e9, 2e9, n)
    fam = g.pick('linear', 'log')
    I = (nu / 1.4e9) ** -0.7 if fam == 'log' else 2 - nu / 1.4e9
    dI = np.full(n, 0.001)
    j = g.int(0, n - 1)
    I2, dI2 = I.copy(), dI.copy()
    I2[j] += 5
    how = g.pick('noisy', 'nan I', 'nan dI')
    g.note(how=how, j=j, n=n)
    if how == 'noisy':
        dI2[j] = 1e4
    elif how == 'nan I':
        I2[j] = np.nan
    else:
        dI2[j] = np.nan
    r = fit_StokesI_model(nu, I2, dI2, 1, fam)
    same('model', calculate_StokesI_model(r, nu), I, rtol=1e-3, atol=1e-3)


TESTS = [('fixed order', fixed), ('automatic order', auto), ('weights', weights)]
