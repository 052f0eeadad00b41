"""C08 on the real code: fractional spectra, fallback model and flags."""
import numpy as np
from rt import need, same, Skip


def spectra(g):
    n = g.int(1, 30)
    nu = np.sort(g.uni(0.8e9, 2e9, n))
    I = g.pick(1.0, 0.1) * (nu / 1.4e9) ** g.uni(-3, 3) + g.pick(0, 0, -0.5)
    s = g.pick(0.001, 0.1, 1.0)
    I = I + s * g.norm(n)
    Q, U = g.norm(n), g.norm(n)
    dI, dQ, dU = [s * g.uni(0.5, 2, n) for _ in range(3)]
    for a in (I, Q, U, dI, dQ, dU):
        if g.chance(0.3):
            g.nans(a, g.pick(0.2, 0.2, 1.0))
    g.note(n=n, s=s)
    return nu, I, Q, U, dI, dQ, dU


def divide(M, Q):
    with np.errstate(all='ignore'):
        x = Q / M
    return np.where(np.isfinite(x), x, np.nan)


def check(r, M, Q, U, dQ, dU, tol=1e-12):
    Im, q, u, dq, du, fr = r
    same('model', Im, M, rtol=tol)
    for nm, a, b in (('q', q, Q), ('u', u, U), ('dq', dq, dQ), ('du', du, dU)):
        same(nm, a, divide(M, b), rtol=max(tol, 1e-12))


def fitted(g):
    import RMutils.util_misc as m
    nu, I, Q, U, dI, dQ, dU = spectra(g)
    fam, order = g.pick('log', 'linear'), g.pick(0, 1, 2, -2, -5)
    g.note(fam=fam, order=order)
    keep = [x.copy() for x in (nu, I, Q, U, dI, dQ, dU)]
    r = m.create_frac_spectra(nu, I, Q, U, dI, dQ, dU, polyOrd=order, fit_function=fam)
    for a, b in zip((nu, I, Q, U, dI, dQ, dU), keep):
        need(np.array_equal(a, b, equal_nan=True), 'an input was modified')
    ok = np.isfinite(I) & np.isfinite(dI)
    failed = ok.sum() < max(order, 0) + 1
    fr = r[5]
    if failed:
        need(fr.fitStatus == 9, 'a failed fit has status %s' % fr.fitStatus)
        check(r, np.ones(len(nu)), Q, U, dQ, dU)
        return
    if fr.fitStatus == 9:
        raise Skip
    f = m.fit_StokesI_model(nu, I, dI, order, fam)
    M = m.calculate_StokesI_model(f, nu)
    if not np.all(np.isfinite(M)):
        raise Skip
    check(r, M, Q, U, dQ, dU)
    st = abs(f.fitStatus) + (128 if np.min(M) < 0 else 0) + (64 if np.any(M[np.isfinite(dI)] < dI[np.isfinite(dI)]) else 0)
    need(fr.fitStatus == st, 'status %s, expected %s' % (fr.fitStatus, st))


def supplied(g):
    import RMutils.util_misc as m
    nu, I, Q, U, dI, dQ, dU = spectra(g)
    M = g.uni(0.2, 2, len(nu))
    if g.chance(0.3):
        M[g.int(0, len(nu) - 1)] = g.pick(0.0, np.nan, -0.3)
    keep = M.copy()
    r = m.create_frac_spectra(nu, I, Q, U, dI, dQ, dU, polyOrd=2, modStokesI=M)
    need(np.array_equal(M, keep, equal_nan=True), 'the model was modified')
    check(r, M, Q, U, dQ, dU)
    need(r[5].fitStatus == 0, 'status')
    same('reference frequency', r[5].reference_frequency_Hz, 1 / np.sqrt(np.mean(1 / nu ** 2)))


TESTS = [('fitted model', fitted), ('supplied model', supplied)]
