"""inputs for the synthesis pipelines (C05, C06, C22)"""
import numpy as np

C = 299792458.0


def freqs(g, lo=2, hi=40):
    n = g.int(lo, hi)
    f0, f1 = sorted(g.uni(0.3e9, 3e9, 2))
    nu = np.sort(g.uni(f0, f1 + 2e7, n)) if g.chance(0.5) else np.linspace(f0, f1 + 2e7, n)
    if g.chance(0.3):
        nu = nu[::-1].copy()
    g.note(n=n, nu=nu[:3])
    return nu


def grid(g, nu):
    """-> keyword arguments, expected spacing and maximum (before rounding)"""
    l2 = (C / nu) ** 2
    superres = g.chance(0.3)
    width = 2 / (l2.max() + l2.min()) if superres else 3.8 / (l2.max() - l2.min())
    k = {'super_resolution': superres}
    step = width / 10
    if g.chance(0.4):
        step = k['dPhi_radm2'] = width / g.uni(3, 12)
    elif g.chance(0.5):
        k['nSamples'] = g.uni(3, 12)
        step = width / k['nSamples']
    top = max(np.sqrt(3) / np.abs(np.diff(l2)).max(), 10 * width)
    if g.chance(0.5):
        top = k['phiMax_radm2'] = g.pick(step * g.uni(0.6, 60), step * 7, step * 0.7)
    g.note(**k)
    return k, step, top


def check_grid(need, same, phi, step, top, tol=1e-9):
    P = len(phi)
    h = (P - 1) // 2
    need(P % 2 == 1, 'the depth grid has an even number of points: %d' % P)
    need(abs(h - top / step) <= 0.5 + 1e-9 * (1 + h), 'the depth grid of %d points does not reach the maximum: %g * %g' % (P, top, step))
    same('depth grid', phi, (np.arange(P) - h) * step, rtol=tol, atol=tol * step * (1 + h))
