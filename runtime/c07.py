"""C07 on the real code: peak measurement against directly evaluated formulas."""
import numpy as np
from rt import need, same, Skip


def vertex(x, y):
    """vertex of the parabola through three points, by Lagrange's formula in centred coordinates"""
    x = np.asarray(x, float)
    s = x - x[1]
    A = np.vander(s / (s[2] - s[1]), 3)
    a, b, c = np.linalg.solve(A, y)
    return x[1] - b / (2 * a) * (s[2] - s[1]), c - b * b / (4 * a)


def parabola(g):
    from RMutils.util_misc import calc_parabola_vertex
    x = np.sort(g.uni(-100, 100, 3))
    if np.min(np.diff(x)) < 1:
        raise Skip
    y = g.uni(0.1, 2, 3)
    curv = (y[0] - y[1]) / (x[0] - x[1]) - (y[1] - y[2]) / (x[1] - x[2])
    if abs(curv) < 1e-3:
        raise Skip
    got = calc_parabola_vertex(x[0], y[0], x[1], y[1], x[2], y[2])
    same('vertex', got, vertex(x, y), rtol=1e-6, atol=1e-6)


def mad(g):
    from RMutils.util_misc import MAD
    a = g.norm(g.int(1, 30)) * g.uni(0.1, 10) + g.uni(-3, 3)
    if g.chance(0.5):
        g.nans(a, 0.3)
    v = a[~np.isnan(a)]
    if v.size == 0:
        raise Skip
    same('MAD', MAD(a), np.median(np.abs(v - np.median(v))) / 0.6745, rtol=1e-9, atol=1e-12)


def measure(g):
    from RMutils.util_RM import measure_FDF_parms
    P = g.int(3, 60)
    d = g.uni(0.5, 20)
    p0 = g.pick(-d * (P - 1) / 2, g.uni(-500, 500))
    phi = p0 + d * np.arange(P)
    F = g.norm(P) + 1j * g.norm(P)
    if g.chance(0.7):
        m = g.int(0, P - 1)
        F = F * g.uni(0.01, 0.5) + g.uni(1, 10) * np.exp(-0.5 * ((np.arange(P) - m - g.uni(-0.5, 0.5)) / 2) ** 2) * np.exp(1j * g.uni(0, 6.3))
    fw, n = d * g.uni(1, 8), g.int(4, 40)
    l2 = g.uni(0.01, 1, n)
    lam0 = g.pick(0.0, l2.mean())
    N = g.uni(0.01, 1) if g.chance(0.7) else None
    g.note(P=P, d=d, p0=p0, N=N)
    keep = F.copy(), phi.copy(), l2.copy()
    md = measure_FDF_parms(F, phi, fw, dFDF=N, lamSqArr_m2=l2, lam0Sq=lam0)
    for a, b in zip((F, phi, l2), keep):
        need(np.array_equal(a, b), 'an input was modified')
    mag = np.abs(F)
    k = np.argmax(mag[1:-1]) + 1
    w = 2 * np.ceil(fw / np.min(np.diff(phi)))
    j = np.arange(P)
    off = (j < k - w) | (j >= k + w)
    v = F[off] if off.sum() / P >= 0.3 else F
    v = np.concatenate([v.real, v.imag])
    noise = np.median(np.abs(v - np.median(v))) / 0.6745
    same('measured noise', md['dFDFcorMAD'], noise, rtol=1e-9, atol=1e-12)
    N = noise if N is None else N
    same('noise', md['dAmpPeakPIfit'], N, rtol=1e-9)
    c = mag[k - 1] - 2 * mag[k] + mag[k + 1]
    if abs(c) < 1e-4 * mag[k]:
        raise Skip
    x, y = vertex(phi[k - 1:k + 2], mag[k - 1:k + 2])
    edge = min(abs(x - phi[0]), abs(x - phi[-1]))
    if edge < 1e-6 * d:
        raise Skip
    if x < phi[0] or x > phi[-1]:
        for key in ('phiPeakPIfit_rm2', 'ampPeakPIfit', 'dPhiPeakPIfit_rm2', 'dPolAngleFit_deg', 'polAngleFit_deg', 'polAngle0Fit_deg', 'dPolAngle0Fit_deg'):
            need(np.isnan(md[key]), '%s is %s for a vertex at %g outside the sampled depths' % (key, md[key], x))
        return
    t = 1e-5
    same('depth', md['phiPeakPIfit_rm2'], x, rtol=t, atol=t * d)
    same('amplitude', md['ampPeakPIfit'], y, rtol=t)
    same('depth error', md['dPhiPeakPIfit_rm2'], fw * N / (2 * y), rtol=t)
    snr = y / N
    same('snr', md['snrPIfit'], snr, rtol=t)
    if abs(snr - 5) > 1e-3:
        same('effective amplitude', md['ampPeakPIfitEff'], np.sqrt(y * y - 2.3 * N * N) if snr >= 5 else y, rtol=10 * t)
    z = np.interp(x, phi, F.real) + 1j * np.interp(x, phi, F.imag)
    same('value at the vertex', md['peakFDFrealFit'] + 1j * md['peakFDFimagFit'], z, rtol=1e-3, atol=1e-3 * mag[k])
    z = md['peakFDFrealFit'] + 1j * md['peakFDFimagFit']
    turn = lambda a, b: abs((a - b + 90) % 180 - 90)
    psi, psi0 = md['polAngleFit_deg'], md['polAngle0Fit_deg']
    need(0 <= psi < 180 and 0 <= psi0 < 180, 'angle outside [0, 180): %s %s' % (psi, psi0))
    need(turn(psi, np.degrees(np.angle(z)) / 2) < 1e-6, 'observed angle %g' % psi)
    need(turn(psi0, psi - np.degrees(md['phiPeakPIfit_rm2'] * lam0)) < 1e-5, 'intrinsic angle %g' % psi0)
    same('angle error', md['dPolAngleFit_deg'], np.degrees(N / (2 * y)), rtol=t)
    var = np.var(l2, ddof=1)
    same('intrinsic angle error', md['dPolAngle0Fit_deg'], np.degrees(np.sqrt(N ** 2 * n / (4 * (n - 2) * y ** 2) * ((n - 1) / n + lam0 ** 2 / var))), rtol=10 * t)


TESTS = [('parabola', parabola), ('MAD', mad), ('measurement', measure)]
