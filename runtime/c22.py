"""C22 on the real code: every pixel of the 3D tool against a direct one-pixel computation."""
import numpy as np
from rt import need, same
from rtpipe import freqs, C


def cube(g):
    from RMtools_3D.do_RMsynth_3D import run_rmsynth
    nu = freqs(g, 4, 24)
    nu = nu[np.concatenate([[True], np.diff(nu) != 0])]
    n, ny, nx = len(nu), g.int(1, 3), g.int(1, 3)
    l2 = (C / nu) ** 2
    Q, U = g.norm(n, ny, nx), g.norm(n, ny, nx)
    I = g.uni(0.5, 3, n, ny, nx) if g.chance(0.6) else None
    s = g.uni(0.1, 1, n) if g.chance(0.6) else None
    if g.chance(0.5):
        g.nans(Q, 0.15)
        g.nans(U, 0.15)
    superres, wt = g.chance(0.2), g.pick('variance', 'uniform')
    step = 3.8 / (l2.max() - l2.min()) / 5
    keep = [None if a is None else a.copy() for a in (Q, U, nu, I, s)]
    g.note(n=n, ny=ny, nx=nx, I=I is not None, s=s is not None, superres=superres, wt=wt, descending=bool(nu[0] > nu[-1]))
    kw = dict(dataI=I, rmsArr=s, weightType=wt, phiMax_radm2=step * g.int(3, 15), dPhi_radm2=step, nBits=g.pick(32, 64), verbose=False, log=lambda *a: None, super_resolution=superres)
    r = run_rmsynth(Q, U, nu, **kw)
    for a, b in zip((Q, U, nu, I, s), keep):
        need(a is None or np.array_equal(a, b, equal_nan=True), 'an input was modified')
    w = 1 / s ** 2 if s is not None and wt == 'variance' else np.ones(n)
    ok = np.isfinite(Q) & np.isfinite(U)
    wl = w * ok.any(axis=(1, 2))
    if wl.sum() == 0:
        return
    l0 = 0 if superres else (wl * l2).sum() / wl.sum()
    same('lambda2_0', r[6], l0, rtol=1e-5)
    f0 = nu.mean() if superres else C / np.sqrt(l0)
    order = np.argsort(nu)
    FDF, RMSF = np.reshape(r[0], (len(r[1]), ny, nx)), np.reshape(r[2], (len(r[3]), ny, nx))
    for y in range(ny):
        for x in range(nx):
            sel = ok[:, y, x]
            if not sel.any():
                need(np.nansum(np.abs(FDF[:, y, x])) == 0, 'blank pixel has signal')
                continue
            i0 = np.interp(f0, nu[order], I[order, y, x]) if I is not None else 1.0
            i = I[:, y, x] if I is not None else np.ones(n)
            p = np.where(sel, Q[:, y, x] + 1j * U[:, y, x], 0) / i
            ww = w * sel
            F = (np.exp(-2j * np.outer(r[1], l2 - l0)) * (ww * p)).sum(1) / ww.sum() * i0
            tol = 3e-4 * i0 * np.abs(ww * p).sum() / ww.sum()
            same('FDF of pixel %d,%d' % (y, x), np.asarray(FDF[:, y, x], complex), F, rtol=1e-4, atol=tol)
            same('RMSF of pixel %d,%d' % (y, x), np.asarray(RMSF[:, y, x], complex), (np.exp(-2j * np.outer(r[3], l2 - l0)) * ww).sum(1) / ww.sum(), rtol=1e-4, atol=3e-4)
    if g.chance(0.3):
        a = run_rmsynth(Q, U, nu, not_rmsf=True, **kw)
        same('FDF without RMSF', a[0], r[0], rtol=1e-6, atol=1e-6)


def images(g):
    from RMutils.util_misc import interp_images
    ny, nx, f = g.int(1, 5), g.int(1, 5), g.uni(0, 1)
    a, b = g.norm(ny, nx), g.norm(ny, nx)
    same('interpolated image', interp_images(a, b, f=f), a + f * (b - a), rtol=1e-9, atol=1e-12)


TESTS = [('3D pipeline', cube), ('image interpolation', images)]
