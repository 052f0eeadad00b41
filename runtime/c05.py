"""C05 on the real code: depth grid of both pipelines."""
import numpy as np
from rt import need, same, Skip
from rtpipe import freqs, grid, check_grid


def prep(g):
    nu = freqs(g, 4)
    k, step, top = grid(g, nu)
    if top / step > 4000:
        raise Skip
    return nu, k, step, top


def one(g):
    from RMtools_1D.do_RMsynth_1D import run_rmsynth
    nu, k, step, top = prep(g)
    n = len(nu)
    bits = g.pick(32, 64)
    d = [nu, g.norm(n), g.norm(n), g.uni(0.1, 1, n), g.uni(0.1, 1, n)]
    if k['super_resolution']:
        d = [nu, np.cos(4 * (3e8 / nu) ** 2), np.sin(4 * (3e8 / nu) ** 2), d[3], d[4]]
    if g.chance(0.3):
        for a in d[1:]:
            a[g.int(0, n - 1)] = np.nan if n > 3 else a[0]
    md, ad = run_rmsynth(d, nBits=bits, weightType=g.pick('variance', 'uniform'), log=lambda *a: None, **k)
    check_grid(need, same, ad['phiArr_radm2'], step, top, 1e-9 if bits == 64 else 2e-6)


def three(g):
    from RMtools_3D.do_RMsynth_3D import run_rmsynth
    nu, k, step, top = prep(g)
    if top / step > 1500:
        raise Skip
    n, ny, nx = len(nu), g.int(1, 2), g.int(1, 2)
    bits = g.pick(32, 64)
    r = run_rmsynth(g.norm(n, ny, nx), g.norm(n, ny, nx), nu, nBits=bits, log=lambda *a: None, verbose=False, **k)
    check_grid(need, same, r[1], step, top, 1e-9 if bits == 64 else 2e-6)


TESTS = [('1D depth grid', one), ('3D depth grid', three)]
