"""C02 on the real code: get_rmsf_planes against the defining sum."""
import numpy as np
from rt import need, same, Bad
from RMutils.util_RM import get_rmsf_planes
from c01 import weights


def rmsf(g):
    nd = g.pick(1, 2, 3, 3)
    nF = g.pick(1, 2, 3, g.int(2, 12), g.int(5, 40))
    dims = (nF,) + tuple(g.pick(1, 2, g.int(1, 4)) for _ in range(nd - 1))
    f = np.sort(g.uni(0.3e9, 2e9, nF))
    if g.chance(0.3):
        f = f[::-1]
    l2 = np.ascontiguousarray((2.998e8 / f) ** 2)
    n = g.pick(2, 3, g.int(2, 30))
    d = g.pick(1.0, -1.0, g.uni(0.5, 20))
    p0 = g.pick(-(n - 1) / 2 * d, g.uni(-200, 100))
    phi = p0 + d * np.arange(n)
    w = weights(g, nF)
    mode = g.pick('none', 'plane', 'isolated', 'mixed', 'zeros')
    M = np.zeros(dims, bool)
    if mode in ('plane', 'mixed'):
        M[g.r.random(nF) < 0.3] = True
    if mode in ('isolated', 'mixed'):
        M |= g.r.random(dims) < 0.3
    if g.chance(0.15) and nd > 1:
        M[(slice(None),) + tuple(g.int(0, s - 1) for s in dims[1:])] = True
    m = None if mode == 'none' else M
    mdt = g.pick(bool, bool, int)
    if m is not None:
        m = m.astype(mdt)
    if mode == 'none':
        dims, nd = (nF,), 1
        M = np.zeros(dims, bool)
    l0 = g.pick(None, None, g.uni(0, 0.3))
    prec = g.pick(32, 64)
    double = g.chance(0.8)
    g.note(dims=dims, mask=mode, n=n, d=d, prec=prec, lam0=l0, double=double)
    w0 = np.ones(nF) if w is None else np.where(np.isnan(w), 0, w)
    live = ~M.reshape(nF, -1).all(axis=1)
    wl = np.where(live, w0, 0)
    if wl.sum() == 0:
        return
    c = [x.copy() if x is not None else None for x in (l2, phi, w, m)]
    R = get_rmsf_planes(l2, phi, weightArr=w, mskArr=m, lam0Sq_m2=l0, nBits=prec, double=double, log=lambda *a: None)
    for x, y in zip(c, (l2, phi, w, m)):
        need(x is None or np.array_equal(x, y, equal_nan=True), 'an input array was modified')
    lam = l0 if l0 is not None else np.sum(wl * l2) / wl.sum()
    same('lambda2_0', R.lam0Sq_m2, lam, rtol=1e-6, atol=1e-12)
    h = (n + 1) // 2
    phi2 = p0 + d * (np.arange(n + 2 * h) - h) if double else phi
    need(R.phi2Arr.shape == phi2.shape, 'RMSF axis length %s, expected %s', R.phi2Arr.shape, phi2.shape)
    same('RMSF axis', R.phi2Arr, phi2, rtol=1e-6, atol=1e-6 * np.abs(phi2).max())
    u = np.where(M, 0, w0.reshape((-1,) + (1,) * (nd - 1)))
    W = u.sum(axis=0)
    K = np.where(W == 0, 0, 1 / np.where(W == 0, 1, W))
    E = np.exp(-2j * np.outer(phi2, l2 - lam))
    want = np.squeeze(K * np.tensordot(E, u, axes=(1, 0)))
    if nd == 3:
        want = want.reshape((len(phi2),) + dims[1:])
    got = np.asarray(R.RMSFcube)
    need(got.shape == want.shape, 'RMSF shape %s, expected %s', got.shape, want.shape)
    same('RMSF', got, want, rtol=0, atol=2e-3 if prec == 32 else 2e-4)
    if nF > 1:
        fw = np.asarray(R.fwhmRMSFArr)
        same('width', fw, np.full(fw.shape, 3.8 / (l2.max() - l2.min())), rtol=1e-5)
        need(fw.size == int(np.prod(dims[1:])), 'width map has %s values', fw.size)


TESTS = [('rmsf', rmsf)]
