"""C01 on the real code: do_rmsynth_planes against the defining sum."""
import numpy as np
from rt import Gen, Skip, need, same, Bad
from RMutils.util_RM import do_rmsynth_planes


def data(g, nd, frac=None):
    nF = g.pick(1, 2, 3, g.int(2, 12), g.int(5, 40))
    dims = (nF,) + tuple(g.pick(1, 2, g.int(1, 4)) for _ in range(nd - 1))
    Q, U = g.norm(*dims), g.norm(*dims)
    mode = g.pick('none', 'some', 'independent', 'many', 'channel', 'pixel')
    if mode == 'some':
        m = g.r.random(dims) < 0.2
        Q[m] = np.nan
        U[m] = np.nan
    elif mode == 'independent':
        g.nans(Q, 0.2)
        g.nans(U, 0.2)
    elif mode == 'many':
        g.nans(Q, 0.7)
        g.nans(U, 0.3)
    elif mode == 'channel':
        k = g.int(0, nF - 1)
        Q[k] = np.nan
        if g.chance(0.5):
            U[k] = np.nan
        U[g.int(0, nF - 1)] = np.nan
    elif mode == 'pixel' and nd > 1:
        Q[(slice(None),) + tuple(g.int(0, d - 1) for d in dims[1:])] = np.nan
    if g.chance(0.1):
        Q *= 0
        U *= 0
    if nd > 1 and g.chance(0.2):
        ix = (slice(None),) + tuple(g.int(0, d - 1) for d in dims[1:])
        Q[ix] = 0
        U[ix] = 0
    f = np.sort(g.uni(0.3e9, 2e9, nF))
    if g.chance(0.3):
        f = f[::-1]
    l2 = (2.998e8 / f) ** 2
    g.note(nF=nF, dims=dims, flags=mode)
    return dims, Q, U, np.ascontiguousarray(l2)


def phis(g):
    n = g.pick(1, 2, g.int(2, 30))
    k = g.pick('sym', 'offset', 'random', 'descending')
    if k == 'sym':
        p = np.linspace(-50, 50, n)
    elif k == 'offset':
        p = np.linspace(g.uni(-100, 0), g.uni(1, 200), n)
    elif k == 'random':
        p = g.uni(-100, 100, n)
    else:
        p = np.linspace(g.uni(1, 200), g.uni(-100, 0), n)
    g.note(phi=k, nPhi=n)
    return p


def weights(g, nF, kinds=('none', 'ones', 'random', 'zeros', 'nan')):
    k = g.pick(*kinds)
    g.note(weights=k)
    if k == 'none':
        return None
    if k == 'ones':
        return np.ones(nF)
    w = g.uni(0.1, 5, nF)
    if k == 'zeros':
        w[g.r.random(nF) < 0.3] = 0
    if k == 'nan':
        w[g.r.random(nF) < 0.3] = np.nan
    return w


def squeezed(a):
    return a[()] if a.ndim == 0 else a


def fdf(g):
    nd = g.pick(1, 2, 3)
    dims, Q, U, l2 = data(g, nd)
    phi = phis(g)
    w = weights(g, dims[0])
    l0 = g.pick(None, None, g.uni(0, 0.3))
    prec = g.pick(32, 64, 64)
    c = [x.copy() if x is not None else None for x in (Q, U, l2, phi, w)]
    F, lam = do_rmsynth_planes(Q, U, l2, phi, weightArr=w, lam0Sq_m2=l0, nBits=prec, log=lambda *a: None)
    for x, y in zip(c, (Q, U, l2, phi, w)):
        need(x is None or np.array_equal(x, y, equal_nan=True), 'an input array was modified')
    w0 = np.ones(dims[0]) if w is None else np.where(np.isnan(w), 0, w)
    bad = np.isnan(Q) | np.isnan(U)
    if w is not None:
        bad |= np.isnan(w).reshape((-1,) + (1,) * (nd - 1))
    live = ~bad.reshape(dims[0], -1).all(axis=1)
    ww = np.where(live, w0, 0)
    tol = 2e-3 if prec == 32 else 2e-4
    if l0 is None:
        want = 0 if ww.sum() == 0 else np.sum(ww * l2) / ww.sum()
        same('lambda2_0', lam, want, rtol=1e-6, atol=1e-12)
    else:
        same('lambda2_0', lam, l0)
    u = np.where(bad, 0, w0.reshape((-1,) + (1,) * (nd - 1)))
    P = np.where(bad, 0, np.where(np.isnan(Q), 0, Q) + 1j * np.where(np.isnan(U), 0, U))
    W = u.sum(axis=0)
    K = np.where(W == 0, 0, 1 / np.where(W == 0, 1, W))
    E = np.exp(-2j * np.outer(phi, l2 - lam))
    R = K * np.tensordot(E, u * P, axes=(1, 0))
    zero = ~np.any(u * P != 0, axis=0)
    R = np.where(np.broadcast_to(zero, R.shape), np.nan, R)
    want = np.squeeze(R)
    need(F.shape == want.shape, 'shape %s, expected %s', F.shape, want.shape)
    same('FDF', np.asarray(F), want, rtol=0, atol=tol * max(1.0, float(np.nanmax(np.abs(P), initial=0))))


def shapes(g):
    dims, Q, U, l2 = data(g, g.pick(1, 2, 3))
    k = g.pick('l2', 'U', 'w', 'dim')
    phi = phis(g)
    w = np.ones(dims[0])
    if k == 'l2':
        l2 = np.append(l2, 0.1)
    elif k == 'U':
        U = np.concatenate([U, U[:1]], axis=0)
    elif k == 'w':
        w = np.append(w, 1.0)
    else:
        Q = Q.reshape((dims[0],) + dims[1:] + (1,) * (4 - len(dims)))
        U = Q.copy()
    g.note(mismatch=k)
    try:
        r = do_rmsynth_planes(Q, U, l2, phi, weightArr=w, log=lambda *a: None)
    except Exception:
        return
    need(r is None or all(x is None for x in r), 'mismatching shapes (%s) were synthesised', k)


TESTS = [('fdf', fdf), ('shapes', shapes)]
