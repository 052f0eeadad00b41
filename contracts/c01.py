"""C01  do_rmsynth_planes: the FDF is the weighted Faraday transform of the data.

pre : Q, U of equal shape (nF,), (nF,ny) or (nF,ny,nx), finite or NaN; lambda2, phi finite;
      weights finite, non-negative or NaN; lambda2_0 finite or None
post: squeezed result R[p,y,x] = K(y,x) * sum_k u_k(y,x) w_k (Q+iU) exp(-2i phi_p (l2_k-l2_0)),
      K = 1/sum u w (0 if that sum is 0), all-zero pixels NaN, l2_0 = weighted mean over channels
      not flagged in every pixel (0 if there is none) unless given.
"""
from pyvc import terms as t, values as V
from pyvc.spec import *


def setup(E, nd, weights, l0):
    S = Spec(E)
    nF = E.int('nF', 1)
    dims = (nF,) + tuple(E.int(n, 1) for n in ('ny', 'nx')[:nd - 1])
    nP = E.int('nP', 1)
    Q = E.array('Q', dims, 'float64', nan=True)
    U = E.array('U', dims, 'float64', nan=True)
    l2 = E.array('l2', (nF,), 'float64')
    phi = E.array('phi', (nP,), 'float64')
    w = None
    if weights:
        w = E.array('w', (nF,), 'float64', nan=True, nonneg=True)
    l0v = E.real('lam0') if l0 else None
    return S, dims, nP, Q, U, l2, phi, w, l0v


def unit(nd, weights, l0):
    def run(E):
        S, dims, nP, Q, U, l2, phi, w, l0v = setup(E, nd, weights, l0)
        fz = S.freeze(Q, U, l2, phi, w)
        f = E.fn('RMutils.util_RM', 'do_rmsynth_planes')
        FDF, lam0 = S.call(f, Q, U, l2, phi, weightArr=w, lam0Sq_m2=l0v, log=S.silent)
        S.frame(fz)
        nF = dims[0]
        wt = lambda k: S.if_(S.isnan(w, k), 0, S.val(w, k)) if w is not None else S.num(1)
        bad = lambda k, px: S.or_(S.isnan(Q, k, *px), S.isnan(U, k, *px), S.isnan(w, k) if w is not None else S.false)
        badx = lambda k, px: bad(k, px)
        # channel k is usable when some pixel is not flagged in it
        live = lambda k: S.exists(dims[1:], lambda *px: S.not_(bad(k, px)))
        wl = lambda k: S.if_(live(k), wt(k), 0)
        W = S.sum(nF, wl)
        if l0v is None:
            want = S.if_(S.eq(W, 0), 0, S.div(S.sum(nF, lambda k: wl(k) * S.val(l2, k)), W))
            S.same('lambda2_0 is the weighted mean over usable channels', lam0, want)
        else:
            S.same('lambda2_0 is the given value', lam0, l0v)
        L = lam0
        with S.forall(nP, *dims[1:]) as ix:
            p, px = ix[0], ix[1:]
            use = lambda k: S.if_(bad(k, px), 0, wt(k))
            Wp = S.sum(nF, use)
            K = S.if_(S.eq(Wp, 0), 0, S.div(1, Wp))
            P = lambda k, ph: (S.val(Q, k, *px) + 1j * S.val(U, k, *px)) * S.cexp(-2 * ph * (S.val(l2, k) - L))
            F = lambda ph: K * S.sum(nF, lambda k: use(k) * P(k, ph))
            got = S.cell(FDF, (nP,) + dims[1:], ix)
            allzero = S.not_(S.exists((nP,), lambda q: S.ne(F(S.val(phi, q)), 0)))
            S.prove('a pixel with an identically zero FDF is NaN, others are not', S.iff(S.isnan_v(got), allzero))
            S.same_if('FDF value', S.not_(S.isnan_v(got)), got, F(S.val(phi, p)))
    return run


UNITS = [('spectrum', unit(1, True, False)), ('image plane', unit(2, True, False)), ('cube', unit(3, True, False)),
         ('cube, uniform weights', unit(3, False, False)), ('cube, given lambda2_0', unit(3, True, True))]
