"""C02  get_rmsf_planes: the RMSF is the transform of the weights each pixel used.

pre : lambda2 finite, phi = phi0 + d*i uniform (d != 0, nPhi >= 2); weights finite >= 0 or NaN;
      mask (nF,), (nF,ny) or (nF,ny,nx) boolean or None; the usable weights do not sum to zero
post: RMSF[p,y,x] = K(y,x) sum_k u_k w_k exp(-2i phi2_p (l2_k - l2_0)); phi2_p = phi0 + d (p - ceil(nPhi/2)),
      p < nPhi + 2 ceil(nPhi/2); fwhm = 3.8/(max l2 - min l2) in every pixel; inputs unmodified
"""
from pyvc import terms as t, values as V
from pyvc.spec import *


def extrap_pre(E, S, x, xp, yp):
    """precondition of extrap's contract: grid 0..n-1 (n >= 2), uniform values, whole-number x"""
    try:
        x, xp, yp = E.np.arr(x), E.np.arr(xp), E.np.arr(yp)
        if not (len(x.dims) == len(xp.dims) == len(yp.dims) == 1):
            return None
        n = xp.dims[0]
        if not (E.entails(t.le(t.num(2), V.dimT(n))) and E.entails(t.eq(V.dimT(n), V.dimT(yp.dims[0])))):
            return None
        y0 = S.val(yp, 0)
        d = S.val(yp, 1) - y0
        with S.forall(n) as (i,):
            if not (E.entails(S.eq(S.at(xp, i), SV('i', i))) and E.entails(S.eq(S.at(yp, i), y0 + d * SV('i', i)))):
                return None
            if S.isnan(yp, i) is not t.FALSE:
                return None
        with S.forall(x.dims[0]) as (j,):
            if S.val(x, j).re.sort != 'I' or S.isnan(x, j) is not t.FALSE:
                return None
        return x, y0, d
    except (Unsupported, AttributeError, IndexError):
        return None


def use_extrap_contract(E, S):
    orig = []

    def f(x, xp, yp):
        r = extrap_pre(E, S, x, xp, yp)
        if r is None:
            return orig[0](x, xp, yp)
        x, y0, d = r
        return S.mkarr(x.dims, lambda j: y0 + d * S.val(x, j))
    orig.append(E.stub('RMutils.util_RM', 'extrap', f, missing_ok=True))


def extrap_unit(E):
    """extrap satisfies the contract its callers are checked against"""
    S = Spec(E)
    n, m = E.int('n', 2), E.int('m', 1)
    y0, d = E.real('y0'), E.real('d')
    x = S.mkarr((m,), lambda j: SV('f', t.app('x', j, sort='I')))
    xp = S.mkarr((n,), lambda i: SV('i', i), 'int64')
    yp = S.mkarr((n,), lambda i: y0 + d * SV('i', i))
    f = E.load('RMutils.util_RM').__dict__.get('extrap')
    if f is None:
        S.prove('extrap is not used', TRUE)
        return
    E.fn('RMutils.util_RM', 'extrap')
    y = S.call(f, x, xp, yp)
    S.shape('extrap: one value per abscissa', y, (m,))
    with S.forall(m) as (j,):
        S.same('extrap continues a uniform grid linearly', S.at(y, j), y0 + d * S.val(x, j))


def unit(nd, mask, weights, l0, double=True):
    def run(E):
        S = Spec(E)
        nF = E.int('nF', 1)
        dims = (nF,) + tuple(E.int(n, 1) for n in ('ny', 'nx')[:nd - 1])
        nP = E.int('nP', 2)
        l2 = E.array('l2', (nF,), 'float64')
        if double:
            p0, d = E.real('phi0'), E.real('dphi')
            E.assume(S.ne(d, 0))
            phi = S.mkarr((nP,), lambda i: p0 + d * i)
        else:
            phi = E.array('phi', (nP,), 'float64')
        w = E.array('w', (nF,), 'float64', nan=True, nonneg=True) if weights else None
        M = E.array('M', dims, 'bool') if mask else None
        l0v = E.real('lam0') if l0 else None
        fz = S.freeze(l2, w, M)
        masked = (lambda k, px: S.truth(S.at(M, k, *px))) if mask else (lambda k, px: S.false)
        wt = lambda k: S.if_(S.isnan(w, k), 0, S.val(w, k)) if weights else S.num(1)
        live = lambda k: S.exists(dims[1:], lambda *px: S.not_(masked(k, px)))
        wl = lambda k: S.if_(live(k), wt(k), 0)
        W = S.sum(nF, wl)
        # precondition: some channel can be used
        E.assume(S.ne(W, 0))
        use_extrap_contract(E, S)
        f = E.fn('RMutils.util_RM', 'get_rmsf_planes')
        R = S.call(f, l2, phi, weightArr=w, mskArr=M, lam0Sq_m2=l0v, double=double, log=S.silent)
        cube, phi2, fwhm, stat, lam0 = S.pick(R, 'RMSFcube', 'phi2Arr', 'fwhmRMSFArr', 'statArr', 'lam0Sq_m2')
        S.frame(fz)
        if l0v is None:
            S.same('lambda2_0 is the weighted mean over usable channels', lam0, S.div(S.sum(nF, lambda k: wl(k) * S.val(l2, k)), W))
        else:
            S.same('lambda2_0 is the given value', lam0, l0v)
        half = (nP + 1) // 2
        n2 = nP + 2 * half if double else nP
        S.shape('length of the RMSF axis', phi2, (n2,))
        with S.forall(n2) as (p,):
            if double:
                S.same('RMSF axis continues the depth axis', S.at(phi2, p), p0 + d * (SV('i', p) - half))
            else:
                S.same('RMSF axis is the depth axis', S.at(phi2, p), S.val(phi, p))
        width = S.max(nF, lambda k: S.val(l2, k)) + S.max(nF, lambda k: 0 - S.val(l2, k))
        with S.forall(*dims[1:]) as px:
            fw = S.cell(fwhm, dims[1:], px)
            with E.ctx(S.ne(width, 0)):
                S.same('main-lobe width', fw, S.div(3.8, width))
        with S.forall(n2, *dims[1:]) as ix:
            p, px = ix[0], ix[1:]
            use = lambda k: S.if_(masked(k, px), 0, wt(k))
            Wp = S.sum(nF, use)
            K = S.if_(S.eq(Wp, 0), 0, S.div(1, Wp))
            got = S.cell(cube, (n2,) + dims[1:], ix)
            S.same('RMSF value', got, K * S.sum(nF, lambda k: use(k) * S.cexp(-2 * S.val(phi2, p) * (S.val(l2, k) - lam0))))
    return run


UNITS = [('extrap', extrap_unit),
         ('no mask', unit(1, False, True, False)), ('1D mask', unit(1, True, True, False)), ('2D mask', unit(2, True, True, False)),
         ('3D mask', unit(3, True, True, False)), ('3D mask, uniform weights, given lambda2_0', unit(3, True, False, True)),
         ('not doubled', unit(3, True, True, False, double=False))]
