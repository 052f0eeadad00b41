"""C10  fit_StokesI_model: order selection; fit_spec_poly5: what is minimised.

fit_spec_poly5(x, y, dy, order, family)
  post: the fitter minimises  sum_k ((model(p, x_k) - y_k) / dy_k)^2  over the min(|order|, 5) + 1 lowest
        coefficients, without bounds or ties, the others held at zero (weights 1 when no errors are given
        or all errors are zero)
fit_StokesI_model(nu, I, dI, n, family)
  calls fit_spec_poly5 (against its contract) on the channels with finite I and dI, nu scaled by the reference frequency
  post: n >= 0 : the fit of order min(n, 5)
        n < 0  : order K, with AIC_j = 2(j+1) + chi2_j : AIC_(j+1) < AIC_j for j < K and
                 K = min(-n, 5), or order K+1 cannot be fitted, or AIC_(K+1) >= AIC_K
        params, status, chi2, iterations, covariance and errors are those of the kept order; dof = good channels - K - 1;
        reference frequency 1 / sqrt(mean of 1/nu^2 over the good channels)
fit_spectra_I (do_fitIcube)  passes the pixel's spectrum on and returns the kept fit and its model
"""
from pyvc import terms as t, values as V
from pyvc.spec import *

MOD = 'RMutils.util_misc'
TRUSTED = ['mpfit minimises the sum of squares of errFn over the parameters not marked fixed, and keeps fixed ones at their start value (RMutils/mpfit.py; '
           'compared with linear least squares at run time)',
           'a refused fit (status 0) happens only where an order has more coefficients than there are good channels']


class MP:
    pass


def model(S, fam, p, x):
    if fam == 'linear':
        return sum((p[i] * x ** (5 - i) for i in range(5)), S.num(0)) + p[5]
    lx = S.log10(x)
    return p[5] * S.pow(x, sum((p[i] * lx ** (4 - i) for i in range(4)), S.num(0)) + p[4])


def clip(E, S, order):
    """min(|order|, 5) as an int"""
    for k in range(5):
        if E.decide(S.or_(S.eq(order, k), S.eq(order, -k))):
            return k
    return 5


def least_squares(fam, errors):
    def run(E):
        S = Spec(E)
        n = E.int('nChan', 1)
        x = E.array('x', (n,), 'float64', pos=True)
        y = E.array('y', (n,), 'float64')
        dy = E.array('dy', (n,), 'float64', nonneg=True) if errors != 'none' else None
        order = E.int('order')
        if errors == 'zero':
            dy = S.mkarr((n,), lambda k: S.num(0))
        elif errors == 'pos':
            dy = E.array('dy', (n,), 'float64', pos=True)
        K = clip(E, S, order)
        fz = S.freeze(x, y, *([dy] if dy is not None else []))
        done = []
        ret = MP()

        def fitter(fcn, xall=None, functkw={}, parinfo=None, **kw):
            done.append(1)
            ok = isinstance(parinfo, list) and len(parinfo) == 6 and xall is None and not kw.get('residual_parameters') and kw.get('maxiter', 200) > 0
            S.prove('six parameters are described to the fitter', TRUE if ok else FALSE)
            if not ok:
                raise PathEnd('parinfo')
            for i, d in enumerate(parinfo):
                free = 5 - i <= K
                fx = d.get('fixed', False)
                S.prove('coefficient %d is %s' % (5 - i, 'free' if free else 'fixed'), S.not_(lift_bool(fx)) if free else lift_bool(fx))
                if not free:
                    S.same('a fixed coefficient is zero', d.get('value'), S.num(0))
                S.prove('no bounds or ties', TRUE if not d.get('tied') and not any(d.get('limited', [0, 0])) else FALSE)
            p = E.array('p', (6,), 'float64')
            r = fcn(p)
            res = r[1]
            got = S.arr(res)
            with S.forall(n) as (k,):
                S.prove('no NaN residual', S.not_(S.isnan(got, k)))
            want = S.sum(n, lambda k: sq(S.div(model(S, fam, [S.val(p, i) for i in range(6)], S.val(x, k)) - S.val(y, k),
                                               S.val(dy, k) if errors == 'pos' else S.num(1))))
            S.same('the sum of squared residuals', E.np.sum(S.mkarr(got.dims, lambda k: sq(S.val(got, k)))), want)
            return ret
        E.stub(MOD, 'mpfit', fitter)
        f = E.fn(MOD, 'fit_spec_poly5')
        a = (x, y) if errors == 'none' else (x, y, dy)
        r = S.call(f, *a, **dict(order=order, fit_function=fam))
        S.frame(fz)
        S.prove('the fit is performed once and its result returned', TRUE if r is ret and len(done) == 1 else FALSE)
    return run


def sq(x):
    return x * x


def lift_bool(x):
    if isinstance(x, bool) or isinstance(x, int):
        return TRUE if x else FALSE
    return V.truth(x)


def fitter(E, S, n, nu, I, dI, fam, good, ref, noerr=False):
    """contract of fit_spec_poly5 as used by fit_StokesI_model"""
    fits, seen = {}, []

    def f(xData, yData, dyData=None, order=5, fit_function='log'):
        S.prove('the requested model family is fitted', TRUE if fit_function == fam else FALSE)
        if dyData is None:
            S.prove('the Stokes I errors are used', FALSE)
            raise PathEnd('no errors')
        x, y, d = S.arr(xData), S.arr(yData), S.arr(dyData)
        m = S.num(x.dims[0])
        got = [E.np.sum(S.mkarr(x.dims, lambda k: S.app('probe', S.val(x, k), S.val(y, k), S.val(d, k)))).re, m.re]
        if got not in seen:
            seen.append(got)
            what_is_fitted(x, y, d, m, got[0])
        return fit(order)

    def what_is_fitted(x, y, d, m, probe):
        S.same('exactly the unflagged channels are fitted', m, S.count(n, good))
        S.same('fitted frequencies, fluxes and errors', SV('f', probe),
               S.sum(n, lambda k: S.ind(good(k)) * S.app('probe', S.div(S.val(nu, k), ref), S.val(I, k), S.val(dI, k))))
        with S.forall(x.dims[0]) as (k,):
            for z in (x, y, d):
                S.prove('only finite values are fitted', S.not_(S.isnan(z, k)))

    def fit(order):
        K = clip(E, S, order)
        if K not in fits:
            r = MP()
            r.params = E.array('par%d' % K, (6,), 'float64')
            r.fnorm = E.real('chi2_%d' % K)
            r.status = E.int('status%d' % K)
            r.niter = E.int('niter%d' % K, 0)
            r.covar = E.array('cov%d' % K, (6, 6), 'float64')
            r.perror = E.array('perr%d' % K, (6,), 'float64') if not noerr else None
            r.errmsg, r.dof, r.nfev = "", S.count(n, good) - K - 1, E.int('nfev%d' % K, 0)
            fits[K] = r
        return fits[K]
    return fits, f


def channels(E, S):
    n = E.int('nChan', 1)
    nu = E.array('nu', (n,), 'float64', pos=True)
    I = E.array('I', (n,), 'float64', nan=True)
    dI = E.array('dI', (n,), 'float64', nan=True)

    def good(k):
        return S.not_(S.or_(S.isnan(I, k), S.isnan(dI, k)))
    cnt = S.count(n, good)
    E.assume(S.exists((n,), good))
    E.assume(S.lt(0, cnt))
    s2 = S.sum(n, lambda k: S.ind(good(k)) * S.div(1, sq(S.val(nu, k))))
    E.assume(S.lt(0, s2))
    root = S.sqrt(S.div(s2, cnt))
    E.assume(S.lt(0, root))
    ref = S.div(1, root)
    E.assume(S.lt(0, ref))
    return n, nu, I, dI, good, cnt, ref


def select(fam, auto, noerr=False):
    def run(E):
        S = Spec(E)
        n, nu, I, dI, good, cnt, ref = channels(E, S)
        N = E.int('maxOrder', 1) if auto else E.int('order', 0)
        fits, f = fitter(E, S, n, nu, I, dI, fam, good, ref, noerr)
        E.stub(MOD, 'fit_spec_poly5', f)
        fz = S.freeze(nu, I, dI)
        r = S.call(E.fn(MOD, 'fit_StokesI_model'), nu, I, dI, -N if auto else N, fam)
        S.frame(fz)
        if auto:
            K = clip(E, S, r.polyOrd)
            S.same('order from zero to five', r.polyOrd, S.num(K))
            need = list(range(K + 1))
        else:
            K = clip(E, S, N)
            need = [K]
            S.same('the requested order is returned', r.polyOrd, N)
        for k in need:
            if k not in fits:
                S.prove('order %d is fitted' % k, FALSE)
                raise PathEnd('not fitted')
        aic = {k: 2 * (k + 1) + v.fnorm for k, v in fits.items()}
        if auto:
            S.prove('the order does not exceed the requested one', S.le(K, N))
            for j in range(K):
                S.prove('each higher order kept is an actual fit', S.ne(fits[j + 1].status, 0))
                S.prove('each higher order kept lowers the criterion', S.lt(aic[j + 1], aic[j]))
            if K < 5:
                if K + 1 in fits:
                    S.prove('the next order is no improvement', S.or_(S.eq(K, N), S.eq(fits[K + 1].status, 0), S.le(aic[K], aic[K + 1])))
                else:
                    S.prove('the next order is tried unless it exceeds the maximum', S.eq(K, N))
            S.same('the criterion is that of the kept order', r.AIC, aic[K])
        else:
            S.same('the criterion is that of the fitted order', r.AIC, 2 * (N + 1) + fits[K].fnorm)
        b = fits[K]
        S.same('chi-squared of the kept order', r.chiSq, b.fnorm)
        S.same('status of the kept order', r.fitStatus, S.abs(b.status))
        S.same('iterations of the kept order', r.nIter, b.niter)
        S.same('reference frequency', r.reference_frequency_Hz, ref)
        S.prove('model family', TRUE if r.fit_function == fam else FALSE)
        S.same('degrees of freedom', r.dof, cnt - r.polyOrd - 1)
        S.same_if('reduced chi-squared', S.ne(cnt - r.polyOrd - 1, 0), r.chiSqRed, S.div(b.fnorm, cnt - r.polyOrd - 1))
        for nm, x, want, dims in (('coefficients', r.params, b.params, (6,)), ('covariance', r.pcov, b.covar, (6, 6)), ('errors', r.perror, b.perror, (6,))):
            S.shape(nm + ' shape', x, dims)
            with S.forall(*dims) as ix:
                S.same(nm + ' of the kept order', S.at(x, *ix), S.num(0) if want is None else S.at(want, *ix))
    return run


def pixel(fam):
    """fit_spectra_I: one spectrum of the I cube"""
    def run(E):
        S = Spec(E)
        n = E.int('nChan', 1)
        nu = E.array('nu', (n,), 'float64', pos=True)
        I = E.array('I', (n,), 'float64')
        dI = E.array('dI', (n,), 'float64', pos=True)
        order = E.int('polyOrd')
        FR = E.load(MOD).__dict__['FitResult']
        fr = FR(params=E.array('par', (6,), 'float64'), fitStatus=E.int('st', 0), chiSq=E.real('chi2'), chiSqRed=E.real('chi2red'), AIC=E.real('aic'), polyOrd=E.int('K', 0),
                nIter=E.int('it', 0), reference_frequency_Hz=E.real('nu0', pos=True), dof=E.int('dof'), pcov=E.array('cov', (6, 6), 'float64'), perror=E.array('pe', (6,), 'float64'), fit_function=fam)
        P = 'RMtools_3D.do_fitIcube'

        def fit(freqArr, IArr, dIArr, polyOrd, fit_function='log'):
            S.same('requested order passed on', polyOrd, order)
            S.prove('family passed on', TRUE if fit_function == fam else FALSE)
            with S.forall(n) as (k,):
                for nm, a, b in (('frequencies', freqArr, nu), ('Stokes I', IArr, I), ('errors', dIArr, dI)):
                    S.same(nm + ' passed on', S.at(a, k), S.val(b, k))
            return fr
        E.stub(P, 'fit_StokesI_model', fit)
        M = E.array('model', (n,), 'float64')

        def calc(fit_result, freqArr_Hz):
            S.prove('the fitted model is evaluated', TRUE if fit_result is fr else FALSE)
            with S.forall(n) as (k,):
                S.same('at the channel frequencies', S.at(freqArr_Hz, k), S.val(nu, k))
            return M
        E.stub(P, 'calculate_StokesI_model', calc)
        o = S.call(E.fn(P, 'fit_spectra_I'), I, nu, dI, order, fam, 1)
        for nm, b in (('chiSq', fr.chiSq), ('chiSqRed', fr.chiSqRed), ('nIter', fr.nIter), ('AIC', fr.AIC), ('reference_frequency_Hz', fr.reference_frequency_Hz)):
            S.same(nm, o[nm], b)
        with S.forall(n) as (k,):
            S.same('model spectrum', S.at(o['I'], k), S.val(M, k))
        with S.forall(6) as (i,):
            S.same('coefficients', S.at(o['coeffs'], i), S.val(fr.params, i))
            S.same('coefficient errors', S.at(o['coeffs_err'], i), S.val(fr.perror, i))
    return run


UNITS = [('least squares, %s, errors %s' % (f, e), least_squares(f, e)) for f in ('linear', 'log') for e in ('pos', 'zero', 'none')] + \
    [('automatic order', select('log', True)), ('fixed order', select('linear', False)), ('fixed order, no errors from the fitter', select('log', False, True)),
     ('pixel fit', pixel('log'))] + [('automatic order, linear', select('linear', True), {'thorough': True})]
