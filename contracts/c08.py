"""C08  create_frac_spectra: fractional spectra and model flags.

pre : six spectra on the same channels (any may be flagged), frequencies positive
post: model = the fitted one (calculate_StokesI_model of the fit result), the supplied one, or 1 everywhere if the fit
      raises or is refused (status 0);  q = Q/M, u = U/M, dq = dQ/M, du = dU/M, NaN where the quotient is not finite;
      status = status of the fit + 128 [M < 0 somewhere] + 64 [M < dI somewhere]; 9 after a failed fit; 0 for a supplied model
      inputs unmodified; the fit is asked for the requested order and family on the given spectrum
"""
from pyvc import terms as t, values as V
from pyvc.spec import *

MOD = 'RMutils.util_misc'


def run(case):
    def unit(E):
        S = Spec(E)
        n = E.int('nChan', 1)
        f32 = case == 'fit, single precision'
        dt = 'float32' if f32 else 'float64'
        nu = E.array('nu', (n,), dt, pos=True)
        I, Q, U, dI, dQ, dU = [E.array(x, (n,), dt, nan=True) for x in ('I', 'Q', 'U', 'dI', 'dQ', 'dU')]
        order = E.int('order', 0) if case != 'fit, automatic' else -E.int('maxOrder', 1)
        fam = 'linear' if case == 'fit, automatic' else 'log'
        FR = E.load(MOD).__dict__['FitResult']
        status = E.int('status', 1) if case != 'refused' else 0
        fr = FR(params=E.array('par', (6,), 'float64'), fitStatus=status, chiSq=E.real('chi2'), chiSqRed=E.real('chi2red'), AIC=E.real('aic'), polyOrd=E.int('K', 0),
                nIter=E.int('it', 0), reference_frequency_Hz=E.real('nu0', pos=True), dof=E.int('dof'), pcov=E.array('cov', (6, 6), 'float64'), perror=E.array('pe', (6,), 'float64'), fit_function=fam)
        M = E.array('model', (n,), 'float64', nan=(case == 'supplied'))
        asked = []

        def fit(freqArr, IArr, dIArr, polyOrd, fit_function='log'):
            asked.append(1)
            S.prove('no fit when a model is supplied', TRUE if case != 'supplied' else FALSE)
            S.same('requested order', polyOrd, order)
            S.prove('requested family', TRUE if fit_function == fam else FALSE)
            with S.forall(n) as (k,):
                for nm, a, b in (('frequencies', freqArr, nu), ('Stokes I', IArr, I), ('Stokes I errors', dIArr, dI)):
                    S.same(nm + ' given to the fit', S.at(a, k), S.at(b, k))
            if case == 'raises':
                raise ValueError('fit failed')
            return fr

        def calc(fit_result, freqArr_Hz):
            S.prove('the fitted model is evaluated', TRUE if fit_result is fr else FALSE)
            with S.forall(n) as (k,):
                S.same('at the channel frequencies', S.at(freqArr_Hz, k), S.val(nu, k))
            return M.copy()
        E.stub(MOD, 'fit_StokesI_model', fit)
        E.stub(MOD, 'calculate_StokesI_model', calc)
        fz = S.freeze(nu, I, Q, U, dI, dQ, dU, M)
        s2 = S.div(S.sum(n, lambda k: S.div(1, S.val(nu, k) * S.val(nu, k))), n)
        E.assume(S.lt(0, s2))               # a mean of positive numbers, and its root
        E.assume(S.lt(0, S.sqrt(s2)))
        kw = dict(modStokesI=M) if case == 'supplied' else {}
        r = S.call(E.fn(MOD, 'create_frac_spectra'), nu, I, Q, U, dI, dQ, dU, polyOrd=order, fit_function=fam, **kw)
        S.frame(fz)
        Im, q, u, dq, du, res = r
        failed = case in ('raises', 'refused')
        if case != 'supplied':
            S.prove('the Stokes I spectrum is fitted once', TRUE if len(asked) == 1 else FALSE)
        for x in (Im, q, u, dq, du):
            S.shape('one value per channel', x, (n,))
        with S.forall(n) as (k,):
            m = S.num(1) if failed else S.val(M, k)
            mn = FALSE if failed else S.isnan(M, k)
            S.prove('the model is NaN only where the supplied one is', S.iff(S.isnan(Im, k), mn))
            S.same_if('Stokes I model', t.bnot(mn), S.val(Im, k), m)
            for nm, a, b in (('q', q, Q), ('u', u, U), ('dq', dq, dQ), ('du', du, dU)):
                bad = S.or_(S.isnan(b, k), mn, S.eq(m, 0))
                S.prove(nm + ' is NaN exactly where the quotient is not finite', S.iff(S.isnan(a, k), bad))
                S.prove(nm + ' is never infinite', S.not_(S.at(a, k).inf))
                S.same_if(nm, S.not_(bad), S.val(a, k), S.div(S.val(b, k), m))
        if failed:
            S.same('status of a failed fit', res.fitStatus, S.num(9))
        elif case == 'supplied':
            S.same('status of a supplied model', res.fitStatus, S.num(0))
        else:
            negative = S.exists((n,), lambda k: S.lt(S.val(M, k), 0))
            faint = S.exists((n,), lambda k: S.and_(S.not_(S.isnan(dI, k)), S.lt(S.val(M, k), S.val(dI, k))))
            S.same('status flags', res.fitStatus, status + 128 * S.ind(negative) + 64 * S.ind(faint))
            for nm in ('chiSq', 'chiSqRed', 'AIC', 'polyOrd', 'nIter', 'reference_frequency_Hz', 'dof'):
                S.same(nm + ' of the fit', getattr(res, nm), getattr(fr, nm))
            with S.forall(6) as (i,):
                S.same('coefficients of the fit', S.at(res.params, i), S.val(fr.params, i))
        if failed or case == 'supplied':
            S.same('requested order recorded', res.polyOrd, order)
            one = E.fn(MOD, 'poly5' if fam == 'linear' else 'powerlaw_poly5')
            x = E.real('x', pos=True)
            S.same('the recorded coefficients are those of a unity model', S.call(S.call(one, res.params), x), S.num(1))
        if case == 'supplied':
            S.same('reference frequency', res.reference_frequency_Hz, S.div(1, S.sqrt(s2)))
    return unit


UNITS = [(c, run(c)) for c in ('fit', 'fit, automatic', 'fit, single precision', 'raises', 'refused', 'supplied')]
