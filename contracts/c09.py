"""C09  renormalize_StokesI_model: re-referencing leaves the model spectrum unchanged.

pre : six real parameters, symmetric covariance matrix, positive old and new reference frequency
post: calculate_StokesI_model(new, nu) = calculate_StokesI_model(old, nu) for every nu > 0;
      new.reference_frequency_Hz = the requested one; perror_i^2 = sum_jk dp'_i/dp_j dp'_i/dp_k cov_jk;
      all other fields kept; the model itself is sum_i p_i x^(5-i) resp. p5 x^(sum_i p_i log10(x)^(4-i))
"""
from pyvc import terms as t, values as V
from pyvc.spec import *


def fitres(E, S, fam, params, cov, ref):
    FR = E.load('RMutils.util_misc').__dict__['FitResult']
    z = dict(fitStatus=E.int('status', 0), chiSq=E.real('chiSq'), chiSqRed=E.real('chiSqRed'), AIC=E.real('AIC'), polyOrd=E.int('polyOrd', 0),
             nIter=E.int('nIter', 0), dof=E.int('dof'))
    return FR(params=params, reference_frequency_Hz=ref, pcov=cov, perror=S.mkarr((6,), lambda i: S.num(1)), fit_function=fam, **z), z


def model(S, fam, p, x, lx):
    if fam == 'linear':
        return sum((p[i] * x ** (5 - i) for i in range(5)), S.num(0)) + p[5]
    y = sum((p[i] * lx ** (4 - i) for i in range(4)), S.num(0)) + p[4]
    return p[5] * S.pow(x, y)


def setup(E):
    S = Spec(E)
    p = [E.real('p%d' % i) for i in range(6)]
    ref = E.real('nu0', pos=True)
    return S, p, ref


def evaluate(fam):
    def run(E):
        S, p, ref = setup(E)
        n = E.int('n', 1)
        nu = E.array('nu', (n,), 'float64', pos=True)
        fz = S.freeze(nu)
        cov = S.mkarr((6, 6), lambda i, j: S.num(0))
        fr, z = fitres(E, S, fam, E.np.array(p), cov, ref)
        calc = E.fn('RMutils.util_misc', 'calculate_StokesI_model')
        I = S.call(calc, fr, nu)
        S.frame(fz)
        S.shape('one value per channel', I, (n,))
        with S.forall(n) as (k,):
            x = S.div(S.val(nu, k), ref)
            S.same('model value', S.at(I, k), model(S, fam, p, x, S.log10(x)))
    return run


def rereference(fam):
    def run(E):
        S, p, ref = setup(E)
        n = E.int('n', 1)
        nu = E.array('nu', (n,), 'float64', pos=True)
        new = E.real('nu1', pos=True)
        E.assume(S.ne(p[5], 0))
        c = {(i, j): E.real('cov%d%d' % (i, j)) for i in range(6) for j in range(i, 6)}
        cov = E.np.array([[c[min(i, j), max(i, j)] for j in range(6)] for i in range(6)])
        pa = E.np.array(p)
        fz = S.freeze(nu, cov, pa)
        fr, z = fitres(E, S, fam, pa, cov, ref)
        # new parameters as functions of the old ones and of log10 of the frequency ratio
        x = S.div(new, ref)
        L = S.log10(x)
        ln10 = S.log(10)
        if fam == 'linear':
            J = [[x ** (5 - i) if i == j else S.num(0) for j in range(6)] for i in range(6)]
        else:
            from math import comb
            J = [[(comb(5 - j, 5 - i) * L ** (i - j)) if j <= i else S.num(0) for j in range(5)] + [S.num(0)] for i in range(5)]
            g2 = p[5] * S.pow(10, sum((p[j] * L ** (5 - j) for j in range(5)), S.num(0)))
            J.append([g2 * ln10 * L ** (5 - j) for j in range(5)] + [S.div(g2, p[5])])
        var = [sum((J[i][j] * J[i][k] * c[min(j, k), max(j, k)] for j in range(6) for k in range(6)), S.num(0)) for i in range(6)]
        ren = E.fn('RMutils.util_misc', 'renormalize_StokesI_model')
        calc = E.fn('RMutils.util_misc', 'calculate_StokesI_model')
        r2 = S.call(ren, fr, new)
        S.same('the new reference frequency is recorded', r2.reference_frequency_Hz, new)
        for k, v in z.items():
            S.same(k + ' is kept', getattr(r2, k), v)
        S.prove('the model family is kept', TRUE if r2.fit_function == fam else FALSE)
        I1, I2 = S.call(calc, fr, nu), S.call(calc, r2, nu)
        S.frame(fz)
        S.shape('one value per channel', I2, (n,))
        with S.forall(n) as (k,):
            S.same('the model spectrum is unchanged', S.at(I2, k), S.val(I1, k))
        pe = E.np.array(r2.perror)
        S.shape('six parameter errors', pe, (6,))
        for i in range(6):
            # a covariance matrix (positive semi-definite) gives non-negative variances
            psd = [S.le(0, var[i])]
            if i == 5 and fam == 'log':
                v = [ln10 * L ** (5 - j) for j in range(5)] + [S.div(1, p[5])]
                psd.append(S.le(0, sum((v[j] * v[k] * c[min(j, k), max(j, k)] for j in range(6) for k in range(6)), S.num(0))))
            with E.ctx(*psd):
                e = V.map_sv(S.at(pe, i), E.prover.renorm)
                S.prove('error %d is a number' % i, S.not_(S.isnan_v(e)))
                S.prove('error %d is non-negative' % i, S.le(0, S.val(e)))
                S.same('error %d is propagated to first order' % i, e * e, var[i])
    return run


UNITS = [('linear model', evaluate('linear')), ('log model', evaluate('log')),
         ('linear re-reference', rereference('linear')), ('log re-reference', rereference('log'))]
