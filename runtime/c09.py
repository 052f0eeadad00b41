"""C09 on the real code: re-referenced models are evaluated against the original, errors against a numerical Jacobian."""
import numpy as np
from rt import need, same
from RMutils.util_misc import FitResult, calculate_StokesI_model, poly5, powerlaw_poly5, renormalize_StokesI_model


def model(fam, p, x):
    p = np.concatenate([np.zeros(6 - len(p)), p])
    if fam == 'linear':
        return sum(p[i] * x ** (5 - i) for i in range(6))
    L = np.log10(x)
    return p[5] * x ** sum(p[i] * L ** (4 - i) for i in range(5))


def newpars(fam, p, x):
    """parameters of the same function about the new reference (polynomial change of variable)"""
    if fam == 'linear':
        return np.array([p[i] * x ** (5 - i) for i in range(6)])
    L = np.log10(x)
    q = np.poly1d(np.append(p[:5], 0.0))      # exponent polynomial log10(I/p5) in log10 x, zero constant term
    s = q(np.poly1d([1.0, L]))                # about the new reference
    c = np.zeros(6)
    c[6 - len(s.coeffs):] = s.coeffs
    return np.append(c[:5], p[5] * 10 ** c[5])


def case(g):
    fam = g.pick('linear', 'log')
    o = g.int(0, 5)
    p = np.zeros(6)
    p[5 - o:] = g.uni(-1.5, 1.5, o + 1)
    p[5] = g.pick(1.0, -1.0) * g.uni(0.01, 5)
    A = g.norm(6, 6) * g.uni(0.01, 1)
    A[:, :5 - o] = 0
    cov = A.T @ A
    ref = g.uni(0.2e9, 3e9)
    new = ref * g.pick(1.0, g.uni(0.9, 1.1), g.uni(0.5, 2.0), g.uni(0.92, 1.0))
    g.note(fam=fam, order=o, ratio=new / ref)
    f = FitResult(params=p.copy(), fitStatus=g.int(0, 9), chiSq=g.norm(), chiSqRed=g.norm(), AIC=g.norm(), polyOrd=o, nIter=g.int(1, 9),
                  reference_frequency_Hz=ref, dof=g.int(1, 30), pcov=cov.copy(), perror=np.sqrt(np.diag(cov)), fit_function=fam)
    nu = g.uni(0.2e9, 3e9, g.int(1, 20))
    n0 = nu.copy()
    I0 = calculate_StokesI_model(f, nu)
    same('model value', I0, model(fam, p, nu / ref), rtol=1e-9)
    sh = p[5 - o:]
    same('model of a shorter parameter vector', (poly5 if fam == 'linear' else powerlaw_poly5)(sh if fam == 'linear' else p)(nu / ref), model(fam, p, nu / ref), rtol=1e-9)
    r = renormalize_StokesI_model(f, new)
    need(np.array_equal(nu, n0) and np.array_equal(f.params, p) and np.array_equal(f.pcov, cov), 'an input was modified')
    need(r.reference_frequency_Hz == new and r.fit_function == fam, 'reference %r family %r', r.reference_frequency_Hz, r.fit_function)
    for k in ('fitStatus', 'chiSq', 'chiSqRed', 'AIC', 'polyOrd', 'nIter', 'dof'):
        need(getattr(r, k) == getattr(f, k), '%s changed', k)
    same('re-referenced spectrum', calculate_StokesI_model(r, nu), I0, rtol=1e-8)
    x = new / ref
    J = np.zeros((6, 6))
    for j in range(6):
        h = 1e-5
        dp = np.zeros(6)
        dp[j] = h
        J[:, j] = (newpars(fam, p + dp, x) - newpars(fam, p - dp, x)) / (2 * h)
    want = np.sqrt(np.maximum(np.diag(J @ cov @ J.T), 0))
    got = np.asarray(r.perror, float)
    need(got.shape == (6,), 'perror shape %s', got.shape)
    for i in range(6):
        same('error of parameter %d' % i, got[i], want[i], rtol=1e-4, atol=1e-9)


TESTS = [('renorm', case)]
