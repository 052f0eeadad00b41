"""C15 on the real code: likelihood, chi-squared and statistics of a QU fit (the sampler is replaced by a recorder)."""
import json
import os
import tempfile
import numpy as np
from rt import need, same, Skip

C = 299792458.0


def data(g):
    n = g.int(6, 40)
    nu = np.sort(g.uni(0.8e9, 2e9, n))
    l2 = (C / nu) ** 2
    z = g.uni(0.05, 0.7) * np.exp(2j * (g.uni(0, 3) + g.uni(-60, 60) * l2))
    s = g.pick(0.002, 0.05)
    dq, du = s * g.uni(0.5, 2, n), s * g.uni(0.5, 2, n)
    q, u = z.real + dq * g.norm(n), z.imag + du * g.norm(n)
    for a in (q, u, dq, du):
        if g.chance(0.3):
            g.nans(a, 0.2)
    ok = np.isfinite(q + u + dq + du)
    if ok.sum() < 5:
        raise Skip
    g.note(n=n, good=int(ok.sum()), s=s)
    return nu, l2, q, u, dq, du, ok


def thin(P, l2):
    return P['fracPol'] * np.exp(2j * (np.radians(P['psi0_deg']) + P['RM_radm2'] * l2))


def params(g):
    return {'fracPol': g.uni(0.01, 1), 'psi0_deg': g.uni(0, 180), 'RM_radm2': g.uni(-100, 100)}


def chi2(P, l2, q, u, dq, du, ok):
    m = thin(P, l2)
    return np.sum((((q - m.real) / dq) ** 2 + ((u - m.imag) / du) ** 2)[ok])


def likelihood(g):
    import RMtools_1D.do_QUfit_1D_mnest as m
    nu, l2, q, u, dq, du, ok = data(g)
    names = ['fracPol', 'psi0_deg', 'RM_radm2']
    L = m.lnlike_call(names, l2, q, dq, u, du, 1)
    v = []
    for _ in range(3):
        P = params(g)
        L.parameters = dict(P)
        x = chi2(P, l2, q, u, dq, du, ok)
        v.append((L.log_likelihood() + x / 2, x))
        same('chi-squared', m.chisq_model(names, [P[k] for k in names], l2, q, dq, u, du, thin), x, rtol=1e-9)
    top = max(x for _, x in v)
    for c, x in v[1:]:
        same('log-likelihood + chi2/2', c, v[0][0], rtol=1e-9, atol=1e-9 * top + 1e-6)


class Fake:
    """sampler result"""

    def __init__(self, g, names):
        self.names = names
        self.samples = np.zeros((21, len(names)))
        for i, k in enumerate(names):
            w = g.pick(0.5, 5)
            c = {'fracPol': g.uni(0.1, 0.9), 'psi0_deg': g.pick(2, 178, 44, 90, 136), 'RM_radm2': g.uni(-50, 50)}[k]
            self.samples[:, i] = c + (0.01 if k == 'fracPol' else w) * g.norm(21)
            if k == 'psi0_deg':
                self.samples[:, i] %= 180
        self.samples_to_posterior()
        self.log_likelihood_evaluations = g.norm(50) * 10 - 100
        self.log_evidence, self.log_evidence_err = -120.5, 0.3
        self.first = self.samples.copy()

    def samples_to_posterior(self):
        self.p = {k: self.samples[:, i].copy() for i, k in enumerate(self.names)}
        self.posterior = self.p

    def get_one_dimensional_median_and_error_bar(self, k):
        class S:
            pass
        s = S()
        lo, s.median, hi = np.quantile(self.p[k], [0.16, 0.5, 0.84])
        s.plus, s.minus = hi - s.median, s.median - lo
        return s

    def plot_corner(self, *a, **k):
        return Anything()


class Anything:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self

    def __call__(self, *a, **k):
        return self


def fit(g):
    import RMtools_1D.do_QUfit_1D_mnest as m
    nu, l2, q, u, dq, du, ok = data(g)
    I = (nu / 1.4e9) ** -0.7
    seven = g.chance(0.7)
    if not seven:
        I = np.ones_like(nu)
    res = {}

    def sampler(likelihood, priors, **k):
        res['L'] = likelihood
        res['r'] = Fake(g, [x for x in priors if priors[x].__class__.__name__ != 'Constraint'])
        return res['r']
    saved = {n: getattr(m, n) for n in ('plt', 'plot_Ipqu_spectra_fig', 'CustomNavbar')}
    run = m.bilby.run_sampler
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        try:
            m.plt, m.CustomNavbar = Anything(), Anything()
            m.plot_Ipqu_spectra_fig = lambda **k: None
            m.bilby.run_sampler = sampler
            os.chdir(d)
            a = [nu, I, q * I, u * I, 0.01 * I, dq * I, du * I] if seven else [nu, q, u, dq, du]
            m.run_qufit(a, 1, polyOrd=1, prefixOut='x')
            D = json.load(open('x_m1_dynesty.json'))
        finally:
            os.chdir(cwd)
            m.bilby.run_sampler = run
            for n, v in saved.items():
                setattr(m, n, v)
    P = dict(zip(D['parNames'], D['values']))
    L, r = res['L'], res['r']
    same('q fitted', np.where(ok, L.qArr, 0), np.where(ok, q, 0), rtol=1e-5, atol=1e-7)
    same('u fitted', np.where(ok, L.uArr, 0), np.where(ok, u, 0), rtol=1e-5, atol=1e-7)
    same('dq fitted', np.where(ok, L.dqArr, 0), np.where(ok, dq, 0), rtol=1e-5, atol=1e-7)
    same('du fitted', np.where(ok, L.duArr, 0), np.where(ok, du, 0), rtol=1e-5, atol=1e-7)
    same('wavelengths', L.lamSqArr_m2, l2, rtol=1e-9)
    x = chi2(P, l2, q, u, dq, du, ok)
    N, k, lnL = 2 * ok.sum(), 3, r.log_likelihood_evaluations.max()
    same('chi-squared', D['chiSq'], x, rtol=1e-4)
    for i, nm in enumerate(r.names):
        v = r.first[:, i]
        if nm != 'psi0_deg':
            same('value of ' + nm, P[nm], np.median(v), rtol=1e-6)
        else:
            c = np.angle(np.mean(np.exp(2j * np.radians(v)))) / 2
            dev = np.degrees(np.angle(np.exp(2j * (np.radians(P[nm]) - c)))) / 2
            need(abs(dev) < 12, 'angle %g reported for samples around %g' % (P[nm], np.degrees(c)))
    need(D['nFree'] == k, 'number of free parameters')
    if N - k - 1:
        same('degrees of freedom', D['dof'], N - k - 1)
        same('reduced chi-squared', D['chiSqRed'], x / (N - k - 1), rtol=1e-4)
        same('AICc', D['AICc'], 2 * k - 2 * lnL + 2 * k * (k + 1) / (N - k - 1), rtol=1e-9)
    same('AIC', D['AIC'], 2 * k - 2 * lnL, rtol=1e-9)
    same('BIC', D['BIC'], k * np.log(N) - 2 * lnL, rtol=1e-9)


TESTS = [('likelihood', likelihood), ('fit', fit)]
