"""C15  QU-fit: likelihood, chi-squared and the statistics derived from it.

pre : spectra q, u with errors dq, du > 0 (any of them may be flagged), a model function of (parameters, lambda^2)
post: lnlike_call(...).log_likelihood() = -chi2(parameters)/2 + a term independent of the parameters
      chi2 = sum over the channels with q, u, dq, du all finite of ((q - Re M)/dq)^2 + ((u - Im M)/du)^2
      chisq_model = chi2 at the given parameters
      run_qufit: the sampler is given that likelihood (on the fractional spectra of create_frac_spectra, its contract: C08) and the
      model's priors; reported chiSq = chisq_model at the reported values; with N = 2 x unflagged channels, k = number of
      parameters whose prior is not a constant:  reduced = chiSq/(N - k - 1), AIC = 2k - 2 lnL, AICc = AIC + 2k(k+1)/(N - k - 1),
      BIC = k ln N - 2 lnL, lnL the largest likelihood evaluated
"""
from pyvc import terms as t, values as V
from pyvc.spec import *

MOD = 'RMtools_1D.do_QUfit_1D_mnest'
C = 299792458
TRUSTED = ['bilby.run_sampler samples the posterior of the likelihood and priors it is given, and evaluates log_likelihood() after setting .parameters',
           'bilby.Likelihood.__init__ stores the dictionary of parameters']


class Likelihood:
    """contract of bilby.Likelihood"""

    def __init__(self, parameters=None):
        self.parameters = parameters


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


class Dummy:
    """plots, toolbars, open files: no effect on the results"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self

    def __call__(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def load(E, sampler=None):
    E.override = {'bilby': NS(Likelihood=Likelihood, run_sampler=sampler, core=NS(likelihood=NS(Likelihood=Likelihood)), likelihood=NS(Likelihood=Likelihood))}
    return E.load(MOD)


def spectra(E):
    n = E.int('nChan', 1)
    l2 = E.array('l2', (n,), 'float64', pos=True)
    q, u = [E.array(x, (n,), 'float64', nan=True) for x in ('q', 'u')]
    dq, du = [E.array(x, (n,), 'float64', nan=True, pos=True) for x in ('dq', 'du')]
    return n, l2, q, u, dq, du


def good(S, q, u, dq, du):
    return lambda k: S.not_(S.or_(*[S.isnan(x, k) for x in (q, u, dq, du)]))


def sq(x):
    return x * x


def chi2(S, n, q, u, dq, du, M):
    ok = good(S, q, u, dq, du)
    return S.sum(n, lambda k: S.ind(ok(k)) * (sq(S.div(S.val(q, k) - S.re(S.val(M, k)), S.val(dq, k))) + sq(S.div(S.val(u, k) - S.im(S.val(M, k)), S.val(du, k)))))


def likelihood(E):
    S = Spec(E)
    m = load(E)
    n, l2, q, u, dq, du = spectra(E)
    Ms = {'A': E.array('MA', (n,), 'complex128'), 'B': E.array('MB', (n,), 'complex128')}
    num = E.int('modelNum', 1)

    def model(p, lamSq):
        with S.forall(n) as (k,):
            S.same('the model is evaluated at the channel wavelengths', S.at(lamSq, k), S.val(l2, k))
        return Ms[p['which']].copy()

    def load_model(modelNum, verbose=False):
        S.same('the requested model is loaded', modelNum, num)
        return NS(model=model)
    E.stub(MOD, 'load_model', load_model)
    fz = S.freeze(l2, q, u, dq, du, *Ms.values())
    L = S.call(m.lnlike_call, ['a', 'b'], l2, q, dq, u, du, num)
    S.prove('the sampler sees the named parameters', TRUE if isinstance(L, Likelihood) and sorted(L.parameters) == ['a', 'b'] else FALSE)
    v = {}
    for w in 'AB':
        L.parameters = {'which': w, 'a': E.real('a' + w), 'b': E.real('b' + w)}
        v[w] = S.call(L.log_likelihood)
    S.frame(fz)
    X = {w: chi2(S, n, q, u, dq, du, Ms[w]) for w in 'AB'}
    half = S.num(V.Fraction(1, 2))
    for w in 'AB':
        S.prove('the likelihood is finite', t.band(t.bnot(v[w].nan), t.bnot(v[w].inf)))
    S.same('log-likelihood differences are those of -chi2/2', S.v(v['A']) - S.v(v['B']), half * (X['B'] - X['A']))
    S.same('up to a parameter-independent term the log-likelihood is -chi2/2', S.v(v['A']) + half * X['A'], S.v(v['B']) + half * X['B'])


def chisq(E):
    S = Spec(E)
    load(E)
    n, l2, q, u, dq, du = spectra(E)
    M = E.array('M', (n,), 'complex128')
    a, b = E.real('a'), E.real('b')

    def model(p, lamSq):
        S.prove('the parameters are named', TRUE if sorted(p) == ['a', 'b'] else FALSE)
        S.same('parameter a', p['a'], a)
        S.same('parameter b', p['b'], b)
        with S.forall(n) as (k,):
            S.same('the model is evaluated at the channel wavelengths', S.at(lamSq, k), S.val(l2, k))
        return M.copy()
    fz = S.freeze(l2, q, u, dq, du, M)
    r = S.call(E.fn(MOD, 'chisq_model'), ['a', 'b'], [a, b], l2, q, dq, u, du, model)
    S.frame(fz)
    S.same('chi-squared', r, chi2(S, n, q, u, dq, du, M))


class Prior:
    def __init__(self, latex_label, minimum, maximum, boundary=None):
        self.latex_label, self.minimum, self.maximum, self.boundary = latex_label, minimum, maximum, boundary


class Uniform(Prior):
    pass


class DeltaFunction(Prior):
    pass


class Constraint(Prior):
    pass


def fit(kind, columns=7):
    def run(E):
        S = Spec(E)
        seen = {}

        class Result:
            def get_one_dimensional_median_and_error_bar(self, name):
                return NS(median=med[name], plus=plus[name], minus=minus[name])

            def samples_to_posterior(self, *a, **k):
                pass

            def plot_corner(self, *a, **k):
                return Dummy()

        def run_sampler(likelihood=None, priors=None, **k):
            seen['L'], seen['priors'] = likelihood, priors
            return res
        m = load(E, run_sampler)
        n, l2x, q, u, dq, du = spectra(E)
        nu = E.array('nu', (n,), 'float64', pos=True)
        I, Q, U, dI, dQ, dU = [E.array(x, (n,), 'float64', nan=True) for x in ('I', 'Q', 'U', 'dI', 'dQ', 'dU')]
        pri = {'p': Uniform('p', 0.001, 1.0, None), 'RM': Uniform('RM', -1000.0, 1000.0, None)}
        if kind == 'angle':
            pri['psi_deg'] = Uniform('psi', 0.0, 180.0, 'periodic')
        if kind == 'fixed':
            pri['sig'] = DeltaFunction('sig', 2.0, 2.0, None)
            pri['c'] = Constraint('c', 0.0, 1.0, None)
        names = [x for x in pri if x != 'c']
        K = len([x for x in names if not isinstance(pri[x], DeltaFunction)])
        med = {x: E.real('median_' + x) for x in names}
        plus = {x: E.real('plus_' + x) for x in names}
        minus = {x: E.real('minus_' + x) for x in names}
        if kind == 'angle':
            E.assume(t.band(S.le(0, med['psi_deg']), S.lt(med['psi_deg'], 180)))
        nS = E.int('nSamples', 1)
        res = Result()
        res.samples = E.array('samples', (nS, len(names)), 'float64')
        res.log_likelihood_evaluations = E.array('lnL', (nS,), 'float64')
        res.log_evidence, res.log_evidence_err, res.posterior = E.real('lnZ'), E.real('dlnZ'), Dummy()
        calls = []

        def model(p, lamSq):
            with E.index(lamSq.dims[0]) as (k,):
                pass
            return S.mkarr(lamSq.dims, lambda k: S.cplx(0, 0), 'complex128')
        num = E.int('modelNum', 1)

        def load_model(modelNum, verbose=False):
            S.same('the requested model is loaded', modelNum, num)
            return NS(model=model, priors=pri)
        FR = E.load('RMutils.util_misc').__dict__['FitResult']
        fr = FR(params=E.array('par', (6,), 'float64'), fitStatus=E.int('st', 0), chiSq=E.real('chi2I'), chiSqRed=E.real('chi2Ired'), AIC=E.real('aicI'), polyOrd=E.int('K', 0),
                nIter=E.int('it', 0), reference_frequency_Hz=E.real('nu0', pos=True), dof=E.int('dofI'), pcov=E.array('cov', (6, 6), 'float64'), perror=E.array('pe', (6,), 'float64'), fit_function='log')
        IM = E.array('IMod', (n,), 'float64')

        def frac(freqArr, IArr, QArr, UArr, dIArr, dQArr, dUArr, polyOrd=2, verbose=False, debug=False, fit_function='log', modStokesI=None):
            S.same('requested order', polyOrd, order)
            S.prove('requested family', TRUE if fit_function == 'linear' and modStokesI is None else FALSE)
            with S.forall(n) as (k,):
                for nm, a, b in (('frequencies', freqArr, nu), ('Q', QArr, Q), ('U', UArr, U), ('dQ', dQArr, dQ), ('dU', dUArr, dU)) + ((('I', IArr, I), ('dI', dIArr, dI)) if columns == 7 else ()):
                    S.same(nm + ' given to the normalisation', S.at(a, k), S.at(b, k))
                if columns == 5:
                    S.same('unit Stokes I', S.at(IArr, k), S.num(1))
            return IM, q, u, dq, du, fr
        order = E.int('order')
        X2 = E.real('chi2')
        E.stub(MOD, 'create_frac_spectra', frac)
        E.stub(MOD, 'calculate_StokesI_model', lambda f, x: S.mkarr(x.dims, lambda k: S.num(1)))
        E.stub(MOD, 'load_model', load_model)
        E.stub(MOD, 'chisq_model', lambda *a: (calls.append(a), X2)[1])
        E.stub(MOD, 'plot_Ipqu_spectra_fig', lambda *a, **k: None)
        saved = []
        md = m.__dict__
        md['plt'] = Dummy()
        md['CustomNavbar'] = Dummy()
        md['json'] = NS(dump=lambda d, f, **k: saved.append(dict(d)))
        md['open'] = lambda *a, **k: Dummy()
        nd = S.count(n, good(S, q, u, dq, du)) * 2
        E.assume(S.lt(0, nd))
        E.assume(S.exists((n,), good(S, q, u, dq, du)))
        E.assume(S.ne(nd - K - 1, 0))
        data = [nu, I, Q, U, dI, dQ, dU] if columns == 7 else [nu, Q, U, dQ, dU]
        fz = S.freeze(*data, q, u, dq, du)
        lmax = E.np.max(res.log_likelihood_evaluations)
        S.call(E.fn(MOD, 'run_qufit'), data, num, polyOrd=order, fit_function='linear', prefixOut='x')
        S.frame(fz)
        S.prove('one result is saved', TRUE if len(saved) == 1 and len(calls) == 1 else FALSE)
        if not saved or not calls:
            raise PathEnd('no result')
        d, a = saved[0], calls[0]
        L = seen.get('L')
        S.prove('the sampler is given the likelihood', TRUE if isinstance(L, m.lnlike_call) else FALSE)
        S.prove('and the priors of the model', TRUE if seen['priors'] is pri and pri.keys() == set(pri) else FALSE)
        S.prove('the free and fixed parameters of the model are sampled', TRUE if list(L.parNames) == names else FALSE)
        S.same('likelihood of the requested model', L.modelNum, num)
        lam = lambda k: sq(S.div(C, S.val(nu, k)))
        with S.forall(n) as (k,):
            for nm, x, want in (('wavelength squared', L.lamSqArr_m2, lam(k)), ('q', L.qArr, S.at(q, k)), ('u', L.uArr, S.at(u, k)), ('dq', L.dqArr, S.at(dq, k)), ('du', L.duArr, S.at(du, k))):
                S.same('likelihood: ' + nm, S.at(x, k), want)
            S.same('chi-squared: wavelength squared', S.at(a[2], k), lam(k))
            for nm, x, want in (('q', a[3], q), ('dq', a[4], dq), ('u', a[5], u), ('du', a[6], du)):
                S.same('chi-squared: ' + nm, S.at(x, k), S.at(want, k))
        S.prove('chi-squared of the model fitted', TRUE if a[7] is model and list(a[0]) == names else FALSE)
        for i, x in enumerate(names):
            S.same('chi-squared is evaluated at the reported values', a[1][i], d['values'][i])
            if x != 'psi_deg':
                S.same('reported value is the posterior median', d['values'][i], med[x])
            else:
                rot = t.bor(S.lt(med[x], 45), S.le(135, med[x]))
                v = S.v(d['values'][i])
                S.prove('reported angle is the median of the posterior rotated by 90 degrees and back, if near the wrap',
                        t.band(t.implies(t.bnot(rot), S.eq(v, med[x])), t.implies(rot, S.eq(v, S.if_(S.lt(med[x], 90), med[x] + 90, med[x] - 90)))))
                S.prove('reported angle in 0..180', t.band(S.le(0, v), S.lt(v, 180)))
            S.same('upper error', d['errPlus'][i], plus[x])
            S.same('lower error', d['errMinus'][i], minus[x])
        S.same('chi-squared', d['chiSq'], X2)
        S.same('number of free parameters', d['nFree'], S.num(K))
        S.same('degrees of freedom', d['dof'], nd - K - 1)
        S.same('reduced chi-squared', d['chiSqRed'], S.div(X2, nd - K - 1))
        S.same('AIC', d['AIC'], 2 * K - 2 * lmax)
        S.same('AICc', d['AICc'], 2 * K - 2 * lmax + S.div(2 * K * (K + 1), nd - K - 1))
        S.same('BIC', d['BIC'], K * S.log(nd) - 2 * lmax)
        S.same('evidence', d['ln(EVIDENCE) '], res.log_evidence)
        S.same('evidence error', d['dLn(EVIDENCE)'], res.log_evidence_err)
    return run


UNITS = [('log-likelihood', likelihood), ('chi-squared', chisq), ('fit', fit('plain')), ('fit with an angle', fit('angle')), ('fit with constants', fit('fixed')), ('fit without Stokes I', fit('plain', 5))]


def main(E):
    """the command line passes the options on"""
    S = Spec(E)
    load(E)
    opts = dict(modelNum=E.int('modelNum', 1), polyOrd=E.int('order'), fit_function='linear', sampler='nestle', nlive=E.int('nlive', 1), noStokesI=True)
    m = command_line(E, MOD, {'-m': opts['modelNum'], '-o': opts['polyOrd'], '-f': 'linear', '--sampler': 'nestle', '--nlive': opts['nlive'], '-i': True}, ['/data/x.dat'])
    m.__dict__['os'] = NS(path=NS(exists=lambda p: True, splitext=lambda p: ('/data/x', '.dat')))
    got = []
    data = object()
    E.stub(MOD, 'readFile', lambda *a, **k: data)
    E.stub(MOD, 'run_qufit', lambda *a, **k: got.append((a, k)))
    S.call(E.fn(MOD, 'main'))
    S.prove('the fit is run once on the data of the file', TRUE if len(got) == 1 and (list(got[0][0]) + [got[0][1].get('data')])[0] is data else FALSE)
    k = got[0][1]
    for n in ('modelNum', 'polyOrd', 'nlive'):
        S.same(n + ' passed on', k.get(n), opts[n])
    for n in ('fit_function', 'sampler', 'noStokesI'):
        S.prove(n + ' passed on', TRUE if k.get(n) == opts[n] else FALSE)


UNITS.append(('command line', main))
