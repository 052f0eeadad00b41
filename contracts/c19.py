"""C19  clean_model: clean components predict the spectrum they were extracted from.

pre : positive frequencies nu_k, real depths phi_j, complex components c_j, lambda2_0 > 0, six Stokes I parameters or None
post: the prediction is I_k * sum_j c_j exp(2i phi_j (lambda2_k - lambda2_0)), with lambda2_k = (c/nu_k)^2 and I_k the log
      model of the given parameters about the frequency c/sqrt(lambda2_0), or 1 without parameters
files: components, parameters, lambda2_0 and frequencies are those of the three input files; the output file lists
      frequency, I, Q, U of every channel
lemma: do_rmsynth_planes applied to the prediction of a single component (phi, A) returns at phi, for the same lambda2_0,
      A times the weighted mean of I
"""
from pyvc import terms as t, values as V
from pyvc.spec import *
from contracts.c09 import model

C = 299792458


def setup(E, params, nph=None):
    S = Spec(E)
    n, m = E.int('n', 1), nph or E.int('m', 1)
    nu = E.array('nu', (n,), 'float64', pos=True)
    phi = E.array('phi', (m,), 'float64')
    cc = E.array('cc', (m,), 'complex128')
    l0 = E.real('lam0', pos=True)
    p = [E.real('p%d' % i) for i in range(6)] if params else None
    return S, n, m, nu, phi, cc, l0, p


def stokesI(S, p, nu, l0):
    if p is None:
        return S.num(1)
    x = nu / S.div(C, S.sqrt(l0))
    return model(S, 'log', p, x, S.log10(x))


def predict(params):
    def run(E):
        S, n, m, nu, phi, cc, l0, p = setup(E, params)
        fz = S.freeze(nu, phi, cc)
        ip = E.np.array(p) if params == 'array' else p
        QU, I = S.call(E.fn('RMtools_1D.clean_model', 'calculate_QU_model'), nu, phi, cc, l0, ip)
        S.frame(fz)
        S.shape('prediction', QU, (n,))
        S.shape('Stokes I', I, (n,))
        with S.forall(n) as (k,):
            f = S.val(nu, k)
            l2 = (S.div(C, f)) ** 2
            with E.ctx(t.lt(t.ZERO, S.v(f).re)):
                I_k = stokesI(S, p, f, l0)
                S.same('Stokes I of the channel', S.at(I, k), I_k)
                S.same('predicted polarisation', S.at(QU, k), S.at(I, k) * S.sum(m, lambda j: S.val(cc, j) * S.cexp(2 * S.val(phi, j) * (l2 - l0))))
    return run


UNITS = [('prediction, ' + k, predict(p)) for k, p in (('no Stokes I', None), ('parameter list', 'list'), ('parameter array', 'array'))]


def inverse(E):
    S, n, m, nu, phi, cc, l0, p = setup(E, 'list', 1)
    w = E.array('w', (n,), 'float64', pos=True)
    QU, I = S.call(E.fn('RMtools_1D.clean_model', 'calculate_QU_model'), nu, phi, cc, l0, p)
    l2 = lambda k: S.div(C, S.val(nu, k)) ** 2
    W = S.sum(n, lambda k: S.val(w, k))
    synth = S.div(S.sum(n, lambda k: S.val(w, k) * S.val(QU, k) * S.cexp(-2 * S.val(phi, 0) * (l2(k) - l0))), W)
    S.same('synthesis (contract of C01) of a single component', synth, S.div(S.val(cc, 0) * S.sum(n, lambda k: S.val(w, k) * S.val(I, k)), W))


UNITS += [('synthesis of a single component', inverse)]


def files(cols):
    def run(E):
        S, n, m, nu, phi, cc, l0, p = setup(E, 'list')
        mod = 'RMtools_1D.clean_model'
        g = command_line(E, mod, {}, ['in.dat', 'x_RMsynth.json', 'x_FDFmodel.dat', 'out.dat'])
        cr, ci = cc.real, cc.imag
        table = {'in.dat': [nu] + [E.array('c%d' % i, (n,), 'float64') for i in range(cols - 1)], 'x_FDFmodel.dat': [phi, cr, ci]}
        calls, saved = [], []

        def loadtxt(fn, unpack=False, dtype=None, **k):
            if not isinstance(fn, str) or fn not in table:
                raise FileNotFoundError(str(fn))
            assert unpack
            return list(table[fn])
        E.np.loadtxt = loadtxt
        E.np.savetxt = lambda fn, rows, **k: saved.append((fn, rows))
        js = {'polyCoeffs': ','.join(str(x) for x in p), 'lam0Sq_m2': l0}

        class F:
            def __init__(s, fn):
                s.fn = fn

            def __enter__(s):
                return s

            def __exit__(s, *a):
                return False
        g.__dict__['open'] = lambda fn, mode='r': F(fn)
        g.__dict__['json'] = type('J', (), dict(load=staticmethod(lambda f: dict(js) if f.fn == 'x_RMsynth.json' else None)))
        QU = E.array('QU', (n,), 'complex128')
        I = E.array('I', (n,), 'float64')

        def calc(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
            calls.append((freqArr, phiArr, CCArr, lambdaSq_0, Iparms))
            return QU, I
        E.stub(mod, 'calculate_QU_model', calc)
        S.call(E.fn(mod, 'main'))
        S.prove('one prediction, one file', TRUE if len(calls) == 1 and len(saved) == 1 and saved[0][0] == 'out.dat' else FALSE)
        if len(calls) != 1 or len(saved) != 1:
            return
        f, ph, c, l, q = calls[0]
        S.shape('frequencies', f, (n,))
        S.shape('depths', ph, (m,))
        S.same('lambda2_0', S.num(l), l0)
        S.prove('six parameters', TRUE if len(q) == 6 else FALSE)
        for i in range(6):
            S.same('parameter %d' % i, S.num(q[i]), p[i])
        with S.forall(n) as (k,):
            S.same('frequency', S.at(f, k), S.at(nu, k))
        with S.forall(m) as (j,):
            S.same('depth', S.at(ph, j), S.at(phi, j))
            S.same('component', S.at(c, j), S.at(cc, j))
        rows = E.np.array(saved[0][1])
        S.shape('table', rows, (n, 4))
        with S.forall(n) as (k,):
            for j, x in enumerate((S.at(nu, k), S.at(I, k), S.re(S.val(QU, k)), S.im(S.val(QU, k)))):
                S.same('column %d' % j, S.at(rows, k, j), x)
    return run


UNITS += [('files, %d columns' % c, files(c)) for c in (7, 5)]
