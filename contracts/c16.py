"""C16  Bandwidth-depolarisation synthesis (rmtools_bwdepol).

operator: rotation_integral_limit(f, phi) is an antiderivative in f of exp(2 i phi c^2/f^2) (for phi > 0, < 0 and = 0: the
      derivative of the symbolic result of the real code, computed rule by rule, equals the integrand), and the operator of a
      channel is the difference of it at the channel edges divided by the width: by the fundamental theorem of calculus the
      mean of exp(2 i phi lambda^2) over the channel, hence its value at the channel centre for zero width
synthesis: FDF[p] = K exp(2 i phi_p lambda2_0) sum_k u_k w_k (Q+iU)_k conj(r_k(phi_p)), K = 1/sum u w, per pixel, lambda2_0 the
      weighted mean over usable channels unless given
theory: sensitivity sum w |r|^2 / sum w, noise sqrt(sum (w s |r|)^2) / sum w
tool: one weighting, mask, width, lambda2_0; flux scale I(freq0); RMSF = synthesis of a unit source at the peak
"""
from fractions import Fraction as Fr
from pyvc import terms as t, values as V
from pyvc.spec import *
from pyvc.values import SV, lift
from contracts.pipe import C, Calls, grid_args
from contracts.c02 import extrap_pre

M = 'RMtools_1D.rmtools_bwdepol'
TRUSTED = ['scipy.special.erf: complex function with erf(0) = 0 and derivative 2/sqrt(pi) exp(-z^2)',
           'differentiation rules of the checker (sum, product, chain; exp, cos, sin, sqrt, 1/x, erf)',
           'fundamental theorem of calculus: (F(b)-F(a))/(b-a) is the mean of F\' over [a, b]; mean value theorem for the zero-width limit']


class Erf:
    """scipy.special, as far as it is used"""
    def __init__(self, E, S):
        self.E, self.S = E, S

    def erf(self, z):
        def one(v):
            v = V.tonum(lift(v))
            return SV('c', t.app('erf_re', v.re, v.im), t.app('erf_im', v.re, v.im), v.nan)
        if isinstance(z, SArr):
            return self.S.mkarr(z.dims, lambda *ix: one(self.S.at(z, *ix)), 'complex128')
        return V.out(one(z))


class Scipy:
    def __init__(self, E, S):
        self.special = Erf(E, S)


def D(x, v):
    """derivative of a real term with respect to the variable v"""
    if x is v:
        return t.ONE
    if v not in t.fv(x):
        return t.ZERO
    if x.op == 'poly':
        out = t.ZERO
        for m, c in x.args:
            for j, (a, e) in enumerate(m):
                r = t.mul(t.num(c * e), t.power(a, e - 1), D(a, v))
                for i, (b, k) in enumerate(m):
                    if i != j:
                        r = t.mul(r, t.power(b, k))
                out = t.add(out, r)
        return out
    f, a = x.args[0], x.args[1:]
    if f == 'cos':
        return t.neg(t.mul(t.sin(a[0]), D(a[0], v)))
    if f == 'sin':
        return t.mul(t.cos(a[0]), D(a[0], v))
    if f == 'exp':
        return t.mul(x, D(a[0], v))
    if f == 'inv':
        return t.neg(t.mul(x, x, D(a[0], v)))
    if f == 'sqrt':
        return t.mul(t.num(Fr(1, 2)), t.inv(x), D(a[0], v))
    if f in ('erf_re', 'erf_im'):
        zr, zi = a
        # erf'(z) z' with exp(-z^2) = exp(zi^2 - zr^2) (cos(2 zr zi) - i sin(2 zr zi))
        g = t.mul(t.num(2), t.inv(t.sqrt(V.lift(t_pi()).re)), t.mexp(t.sub(t.mul(zi, zi), t.mul(zr, zr))))
        th = t.mul(t.num(2), zr, zi)
        er, ei = t.mul(g, t.cos(th)), t.neg(t.mul(g, t.sin(th)))
        dr, di = D(zr, v), D(zi, v)
        return t.sub(t.mul(er, dr), t.mul(ei, di)) if f == 'erf_re' else t.add(t.mul(er, di), t.mul(ei, dr))
    raise V.Unsupported('derivative of ' + str(f))


_pi = []


def t_pi():
    return _pi[0]


def antiderivative(E):
    S = Spec(E)
    _pi[:] = [S.pi]
    E.load(M).__dict__['sp'] = Scipy(E, S)
    f, h = E.real('f', pos=True), E.real('h', pos=True)
    for nm, phi in (('positive', h), ('negative', -h), ('zero', S.num(0))):
        r = lift(S.num(S.call(E.fn(M, 'rotation_integral_limit'), V.out(f), V.out(phi))))
        S.prove('%s depth: finite' % nm, S.not_(S.isnan_v(r)))
        d = SV('c', D(r.re, S.v(f).re), D(r.im, S.v(f).re))
        S.same('%s depth: derivative is the rotation at that frequency' % nm, d, S.cexp(2 * phi * S.div(C, f) ** 2))
    # and on arrays, element by element
    n = E.int('n', 1)
    nu = E.array('nu', (n,), 'float64', pos=True)
    for nm, phi in (('positive', h), ('negative', -h), ('zero', S.num(0))):
        a = S.call(E.fn(M, 'rotation_integral_limit'), nu, V.out(phi))
        S.shape('array of frequencies', a, (n,))
        with S.forall(n) as (k,):
            S.same('array of frequencies, %s depth' % nm, S.at(a, k), S.num(S.call(E.fn(M, 'rotation_integral_limit'), V.out(S.val(nu, k)), V.out(phi))))


def stub_limit(E, S):
    g = lambda x, y: SV('c', t.app('LIMr', S.v(x).re, S.v(y).re), t.app('LIMi', S.v(x).re, S.v(y).re))

    def lim(freq, phi):
        if isinstance(freq, SArr):
            return S.mkarr(freq.dims, lambda *ix: g(S.at(freq, *ix), phi), 'complex128')
        return V.out(g(freq, phi))
    E.stub(M, 'rotation_integral_limit', lim)
    return g


def operators(width):
    def run(E):
        S = Spec(E)
        n = E.int('n', 2)
        nu = E.array('nu', (n,), 'float64', pos=True)
        w = E.array('w', (n,), 'float64', pos=True) if width == 'array' else None
        phi, p = E.real('phi'), E.real('p')
        if w is None:
            E.assume(S.ne(S.val(nu, 1), S.val(nu, 0)))
        wk = lambda k: S.val(w, k) if w is not None else S.val(nu, 1) - S.val(nu, 0)
        g = stub_limit(E, S)
        fz = S.freeze(*[a for a in (nu, w) if a is not None])
        want = lambda k: S.div(g(S.val(nu, k) + S.div(wk(k), 2), phi) - g(S.val(nu, k) - S.div(wk(k), 2), phi), wk(k))
        ww = w if w is not None else V.out(wk(0))
        r = S.call(E.fn(M, 'rotation_operator'), ww, nu, V.out(phi))
        a = S.call(E.fn(M, 'analytical_chan_pol'), nu, ww, V.out(phi), 0, V.out(p))
        d = S.call(E.fn(M, 'bwdepol_simulation'), V.out(phi), nu, w)
        S.shape('operator', r, (n,))
        with S.forall(n) as (k,):
            S.same('operator is the mean over the channel', S.at(r, k), want(k))
            S.same('channel polarisation is the mean over the channel', S.at(a, k), p * want(k))
            S.same('simulated q', S.at(d[1], k), S.re(want(k)))
            S.same('simulated u', S.at(d[2], k), S.im(want(k)))
            S.same('simulated frequency', S.at(d[0], k), S.val(nu, k))
        S.frame(fz)
    return run


def stub_operator(E, S):
    g = lambda w, x, y: SV('c', *[t.app(a, S.v(w).re, S.v(x).re, S.v(y).re) for a in ('ROTr', 'ROTi')])

    def op(channel_width, channel_center, phi):
        w = (lambda *ix: S.at(channel_width, *ix)) if isinstance(channel_width, SArr) else (lambda *ix: channel_width)
        if isinstance(channel_center, SArr):
            return S.mkarr(channel_center.dims, lambda *ix: g(w(*ix), S.at(channel_center, *ix), phi), 'complex128')
        return V.out(g(channel_width, channel_center, phi))
    E.stub(M, 'rotation_operator', op)
    return g


def theory(E):
    S = Spec(E)
    n, P = E.int('n', 1), E.int('P', 1)
    nu = E.array('nu', (n,), 'float64', pos=True)
    wd = E.array('wd', (n,), 'float64', pos=True)
    phi = E.array('phi', (P,), 'float64')
    w = E.array('w', (n,), 'float64', nonneg=True)
    s = E.array('s', (n,), 'float64', nonneg=True)
    W = S.sum(n, lambda k: S.val(w, k))
    E.assume(S.lt(0, W))
    K = S.div(1, W)
    g = stub_operator(E, S)
    fz = S.freeze(nu, wd, phi, w, s)
    r = S.call(E.fn(M, 'adjoint_theory'), [wd, nu, phi, V.out(K), w], s, log=S.silent)
    S.frame(fz)
    for nm, a in zip(('depths', 'sensitivity', 'noise'), r):
        S.shape(nm, a, (P,))
    with S.forall(P) as (p,):
        a2 = lambda k: S.abs2(g(S.val(wd, k), S.val(nu, k), S.val(phi, p)))
        S.same('depth', S.at(r[0], p), S.val(phi, p))
        S.same('sensitivity', S.at(r[1], p), S.div(S.sum(n, lambda k: S.val(w, k) * a2(k)), W))
        S.same('noise', S.at(r[2], p), S.div(S.sqrt(S.sum(n, lambda k: (S.val(w, k) * S.val(s, k)) ** 2 * a2(k))), W))


def synthesis(nd, weights, l0, width):
    def run(E):
        S = Spec(E)
        nF = E.int('nF', 2)
        dims = (nF,) + tuple(E.int(x, 1) for x in ('ny', 'nx')[:nd - 1])
        nP = E.int('nP', 1)
        Q, U = (E.array(x, dims, 'float64', nan=True) for x in 'QU')
        nu = E.array('nu', (nF,), 'float64', pos=True)
        phi = E.array('phi', (nP,), 'float64')
        w = E.array('w', (nF,), 'float64', nan=True, nonneg=True) if weights else None
        wd = E.array('wd', (nF,), 'float64', pos=True) if width else None
        wk = lambda k: S.val(wd, k) if width else S.val(nu, 1) - S.val(nu, 0)
        l0v = E.real('lam0') if l0 else None
        g = stub_operator(E, S)
        bad = lambda k, px: S.or_(S.isnan(Q, k, *px), S.isnan(U, k, *px), S.isnan(w, k) if w is not None else S.false)
        wt = lambda k: S.if_(S.isnan(w, k), 0, S.val(w, k)) if weights else S.num(1)
        live = lambda k: S.exists(dims[1:], lambda *px: S.not_(bad(k, px)))
        wl = lambda k: S.if_(live(k), wt(k), 0)
        W = S.sum(nF, wl)
        E.assume(S.lt(0, W))
        l2 = lambda k: S.div(C, S.val(nu, k)) ** 2
        fz = S.freeze(*[a for a in (Q, U, nu, phi, w, wd) if a is not None])
        F, lam0, av = S.call(E.fn(M, 'do_adjoint_rmsynth_planes'), nu, Q, U, phi, widths_Hz=wd, weightArr=w, lam0Sq_m2=l0v, log=S.silent)
        S.frame(fz)
        S.same('lambda2_0', lam0, l0v if l0 else S.div(S.sum(nF, lambda k: wl(k) * l2(k)), W))
        S.same('K', S.num(av[3]), S.div(1, W))
        with S.forall(nF) as (k,):
            S.same('weights handed on', S.at(av[4], k), wl(k))
            S.same('frequencies handed on', S.at(av[1], k), S.val(nu, k))
            S.same('widths handed on', S.at(av[0], k) if isinstance(av[0], SArr) else S.num(av[0]), wk(k))
        with S.forall(nP) as (p,):
            S.same('depths handed on', S.at(av[2], p), S.val(phi, p))
        with S.forall(nP, *dims[1:]) as ix:
            p, px = ix[0], ix[1:]
            use = lambda k: S.if_(bad(k, px), 0, wt(k))
            Wp = S.sum(nF, use)
            K = S.if_(S.eq(Wp, 0), 0, S.div(1, Wp))
            f = S.val(phi, p)
            r = lambda k: g(wk(k), S.val(nu, k), f)
            conj = lambda z: S.cplx(S.re(z), 0 - S.im(z))
            got = S.cell(F, (nP,) + dims[1:], ix)
            S.same('adjoint FDF', got, K * S.cexp(2 * f * S.num(lam0)) * S.sum(nF, lambda k: use(k) * (S.val(Q, k, *px) + 1j * S.val(U, k, *px)) * conj(r(k))))
    return run


def stub_synthesis(E, S, calls):
    def syn(freqArr_Hz, dataQ, dataU, phiArr_radm2, widths_Hz=None, weightArr=None, lam0Sq_m2=None, nBits=64, verbose=False, log=print):
        P = phiArr_radm2.dims[0]
        F = E.array('FDF', (P,), 'complex128')
        l0 = E.real('lam0', pos=True) if lam0Sq_m2 is None else lam0Sq_m2
        cw = None if weightArr is None else weightArr.copy()
        av = [widths_Hz, freqArr_Hz, phiArr_radm2, E.real('K', pos=True), weightArr]
        calls.add('synth', nu=freqArr_Hz.copy(), Q=dataQ.copy(), U=dataU.copy(), phi=phiArr_radm2.copy(), wd=widths_Hz, w=cw, given=lam0Sq_m2, lam0=l0, F=F.copy(), av=av)
        return F, l0, av
    E.stub(M, 'do_adjoint_rmsynth_planes', syn)


def rmsf(mask, double, width):
    def run(E):
        S = Spec(E)
        nF, nP = E.int('nF', 2), E.int('nP', 3)
        nu = E.array('nu', (nF,), 'float64', pos=True)
        wd = E.array('wd', (nF,), 'float64', pos=True) if width else None
        p0, d = E.real('phi0'), E.real('dphi')
        E.assume(S.ne(d, 0))
        phi = S.mkarr((nP,), lambda i: p0 + d * i)
        w = E.array('w', (nF,), 'float64', nan=True, nonneg=True)
        Mk = E.array('M', (nF,), 'bool') if mask else None
        peak, l0 = E.real('peak'), E.real('lam0v', pos=True)
        calls = Calls()
        stub_synthesis(E, S, calls)
        sims = []

        def simulate(peak_rm, freqArr_Hz, widths_Hz):
            sims.append((peak_rm, freqArr_Hz, widths_Hz))
            return [freqArr_Hz, E.array('sq', (nF,), 'float64'), E.array('su', (nF,), 'float64'), None, None]
        E.stub(M, 'bwdepol_simulation', simulate)
        keep = []

        def extrap(x, xp, yp):
            r = extrap_pre(E, S, x, xp, yp)
            if r is None:
                return keep[0](x, xp, yp)
            x, y0, dd = r
            return S.mkarr(x.dims, lambda j: y0 + dd * S.val(x, j))
        keep.append(E.stub(M, 'extrap', extrap, missing_ok=True))
        fz = S.freeze(*[a for a in (nu, wd, phi, w, Mk) if a is not None])
        R, p2, fw, st = S.call(E.fn(M, 'bwdepol_get_rmsf_planes'), nu, wd, phi, V.out(peak), weightArr=w, mskArr=Mk, lam0Sq_m2=V.out(l0), double=double, fitRMSF=False, log=S.silent)
        S.frame(fz)
        half = (nP + 1) // 2
        n2 = nP + 2 * half if double else nP
        S.shape('RMSF depth axis', p2, (n2,))
        S.shape('RMSF', R, (n2,))
        S.prove('one synthesis of one simulated source', TRUE if len(calls.get('synth', [])) == 1 and len(sims) == 1 else FALSE)
        c = calls['synth'][0]
        S.same('source depth', S.num(sims[0][0]), peak)
        S.prove('widths of the data', TRUE if sims[0][2] is wd and c['wd'] is wd else FALSE)
        S.same('reference lambda2', S.num(c['given']), l0)
        with S.forall(n2) as (p,):
            S.same('RMSF axis', S.at(p2, p), p0 + d * (S.num(p) - half) if double else S.at(phi, p))
            S.same('synthesised at the depths of the RMSF axis', S.at(c['phi'], p), S.at(p2, p))
            S.same('RMSF', S.at(R, p), S.at(c['F'], p))
        sq, su = E.array('sq', (nF,), 'float64'), E.array('su', (nF,), 'float64')
        eff = lambda a, k: S.if_(S.isnan(a, k), S.num(0), S.val(a, k))
        with S.forall(nF) as (k,):
            S.same('frequency', S.at(c['nu'], k), S.val(nu, k))
            S.same('source frequency', S.at(sims[0][1], k), S.val(nu, k))
            S.same('synthesised q', S.at(c['Q'], k), S.val(sq, k))
            S.same('synthesised u', S.at(c['U'], k), S.val(su, k))
            S.same('weight', eff(c['w'], k), S.if_(S.truth(S.at(Mk, k)), S.num(0), eff(w, k)) if mask else eff(w, k))
        l2 = lambda k: S.div(C, S.val(nu, k)) ** 2
        width_ = S.max(nF, l2) + S.max(nF, lambda k: 0 - l2(k))
        with E.ctx(S.ne(width_, 0)):
            S.same('main-lobe width', S.at(fw) if isinstance(fw, SArr) else S.num(fw), S.div(2 * S.sqrt(3), width_))
    return run


class Table(list):
    """2-D array of columns"""
    def __init__(self, cols):
        list.__init__(self, cols)
        self.shape = (len(cols), cols[0].dims[0])


def tool(cols, weight):
    def run(E):
        S = Spec(E)
        n = E.int('n', 2)
        nu = E.array('nu', (n,), 'float64', pos=True)
        E.assume(S.exists((n - 1,), lambda j: S.ne(S.val(nu, S.v(j) + 1), S.val(nu, j))))
        wd = E.array('wd', (n,), 'float64', pos=True)
        Q, U, I = (E.array(x, (n,), 'float64', nan=True) for x in 'QUI')
        dI = E.array('dI', (n,), 'float64', nan=True, pos=True)
        sg, hd = E.array('dqu', (n,), 'float64', pos=True), E.array('dqd', (n,), 'float64')
        fl = [E.array(x, (n,), 'float64', nan=True) for x in ('dqf', 'duf')]
        # errors given by their mean (positive) and half difference; each may be flagged
        dQ, dU = (S.mkarr((n,), lambda k, s_=s_, f_=f_: S.val(sg, k) + s_ * S.val(hd, k) + 0 * S.at(f_, k)) for s_, f_ in zip((1, -1), fl))
        data = Table([nu] + ([wd] if cols in (6, 8) else []) + ([I] if cols > 6 else []) + [Q, U] + ([dI] if cols > 6 else []) + [dQ, dU])
        fz = S.freeze(*data)
        calls = Calls()
        E.load(M)
        FR = E.load('RMutils.util_misc').__dict__['FitResult']
        par = E.array('par', (6,), 'float64')
        fr = FR(params=par, fitStatus=E.int('fitStatus', 0), chiSq=E.real('chiSq'), chiSqRed=E.real('chiSqRed'), AIC=E.real('AIC'), polyOrd=E.int('polyOrd', 0), nIter=0,
                reference_frequency_Hz=E.real('Iref', pos=True), dof=E.int('dof'), pcov=None, perror=E.array('perr', (6,), 'float64'), fit_function='log')
        q, u, dq, du = (E.array(x, (n,), 'float64', nan=True) for x in ('q', 'u', 'dq', 'du'))

        def frac(freqArr, IArr, QArr, UArr, dIArr, dQArr, dUArr, polyOrd=2, verbose=False, debug=False, fit_function='log', modStokesI=None):
            calls.add('frac', nu=freqArr.copy(), I=IArr.copy(), Q=QArr.copy(), U=UArr.copy(), dI=dIArr.copy(), dQ=dQArr.copy(), dU=dUArr.copy(), ord=polyOrd, mI=modStokesI)
            return E.array('IMod', (n,), 'float64'), q.copy(), u.copy(), dq.copy(), du.copy(), fr
        E.stub(M, 'create_frac_spectra', frac)
        nanerr = lambda k: S.or_(S.isnan(dQ, k), S.isnan(dU, k))
        bad = lambda k: S.or_(S.isnan(q, k), S.isnan(u, k), *([nanerr(k)] if weight == 'variance' else []))
        w = lambda k: S.if_(bad(k), S.num(0), S.div(1, S.val(sg, k) ** 2) if weight == 'variance' else S.num(1))
        E.assume(S.exists((n,), lambda k: S.not_(bad(k))))
        E.assume(S.lt(0, S.count(n, lambda k: S.not_(bad(k)))))
        E.assume(S.lt(0, S.sum(n, w)))
        stub_synthesis(E, S, calls)

        def model(fit_result, f):
            r = SV('f', t.app('IMODEL', *[S.v(S.at(fit_result.params, i)).re for i in range(6)], S.v(fit_result.reference_frequency_Hz).re, S.v(f).re))
            E.assume(S.ne(r, 0))
            calls.add('model', fr=fit_result, f=f, r=r)
            return V.out(r)
        E.stub(M, 'calculate_StokesI_model', model)

        def theory_(av, dQUArr, show_progress=False, log=print):
            P = av[2].dims[0]
            a = [av[2], E.array('sens', (P,), 'float64', pos=True), E.array('noise', (P,), 'float64', pos=True)]
            calls.add('theory', av=av, s=dQUArr.copy(), sens=a[1].copy(), noise=a[2].copy())
            return a
        E.stub(M, 'adjoint_theory', theory_)

        def rmsf_(freqArr_Hz, widths_Hz, phiArr_radm2, peak_rm, weightArr=None, mskArr=None, lam0Sq_m2=None, double=True, fitRMSF=True, fitRMSFreal=False, nBits=64, verbose=False, log=print):
            n2 = E.int('n2', 1)
            R, p2 = E.array('RMSF', (n2,), 'complex128'), E.array('phi2', (n2,), 'float64')
            fw = E.array('fw', (), 'float64', pos=True)
            calls.add('rmsf', nu=freqArr_Hz, wd=widths_Hz, phi=phiArr_radm2.copy(), peak=peak_rm, w=None if weightArr is None else weightArr.copy(), msk=None if mskArr is None else mskArr.copy(),
                      given=lam0Sq_m2, R=R.copy(), p2=p2, fw=fw)
            return R, p2, fw, E.array('fst', (), 'float64')
        E.stub(M, 'bwdepol_get_rmsf_planes', rmsf_)
        meas = {k: E.real(k) for k in ('ampPeakPIfit', 'polAngle0Fit_deg', 'phiPeakPIfit_rm2')}

        def measure(FDF, phiArr, fwhmRMSF, adjoint_sens, adjoint_noise, dFDF=None, lamSqArr_m2=None, lam0Sq=None, **k):
            calls.add('measure', F=FDF.copy(), phi=phiArr, fw=fwhmRMSF, sens=adjoint_sens, noise=adjoint_noise, dF=dFDF, l2=lamSqArr_m2, lam0=lam0Sq)
            return dict(meas)
        E.stub(M, 'bwdepol_measure_FDF_parms', measure)
        E.stub(M, 'measure_qu_complexity', lambda **k: (calls.add('cplx', **k), ({'sigmaAddQ': S.num(0)}, {}))[1])
        E.stub(M, 'nanmedian', lambda a: E.real('median'))
        grid = grid_args(E, S, 'max,step')
        E.assume(S.le(grid['dPhi_radm2'], grid['phiMax_radm2']))
        md, ad = S.call(E.fn(M, 'run_adjoint_rmsynth'), data, weightType=weight, log=S.silent, **grid)
        S.frame(fz)
        one = {k: calls.get(k, []) for k in ('frac', 'synth', 'theory', 'rmsf', 'measure', 'cplx')}
        S.prove('each stage runs once', TRUE if all(len(c) == 1 for c in one.values()) else FALSE)
        if not all(len(c) == 1 for c in one.values()):
            return
        f, c, th, r, ms, cp = (x[0] for x in one.values())
        P = S.num(c['phi'].dims[0])
        wid = lambda x: (x is wd) if cols in (6, 8) else (x is None)
        S.prove('channel widths of the data', TRUE if wid(c['wd']) and wid(r['wd']) else FALSE)
        with S.forall(n) as (k,):
            S.same('fit frequency in GHz', S.at(f['nu'], k), S.div(S.val(nu, k), 10 ** 9))
            for a, b in (('Q', Q), ('U', U), ('dQ', dQ), ('dU', dU)) + ((('I', I), ('dI', dI)) if cols > 6 else ()):
                S.same('input column ' + a, S.at(f[a], k), S.at(b, k))
            if cols < 7:
                S.same('no Stokes I: unity', S.at(f['I'], k), S.num(1))
            S.same('synthesised Q is q', S.at(c['Q'], k), S.at(q, k))
            S.same('synthesised U is u', S.at(c['U'], k), S.at(u, k))
            S.same('synthesis frequency', S.at(c['nu'], k), S.val(nu, k))
            S.same('RMSF frequency', S.at(r['nu'], k), S.val(nu, k))
            S.same('effective synthesis weight', S.if_(S.or_(S.isnan(q, k), S.isnan(u, k), S.isnan(c['w'], k)), S.num(0), S.val(c['w'], k)), w(k))
            off = S.isnan(r['w'], k) if r['msk'] is None else S.or_(S.isnan(r['w'], k), S.truth(S.at(r['msk'], k)))
            S.same('effective RMSF weight', S.if_(off, S.num(0), S.val(r['w'], k)), w(k))
            S.same('returned weight', S.at(ad['weightArr'], k), w(k))
            S.same('noise spectrum', S.at(th['s'], k), S.if_(nanerr(k), S.num(0), S.val(sg, k)))
            S.same('returned frequency', S.at(ad['freqArr_Hz'], k), S.val(nu, k))
            for a, b in (('freqArr_Hz', nu), ('qArr', q), ('uArr', u), ('dqArr', dq), ('duArr', du)):
                S.same('complexity input ' + a, S.at(cp[a], k), S.at(b, k))
        S.prove('reference lambda2 derived by the synthesis', TRUE if c['given'] is None else FALSE)
        S.prove('theory of that synthesis', TRUE if th['av'] is c['av'] or all(x is y for x, y in zip(th['av'], c['av'])) else FALSE)
        S.same('RMSF reference lambda2', S.num(r['given']), S.num(c['lam0']))
        f0 = S.div(C, S.sqrt(c['lam0']))
        S.same('reference frequency', S.num(md['freq0_Hz']), f0)
        I0 = S.num(md['Ifreq0'])
        S.same('Stokes I model at the reference frequency', I0, SV('f', t.app('IMODEL', *[S.v(S.at(par, j)).re for j in range(6)], S.v(fr.reference_frequency_Hz).re, S.v(S.div(f0, 10 ** 9)).re)))
        with S.forall(P) as (j,):
            S.same('RMSF depths', S.at(r['phi'], j), S.at(c['phi'], j))
            S.same('measured depths', S.at(ms['phi'], j), S.at(c['phi'], j))
            S.same('measured FDF', S.at(ms['F'], j), I0 * S.at(c['F'], j))
            S.same('sensitivity used in the measurement', S.at(ms['sens'], j), S.at(th['sens'], j))
            S.same('noise used in the measurement', S.at(ms['noise'], j), S.at(th['noise'], j))
            S.same('returned depths', S.at(ad['phiArr_radm2'], j), S.at(c['phi'], j))
            S.same('returned FDF', S.at(ad['dirtyFDF'], j), S.div(I0 * S.at(c['F'], j), S.at(th['sens'], j)))
        with S.forall(r['R'].dims[0]) as (j,):
            S.same('returned RMSF', S.at(ad['RMSFArr'], j), S.at(r['R'], j))
            S.same('returned RMSF depths', S.at(ad['phi2Arr_radm2'], j), S.at(r['p2'], j))
        # the RMSF source sits where the FDF is largest in units of its noise, edge depths excluded
        snr = lambda j: S.div(S.sqrt(S.abs2(S.at(c['F'], j))), S.at(th['noise'], j))
        top = E.np.argmax(S.mkarr((P - 2,), lambda j: snr(S.v(j) + 1)))
        S.same('RMSF source depth is that of the (first) highest peak', S.num(r['peak']), S.at(c['phi'], S.num(top) + 1))
        for nm, a, b in (('RMSF width', md['fwhmRMSF'], S.at(r['fw'])), ('width used in the measurement', ms['fw'], S.at(r['fw'])), ('lambda2_0', md['lam0Sq_m2'], c['lam0']),
                         ('lambda2_0 used in the measurement', ms['lam0'], c['lam0']), ('fit status', md['IfitStat'], fr.fitStatus), ('fit chi-squared', md['IfitChiSqRed'], fr.chiSqRed),
                         ('fraction', md['fracPol'], S.div(meas['ampPeakPIfit'], I0))):
            S.same(nm, S.num(a), S.num(b))
        ok = lambda k: S.ne(w(k), 0)
        S.same('channel count', S.num(md['N_channels']), S.count(n, ok))
        S.same('lowest frequency', S.num(md['min_freq']), -S.max(n, lambda k: -S.val(nu, k), ok))
        S.same('highest frequency', S.num(md['max_freq']), S.max(n, lambda k: S.val(nu, k), ok))
    return run


UNITS = [('antiderivative', antiderivative), ('channel operators', operators('array')), ('channel operators, uniform widths', operators(None)), ('theory', theory),
         ('spectrum', synthesis(1, True, False, True)), ('cube', synthesis(3, True, False, True)), ('image plane, uniform widths and weights', synthesis(2, False, False, False)),
         ('spectrum, given lambda2_0', synthesis(1, True, True, False)),
         ('RMSF', rmsf(True, True, True)), ('RMSF, not doubled, no mask, uniform widths', rmsf(False, False, False)),
         ('tool, 8 columns', tool(8, 'variance')), ('tool, 7 columns, uniform weights', tool(7, 'uniform')), ('tool, 6 columns', tool(6, 'variance')), ('tool, 5 columns', tool(5, 'uniform'))]
