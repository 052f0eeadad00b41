"""Harness shared by C05, C06 and C22: the synthesis pipelines with their callees replaced by contracts
(every call recorded; results are arbitrary values of the type and shape the callee promises)."""
from pyvc import terms as t, values as V
from pyvc.spec import *
from pyvc.values import SV, lift

C = 299792458
M1 = 'RMtools_1D.do_RMsynth_1D'
M3 = 'RMtools_3D.do_RMsynth_3D'


class Calls(dict):
    lam0 = None       # value of lambda2_0 the synthesis is to return

    def add(self, nm, **k):
        self.setdefault(nm, []).append(k)


def lam2(S, nu):
    return lambda k: S.div(C, S.val(nu, k)) ** 2


def rm_stubs(E, S, mod, calls, dims=()):
    """do_rmsynth_planes / get_rmsf_planes: contracts C01 and C02"""
    sq = tuple(d for d in dims if not (isinstance(d, int) and d == 1))

    def synth(dataQ, dataU, lambdaSqArr_m2, phiArr_radm2, weightArr=None, lam0Sq_m2=None, nBits=32, verbose=False, log=print):
        # degenerate axes are removed (C01, C02); there are always at least three depths here
        F = E.array('FDF', (phiArr_radm2.dims[0], *sq), 'complex128', nan=True)
        l0 = (calls.lam0 if calls.lam0 is not None else E.real('lam0', pos=True)) if lam0Sq_m2 is None else S.num(lam0Sq_m2)
        l0 = V.out(l0)
        calls.add('synth', Q=dataQ.copy(), U=dataU.copy(), l2=lambdaSqArr_m2.copy(), phi=phiArr_radm2.copy(),
                  w=None if weightArr is None else weightArr.copy(), given=lam0Sq_m2, lam0=l0, F=F.copy())
        return F, l0

    def rmsf(lambdaSqArr_m2, phiArr_radm2, weightArr=None, mskArr=None, lam0Sq_m2=None, double=True, fitRMSF=False, fitRMSFreal=False, nBits=32, verbose=False, log=print):
        n2 = E.int('n2', 1)
        R = E.array('RMSF', (n2, *sq), 'complex128')
        p2 = E.array('phi2', (n2,), 'float64')
        fw = E.array('fw', sq, 'float64', pos=True)
        st = E.array('fst', sq, 'float64')
        l0 = lam0Sq_m2 if lam0Sq_m2 is not None else E.real('lam0', pos=True)
        calls.add('rmsf', l2=lambdaSqArr_m2.copy(), phi=phiArr_radm2.copy(), w=None if weightArr is None else weightArr.copy(), msk=None if mskArr is None else mskArr.copy(),
                  given=lam0Sq_m2, double=double, fit=fitRMSF, real=fitRMSFreal, R=R, p2=p2, fw=fw, st=st, lam0=l0)
        return R, p2, fw, st, l0
    E.stub(mod, 'do_rmsynth_planes', synth)
    E.stub(mod, 'get_rmsf_planes', rmsf)


def grid_args(E, S, mode):
    """depth settings: given, or any of them defaulted"""
    k = {}
    if 'max' in mode:
        k['phiMax_radm2'] = E.real('phiMax', pos=True)
    if 'step' in mode:
        k['dPhi_radm2'] = E.real('dPhi', pos=True)
    elif 'samples' in mode:
        k['nSamples'] = E.real('nSamples', pos=True)
    return k


def grid_target(S, nu, n, k, superres):
    """requested or default spacing and extent"""
    E = S.E
    l2 = lam2(S, nu)
    mx = S.max(n, l2)
    mn = -S.max(n, lambda j: -l2(j))
    fwhm = S.div(2, mx + mn) if superres else S.div(S.num(V.SV('f', t.num(__import__('fractions').Fraction('3.8')))), mx - mn)
    step = k['dPhi_radm2'] if 'dPhi_radm2' in k else S.div(fwhm, k.get('nSamples', 10))
    if 'phiMax_radm2' in k:
        top = k['phiMax_radm2']
    else:
        a = S.div(S.sqrt(3), S.max(n - 1, lambda j: S.abs(l2(S.v(j) + 1) - l2(j))))
        b = fwhm * 10
        top = b if E.decide(S.truth(S.lt(a, b))) else a
    return step, top


def grid_spec(S, step, top, phi):
    """C05: phi is an odd, uniform, symmetric grid with the requested (or default) extent and spacing"""
    P = S.num(phi.dims[0])
    h = S.div(P - 1, 2)
    S.prove('odd number of depths', t.eq(V.cfloor(h).re, h.re))
    S.prove('at least one depth', S.le(1, P))
    S.prove('positive spacing', S.lt(0, step))
    S.prove('positive maximum', S.lt(0, top))
    S.prove('the grid reaches the maximum to within half a spacing', S.le(S.abs(h - S.abs(S.div(top, step))), S.div(1, 2)))
    with S.forall(phi.dims[0]) as (j,):
        S.same('uniform grid about zero', S.at(phi, j), (S.v(j) - h) * step)


def run1d(E, mode='max,step', superres=False, cols=7, weight='variance', given_I=False, flags=True):
    """-> S, inputs, calls, mDict, aDict of do_RMsynth_1D.run_rmsynth"""
    S = Spec(E)
    n = E.int('n', 2)
    nu = E.array('nu', (n,), 'float64', pos=True)
    # two different frequencies
    E.assume(S.exists((n - 1,), lambda j: S.ne(S.val(nu, S.v(j) + 1), S.val(nu, j))))
    l2 = lam2(S, nu)
    Q, U, I = (E.array(x, (n,), 'float64', nan=flags) for x in 'QUI')
    dQ, dU, dI = (E.array(x, (n,), 'float64', nan=flags, pos=True) for x in ('dQ', 'dU', 'dI'))
    data = [nu, I, Q, U, dI, dQ, dU] if cols == 7 else [nu, Q, U, dQ, dU]
    fz = S.freeze(*data)
    mI = E.array('mI', (n,), 'float64', pos=True) if given_I else None
    calls = Calls()
    m = E.load(M1)
    FR = E.load('RMutils.util_misc').__dict__['FitResult']
    params = E.array('par', (6,), 'float64')
    fr = FR(params=params, fitStatus=E.int('fitStatus', 0) if flags else 0, chiSq=E.real('chiSq'), chiSqRed=E.real('chiSqRed'), AIC=E.real('AIC'), polyOrd=E.int('polyOrd', 0), nIter=0,
            reference_frequency_Hz=E.real('Iref', pos=True), dof=E.int('dof'), pcov=None, perror=E.array('perr', (6,), 'float64'), fit_function='log')
    q, u = (E.array(x, (n,), 'float64', nan=flags) for x in ('q', 'u'))
    # errors given by their mean (positive) and half difference; each may be flagged
    sg = E.array('dqu', (n,), 'float64', pos=True)
    hd = E.array('dqd', (n,), 'float64')
    fl = [E.array(x, (n,), 'float64', nan=flags) for x in ('dqf', 'duf')]
    dq, du = (S.mkarr((n,), lambda k, s_=s_, f_=f_: S.val(sg, k) + s_ * S.val(hd, k) + 0 * S.at(f_, k)) for s_, f_ in zip((1, -1), fl))

    def frac(freqArr, IArr, QArr, UArr, dIArr, dQArr, dUArr, polyOrd=2, verbose=False, debug=False, fit_function='log', modStokesI=None):
        calls.add('frac', nu=freqArr.copy(), I=IArr.copy(), Q=QArr.copy(), U=UArr.copy(), dI=dIArr.copy(), dQ=dQArr.copy(), dU=dUArr.copy(), ord=polyOrd, fam=fit_function, mI=modStokesI)
        return E.array('IMod', (n,), 'float64'), q.copy(), u.copy(), dq.copy(), du.copy(), fr
    E.stub(M1, 'create_frac_spectra', frac)
    if flags:
        # at least one usable channel
        bad = lambda k: S.or_(S.isnan(q, k), S.isnan(u, k), *([S.isnan(dq, k), S.isnan(du, k)] if weight == 'variance' else []))
        E.assume(S.exists((n,), lambda k: S.not_(bad(k))))
        E.assume(S.lt(0, S.count(n, lambda k: S.not_(bad(k)))))
        E.assume(S.lt(0, S.sum(n, lambda k: S.if_(bad(k), S.num(0), S.div(1, S.val(sg, k) ** 2)))))
    rm_stubs(E, S, M1, calls)

    def model(fit_result, f):
        # contract of renormalize_StokesI_model (C09): the model of its result is the model of its argument
        for c in calls.get('ren', ()):
            if fit_result.params is c['params'] and V.lift(fit_result.reference_frequency_Hz).re == S.v(c['f']).re:
                fit_result = c['old']
        pr = [S.v(S.at(fit_result.params, i)).re for i in range(6)] + [S.v(fit_result.reference_frequency_Hz).re]
        ev = lambda x: SV('f', t.app('IMODEL_' + fit_result.fit_function, *pr, S.v(x).re))
        if isinstance(f, SArr):
            return S.mkarr(f.dims, lambda *ix: ev(S.at(f, *ix)))
        r = ev(f)
        E.assume(S.ne(r, 0))
        calls.add('model', fr=fit_result, f=f, r=r)
        return V.out(r)
    E.stub(M1, 'calculate_StokesI_model', model)

    def ren(fit_result, new):
        par2 = E.array('par2', (6,), 'float64')
        calls.add('ren', f=new, params=par2, old=fit_result)
        return fit_result.with_options(params=par2, reference_frequency_Hz=new, perror=E.array('perr2', (6,), 'float64'))
    E.stub(M1, 'renormalize_StokesI_model', ren)

    def interp1d(x, y, *a, **k):
        def f(z):
            if isinstance(z, SArr):
                return S.mkarr(z.dims, lambda *ix: S.num(0))
            r = S.app('INTERP', z)
            E.assume(S.ne(r, 0))
            calls.add('interp', x=x, y=y, f=z, r=r)
            return V.out(r)
        return f
    m.__dict__['interp1d'] = interp1d
    meas = {k: E.real(k) for k in ('ampPeakPIfitEff', 'polAngle0Fit_deg', 'phiPeakPIfit_rm2', 'dFDFcorMAD')}

    def measure(FDF, phiArr, fwhmRMSF, dFDF=None, lamSqArr_m2=None, lam0Sq=None, **k):
        calls.add('measure', F=FDF.copy(), phi=phiArr, fw=fwhmRMSF, dF=dFDF, l2=lamSqArr_m2, lam0=lam0Sq)
        return dict(meas)
    E.stub(M1, 'measure_FDF_parms', measure)
    E.stub(M1, 'measure_qu_complexity', lambda **k: (calls.add('cplx', **k), ({'sigmaAddQ': S.num(0)}, {}))[1])
    E.stub(M1, 'nanmedian', lambda a: E.real('median'))
    k = grid_args(E, S, mode)
    tgt = grid_target(S, nu, n, k, superres)
    r = S.call(E.fn(M1, 'run_rmsynth'), data, weightType=weight, modStokesI=mI, super_resolution=superres, nBits=64, log=S.silent, noStokesI=False, polyOrd=3, fitRMSF=False, **k)
    S.frame(fz)
    inp = dict(n=n, nu=nu, Q=Q, U=U, I=I, dQ=dQ, dU=dU, dI=dI, mI=mI, q=q, u=u, dq=dq, du=du, sg=sg, fr=fr, k=k, tgt=tgt, l2=l2, meas=meas)
    return S, inp, calls, r[0], r[1]


def run3d(E, mode='max,step', superres=False, stokesI=False, rms=False, weight='variance', flags=True, order=1, size=(2, 2)):
    S = Spec(E)
    n = E.int('n', 2)
    ny, nx = (E.int(x, 2) if z > 1 else 1 for x, z in zip(('ny', 'nx'), size))
    nu = E.array('nu', (n,), 'float64', pos=True)
    E.assume(S.exists((n - 1,), lambda j: S.ne(S.val(nu, S.v(j) + 1), S.val(nu, j))))
    l2 = lam2(S, nu)
    Q, U = (E.array(x, (n, ny, nx), 'float64', nan=flags) for x in 'QU')
    I = E.array('I', (n, ny, nx), 'float64', pos=True) if stokesI else None
    s = E.array('rms', (n,), 'float64', pos=True) if rms else None
    fz = S.freeze(*[x for x in (nu, Q, U, I, s) if x is not None])
    calls = Calls()
    rm_stubs(E, S, M3, calls, (ny, nx))
    k = grid_args(E, S, mode)
    tgt = grid_target(S, nu, n, k, superres)
    x = {}
    if stokesI:
        # strictly monotonic frequencies; the reference frequency lies between channels a0 and a0 + 1
        E.facts.quant.append(('monotone', 2, lambda a, b: [t.implies(t.band(t.le(t.ZERO, a), t.lt(a, b), t.lt(b, S.v(n).re)), S.lt(order * S.val(nu, a), order * S.val(nu, b)))]))
        a0 = E.int('a0', 0)
        E.assume(S.lt(S.v(a0) + 1, n))
        x['a0'] = a0
        if superres:
            x['f0'] = S.div(S.sum(n, lambda j: S.val(nu, j)), n)
        else:
            x['lam0'] = E.real('lam0', pos=True)
            x['f0'] = S.div(C, S.sqrt(x['lam0']))
        E.assume(S.le(order * S.val(nu, a0), order * x['f0']))
        E.assume(S.le(order * x['f0'], order * S.val(nu, S.v(a0) + 1)))

        def interp_images(p, q, f=0.5):
            # contract of interp_images (proved in C22): linear interpolation, defined for 0 <= f <= 1
            S.prove('interpolation fraction', S.and_(S.le(0, f), S.le(f, 1)))
            return S.mkarr((ny, nx), lambda y, x: S.at(p, y, x) + S.num(f) * (S.at(q, y, x) - S.at(p, y, x)))
        E.stub(M3, 'interp_images', interp_images)
    calls.lam0 = x.get('lam0')
    r = S.call(E.fn(M3, 'run_rmsynth'), Q, U, nu, dataI=I, rmsArr=s, weightType=weight, nBits=64, verbose=False, log=S.silent, super_resolution=superres, **k)
    S.frame(fz)
    inp = dict(x, n=n, ny=ny, nx=nx, nu=nu, Q=Q, U=U, I=I, s=s, k=k, tgt=tgt, l2=l2)
    return S, inp, calls, r
