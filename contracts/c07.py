"""C07  Peak measurement (util_RM.measure_FDF_parms, util_misc.calc_parabola_vertex, util_misc.MAD).

calc_parabola_vertex: for points of any parabola a x^2 + b x + c (a != 0, distinct abscissae, non-zero middle value) the
      result is the vertex (-b/2a, c - b^2/4a)
measure_FDF_parms: finite FDF, uniform ascending depths (at least three), positive width and noise, channel lambda2
      (some not NaN): peak channel m = first highest |FDF| excluding the first and last depth; vertex of the parabola through
      (phi, |FDF|) at m-1, m, m+1, NaN if outside the sampled depths; errors, bias correction and angles by the stated formulas;
      measured noise = MAD of the real and imaginary parts more than two RMSF widths from the peak channel (of all if fewer than
      30% are left), and used as the noise if none is given
MAD: median(|a - median(a)|) / 0.6745 over the values that are not NaN
"""
from fractions import Fraction as Fr
from pyvc import terms as t, values as V
from pyvc.spec import *
from pyvc.values import SV, lift

M = 'RMutils.util_RM'
TRUSTED = ['numpy.interp, numpy.median, numpy.nanargmax, arctan2: by name (same function of the same arguments)']


def parabola(uniform):
    def run(E):
        # points x2 + dl u, Y (1 + al u^2 + be u) at u = r, 0, -1: any parabola with non-zero middle value, any distinct abscissae
        S = Spec(E)
        x2, be, r = (E.real(k) for k in ('x2', 'be', 'r'))
        dl, Y, al = (E.real(k) for k in ('dl', 'Y', 'al'))
        for v in (dl, Y, al):
            E.assume(S.ne(v, 0))
        if uniform:
            r = S.num(1)
        else:
            E.assume(S.ne(r, 0))
            E.assume(S.ne(r + 1, 0))
        pts = []
        for u in (r, S.num(0), S.num(-1)):
            pts += [V.out(x2 + dl * u), V.out(Y * (1 + al * u * u + be * u))]
        xv, yv = S.call(E.fn('RMutils.util_misc', 'calc_parabola_vertex'), *pts)
        S.same('abscissa of the vertex', S.num(xv), x2 - S.div(dl * be, 2 * al))
        S.same('ordinate of the vertex', S.num(yv), Y * (1 - S.div(be * be, 4 * al)))
    return run


def mad(E):
    S = Spec(E)
    n = E.int('n', 1)
    a = E.array('a', (n,), 'float64', nan=True)
    E.assume(S.exists((n,), lambda k: S.not_(S.isnan(a, k))))
    fz = S.freeze(a)
    r = S.call(E.fn('RMutils.util_misc', 'MAD'), a)
    S.frame(fz)
    med = SV('f', V.tonum(V.lift(E.np.nanmedian(a))).re)
    S.same('median absolute deviation', S.num(r), S.div(S.num(E.np.nanmedian(E.np.abs(a - med))), S.num(SV('f', t.num(Fr('0.6745'))))))


def measure(given_noise, case):
    def run(E):
        S = Spec(E)
        np = E.np
        P, n = E.int('P', 3), E.int('n', 1)
        p0, d = E.real('phi0'), E.real('dphi', pos=True)
        phi = S.mkarr((P,), lambda i: p0 + d * i)
        F = E.array('F', (P,), 'complex128')
        l2 = E.array('l2', (n,), 'float64')
        fw, dF = E.real('fw', pos=True), E.real('dF', pos=True)
        lam0 = E.real('lam0')
        snr0 = E.real('snr0')
        mads, para = [], []

        def MAD(a, c=None, axis=None):
            r = E.real('mad%d' % len(mads), pos=True)
            mads.append((a.copy(), r))
            return V.out(r)
        E.stub(M, 'MAD', MAD)

        def vertex(*pts):
            r = E.real('xv'), E.real('yv')
            E.assume(S.ne(r[1], 0))
            out = S.or_(S.lt(r[0], p0), S.lt(p0 + d * (P - 1), r[0]))
            E.assume(out if case == 'outside' else S.not_(out))
            if case != 'outside':
                snr = S.div(r[1], dF if given_noise else mads[-1][1])
                E.assume(S.lt(snr, snr0) if case == 'faint' else S.le(snr0, snr))
            para.append((pts, r))
            return V.out(r[0]), V.out(r[1])
        E.stub(M, 'calc_parabola_vertex', vertex)
        fz = S.freeze(F, phi, l2)
        E.assume(S.ne(n, 1))
        E.assume(S.ne(n, 2))
        s1 = S.sum(n, lambda k: S.val(l2, k))
        var = S.div(S.sum(n, lambda k: S.val(l2, k) ** 2) - S.div(s1 ** 2, n), n - 1)
        E.assume(S.lt(0, var))
        m = S.call(E.fn(M, 'measure_FDF_parms'), F, phi, V.out(fw), dFDF=V.out(dF) if given_noise else None, lamSqArr_m2=l2, lam0Sq=V.out(lam0), snrDoBiasCorrect=V.out(snr0))
        S.frame(fz)
        S.prove('one parabola, one measured noise', TRUE if len(para) == 1 and len(mads) == 1 else FALSE)
        pts, (xv, yv) = para[0]
        # peak channel
        mag = lambda j: S.sqrt(S.abs2(S.val(F, j)))
        pk = S.num(np.argmax(S.mkarr((P - 2,), lambda j: mag(S.v(j) + 1)))) + 1
        for i, (px, py) in enumerate(zip(pts[::2], pts[1::2])):
            S.same('parabola point %d' % i, S.num(px), S.at(phi, pk + (i - 1)))
            S.same('parabola value %d' % i, S.num(py), mag(pk + (i - 1)))
        # measured noise
        w = 2 * V.cceil(S.div(fw, d))
        blank = F.copy()
        B = E.load(M).__dict__['__builtins__']
        blank[B['int'](B['max'](0, V.out(pk - w))):B['int'](B['min'](V.out(P), V.out(pk + w)))] = np.nan
        keep = blank[np.where(blank == blank)]
        few = S.lt(S.div(keep.dims[0] if not isinstance(keep.dims[0], t.T) else SV('i', keep.dims[0]), P), S.num(SV('f', t.num(Fr('0.3')))))
        arg = mads[0][0]
        cut = E.decide(S.truth(few))
        ref = np.concatenate((np.real(F), np.imag(F))) if cut else np.concatenate((np.real(keep), np.imag(keep)))
        S.shape('values of the measured noise', arg, ref.dims)
        with S.forall(ref.dims[0]) as (j,):
            S.same('values of the measured noise', S.at(arg, j), S.at(ref, j))
        S.same('measured noise', S.num(m['dFDFcorMAD']), mads[0][1])
        N = dF if given_noise else mads[0][1]
        S.same('noise', S.num(m['dAmpPeakPIfit']), N)
        # vertex, errors
        out = S.or_(S.lt(xv, p0), S.lt(p0 + d * (P - 1), xv))
        nan = SV('f', t.ZERO, t.ZERO, TRUE)
        got = lambda k: S.num(m[k])
        if case == 'outside':
            for k in ('phiPeakPIfit_rm2', 'ampPeakPIfit', 'dPhiPeakPIfit_rm2', 'dPolAngleFit_deg', 'polAngleFit_deg', 'polAngle0Fit_deg', 'dPolAngle0Fit_deg'):
                S.prove(k + ' is NaN when the vertex is outside the sampled depths', S.isnan_v(got(k)))
            return
        S.same('peak depth', got('phiPeakPIfit_rm2'), xv)
        S.same('peak amplitude', got('ampPeakPIfit'), yv)
        S.same('signal to noise', got('snrPIfit'), S.div(yv, N))
        S.same('depth error', got('dPhiPeakPIfit_rm2'), S.div(fw * N, 2 * yv))
        b2 = yv ** 2 - S.num(SV('f', t.num(Fr('2.3')))) * N ** 2
        if case == 'bright':
            S.same_if('bias-corrected amplitude', S.le(0, b2), got('ampPeakPIfitEff'), S.sqrt(b2))
            S.prove('bias-corrected amplitude undefined', S.implies(S.lt(b2, 0), S.isnan_v(got('ampPeakPIfitEff'))))
        else:
            S.same('amplitude below the bias threshold', got('ampPeakPIfitEff'), yv)
        qi, ui = (S.num(np.interp(V.out(xv), phi, f(F))) for f in (np.real, np.imag))
        S.same('real part at the vertex', got('peakFDFrealFit'), qi)
        S.same('imaginary part at the vertex', got('peakFDFimagFit'), ui)
        deg = lambda x: S.div(x * 180, S.pi)
        rad = lambda x: S.div(x * S.pi, 180)
        psi, psi0 = got('polAngleFit_deg'), got('polAngle0Fit_deg')
        raw = S.div(deg(S.num(np.arctan2(V.out(ui), V.out(qi)))), 2)
        raw0 = deg(rad(psi) - xv * lam0)
        for nm, a, r in (('observed', psi, raw), ('intrinsic', psi0, raw0)):
            S.same(nm + ' angle is half the phase / is derotated, modulo 180 degrees', a, r - 180 * S.num(V.cfloor(S.div(r, 180))))
            S.prove(nm + ' angle within [0, 180)', S.and_(S.le(0, a), S.lt(a, 180)))
        S.same('angle error', got('dPolAngleFit_deg'), deg(S.div(N, 2 * yv)))
        rest = S.div(n - 1, n) + S.div(lam0 ** 2, var)
        S.same('intrinsic angle error', got('dPolAngle0Fit_deg'), deg(S.sqrt(S.div(N ** 2 * n, 4 * (n - 2) * yv ** 2) * rest)))
    return run


UNITS = [('parabola, equal spacing', parabola(True)), ('parabola', parabola(False)), ('MAD', mad), *[('measurement%s, %s' % ('' if g else ' with measured noise', c), measure(g, c)) for c, g in (('faint', True), ('bright', True), ('outside', True), ('faint', False), ('bright', False), ('outside', False))]]
