"""C06  do_RMsynth_1D.run_rmsynth applies one weighting, one channel mask and one flux scale throughout.

pre : positive frequencies (two adjacent ones different), positive finite-or-NaN errors, at least one usable channel
      (finite q, u and weight); the callees obey their own contracts (C01, C02, C07, C08, C09)
post: with w_k = 1/((dq_k+du_k)/2)^2 ('variance') or 1, and 0 for unusable channels, and s_k the mean error (0 if NaN):
      - synthesis and RMSF see the same lambda2, depths, effective weights w and lambda2_0 (derived, or 0 in super-resolution mode)
      - freq0 = c/sqrt(lambda2_0), or the Stokes I reference frequency in super-resolution mode; the returned FDF is the
        synthesised one times I0, the Stokes I model (fitted, or the supplied one interpolated) at freq0
      - dFDFth = |I0| sqrt(sum w^2 s^2) / sum w; the same noise, FDF, width and lambda2_0 go to the peak measurement
      - N_channels, min_freq, max_freq are those of the channels with w != 0; the weights returned are w
"""
from pyvc import terms as t, values as V
from pyvc.spec import *
from contracts.pipe import *


def run(weight, superres=False, cols=7, given_I=False):
    def go(E):
        S, i, calls, md, ad = run1d(E, 'max,step', superres, cols, weight, given_I)
        n, nu, q, u = i['n'], i['nu'], i['q'], i['u']
        dqu = lambda k: S.val(i['sg'], k)
        nanerr = lambda k: S.or_(S.isnan(i['dq'], k), S.isnan(i['du'], k))
        unusable = lambda k: S.or_(S.isnan(q, k), S.isnan(u, k), *([nanerr(k)] if weight == 'variance' else []))
        w = lambda k: S.if_(unusable(k), S.num(0), S.div(1, dqu(k) ** 2) if weight == 'variance' else S.num(1))
        s = lambda k: S.if_(nanerr(k), S.num(0), dqu(k))
        one = {k: calls.get(k, []) for k in ('frac', 'synth', 'rmsf', 'measure', 'cplx')}
        S.prove('each stage runs once', TRUE if all(len(c) == 1 for c in one.values()) else FALSE)
        if not all(len(c) == 1 for c in one.values()):
            return
        fr, c, r, ms, cp = (one[k][0] for k in ('frac', 'synth', 'rmsf', 'measure', 'cplx'))

        # fractional spectra come from the input columns
        for a in ('nu', 'Q', 'U', 'dQ', 'dU') + (('I', 'dI') if cols == 7 else ()):
            with S.forall(n) as (k,):
                S.same('input column ' + a, S.at(fr[a], k), S.at(i[a], k))
        if cols == 5:
            with S.forall(n) as (k,):
                S.same('no Stokes I: unity', S.at(fr['I'], k), S.num(1))
        S.prove('model, order and family passed on', TRUE if fr['mI'] is i['mI'] and fr['ord'] == 3 and fr['fam'] == 'log' else FALSE)

        # one weighting, mask, lambda2 and depth axis
        with S.forall(n) as (k,):
            S.same('synthesised Q is q', S.at(c['Q'], k), S.at(q, k))
            S.same('synthesised U is u', S.at(c['U'], k), S.at(u, k))
            for nm, x in (('synthesis', c), ('RMSF', r)):
                S.same(nm + ' lambda2', S.at(x['l2'], k), i['l2'](k))
            ws = lambda k: S.if_(S.or_(S.isnan(q, k), S.isnan(u, k), S.isnan(c['w'], k)), S.num(0), S.val(c['w'], k))
            wr = lambda k: S.if_(S.isnan(r['w'], k), S.num(0), S.val(r['w'], k))
            if r['msk'] is not None:
                wr0, wr = wr, (lambda k: S.if_(S.truth(S.at(r['msk'], k)), S.num(0), wr0(k)))
            S.same('effective synthesis weight', ws(k), w(k))
            S.same('effective RMSF weight', wr(k), w(k))
            S.same('returned weight', S.at(ad['weightArr'], k), w(k))
            S.same('returned frequency', S.at(ad['freqArr_Hz'], k), S.at(nu, k))
        with S.forall(c['phi'].dims[0]) as (j,):
            S.same('RMSF depth', S.at(r['phi'], j), S.at(c['phi'], j))
        S.prove('synthesis reference lambda2', TRUE if (c['given'] is None) != superres else FALSE)
        if superres:
            S.same('reference lambda2 of super-resolution', S.num(c['given']), S.num(0))
        S.same('RMSF reference lambda2', S.num(r['given']), S.num(c['lam0']))

        # flux scale
        f0 = i['fr'].reference_frequency_Hz if superres else S.div(C, S.sqrt(c['lam0']))
        S.same('reference frequency', S.num(md['freq0_Hz']), f0)
        I0 = S.num(md['Ifreq0'])
        if given_I:
            S.prove('supplied model interpolated', TRUE if calls.get('interp') else FALSE)
            for z in calls['interp'][-1:]:
                S.same('interpolated at', S.num(z['f']), f0)
                S.same('interpolated value', I0, z['r'])
                with S.forall(n) as (k,):
                    S.same('interpolation abscissa', S.at(z['x'], k), S.at(nu, k))
                    S.same('interpolated model', S.at(z['y'], k), S.at(i['mI'], k))
        else:
            p = i['fr']
            S.same('Stokes I model at the reference frequency', I0,
                   V.SV('f', t.app('IMODEL_log', *[S.v(S.at(p.params, j)).re for j in range(6)], S.v(p.reference_frequency_Hz).re, S.v(f0).re)))
        with S.forall(c['phi'].dims[0]) as (j,):
            S.same('returned FDF', S.at(ad['dirtyFDF'], j), S.at(c['F'], j) * I0)
            S.same('measured FDF', S.at(ms['F'], j), S.at(c['F'], j) * I0)
        with S.forall(r['R'].dims[0]) as (j,):
            S.same('returned RMSF', S.at(ad['RMSFArr'], j), S.at(r['R'], j))
            S.same('returned RMSF depth', S.at(ad['phi2Arr_radm2'], j), S.at(r['p2'], j))

        # noise, statistics, bookkeeping
        W = S.sum(n, w)
        N = S.div(S.abs(I0) * S.sqrt(S.sum(n, lambda k: w(k) ** 2 * s(k) ** 2)), W)
        S.same('theoretical noise', S.num(md['dFDFth']), N)
        S.same('noise used in the measurement', S.num(ms['dF']), N)
        for nm, a, b in (('RMSF width', md['fwhmRMSF'], S.at(r['fw'])), ('width used in the measurement', ms['fw'], S.at(r['fw'])), ('lambda2_0', md['lam0Sq_m2'], c['lam0']),
                         ('lambda2_0 used in the measurement', ms['lam0'], c['lam0']), ('fit status', md['IfitStat'], i['fr'].fitStatus), ('fit chi-squared', md['IfitChiSqRed'], i['fr'].chiSqRed),
                         ('order', md['polyOrd'], i['fr'].polyOrd), ('fraction', md['fracPol'], S.div(i['meas']['ampPeakPIfitEff'], I0))):
            S.same(nm, S.num(a), S.num(b))
        ok = lambda k: S.ne(w(k), 0)
        S.same('channel count', S.num(md['N_channels']), S.count(n, ok))
        S.same('lowest frequency', S.num(md['min_freq']), -S.max(n, lambda k: -S.val(nu, k), ok))
        S.same('highest frequency', S.num(md['max_freq']), S.max(n, lambda k: S.val(nu, k), ok))
        with S.forall(n) as (k,):
            for a, b in (('freqArr_Hz', nu), ('qArr', q), ('uArr', u), ('dqArr', i['dq']), ('duArr', i['du'])):
                S.same('complexity input ' + a, S.at(cp[a], k), S.at(b, k))
        for a, b in (('fracPol', S.div(i['meas']['ampPeakPIfitEff'], I0)), ('psi0_deg', i['meas']['polAngle0Fit_deg']), ('RM_radm2', i['meas']['phiPeakPIfit_rm2'])):
            S.same('complexity input ' + a, S.num(cp[a]), S.num(b))
    return go


UNITS = [('%s weights%s%s%s' % (w, ', super-resolution' * sr, ', 5 columns' * (c == 5), ', supplied model' * g), run(w, sr, c, g))
         for w, sr, c, g in (('variance', False, 7, False), ('uniform', False, 7, False), ('variance', True, 7, False), ('variance', False, 5, False), ('variance', False, 7, True), ('uniform', True, 7, True))]
