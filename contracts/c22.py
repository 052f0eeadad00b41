"""C22  do_RMsynth_3D.run_rmsynth treats every pixel like the 1D pipeline would.

pre : positive frequencies (two adjacent ones different; strictly monotonic where a Stokes I cube is given), positive noise,
      positive Stokes I cube, arbitrary NaN flags in Q and U; lambda2_0 returned by the synthesis lies within the band
post: synthesis sees Q/I and U/I (Q and U without a Stokes I cube) with weights 1/noise^2 (1 without noise file or with
      uniform weights); the RMSF sees the same weights, depths, lambda2 and lambda2_0, with exactly the channels flagged in
      either q or u masked; freq0 = c/sqrt(lambda2_0) (band mean in super-resolution mode) and the returned FDF of a pixel is the
      synthesised one times the pixel's Stokes I interpolated linearly between the channels on either side of freq0
also: interp_images is linear interpolation between two images, pixel by pixel
"""
from pyvc import terms as t, values as V
from pyvc.spec import *
from contracts.pipe import *


def run(superres=False, stokesI=False, rms=True, weight='variance', order=1, size=(2, 2)):
    def go(E):
        S, i, calls, r = run3d(E, 'max,step', superres, stokesI, rms, weight, order=order, size=size)
        n, ny, nx, nu = i['n'], i['ny'], i['nx'], i['nu']
        S.prove('each stage runs once', TRUE if [len(calls.get(k, [])) for k in ('synth', 'rmsf')] == [1, 1] else FALSE)
        if [len(calls.get(k, [])) for k in ('synth', 'rmsf')] != [1, 1]:
            return
        c, f = calls['synth'][0], calls['rmsf'][0]
        w = lambda k: S.div(1, S.val(i['s'], k) ** 2) if rms and weight == 'variance' else S.num(1)
        fq = lambda a, k, y, x: S.at(a, k, y, x) * S.div(1, S.val(i['I'], k, y, x)) if stokesI else S.at(a, k, y, x)
        wt = lambda d: (lambda k: S.num(1)) if d['w'] is None else (lambda k: S.at(d['w'], k))
        with S.forall(n) as (k,):
            for nm, d in (('synthesis', c), ('RMSF', f)):
                S.same(nm + ' lambda2', S.at(d['l2'], k), i['l2'](k))
                S.same(nm + ' weight', wt(d)(k), w(k))
        S.shape('flags', f['msk'], (n, ny, nx))
        with S.forall(n, ny, nx) as (k, y, x):
            S.same('synthesised Q', S.at(c['Q'], k, y, x), fq(i['Q'], k, y, x))
            S.same('synthesised U', S.at(c['U'], k, y, x), fq(i['U'], k, y, x))
            S.prove('RMSF flags are those of the data', S.iff(S.truth(S.at(f['msk'], k, y, x)), S.or_(S.isnan(i['Q'], k, y, x), S.isnan(i['U'], k, y, x))))
        with S.forall(c['phi'].dims[0]) as (j,):
            S.same('RMSF depth', S.at(f['phi'], j), S.at(c['phi'], j))
            S.same('returned depth', S.at(r[1], j), S.at(c['phi'], j))
        S.prove('synthesis reference lambda2', TRUE if (c['given'] is None) != superres else FALSE)
        if superres:
            S.same('reference lambda2 of super-resolution', S.num(c['given']), S.num(0))
        S.same('RMSF reference lambda2', S.num(f['given']), S.num(c['lam0']))
        S.same('returned reference lambda2', S.num(r[6]), S.num(c['lam0']))
        with S.forall(n) as (k,):
            S.same('returned lambda2', S.at(r[7], k), i['l2'](k))
        S.shape('FDF', r[0], c['F'].dims)
        S.shape('RMSF', r[2], f['R'].dims)
        P, N2 = c['phi'].dims[0], f['p2'].dims[0]
        with S.forall(c['phi'].dims[0], ny, nx) as (j, y, x):
            if stokesI:
                a = i['a0']
                A, B = S.val(i['I'], a, y, x), S.val(i['I'], S.v(a) + 1, y, x)
                I0 = A + S.div(i['f0'] - S.val(nu, a), S.val(nu, S.v(a) + 1) - S.val(nu, a)) * (B - A)
            if stokesI:
                # case split (exhaustive) that helps the prover: which neighbour is nearest
                near = S.num(E.np.argmin(E.np.abs(nu - i['f0'])))
                lo, hi = S.eq(near, a), S.eq(near, S.v(a) + 1)
                got, want = S.cell(r[0], (P, ny, nx), (j, y, x)), S.cell(c['F'], (P, ny, nx), (j, y, x)) * I0
                for nm, cs, ch in (('lower', lo, S.v(a)), ('upper', hi, S.v(a) + 1), ('neither', S.and_(S.not_(lo), S.not_(hi)), None)):
                    with E.ctx(S.truth(cs)):
                        g = got if ch is None else V.map_sv(got, lambda z: t.subst(z, {S.v(near).re: ch.re}))
                        S.same('FDF in flux units (nearest channel: %s)' % nm, g, want)
            else:
                S.same('FDF in flux units', S.cell(r[0], (P, ny, nx), (j, y, x)), S.cell(c['F'], (P, ny, nx), (j, y, x)))
        with S.forall(N2, ny, nx) as (j, y, x):
            S.same('returned RMSF', S.cell(r[2], (N2, ny, nx), (j, y, x)), S.cell(f['R'], (N2, ny, nx), (j, y, x)))
            S.same('returned RMSF depth', S.at(r[3], j), S.at(f['p2'], j))
        with S.forall(ny, nx) as (y, x):
            S.same('returned RMSF width', S.cell(r[4], (ny, nx), (y, x)), S.cell(f['fw'], (ny, nx), (y, x)))
    return go


UNITS = [('%s weights%s%s%s' % (w, ', no noise' * (not rms), ', super-resolution' * sr, (', Stokes I cube, %s frequencies' % ('ascending' if o > 0 else 'descending')) * si) + ('' if sz == (2, 2) else ', image %s' % (sz,)), run(sr, si, rms, w, o, sz), {'thorough': (sr, o) == (True, 1) and si or sz in ((1, 2), (2, 1))})
         for w, rms, sr, si, o, sz in (('variance', True, False, False, 1, (2, 2)), ('uniform', True, False, False, 1, (2, 2)), ('variance', False, False, False, 1, (2, 2)), ('variance', True, True, False, 1, (2, 2)),
                                   ('variance', True, False, True, 1, (2, 2)), ('variance', True, False, True, -1, (2, 2)), ('uniform', False, True, True, 1, (2, 2)), ('uniform', False, True, True, -1, (2, 2)),
                                   ('variance', True, False, True, 1, (1, 1)), ('variance', True, False, True, 1, (1, 2)), ('variance', True, False, True, -1, (2, 1)))]


def interp(E):
    S = Spec(E)
    ny, nx = E.int('ny', 1), E.int('nx', 1)
    a, b = (E.array(x, (ny, nx), 'float64') for x in 'ab')
    f = E.real('f')
    E.assume(S.le(0, f))
    E.assume(S.le(f, 1))
    m = E.load('RMutils.util_misc')

    class NDI:
        @staticmethod
        def map_coordinates(arr, coords, order=3, **k):
            # scipy: spline interpolation of the given order at the given coordinates; order 1 along the first of three axes here
            if order != 1 or k:
                raise V.Unsupported('map_coordinates of order %s' % order)
            c0, c1, c2 = (E.np.array(c) if not isinstance(c, SArr) else c for c in coords)
            with S.forall(*c0.dims) as ix:
                for ax, cc in ((1, c1), (2, c2)):
                    S.prove('interpolates at whole pixels only, axis %d' % ax, t.eq(S.v(S.at(cc, *ix)).re, ix[ax - 1].re if isinstance(ix[ax - 1], V.SV) else ix[ax - 1]))
                S.prove('interpolates between the two images', S.and_(S.le(0, S.at(c0, *ix)), S.le(S.at(c0, *ix), 1)))
            return S.mkarr(c0.dims, lambda *ix: S.at(arr, 0, *ix) * (1 - S.at(c0, *ix)) + S.at(arr, 1, *ix) * S.at(c0, *ix))
    m.__dict__['ndi'] = NDI
    fz = S.freeze(a, b)
    r = S.call(E.fn('RMutils.util_misc', 'interp_images'), a, b, f)
    S.frame(fz)
    S.shape('image', r, (ny, nx))
    with S.forall(ny, nx) as (y, x):
        S.same('linear interpolation', S.at(r, y, x), S.at(a, y, x) + f * (S.val(b, y, x) - S.val(a, y, x)))


UNITS += [('interp_images', interp)]
TRUSTED = ['scipy.ndimage.map_coordinates(order=1) is linear interpolation at whole-pixel coordinates along the other axes']
