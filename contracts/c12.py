"""C12  extract_region: the cutout contains exactly the requested pixels, at unchanged world coordinates.

pre : image of 2, 3 or 4 dimensions; box with integer bounds (FITS counting, inclusive), -1 (or anything below 1 /
      above the axis length) meaning the edge of the image, the clipped box being non-empty; z limits inside the axis
post: one file is written; its data has shape (.., nz, ymax-ymin+1, xmax-xmin+1) and element (.., z, y, x) is element
      (.., z+zmin-1, y+ymin-1, x+xmin-1) of the input; NAXISn and CRPIXn of the header describe that array, so that
      the world coordinate of every pixel is the one it had; all other keywords are unchanged
"""
from pyvc.spec import *
from pyvc.fitsshim import Header, HDU
from pyvc.values import SV


def cut(ndim, cube, mode, zlim, lo=False, hi=False):
    """ndim, which axis holds the cube, corner or centre form, whether z limits are given, -1 bounds"""
    def run(E):
        S = Spec(E)
        mod = 'RMtools_3D.extract_region'
        nx, ny = E.int('nx', 1), E.int('ny', 1)
        nz = E.int('nz', 2) if ndim > 2 else None
        dims = {2: (ny, nx), 3: (nz, ny, nx), 4: (1, nz, ny, nx) if cube == 3 else (nz, 1, ny, nx)}[ndim]
        data = E.array('data', dims, 'float64', nan=True)
        fz = S.freeze(data)
        h = Header({'NAXIS': ndim, 'BUNIT': 'Jy', 'CDELT1': E.real('cd1'), 'CDELT2': E.real('cd2')})
        for k in range(ndim):
            h['NAXIS%d' % (k + 1)] = dims[ndim - 1 - k]
            h['CRPIX%d' % (k + 1)] = E.real('crpix%d' % (k + 1))
            h['CRVAL%d' % (k + 1)] = E.real('crval%d' % (k + 1))
        h0 = h.copy()
        num = lambda s: SV('i', E.int(s).re) if isinstance(E.int(s), SV) else E.int(s)
        if mode == 'corners':
            b = [E.int('x1'), -1 if hi else E.int('x2'), E.int('y1'), -1 if hi else E.int('y2')]
            if lo:
                b[0] = b[2] = -1
            pos = list(b)
        else:
            c = [E.int('xc'), E.int('xw', 0), E.int('yc'), E.int('yw', 0)]
            b = [c[0] - c[1], c[0] + c[1], c[2] - c[3], c[2] + c[3]]
            pos = c
        want = []
        for k, n in ((0, nx), (2, ny)):
            if mode == 'corners' and not hi:
                E.assume(S.ne(b[k + 1], -1))
            if mode != 'corners':
                E.assume(S.le(0, b[k + 1]))
            a = S.if_(S.lt(b[k], 1), 1, b[k])
            z = S.v(n) if hi else S.if_(S.lt(n, b[k + 1]), n, b[k + 1])
            E.assume(S.le(a, z))
            want.append((a, z))
        given = {}
        if mode != 'corners':
            given['-c'] = True
        if zlim:
            z1, z2 = E.int('z1', 1), E.int('z2', 1)
            E.assume(S.le(z1, z2))
            E.assume(S.le(z2, nz))
            given['-z'] = [z1, z2]
        else:
            z1, z2 = 1, nz
        m = command_line(E, mod, given, ['in.fits', 'out.fits'] + pos)
        out = []

        class PF:
            @staticmethod
            def open(fn, **k):
                return [HDU(data, h)]

            @staticmethod
            def writeto(fn, d, header=None, **k):
                out.append((fn, d, header))
        m.__dict__['pf'] = PF
        m.__dict__['os'] = type('OS', (), dict(path=type('P', (), dict(exists=staticmethod(lambda p: p == 'in.fits')))))
        S.call(E.fn(mod, 'main'))
        S.frame(fz)
        S.prove('one file written', TRUE if len(out) == 1 and out[0][0] == 'out.fits' else FALSE)
        if len(out) != 1:
            return
        d, hh = out[0][1], out[0][2]
        (xa, xb), (ya, yb) = want
        wx, wy = xb - xa + 1, yb - ya + 1
        wz = z2 - z1 + 1 if ndim > 2 else None
        od = {2: (wy, wx), 3: (wz, wy, wx), 4: (1, wz, wy, wx) if cube == 3 else (wz, 1, wy, wx)}[ndim]
        S.shape('size of the cutout', d, od)
        with S.forall(*od) as ix:
            off = {2: (ya, xa), 3: (z1, ya, xa), 4: (1, z1, ya, xa) if cube == 3 else (z1, 1, ya, xa)}[ndim]
            S.same('pixel of the cutout', S.at(d, *ix), S.at(data, *[S.v(i) + o - 1 for i, o in zip(ix, off)]))
        S.same('NAXIS', S.num(hh['NAXIS']), S.num(ndim))
        for k in range(ndim):
            S.same('NAXIS%d' % (k + 1), S.num(hh['NAXIS%d' % (k + 1)]), S.num(od[ndim - 1 - k]))
            S.same('world coordinate along axis %d' % (k + 1), S.num(hh['CRPIX%d' % (k + 1)]), S.v(h0['CRPIX%d' % (k + 1)]) - off[ndim - 1 - k] + 1)
        for k in h0:
            if not k.startswith(('NAXIS', 'CRPIX')):
                if isinstance(h0[k], str):
                    S.prove('keyword ' + k, TRUE if hh.get(k) == h0[k] else FALSE)
                else:
                    S.same('keyword ' + k, S.num(hh[k]), S.num(h0[k]))
    return run


UNITS = [('2-D, corners', cut(2, 2, 'corners', False)), ('2-D, centre', cut(2, 2, 'centre', False)),
         ('2-D, -1 lower', cut(2, 2, 'corners', False, lo=True)), ('2-D, -1 upper', cut(2, 2, 'corners', False, hi=True)),
         ('3-D, corners', cut(3, 3, 'corners', False)), ('3-D, z limits', cut(3, 3, 'corners', True)),
         ('3-D, -1 both', cut(3, 3, 'corners', True, lo=True, hi=True)),
         ('4-D axis 3', cut(4, 3, 'corners', False)), ('4-D axis 3, z limits', cut(4, 3, 'centre', True)),
         ('4-D axis 4', cut(4, 4, 'corners', False)), ('4-D axis 4, z limits', cut(4, 4, 'corners', True))]
