"""C12 on the real code: cutouts of random images."""
import os
import shutil
import sys
import tempfile
import numpy as np
from astropy.io import fits
from rt import need, same
from RMtools_3D import extract_region


def cutout(g):
    nd = g.pick(2, 2, 3, 3, 4)
    nx, ny, nz = g.int(1, 7), g.int(1, 7), g.int(2, 5)
    cube = 3 if nd == 3 else g.pick(3, 4)
    dims = {2: (ny, nx), 3: (nz, ny, nx), 4: (1, nz, ny, nx) if cube == 3 else (nz, 1, ny, nx)}[nd]
    data = np.arange(int(np.prod(dims))).reshape(dims).astype(g.pick('float32', 'float64'))
    h = fits.Header()
    for k in range(nd):
        h['CRPIX%d' % (k + 1)] = float(g.uni(-3, 8))
        h['CRVAL%d' % (k + 1)] = float(g.uni(1, 8))
        h['CDELT%d' % (k + 1)] = float(g.uni(0.1, 2))
    opts, box = [], []
    want = []
    centre = g.chance(0.3)
    for n in (nx, ny):
        if centre:
            c, w = g.int(1, n), g.int(0, 3)
            box += [c, w]
            a, b = max(1, c - w), min(n, c + w)
        else:
            a, b = sorted((g.int(1, n), g.int(1, n)))
            u, v = a, b
            if g.chance(0.2):
                a, u = 1, g.pick(-1, 0, -4)
            if g.chance(0.2):
                b, v = n, g.pick(-1, n + 2)
            box += [u, v]
        want.append((a, b))
    if centre:
        opts.append('-c')
    z1, z2 = 1, nz
    zl = nd > 2 and g.chance(0.5)
    if zl:
        z1, z2 = sorted((g.int(1, nz), g.int(1, nz)))
        opts += ['-z', str(z1), str(z2)]
    g.note(dims=dims, box=box, opts=opts)
    d = tempfile.mkdtemp()
    old = sys.argv
    try:
        fits.writeto(d + '/a.fits', data, h)
        neg = [str(float(v)) for v in box]
        sys.argv = ['x', d + '/a.fits', d + '/b.fits'] + neg + opts
        extract_region.main()
        o, oh = fits.getdata(d + '/b.fits', header=True)
    finally:
        sys.argv = old
        shutil.rmtree(d)
    (xa, xb), (ya, yb) = want
    sl = (slice(ya - 1, yb), slice(xa - 1, xb))
    zs = slice(z1 - 1, z2)
    ref = {2: data[sl], 3: data[(zs,) + sl] if nd == 3 else None, 4: (data[(slice(None), zs) + sl] if cube == 3 else data[(zs, slice(None)) + sl]) if nd == 4 else None}[nd]
    need(o.shape == ref.shape, 'cutout of shape %s instead of %s', o.shape, ref.shape)
    need(np.array_equal(o, ref), 'wrong pixels')
    off = {1: xa, 2: ya}
    if nd > 2:
        off[cube] = z1
    for k in range(nd):
        w = h['CRPIX%d' % (k + 1)] - off.get(k + 1, 1) + 1
        need(abs(oh['CRPIX%d' % (k + 1)] - w) < 1e-9, 'CRPIX%d is %r instead of %r', k + 1, oh['CRPIX%d' % (k + 1)], w)
        need(oh['CRVAL%d' % (k + 1)] == h['CRVAL%d' % (k + 1)] and oh['CDELT%d' % (k + 1)] == h['CDELT%d' % (k + 1)], 'axis %d', k + 1)


TESTS = [('cutout', cutout)]
