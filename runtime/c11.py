"""C11 on the real code: chunk files of random cubes, and the round trip."""
import glob
import os
import shutil
import sys
import tempfile
import numpy as np
from astropy.io import fits
from rt import need, same
from RMtools_3D import assemble_chunks, create_chunks


def cli(f, *a):
    old = sys.argv
    sys.argv = ['x'] + [str(v) for v in a]
    try:
        f()
    finally:
        sys.argv = old


def roundtrip(g):
    nd = g.pick(2, 3, 3, 4)
    nx, ny = g.int(1, 7), g.int(1, 7)
    pl = [g.int(1, 3) for _ in range(nd - 2)]
    N = g.pick(g.int(1, nx * ny + 3), g.int(1, 4), ny, nx * ny)
    dt = g.pick('float32', 'float64', 'int16')
    memmap = g.chance(0.5)
    g.note(shape=(*pl, ny, nx), N=N, dtype=dt)
    data = (g.r.permutation(int(np.prod([*pl, ny, nx]))) + 1).reshape(*pl, ny, nx).astype(dt)
    if dt != 'int16' and g.chance(0.3):
        data.reshape(-1)[g.int(0, data.size - 1)] = np.nan
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        os.chdir(d)
        h = fits.Header()
        h['BUNIT'] = 'Jy'
        h['CRPIX1'], h['CRVAL1'], h['CDELT1'] = 1.5, 10.0, -0.1
        if nd > 2:
            h['CTYPE3'], h['CRVAL3'], h['CDELT3'] = 'FREQ', 1e9, 1e6
        fits.writeto('im.fits', data, h)
        flags = ['-m'] if memmap else []
        cli(create_chunks.main, 'im.fits', N, *flags)
        K = -(-nx * ny // N)
        names = sorted(glob.glob('im.C*.fits'))
        need(len(names) == K, '%d chunk files instead of %d', len(names), K)
        for i, n in enumerate(names):
            c, ch = fits.getdata(n, header=True)
            p = np.arange(i * N, min((i + 1) * N, nx * ny))
            need(c.shape == (*pl, 1, len(p)), 'chunk %d has shape %s', i, c.shape)
            need(np.array_equal(c[..., 0, :], data[..., p % ny, p // ny], equal_nan=dt != 'int16'), 'content of chunk %d', i)
            need(ch['OLDXDIM'] == nx and ch['OLDYDIM'] == ny, 'OLDXDIM/OLDYDIM')
        cli(assemble_chunks.main, names[g.int(0, K - 1)], '-f', 'out.fits', *flags)
        o, oh = fits.getdata('out.fits', header=True)
        need(o.shape == data.shape and np.array_equal(o, data, equal_nan=dt != 'int16'), 'the reassembled image differs')
        need('OLDXDIM' not in oh and 'OLDYDIM' not in oh, 'bookkeeping keywords kept')
        for k in ('BUNIT', 'CRPIX1', 'CRVAL1', 'CDELT1') + (('CTYPE3', 'CRVAL3', 'CDELT3') if nd > 2 else ()):
            need(oh.get(k) == h[k], 'keyword %s: %r instead of %r', k, oh.get(k), h[k])
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


TESTS = [('chunk and reassemble', roundtrip)]
