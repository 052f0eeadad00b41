"""C18 on the real code: maps and command line against per-pixel evaluation of the model."""
import glob
import os
import shutil
import sys
import tempfile
import numpy as np
from astropy.io import fits
from rt import need, same
from c09 import model, newpars
from RMtools_3D import rescale_I_model_3D as M
from RMutils.util_misc import FitResult, renormalize_StokesI_model


def maps(g, ny, nx, dt=float):
    o = g.int(0, 5)
    co = np.zeros((6, ny, nx), dt)
    co[5 - o:] = g.uni(-1, 1, o + 1, ny, nx)
    co[5] = g.uni(0.1, 3, ny, nx)
    cov = np.zeros((6, 6, ny, nx), dt)
    A = g.norm(ny, nx, 6, 6) * 0.05
    A[..., :5 - o] = 0
    cov[:] = np.moveaxis(np.einsum('yxki,yxkj->yxij', A, A), (2, 3), (0, 1))
    old = 1e9 * g.uni(0.9, 1.1, ny, nx)
    bad = g.r.random((ny, nx)) < g.pick(0, 0.2)
    co[:, bad] = np.nan
    cov[:, :, bad] = np.nan
    old[bad] = np.nan
    return o, co, cov, old, bad


def check(g, fam, co, cov, old, bad, new, nc, ne, tol=1e-7):
    ny, nx = old.shape
    need(nc.shape == co.shape and ne.shape == co.shape, 'output shapes %s %s', nc.shape, ne.shape)
    for y in range(ny):
        for x in range(nx):
            if bad[y, x]:
                need(np.isnan(nc[5, y, x]), 'pixel without a model got %r', nc[5, y, x])
                continue
            nu = 1e9 * g.uni(0.8, 1.2, 5)
            a = model(fam, co[:, y, x], nu / old[y, x])
            b = model(fam, nc[:, y, x], nu / new[y, x])
            same('spectrum of pixel %d,%d' % (y, x), b, a, rtol=tol)
            r = renormalize_StokesI_model(FitResult(co[:, y, x], 0, 0, 0, 0, 5, 0, old[y, x], 0, cov[:, :, y, x], np.zeros(6), fam), new[y, x])
            same('errors of pixel %d,%d' % (y, x), ne[:, y, x], np.asarray(r.perror, float), rtol=tol)


def direct(g):
    ny, nx = g.int(1, 4), g.int(1, 5)
    fam = g.pick('log', 'linear')
    o, co, cov, old, bad = maps(g, ny, nx)
    new = old * g.uni(0.95, 1.05, ny, nx) if g.chance(0.7) else np.full((ny, nx), 1e9)
    g.note(ny=ny, nx=nx, fam=fam, order=o)
    nf, nc, ne = M.rescale_I_model_3D(cov, old, new, co, fam)
    need(np.array_equal(nf, new, equal_nan=True), 'frequency map changed')
    check(g, fam, co, cov, old, bad, new, nc, ne)


def cli(g):
    ny, nx = g.int(1, 3), g.int(1, 4)
    fam = g.pick('log', 'linear')
    o, co, cov, old, bad = maps(g, ny, nx)
    bad[:] = False
    co, cov, old = np.nan_to_num(co, nan=0.5), np.nan_to_num(cov), np.nan_to_num(old, nan=1e9)
    co[:5 - o] = 0
    mode = g.pick('lambda2', 'freq', 'mean')
    g.note(ny=ny, nx=nx, fam=fam, order=o, mode=mode)
    d = tempfile.mkdtemp(prefix='c18-')
    argv = sys.argv
    try:
        h = fits.Header()
        h['HISTORY'] = 'Stokes I model fitted by do_fitIcube'
        h['HISTORY'] = 'Fit model is dynamic order %s-polynomial, max order 2' % fam
        b = d + '/t_'
        fits.writeto(b + 'covariance.fits', cov, h)
        fits.writeto(b + 'reffreq.fits', old, h)
        for i in range(o + 1):
            fits.writeto(b + 'coeff%d.fits' % i, co[5 - i], h)
            fits.writeto(b + 'coeff%derr.fits' % i, np.sqrt(cov[5 - i, 5 - i]), h)
        a = []
        if mode == 'lambda2':
            l0 = (299792458.0 / 1.02e9) ** 2
            hh = fits.Header()
            hh['LAMSQ0'] = l0
            fits.writeto(d + '/FDF.fits', np.zeros((2, ny, nx)), hh)
            a = ['-l', d + '/FDF.fits']
            new = 1.02e9
        elif mode == 'freq':
            a = ['-f', '0.97e9']
            new = 0.97e9
        else:
            new = old.mean()
        sys.argv = ['rescale', b + 'covariance.fits'] + a
        M.command_line()
        nc, ne = np.zeros_like(co), np.zeros_like(co)
        for i in range(o + 1):
            p = b + 'newcoeff%d.fits' % i
            need(os.path.exists(p), 'coefficient map %d was not written', i)
            nc[5 - i] = fits.getdata(p)
            ne[5 - i] = fits.getdata(b + 'newcoeff%derr.fits' % i)
        hd = fits.getheader(b + 'newcoeff0.fits')
        same('REFFREQ', hd['REFFREQ'], new, rtol=1e-12)
        check(g, fam, co, cov, old, bad, np.full((ny, nx), new), nc, ne)
    finally:
        sys.argv = argv
        shutil.rmtree(d)


TESTS = [('maps', direct), ('command line', cli)]
