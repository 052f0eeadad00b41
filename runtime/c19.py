"""C19 on the real code: prediction of clean components, its inverse, and the command line."""
import json
import os
import shutil
import sys
import tempfile
import numpy as np
from rt import need, same
from c09 import model
from RMtools_1D import clean_model as M
from RMutils.util_RM import do_rmsynth_planes

C = 299792458.0


def setup(g):
    n, m = g.pick(1, 2, g.int(1, 40)), g.pick(1, 2, g.int(1, 30))
    nu = np.sort(g.uni(0.5e9, 3e9, n))
    if g.chance(0.3):
        nu = nu[::-1].copy()
    phi = g.uni(-300, 300, m) if g.chance(0.5) else np.linspace(-200, 200, m)
    cc = g.norm(m) + 1j * g.norm(m)
    l0 = float(g.uni(0.5, 1.5) * np.mean((C / nu) ** 2)) if g.chance(0.8) else float((C / nu[0]) ** 2)
    p = None
    if g.chance(0.8):
        p = g.uni(-0.5, 0.5, 6)
        p[:g.int(0, 5)] = 0
        p[5] = g.uni(0.1, 4)
        if g.chance(0.5):
            p = list(map(float, p))
    g.note(n=n, m=m, params=p is not None)
    return n, m, nu, phi, cc, l0, p


def want(nu, phi, cc, l0, p):
    L = (C / nu) ** 2
    I = np.ones(len(nu)) if p is None else model('log', np.asarray(p), nu / (C / np.sqrt(l0)))
    z = np.zeros(len(nu), complex)
    for f, c in zip(phi, cc):
        z += c * np.exp(2j * f * (L - l0))
    return I * z, I, np.abs(cc).sum() * np.abs(I).max()


def predict(g):
    n, m, nu, phi, cc, l0, p = setup(g)
    k = [x.copy() for x in (nu, phi, cc)]
    QU, I = M.calculate_QU_model(nu, phi, cc, l0, p)
    need(all(np.array_equal(a, b) for a, b in zip(k, (nu, phi, cc))), 'an input was modified')
    z, i, sc = want(nu, phi, cc, l0, p)
    same('Stokes I', I, i, rtol=1e-9)
    same('prediction', QU, z, rtol=1e-7, atol=1e-8 * sc)
    w = g.uni(0.1, 2, n)
    QU, I = M.calculate_QU_model(nu, phi[:1], cc[:1], l0, p)
    F, l = do_rmsynth_planes(QU.real, QU.imag, (C / nu) ** 2, phi[:1], weightArr=w, lam0Sq_m2=l0, log=lambda *a: None)
    same('synthesis of the prediction', np.ravel(F)[0], cc[0] * (w * I).sum() / w.sum(), rtol=1e-4, atol=1e-4 * sc)


def cli(g):
    n, m, nu, phi, cc, l0, p = setup(g)
    n = max(n, 2)
    m = max(m, 2)
    nu = np.linspace(1e9, 2e9, n)
    phi, cc = np.linspace(-100, 100, m), g.norm(m) + 1j * g.norm(m)
    p = [0.0, 0.0, 0.1, 0.2, -0.7, 1.5] if p is None else list(map(float, p))
    d = tempfile.mkdtemp()
    old = sys.argv
    try:
        cols = g.pick(7, 5)
        np.savetxt(d + '/in.dat', np.column_stack([nu] + [g.norm(n) for _ in range(cols - 1)]))
        np.savetxt(d + '/cc.dat', np.column_stack([phi, cc.real, cc.imag]))
        with open(d + '/x.json', 'w') as f:
            json.dump(dict(polyCoeffs=','.join(repr(x) for x in p), lam0Sq_m2=l0, other=1), f)
        sys.argv = ['x', d + '/in.dat', d + '/x.json', d + '/cc.dat', d + '/out.dat']
        M.main()
        t = np.loadtxt(d + '/out.dat')
    finally:
        sys.argv = old
        shutil.rmtree(d)
    need(t.shape == (n, 4), 'table of shape %s', t.shape)
    z, i, sc = want(nu, phi, cc, l0, p)
    same('frequency', t[:, 0], nu, rtol=1e-12)
    same('I', t[:, 1], i, rtol=1e-9)
    same('Q', t[:, 2], z.real, rtol=1e-7, atol=1e-8 * sc)
    same('U', t[:, 3], z.imag, rtol=1e-7, atol=1e-8 * sc)


TESTS = [('prediction', predict), ('command line', cli)]
