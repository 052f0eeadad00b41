"""C20 on the real code: simulated spectra against their closed forms."""
import numpy as np
from rt import need, same
from RMutils import util_misc as M

C = 299792458.0


def source(g):
    n, m = g.pick(1, 2, g.int(1, 20)), g.pick(1, 1, 2, 3, g.int(1, 6))
    nu = np.sort(g.uni(0.5e9, 3e9, n))
    if g.chance(0.3):
        nu = nu[::-1].copy()
    p, psi, rm, sig = g.uni(0, 0.7, m), g.uni(0, 180, m), g.uni(-80, 80, m), g.uni(0, 6, m)
    if g.chance(0.2):
        rm[g.int(0, m - 1)] = 0
    g.note(n=n, m=m)
    return n, m, nu, p, psi, rm, sig


def aslist(g, a):
    return list(map(float, a)) if g.chance(0.5) else a


def want(kind, nu, p, psi, rm, sig):
    L = (C / nu) ** 2
    z = np.zeros(len(nu), complex)
    for j in range(len(p)):
        a = np.exp(2j * np.radians(psi[j]))
        if kind == 'diff':
            z += p[j] * np.sinc(rm[j] * L / np.pi) * a * np.exp(2j * (rm[j] / 2 + rm[j + 1:].sum()) * L)
        else:
            z += p[j] * a * np.exp(2j * rm[j] * L) * np.exp(-2 * sig[j] ** 2 * L ** 2)
    return z


def fractional(g):
    n, m, nu, p, psi, rm, sig = source(g)
    kind = g.pick('burn', 'burn0', 'diff', 'thin')
    if kind == 'thin':
        r = M.create_pqu_spectra_RMthin(nu, p[0], psi[0], rm[0])
        z = want('burn', nu, p[:1], psi[:1], rm[:1], [0.0])
        same('p', r[0], np.full(n, p[0]), rtol=1e-9)
        q, u = g.norm(n), g.norm(n)
        d = M.create_pqu_resid_RMthin(q, u, nu, p[0], psi[0], rm[0])
        same('residual q', d[1], q - z.real, rtol=1e-8)
        same('residual u', d[2], u - z.imag, rtol=1e-8)
        same('residual p', d[0], np.abs(q + 1j * u - z), rtol=1e-8)
    else:
        c = [aslist(g, x) for x in (p, psi, rm)]
        k = [np.array(x, copy=True) for x in c]
        if kind == 'diff':
            r = M.create_pqu_spectra_diff(nu, *c)
            z = want('diff', nu, p, psi, rm, None)
        else:
            r = M.create_pqu_spectra_burn(nu, *c, **({'sigmaRMArr_radm2': aslist(g, sig)} if kind == 'burn' else {}))
            z = want('burn', nu, p, psi, rm, sig if kind == 'burn' else 0 * sig)
        for a, b in zip(c, k):
            need(np.array_equal(np.asarray(a), b), 'an input was modified')
        same('p', r[0], np.abs(z), rtol=1e-8)
    same('q', r[1], z.real, rtol=1e-8)
    same('u', r[2], z.imag, rtol=1e-8)


def absolute(g):
    n, m, nu, p, psi, rm, sig = source(g)
    kind = g.pick('burn', 'diff', 'thin')
    f, al = g.uni(0.1, 10), g.uni(-2, 2)
    f0 = g.pick(None, g.uni(0.5e9, 3e9))
    kw = {} if f0 is None else {'freq0_Hz': f0}
    i0 = f * (nu / (nu[0] if f0 is None else f0)) ** al
    if kind == 'thin':
        r = M.create_IQU_spectra_RMthin(nu, f, al, p[0], psi[0], rm[0], **kw)
        z = want('burn', nu, p[:1], psi[:1], rm[:1], [0.0])
    elif kind == 'burn':
        r = M.create_IQU_spectra_burn(nu, f, al, aslist(g, p), aslist(g, psi), aslist(g, rm), aslist(g, sig), **kw)
        z = want('burn', nu, p, psi, rm, sig)
    else:
        r = M.create_IQU_spectra_diff(nu, f, al, aslist(g, p), aslist(g, psi), aslist(g, rm), **kw)
        z = want('diff', nu, p, psi, rm, None)
    same('I', r[0], i0, rtol=1e-9)
    same('Q', r[1], i0 * z.real, rtol=1e-8)
    same('U', r[2], i0 * z.imag, rtol=1e-8)


TESTS = [('fractional', fractional), ('absolute', absolute)]
