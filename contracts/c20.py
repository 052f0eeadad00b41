"""C20  simulated spectra follow their stated physics.

pre : positive frequencies, any number (>= 1) of components with real parameters
post: q + iu = sum_j p_j exp(2i(psi_j + RM_j l2)) exp(-2 sigma_j^2 l2^2)   (Burn / thin)
             = sum_j p_j sinc(RM_j l2) exp(2i(psi_j + (RM_j/2 + sum_{k>j} RM_k) l2))   (differential rotation)
      p = |q + iu|;  I = flux (nu/nu0)^alpha, nu0 = first channel unless given;  Q = I q, U = I u;
      l2 = (c/nu)^2; inputs unmodified
"""
from pyvc import terms as t, values as V
from pyvc.spec import *

MOD = 'RMutils.util_misc'
C = 299792458


def setup(E, sigma=True):
    S = Spec(E)
    n, m = E.int('nChan', 1), E.int('nComp', 1)
    nu = E.array('nu', (n,), 'float64', pos=True)
    P = {k: E.array(k, (m,), 'float64') for k in ('p', 'psi', 'rm') + (('sig',) if sigma else ())}
    return S, n, m, nu, P


def l2(S, nu, k):
    lam = S.div(C, S.val(nu, k))
    return lam * lam


def psi(S, x):
    return S.div(x * S.pi, 180)


def burn(S, m, nu, P, k, sigma):
    L = l2(S, nu, k)

    def comp(j):
        x = S.val(P['p'], j) * S.cexp(2 * (psi(S, S.val(P['psi'], j)) + S.val(P['rm'], j) * L))
        if sigma:
            s = S.val(P['sig'], j)
            x = x * S.exp(-2 * s * s * L * L)
        return x
    return S.sum(m, comp)


def sinc(S, x):
    """sin(x)/x, 1 at 0"""
    return S.if_(S.eq(x, 0), 1, S.div(S.im(S.cexp(x)), x))


def diff(S, m, nu, P, k):
    L = l2(S, nu, k)

    def comp(j):
        r = S.val(P['rm'], j)
        beyond = S.sum(m, lambda i: S.val(P['rm'], i) * L, lo=t.add(V.dimT(j), t.ONE))
        return S.val(P['p'], j) * sinc(S, r * L) * S.cexp(2 * (psi(S, S.val(P['psi'], j)) + r * L * S.num(V.Fraction(1, 2)) + beyond))
    return S.sum(m, comp)


def iquspec(S, nu, f0, flux, si, k):
    return flux * S.pow(S.div(S.val(nu, k), f0), si)


def check(S, n, got, want, names):
    with S.forall(n) as (k,):
        for g, w, nm in zip(got, want(k), names):
            S.same(nm, S.at(g, k), w)


def pqu(kind, sigma):
    def run(E):
        S, n, m, nu, P = setup(E, sigma)
        fz = S.freeze(nu, *P.values())
        a = [nu, P['p'], P['psi'], P['rm']] + ([P['sig']] if sigma else [])
        r = S.call(E.fn(MOD, 'create_pqu_spectra_' + kind), *a)
        S.frame(fz)
        for x in r:
            S.shape('one value per channel', x, (n,))
        f = (lambda k: burn(S, m, nu, P, k, sigma)) if kind == 'burn' else (lambda k: diff(S, m, nu, P, k))
        with S.forall(n) as (k,):
            z = f(k)
            S.same('fractional Q', S.at(r[1], k), S.re(z))
            S.same('fractional U', S.at(r[2], k), S.im(z))
            S.same('fractional P', S.at(r[0], k), S.abs(S.val(r[1], k) + 1j * S.val(r[2], k)))
    return run


def iqu(kind, ref):
    def run(E):
        S, n, m, nu, P = setup(E)
        thin = kind == 'RMthin'
        flux, si = E.real('flux'), E.real('alpha')
        f0 = E.real('nu0', pos=True) if ref else None
        fz = S.freeze(nu, *P.values())
        q, u = E.array('q', (n,), 'float64'), E.array('u', (n,), 'float64')
        a = [P['p'], P['psi'], P['rm']] if not thin else [E.real('p1'), E.real('psi1'), E.real('rm1')]
        if kind == 'burn':
            a.append(P['sig'])

        def pq(*b, **k):
            b = list(b) + [k[x] for x in ('sigmaRMArr_radm2',) if x in k]
            ok = len(b) == 1 + len(a)
            for x, y in zip(b, [nu] + a):
                if x is not y:
                    if isinstance(x, SArr) and isinstance(y, SArr) and len(x.dims) == len(y.dims) == 1:
                        with S.forall(y.dims[0]) as (j,):
                            S.same('component parameters passed on', S.at(x, j), S.at(y, j))
                    elif isinstance(x, SV):
                        S.same('component parameters passed on', x, y)
                    else:
                        ok = False
            S.prove('component parameters are passed on', TRUE if ok else FALSE)
            p = E.array('pmod', (n,), 'float64', nonneg=True)
            return p, q, u
        E.stub(MOD, 'create_pqu_spectra_' + kind, pq)
        f = E.fn(MOD, 'create_IQU_spectra_' + kind)
        kw = dict(freq0_Hz=f0) if ref else {}
        I, Q, U = S.call(f, nu, flux, si, *a, **kw)
        S.frame(fz)
        r = f0 if ref else S.val(nu, 0)
        with S.forall(n) as (k,):
            i = iquspec(S, nu, r, flux, si, k)
            S.same('Stokes I', S.at(I, k), i)
            S.same('Stokes Q', S.at(Q, k), i * S.val(q, k))
            S.same('Stokes U', S.at(U, k), i * S.val(u, k))
    return run


def thin(E):
    S = Spec(E)
    n = E.int('nChan', 1)
    nu = E.array('nu', (n,), 'float64', pos=True)
    p, ps, rm = E.real('p1'), E.real('psi1'), E.real('rm1')
    fz = S.freeze(nu)
    r = S.call(E.fn(MOD, 'create_pqu_spectra_RMthin'), nu, p, ps, rm)
    S.frame(fz)
    q0, u0 = E.array('q0', (n,), 'float64'), E.array('u0', (n,), 'float64')
    d = S.call(E.fn(MOD, 'create_pqu_resid_RMthin'), q0, u0, nu, p, ps, rm)
    S.frame(fz)
    with S.forall(n) as (k,):
        z = p * S.cexp(2 * (psi(S, ps) + rm * l2(S, nu, k)))
        S.same('thin: fractional P', S.at(r[0], k), p)
        S.same('thin: fractional Q', S.at(r[1], k), S.re(z))
        S.same('thin: fractional U', S.at(r[2], k), S.im(z))
        S.same('residual Q', S.at(d[1], k), S.val(q0, k) - S.re(z))
        S.same('residual U', S.at(d[2], k), S.val(u0, k) - S.im(z))
        S.same('residual P', S.at(d[0], k), S.abs(S.val(d[1], k) + 1j * S.val(d[2], k)))


UNITS = [('Burn', pqu('burn', True)), ('Burn, no dispersion', pqu('burn', False)), ('differential', pqu('diff', False)), ('thin', thin)] + \
        [('IQU %s%s' % (k, ', given reference' if r else ''), iqu(k, r)) for k in ('burn', 'diff', 'RMthin') for r in (False, True)]
