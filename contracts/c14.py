"""C14  QU-fitting models: each model() is its documented closed form.

pre : real parameters (slab depths and dispersions such that no denominator is zero), lambda2 >= 0
post: model(p, l2)[k] = formula(p, l2[k]) for every channel k; inputs unmodified
"""
from pyvc import terms as t, values as V
from pyvc.spec import *


def unit(name, pars, formula, nonzero=None, opts=None):
    def run(E):
        S = Spec(E)
        n = E.int('n', 1)
        l2 = E.array('l2', (n,), 'float64', nonneg=True)
        P = {k: E.real(k) for k in pars}
        fz = S.freeze(l2)
        f = E.fn('RMtools_1D.models_ns.' + name, 'model')
        with S.forall(n) as (k,):
            L = S.val(l2, k)
            conds = nonzero(S, P, L) if nonzero else []
            with E.ctx(*conds):
                y = S.call(f, dict(P), l2)
                S.shape('one value per channel', y, (n,))
                S.same('model value', S.at(y, k), formula(S, P, L))
        S.frame(fz)
    return run


def thin(S, P, L, i=''):
    psi = P['psi0%s_deg' % i] * S.pi / 180 if False else S.div(P['psi0%s_deg' % i] * S.pi, 180)
    return P['fracPol' + i] * S.cexp(2 * (psi + P['RM%s_radm2' % i] * L))


def burn(S, s, L):
    return S.exp(-2 * s * s * L * L)


def slab(S, P, L, i=''):
    d = P['deltaRM%s_radm2' % i]
    x = d * L
    psi = S.div(P['psi0%s_deg' % i] * S.pi, 180)
    return P['fracPol' + i] * S.cexp(2 * (psi + (S.div(d, 2) + P['RM%s_radm2' % i]) * L)) * S.div(S.im(S.cexp(x)), x)


def internal(S, P, L, rm):
    """p exp(2i(psi0 + RM l2)) (1 - exp(-Z)) / Z,  Z = 2 sigma^2 l2^2 - 2i l2 dRM"""
    zr, zi = 2 * P['sigmaRM_radm2'] * P['sigmaRM_radm2'] * L * L, -2 * L * P['deltaRM_radm2']
    psi = S.div(P['psi0_deg'] * S.pi, 180)
    num = 1 - S.exp(0 - zr) * S.cexp(0 - zi)
    return P['fracPol'] * S.cexp(2 * (psi + P[rm] * L)) * num * S.div(S.cplx(zr, 0 - zi), zr * zr + zi * zi)


one = ['fracPol', 'psi0_deg', 'RM_radm2']


def many(n, extra=''):
    r = []
    for i in '123'[:n]:
        r += ['fracPol' + i, 'psi0%s_deg' % i, 'RM%s_radm2' % i] + ([extra % i] if '%' in extra else [])
    return r + ([extra] if extra and '%' not in extra else [])


nz = lambda *ds: (lambda S, P, L: [S.lt(0, L)] + [S.ne(P[d], 0) for d in ds])
UNITS = [
    ('m1', unit('m1', one, thin)),
    ('m2', unit('m2', one + ['sigmaRM_radm2'], lambda S, P, L: thin(S, P, L) * burn(S, P['sigmaRM_radm2'], L))),
    ('m3', unit('m3', many(2, 'sigmaRM_radm2'), lambda S, P, L: (thin(S, P, L, '1') + thin(S, P, L, '2')) * burn(S, P['sigmaRM_radm2'], L))),
    ('m4', unit('m4', many(2, 'sigmaRM%s_radm2'), lambda S, P, L: thin(S, P, L, '1') * burn(S, P['sigmaRM1_radm2'], L)
                + thin(S, P, L, '2') * burn(S, P['sigmaRM2_radm2'], L))),
    ('m5', unit('m5', one + ['deltaRM_radm2'], slab, nz('deltaRM_radm2'))),
    ('m6', unit('m6', many(2, 'deltaRM%s_radm2'), lambda S, P, L: slab(S, P, L, '1') + slab(S, P, L, '2'), nz('deltaRM1_radm2', 'deltaRM2_radm2'))),
    ('m7', unit('m7', one + ['deltaRM_radm2', 'sigmaRM_radm2'], lambda S, P, L: internal(S, P, L, 'RM_radm2'), nz('deltaRM_radm2'))),
    ('m11', unit('m11', many(2), lambda S, P, L: thin(S, P, L, '1') + thin(S, P, L, '2'))),
    ('m12', unit('m12', ['fracPol', 'psi0_deg', 'RM_screen', 'deltaRM_radm2', 'sigmaRM_radm2', 'sigmaRM_radm2_FG'],
                 lambda S, P, L: internal(S, P, L, 'RM_screen') * burn(S, P['sigmaRM_radm2_FG'], L), nz('deltaRM_radm2'))),
    ('m111', unit('m111', many(3), lambda S, P, L: thin(S, P, L, '1') + thin(S, P, L, '2') + thin(S, P, L, '3'))),
]
