"""C14 on the real code: every model against its documented formula."""
import importlib
import numpy as np
from rt import need, same

R = np.pi / 180


def par(g, names):
    P = {}
    for n in names:
        if n.startswith('fracPol'):
            P[n] = g.uni(0.01, 1)
        elif n.startswith('psi'):
            P[n] = g.uni(0, 180)
        elif n.startswith('sigma'):
            P[n] = g.pick(0.0, g.uni(0, 60))
        elif n.startswith('delta'):
            P[n] = g.pick(1, -1) * g.uni(0.1, 100)
        else:
            P[n] = g.uni(-500, 500)
    return P


def thin(P, L, i=''):
    return P['fracPol' + i] * np.exp(2j * (P['psi0%s_deg' % i] * R + P['RM%s_radm2' % i] * L))


def burn(s, L):
    return np.exp(-2 * s ** 2 * L ** 2)


def slab(P, L, i=''):
    d = P['deltaRM%s_radm2' % i]
    return P['fracPol' + i] * np.exp(2j * (P['psi0%s_deg' % i] * R + (d / 2 + P['RM%s_radm2' % i]) * L)) * np.sin(d * L) / (d * L)


def internal(P, L, rm):
    Z = 2 * P['sigmaRM_radm2'] ** 2 * L ** 2 - 2j * L * P['deltaRM_radm2']
    return P['fracPol'] * np.exp(2j * (P['psi0_deg'] * R + P[rm] * L)) * (1 - np.exp(-Z)) / Z


one = ['fracPol', 'psi0_deg', 'RM_radm2']


def many(n, *extra):
    r = []
    for i in '123'[:n]:
        r += ['fracPol' + i, 'psi0%s_deg' % i, 'RM%s_radm2' % i] + [e % i for e in extra if '%' in e]
    return r + [e for e in extra if '%' not in e]


F = {
    'm1': (one, thin),
    'm2': (one + ['sigmaRM_radm2'], lambda P, L: thin(P, L) * burn(P['sigmaRM_radm2'], L)),
    'm3': (many(2, 'sigmaRM_radm2'), lambda P, L: (thin(P, L, '1') + thin(P, L, '2')) * burn(P['sigmaRM_radm2'], L)),
    'm4': (many(2, 'sigmaRM%s_radm2'), lambda P, L: thin(P, L, '1') * burn(P['sigmaRM1_radm2'], L) + thin(P, L, '2') * burn(P['sigmaRM2_radm2'], L)),
    'm5': (one + ['deltaRM_radm2'], slab),
    'm6': (many(2, 'deltaRM%s_radm2'), lambda P, L: slab(P, L, '1') + slab(P, L, '2')),
    'm7': (one + ['deltaRM_radm2', 'sigmaRM_radm2'], lambda P, L: internal(P, L, 'RM_radm2')),
    'm11': (many(2), lambda P, L: thin(P, L, '1') + thin(P, L, '2')),
    'm12': (['fracPol', 'psi0_deg', 'RM_screen', 'deltaRM_radm2', 'sigmaRM_radm2', 'sigmaRM_radm2_FG'],
            lambda P, L: internal(P, L, 'RM_screen') * burn(P['sigmaRM_radm2_FG'], L)),
    'm111': (many(3), lambda P, L: thin(P, L, '1') + thin(P, L, '2') + thin(P, L, '3')),
}


def mk(name):
    pars, f = F[name]

    def test(g):
        n = g.pick(1, 2, g.int(3, 40))
        L = g.uni(1e-4, 0.5, n)
        if g.chance(0.3):
            L = np.sort(L)[::-1].copy()
        P = par(g, pars)
        g.note(n=n, **P)
        Q, L0 = dict(P), L.copy()
        y = importlib.import_module('RMtools_1D.models_ns.' + name).model(P, L)
        need(P == Q and np.array_equal(L, L0), 'an input was modified')
        want = f(P, L)
        need(np.shape(y) == want.shape, 'shape %s, expected %s', np.shape(y), want.shape)
        same('model', np.asarray(y), want, rtol=1e-9, atol=1e-9)
    return test


TESTS = [(m, mk(m)) for m in F]
