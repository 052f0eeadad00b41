"""C18  rescale_I_model_3D: every pixel is re-referenced with its own data.

pre : covariance (6,6,ny,nx), coefficient (6,ny,nx) and reference-frequency (ny,nx) maps of reals or NaN
post: with R = renormalize_StokesI_model (contract C09, here: any function of its arguments), the returned
      coefficients and errors of pixel (y,x) are R(covariance[:,:,y,x], coefficients[:,y,x], old[y,x], new[y,x]);
      the frequency map is returned unchanged; the command line uses new frequency = c/sqrt(LAMSQ0), the given
      one, or the mean of the old map, and passes covariance, coefficients and model family on unchanged
"""
from pyvc import terms as t, values as V
from pyvc.spec import *


def R(S, kind, i, fam, cov, p, f0, f1):
    """renormalize_StokesI_model as an uninterpreted function of everything it may depend on"""
    a = []
    for x in list(p) + list(cov) + [f0, f1]:
        x = lift(x)
        nan = x.nan if x.nan is not None else t.FALSE
        a.append(t.mul(t.ind(t.bnot(nan)), V.tonum(x).re))
        a.append(t.ind(nan))
    nm = 'R_%s_%s_%d' % (kind, fam, i)
    return SV('f', t.app(nm, *a), nan=t.bapp(nm + '_nan', *a))


from pyvc.values import lift


def stub(E, S):
    def ren(fr, new):
        p = [S.at(fr.params, i) for i in range(6)]
        cov = [S.at(fr.pcov, i, j) for i in range(6) for j in range(6)]
        g = lambda kind: S.mkraw((6,), lambda i: S.select(i, [R(S, kind, j, fr.fit_function, cov, p, fr.reference_frequency_Hz, new) for j in range(6)]))
        return fr.with_options(params=g('par'), perror=g('err'), reference_frequency_Hz=new)
    E.stub('RMutils.util_misc', 'renormalize_StokesI_model', ren)


def maps(fam):
    def run(E):
        S = Spec(E)
        ny, nx = E.int('ny', 1), E.int('nx', 1)
        cov = E.array('cov', (6, 6, ny, nx), 'float64', nan=True)
        co = E.array('coeff', (6, ny, nx), 'float64', nan=True)
        old = E.array('old', (ny, nx), 'float64', nan=True)
        new = E.array('new', (ny, nx), 'float64', nan=True)
        fz = S.freeze(cov, co, old, new)
        f = E.fn('RMtools_3D.rescale_I_model_3D', 'rescale_I_model_3D')
        stub(E, S)
        nf, nc, ne = S.call(f, cov, old, new, co, fam)
        S.frame(fz)
        S.shape('coefficient maps', nc, (6, ny, nx))
        S.shape('error maps', ne, (6, ny, nx))
        S.shape('frequency map', nf, (ny, nx))
        with S.forall(ny, nx) as (y, x):
            S.same('frequency map', S.at(nf, y, x), S.at(new, y, x))
            a = ([S.at(cov, i, j, y, x) for i in range(6) for j in range(6)], [S.at(co, i, y, x) for i in range(6)], S.at(old, y, x), S.at(new, y, x))
            for i in range(6):
                S.same('coefficient %d of the pixel' % i, S.at(nc, i, y, x), R(S, 'par', i, fam, *a))
                S.same('error %d of the pixel' % i, S.at(ne, i, y, x), R(S, 'err', i, fam, *a))
    return run


UNITS = [('maps, log', maps('log')), ('maps, linear', maps('linear'))]


def cmd(mode):
    def run(E):
        from pyvc.spec import command_line
        from pyvc.fitsshim import Header
        S = Spec(E)
        mod = 'RMtools_3D.rescale_I_model_3D'
        ny, nx = E.int('ny', 1), E.int('nx', 1)
        cov = E.array('cov', (6, 6, ny, nx), 'float64', nan=True)
        co = E.array('coeff', (6, ny, nx), 'float64', nan=True)
        old = E.array('old', (ny, nx), 'float64', nan=True)
        fz = S.freeze(cov, co, old)
        given = {}
        fam = 'log'
        if mode == 'lambda2':
            given['-l'] = 'FDF.fits'
            l0 = E.real('lamsq0', pos=True)
        if mode == 'freq':
            given['-f'] = E.real('freq', pos=True)
        m = command_line(E, mod, given, ['/data/xcovariance.fits'])
        h = Header({'HISTORY': ['something', 'Fit model is dynamic order %s-polynomial' % fam]})
        got = []
        ok = lambda y, x: S.not_(S.isnan(old, y, x))
        cnt = S.sum(nx, lambda x: S.sum(ny, lambda y: S.ind(ok(y, x))))
        if mode == 'mean':
            E.assume(S.ne(cnt, 0))

        class OS:
            path = type('P', (), dict(exists=staticmethod(lambda p: True)))
        m.__dict__['os'] = OS
        E.stub(mod, 'read_data', lambda base: (cov, old, co, h))
        E.stub(mod, 'write_new_parameters', lambda *a, **k: got.append(('write', a, k)))

        def resc(covar_map, old_reffreq_map, new_freq_map, coeffs, fit_function='log', num_cores=1):
            got.append(('rescale', covar_map, old_reffreq_map, new_freq_map, coeffs, fit_function))
            return 'freq', 'coeffs', 'errors'
        E.stub(mod, 'rescale_I_model_3D', resc)
        m.__dict__['pf'] = type('PF', (), dict(getheader=staticmethod(lambda f, *a, **k: Header({'LAMSQ0': l0}))))
        S.call(E.fn(mod, 'command_line'))
        S.frame(fz)
        r = [g for g in got if g[0] == 'rescale']
        w = [g for g in got if g[0] == 'write']
        S.prove('one rescaling, one write', TRUE if len(r) == 1 and len(w) == 1 else FALSE)
        if len(r) != 1 or len(w) != 1:
            return
        _, c1, o1, nf, p1, f1 = r[0]
        S.prove('model family of the input', TRUE if f1 == fam else FALSE)
        S.prove('the rescaled maps are written', TRUE if tuple(w[0][1][:3]) == ('freq', 'coeffs', 'errors') else FALSE)
        S.shape('covariance map', c1, (6, 6, ny, nx))
        S.shape('coefficient map', p1, (6, ny, nx))
        S.shape('new frequency map', nf, (ny, nx))
        if mode == 'lambda2':
            want = S.div(299792458, S.sqrt(l0))
        elif mode == 'freq':
            want = given['-f']
        else:
            want = S.div(S.sum(nx, lambda x: S.sum(ny, lambda y: S.if_(ok(y, x), S.val(old, y, x), 0))), cnt)
        with S.forall(ny, nx) as (y, x):
            S.same('new reference frequency', S.at(nf, y, x), want)
            S.same('old reference frequency', S.at(o1, y, x), S.at(old, y, x))
            with S.forall(6, 6) as (i, j):
                S.same('covariance passed on', S.at(c1, i, j, y, x), S.at(cov, i, j, y, x))
                S.same('coefficients passed on', S.at(p1, i, y, x), S.at(co, i, y, x))
    return run


UNITS += [('command line, ' + k, cmd(k)) for k in ('lambda2', 'freq', 'mean')]


def reader(order):
    def run(E):
        from pyvc.fitsshim import Header
        S = Spec(E)
        mod = 'RMtools_3D.rescale_I_model_3D'
        ny, nx = E.int('ny', 1), E.int('nx', 1)
        cov = E.array('cov', (6, 6, ny, nx), 'float64', nan=True)
        co = [E.array('coeff%d' % i, (ny, nx), 'float64', nan=True) for i in range(order + 1)]
        old = E.array('old', (ny, nx), 'float64', nan=True)
        f = E.fn(mod, 'read_data')
        files = {'b_covariance.fits': cov, 'b_reffreq.fits': old}
        files.update({'b_coeff%d.fits' % i: c for i, c in enumerate(co)})
        h = Header({'A': 1})

        def getdata(fn, *a, header=False, **k):
            if fn not in files:
                raise FileNotFoundError(fn)
            return (files[fn], h) if header else files[fn]
        m = E.load(mod)
        m.__dict__['pf'] = type('PF', (), dict(getdata=staticmethod(getdata)))
        m.__dict__['os'] = type('OS', (), dict(path=type('P', (), dict(exists=staticmethod(lambda p: True)))))
        c1, o1, p1, h1 = S.call(f, 'b_')
        S.shape('coefficients', p1, (6, ny, nx))
        S.shape('covariance', c1, (6, 6, ny, nx))
        S.prove('header of the frequency map', TRUE if h1 is h else FALSE)
        with S.forall(ny, nx) as (y, x):
            S.same('reference frequency', S.at(o1, y, x), S.at(old, y, x))
            for i in range(6):
                S.same('coefficient %d is stored highest order first' % i, S.at(p1, 5 - i, y, x), S.at(co[i], y, x) if i <= order else S.num(0))
            with S.forall(6, 6) as (i, j):
                S.same('covariance', S.at(c1, i, j, y, x), S.at(cov, i, j, y, x))
    return run


UNITS += [('read_data, order %d' % o, reader(o)) for o in (0, 2, 5)]
