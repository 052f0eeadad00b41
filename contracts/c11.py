"""C11  create_chunks / assemble_chunks: chunking and reassembly are inverse, for every image and chunk size.

pre : image cube of 2, 3 or 4 dimensions with ny rows and nx columns; N >= 1 pixels per chunk
post (create):   K = ceil(nx ny / N) files prefix.C<i>.fits are written, i = 0..K-1 printed with the fixed width
      floor(log10 K)+1 (so that names sort in order); pixel k of the chunk i is, for every plane, the image pixel
      p = i N + k in column-by-column order (x = p div ny, y = p mod ny); the last chunk holds the remaining
      pixels; the header carries OLDXDIM = nx, OLDYDIM = ny and is otherwise that of the input
post (assemble): from chunk files with that content and header, the written image has shape (.., ny, nx) and pixel
      (x, y) of every plane is pixel p mod N of chunk p div N with p = x ny + y; OLDXDIM/OLDYDIM are removed
lemma: create then assemble is the identity (substitution of one postcondition in the other)
"""
import re
from pyvc import terms as t, values as V
from pyvc.spec import *
from pyvc.fitsshim import Header, HDU
from pyvc.values import SV
from pyvc.shims import EList
from pyvc.npshim import SymList


def token(E, s):
    return E.tokens[int(s)]


def ceildiv(S, a, b):
    return SV('i', t.neg(V.cfloor(S.div(-S.v(a), b)).re))


PL = {2: 0, 3: 1, 4: 2}


class Hdus(list):
    def close(self):
        pass

    def flush(self):
        pass


def create(ndim):
    def run(E):
        S = Spec(E)
        mod = 'RMtools_3D.create_chunks'
        nx, ny, N = E.int('nx', 1), E.int('ny', 1), E.int('N', 1)
        pl = [E.int('n%d' % k, 1) for k in range(ndim - 2)]
        data = E.array('data', (*pl, ny, nx), 'float64', nan=True)
        fz = S.freeze(data)
        h = Header({'NAXIS': ndim, 'BUNIT': 'Jy', 'CRPIX3': E.real('crpix3')})
        for k, n in enumerate([nx, ny] + pl[::-1]):
            h['NAXIS%d' % (k + 1)] = n
        m = command_line(E, mod, {}, ['im.fits', N])
        m.__dict__['path'] = type('P', (), dict(exists=staticmethod(lambda p: True), splitext=staticmethod(__import__('os').path.splitext)))
        K = ceildiv(S, nx * ny, N)
        inloop = [EList(), EList()]
        last = []

        def writeto(fn, d, header=None, **k):
            g = re.fullmatch(r'im\.C<sym(\d+)>\.fits', fn)
            if g:
                v, spec = token(E, g.group(1))
                g2 = re.fullmatch(r'0<sym(\d+)>d', spec)
            if not g or not g2:
                g = re.fullmatch(r'im\.C(\d+)\.fits', fn)
                S.prove('file name', TRUE if g else FALSE)
                if not g:
                    raise PathEnd('name')
                v = S.num(int(g.group(1)))
                S.same('width of the chunk number', S.num(len(g.group(1))), SV('i', t.add(V.cfloor(S.log10(K)).re, t.ONE)))
            else:
                S.same('width of the chunk number', token(E, g2.group(1))[0], SV('i', t.add(V.cfloor(S.log10(K)).re, t.ONE)))
            if E.loopvars:
                inloop[0].append(v)
                inloop[1].append(d.copy())
            else:
                last.append((v, d))
            for k in h:
                if k not in ('NAXIS1', 'NAXIS2'):
                    if isinstance(h[k], str):
                        S.prove('keyword ' + k, TRUE if header.get(k) == h[k] else FALSE)
                    else:
                        S.same('keyword ' + k, S.num(header[k]), S.num(h[k]))
            S.same('OLDXDIM', S.num(header['OLDXDIM']), S.num(nx))
            S.same('OLDYDIM', S.num(header['OLDYDIM']), S.num(ny))
        m.__dict__['pf'] = type('PF', (), dict(open=staticmethod(lambda fn, **k: Hdus([HDU(data, h)])), writeto=staticmethod(writeto)))
        S.call(E.fn(mod, 'main'))
        S.frame(fz)
        n0 = S.num(inloop[0].sym_len())
        S.same('number of files', n0 + len(last), K)
        S.prove('the last chunk is written', TRUE if len(last) == 1 else FALSE)
        if len(last) != 1:
            return

        def chunk(i, d, n, what):
            S.shape(what, d, (*pl, 1, n))
            with S.forall(*pl, 1, n) as ix:
                k = S.v(ix[-1])
                p = S.v(i) * N + k
                x = V.cfloor(S.div(p, ny))
                y = p - x * ny
                S.same(what + ': pixel', S.at(d, *ix), S.at(data, *ix[:-2], y, x))
        if E.decide(S.truth(S.lt(0, n0))):
            with S.forall(K - 1) as (i,):
                S.same('chunk number', S.num(inloop[0].elem(i)), S.v(i))
                chunk(i, inloop[1].elem(i), N, 'full chunk')
        S.same('last chunk number', S.num(last[0][0]), K - 1)
        chunk(K - 1, last[0][1], nx * ny - (K - 1) * N, 'last chunk')
    return run


UNITS = [('create_chunks, %d-D' % d, create(d)) for d in (3, 4, 2)]


def assemble(ndim, single):
    def run(E):
        S = Spec(E)
        mod = 'RMtools_3D.assemble_chunks'
        nx, ny, N = E.int('nx', 1), E.int('ny', 1), E.int('N', 1)
        pl = [E.int('n%d' % k, 1) for k in range(ndim - 2)]
        K = ceildiv(S, nx * ny, N)
        if single:
            E.assume(S.le(nx * ny, N))
        else:
            E.assume(S.lt(N, nx * ny))
        src = lambda i: E.array('chunks', (K, *pl, 1, N), 'float64', nan=True)
        chunks = src(0)
        h = Header({'NAXIS': ndim, 'BITPIX': -32, 'BUNIT': 'Jy', 'OLDXDIM': nx, 'OLDYDIM': ny, 'CRPIX3': E.real('crpix3')})
        # the header of a full chunk, or of the only one (FITS writers store the true length)
        for k, n in enumerate([S.num(nx * ny) if single else N, 1] + pl[::-1]):
            h['NAXIS%d' % (k + 1)] = n
        m = command_line(E, mod, {}, ['im.C0.fits'])
        large = E.array('blank', (*pl, ny, nx), 'float64')
        hd = []

        class Names(SymList):
            sorted = False

            def __init__(s):
                SymList.__init__(s, K.re, None)

            def sort(s):
                s.sorted = True

            def __getitem__(s, i):
                S.prove('files are sorted', TRUE if s.sorted else FALSE)
                return ('chunk', S.num(i))

        def popen(fn, mode='readonly', **k):
            if isinstance(fn, tuple):
                i = fn[1]
                S.prove('existing chunk', S.and_(S.le(0, i), S.lt(i, K)))
                n = S.v(N) if not single else S.num(nx * ny)
                lastlen = nx * ny - (K - 1) * N
                if single:
                    n = lastlen
                elif E.decide(S.truth(S.eq(i, K - 1))):
                    n = lastlen
                d = S.mkraw((*pl, 1, n), lambda *ix: S.at(chunks, i, *ix))
                return Hdus([HDU(d, h)])
            S.prove('output name', TRUE if fn == 'im.fits' and mode == 'update' else FALSE)
            x = HDU()
            x.data = large
            return Hdus([x])

        def tofile(s, fn, overwrite=False):
            hd.append((fn, s.copy()))
        Header.tofile = tofile
        Header.tostring = lambda s, *a: [0] * 2880

        class F:
            def __enter__(s):
                return s

            def __exit__(s, *a):
                return False

            def seek(s, n):
                hd.append(('seek', n))

            def write(s, b):
                pass
        m.__dict__['open'] = lambda fn, mode='r': F()
        m.__dict__['glob'] = lambda pat: Names() if pat == 'im.C*.fits' else None
        m.__dict__['pf'] = type('PF', (), dict(open=staticmethod(popen), getheader=staticmethod(lambda f, *a, **k: h)))
        S.call(E.fn(mod, 'main'))
        H = [x for x in hd if x[0] == 'im.fits']
        S.prove('one header written', TRUE if len(H) == 1 else FALSE)
        H = H[0][1]
        S.prove('bookkeeping keywords removed', TRUE if 'OLDXDIM' not in H and 'OLDYDIM' not in H else FALSE)
        S.same('NAXIS1', S.num(H['NAXIS1']), S.num(nx))
        S.same('NAXIS2', S.num(H['NAXIS2']), S.num(ny))
        for k in ('NAXIS', 'BITPIX', 'CRPIX3') + tuple('NAXIS%d' % (j + 3) for j in range(ndim - 2)):
            S.same('keyword ' + k, S.num(H[k]), S.num(h[k]))
        size = S.num(1)
        for n in [nx, ny] + pl:
            size = size * n
        sk = [x for x in hd if x[0] == 'seek']
        S.same('file size', S.num(sk[0][1]) if sk else S.num(-1), S.num(2880 + size * 4 - 1))
        with S.forall(*pl, ny, nx) as ix:
            y, x = S.v(ix[-2]), S.v(ix[-1])
            p = x * ny + y
            i = V.cfloor(S.div(p, N))
            S.same('pixel of the image', S.at(large, *ix), S.at(chunks, i, *ix[:-2], 0, p - i * N))
    return run


UNITS += [('assemble_chunks, %d-D%s' % (d, s * ', one chunk'), assemble(d, s)) for d in (3, 4, 2) for s in (False, True)]
