"""Trusted contracts of the numpy functions used by the verified code, over
symbolic-shape arrays.  Everything in this file is part of the trusted base and is
cross-checked against CPython numpy by pyvc/crosscheck.py."""
import builtins
from fractions import Fraction
from . import terms as t
from .solver import renorm as solver_renorm
from .terms import T, TRUE, FALSE, ZERO, ONE
from .values import *
from .values import _arr_methods, _pk, dimT, normdim, mkint, lift, out, memo_fn, map_sv
from . import values as V

_native_int, _native_float, _native_bool, _native_abs, _native_max, _native_min = int, float, bool, abs, max, min
_native_any, _native_all, _native_sum, _native_round = any, all, sum, round

BIN = {'add': cadd, 'sub': lambda a, b: cadd(a, b, -1), 'mul': cmul, 'div': cdiv, 'floordiv': cfloordiv, 'mod': cmod,
       'pow': cpow, 'and': cand, 'or': cor, 'xor': cxor,
       'lt': lambda a, b: ccmp('lt', a, b), 'le': lambda a, b: ccmp('le', a, b), 'gt': lambda a, b: ccmp('gt', a, b),
       'ge': lambda a, b: ccmp('ge', a, b), 'eq': lambda a, b: ccmp('eq', a, b), 'ne': lambda a, b: ccmp('ne', a, b),
       'minimum': cmin, 'maximum': cmax, 'arctan2': catan2,
       'fmin': lambda a, b: cmin(a, b, True), 'fmax': lambda a, b: cmax(a, b, True)}
CMPS = {'lt', 'le', 'gt', 'ge', 'eq', 'ne'}
UN = {'neg': cneg, 'not': cnot, 'abs': cabs, 'sqrt': csqrt, 'exp': cexp, 'log': clog,
      'log10': lambda a: clog(a, t.log10), 'cos': ccos, 'sin': csin, 'real': creal, 'imag': cimag, 'conj': cconj,
      'isnan': cisnan, 'isinf': cisinf, 'isfinite': cisfinite, 'floor': cfloor, 'ceil': cceil, 'rint': crint,
      'deg2rad': cdeg2rad, 'rad2deg': crad2deg, 'square': lambda a: cmul(a, a),
      'sign': lambda a: SV(tonum(a).kind, V.sign(tonum(a).re), ZERO, a.nan), 'trunc': lambda a: SV('f', trunc(a).re, ZERO, a.nan, a.inf),
      'tan': V.uf('tan'), 'arctan': V.uf('arctan'), 'arcsin': V.uf('arcsin'), 'arccos': V.uf('arccos'),
      'sinh': V.uf('sinh'), 'cosh': V.uf('cosh'), 'tanh': V.uf('tanh'), 'erf': V.uf('erf')}


def kind_dt(k):
    return DType({'b': 'bool', 'i': 'int64', 'f': 'float64', 'c': 'complex128'}[k])


def res_dt(op, a, b):
    """result dtype of a binary op; a, b python-level operands"""
    if op in CMPS:
        return DType('bool')
    da = a.dt if isinstance(a, SArr) else None
    db = b.dt if isinstance(b, SArr) else None
    if da is None or db is None:
        arr = da or db
        s = b if da is not None else a
        if arr is None:
            return None
        sv = lift(s)
        o = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
        if sv.dt is not None:
            r = promote_dt(arr, DType(sv.dt))
        elif o[sv.kind] <= o[arr.kind]:
            r = arr
        elif sv.kind == 'c':
            r = DType('complex64' if arr.name == 'float32' else 'complex128')
        else:
            r = kind_dt(sv.kind)
    else:
        r = promote_dt(da, db)
    if op == 'div' and r.kind in 'bi':
        r = DType('float64')
    if op in ('add', 'mul', 'sub', 'pow', 'floordiv', 'mod') and r.kind == 'b':
        r = DType('int64') if op not in ('add', 'mul') else DType('bool')
    if op == 'arctan2':
        r = DType('float64') if r.kind in 'bi' else r
    return r


def fix_kind(v, dt):
    """make the cell kind agree with the array dtype"""
    k = dt.kind
    if v.kind == k:
        return v
    if k == 'O':
        return v
    o = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
    if k == 'b':
        return SV('b', truth(v))
    v = tonum(v)
    if o[v.kind] < o[k]:
        return SV(k, v.re, v.im, v.nan, v.inf)
    if k == 'i' and v.kind == 'f' and v.re.sort == 'I':
        return SV('i', v.re)
    if k == 'i':
        return trunc(v)
    return cast(v, dt)


class NP:
    """the object standing for the numpy module"""

    def __init__(self, engine):
        self.E = engine
        self.newaxis = None
        self.pi = SV('f', V.PI)
        self.e = SV('f', t.app('exp', ONE))
        self.nan = SV('f', ZERO, nan=TRUE)
        self.NaN = self.NAN = self.nan
        self.inf = SV('f', ONE, inf=TRUE)
        self.Inf = self.inf
        self.ndarray = SArr
        self.generic = SV
        self.ma = MA(self)
        self.random = Rand(self)
        self.linalg = _Mod('numpy.linalg')
        for nm in ('float32', 'float64', 'float16', 'int32', 'int64', 'complex64', 'complex128', 'uint8', 'uint16', 'int16'):
            setattr(self, nm, _ScalarType(nm))
        self.float_ = self.float64
        self.int_ = self.int64
        self.bool_ = _ScalarType('bool')
        self.complex_ = self.complex128
        self.integer = self.int64
        self.floating = self.float64
        self.number = SV
        self.__name__ = 'numpy'
        self.__version__ = '1.26.4'

        class exceptions:
            VisibleDeprecationWarning = Warning
        self.exceptions = exceptions

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported('numpy.%s' % n)
        f.__name__ = n
        return f

    # ---------------------------------------------------------------- helpers
    def arr(self, x, dt=None):
        if isinstance(x, SArr):
            return x
        if isinstance(x, SymList):
            if getattr(x, 'items', None) is not None:
                return self._from_list(x.items)
            return x.to_array()
        if hasattr(x, 'sym_len') and hasattr(x, 'elem'):
            return SymList(x.n, x.elem).to_array()
        if is_scalar(x):
            v = lift(x)
            d = DType(v.dt) if v.dt else kind_dt(v.kind)
            return SArr((), d, lambda idx: v)
        if isinstance(x, (list, tuple)):
            return self._from_list(x)
        if isinstance(x, range):
            return self._from_list(list(x))
        if x is None:
            raise Unsupported('array of None')
        raise Unsupported('array from %s' % type(x).__name__)

    def _from_list(self, x):
        items = [self.arr(y) for y in x]
        n = len(items)
        if n == 0:
            return SArr((0,), DType('float64'), lambda idx: lift(0.0))
        for y in items[1:]:
            if len(y.dims) != len(items[0].dims):
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
            for d1, d2 in zip(y.dims, items[0].dims):
                if not self.E.decide(t.eq(dimT(d1), dimT(d2))):
                    raise ValueError('inhomogeneous shape')
        dt = items[0].dt
        for y in items[1:]:
            dt = promote_dt(dt, y.dt)
        fs = [y.snap() for y in items]

        def fn(idx):
            i = idx[0]
            rest = idx[1:]
            if i.op == 'num':
                return fix_kind(fs[int(i.args[0])](rest), dt)
            r = fs[-1](rest)
            for j in range(n - 2, -1, -1):
                r = cite(t.eq(i, t.num(j)), fs[j](rest), r)
            return fix_kind(r, dt)
        return SArr((n,) + items[0].dims, dt, fn)

    def _same(self, d1, d2):
        a, b = dimT(d1), dimT(d2)
        if a is b:
            return True
        return self.E.entails(t.eq(a, b))

    def _bcast(self, shapes):
        nd = _native_max([len(s) for s in shapes] + [0])
        outd = []
        for ax in range(nd):
            cur = 1
            for s in shapes:
                j = ax - (nd - len(s))
                if j < 0:
                    continue
                d = s[j]
                if isinstance(d, int) and d == 1:
                    continue
                if isinstance(cur, int) and cur == 1:
                    cur = d
                elif self._same(cur, d):
                    if isinstance(d, int):
                        cur = d
                elif not isinstance(d, int) and self.E.entails(t.eq(dimT(d), ONE)):
                    pass
                elif not isinstance(cur, int) and self.E.entails(t.eq(dimT(cur), ONE)):
                    cur = d
                else:
                    if self.E.decide(t.eq(dimT(cur), dimT(d))):
                        pass
                    elif self.E.decide(t.eq(dimT(d), ONE)):
                        pass
                    elif self.E.decide(t.eq(dimT(cur), ONE)):
                        cur = d
                    else:
                        raise ValueError('operands could not be broadcast together')
            outd.append(cur)
        return tuple(outd)

    def _bidx(self, arr, outdims):
        """index map for broadcasting arr to outdims"""
        nd = len(outdims)
        off = nd - len(arr.dims)
        flags = []
        for j, d in enumerate(arr.dims):
            o = outdims[off + j]
            one = isinstance(d, int) and d == 1
            if not one and not isinstance(d, int) and not self._same(d, o):
                one = self.E.entails(t.eq(dimT(d), ONE))
            flags.append(one)
        sn = arr.snap()

        def f(idx):
            return sn(tuple(ZERO if flags[j] else idx[off + j] for j in range(len(flags))))
        return f

    def broadcast_fn(self, x, dims):
        if is_scalar(x):
            v = lift(x)
            return lambda idx: v
        a = self.arr(x)
        b = self._bcast([a.dims, dims])
        for d1, d2 in zip(b, dims):
            if not self._same(d1, d2):
                raise ValueError('could not broadcast input array')
        if len(b) > len(dims):
            # leading 1s are allowed in assignment
            extra = len(b) - len(dims)
            f = self._bidx(a, b)
            return lambda idx: f(tuple([ZERO] * extra) + tuple(idx))
        return self._bidx(a, dims)

    # ---------------------------------------------------------------- elementwise
    def _binop(self, op, a, b):
        f = BIN[op]
        if isinstance(a, (Quantity,)) or isinstance(b, (Quantity,)):
            return NotImplemented
        if isinstance(a, (list, tuple, SymList)) or isinstance(b, (list, tuple)):
            a = self.arr(a) if isinstance(a, (list, tuple, SymList)) else a
            b = self.arr(b) if isinstance(b, (list, tuple, SymList)) else b
        if isinstance(a, SymList) or isinstance(b, SymList):
            a = self.arr(a)
            b = self.arr(b)
        if not isinstance(a, SArr) and not isinstance(b, SArr):
            if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
                return NotImplemented
            try:
                x, y = lift(a), lift(b)
            except Unsupported:
                if op == 'eq':
                    return False
                if op == 'ne':
                    return True
                raise
            if op == 'div' and x.kind != 'c' and y.kind in 'if' and y.re.op != 'num' and not self.E.idxctx and len(self.E.levels) == 1 \
                    and not t.is_nonzero(y.re) and not any(v_.args[0].startswith('$') for v_ in t.fv(y.re)):
                self.E.decide(t.eq0(y.re))
                y = V.map_sv(y, solver_renorm)
            r = f(x, y)
            if r.dt is None and op not in CMPS and (x.dt or y.dt):
                dt = V._dt2(x, y, r.kind)
                if dt:
                    r = SV(r.kind, r.re, r.im, r.nan, r.inf, dt)
            return out(self.E.named(r))
        dt = res_dt(op, a, b)
        msk = None
        for z in (a, b):
            if isinstance(z, SArr) and z.masked is not None:
                msk = z.masked if msk is None else self._binop('or', msk, z.masked)
        dims = self._bcast([z.dims for z in (a, b) if isinstance(z, SArr)])
        fa = self.broadcast_fn(a, dims)
        fb = self.broadcast_fn(b, dims)
        r = SArr(dims, dt, lambda idx: fix_kind(f(fa(idx), fb(idx)), dt))
        r.masked = msk
        self._carry(r, a, b)
        return r

    def _carry(self, r, *xs):
        for z in xs:
            if isinstance(z, SArr) and z.cmask is not None:
                r.cmask = z.cmask

    def _unop(self, op, a):
        f = UN[op]
        if isinstance(a, (list, tuple, SymList)):
            a = self.arr(a)
        if not isinstance(a, SArr):
            v = lift(a)
            r = f(v)
            if v.dt and r.dt is None and r.kind in 'fc':
                nm = {'float32': 'float32', 'complex64': 'complex64' if r.kind == 'c' else 'float32'}.get(v.dt)
                if nm:
                    r = SV(r.kind, r.re, r.im, r.nan, r.inf, nm)
            return out(r)
        dt = a.dt
        if op in ('isnan', 'isinf', 'isfinite'):
            dt = DType('bool')
        elif op in ('abs', 'real', 'imag') and dt.kind == 'c':
            dt = DType('float32' if dt.name == 'complex64' else 'float64')
        elif op not in ('neg', 'not', 'abs', 'real', 'imag', 'conj', 'square', 'sign') and dt.kind in 'bi':
            dt = DType('float64')
        elif op == 'neg' and dt.kind == 'b':
            raise TypeError('numpy boolean negative')
        fa = a.snap()
        r = SArr(a.dims, dt, lambda idx: fix_kind(f(fa(idx)), dt))
        r.masked = a.masked
        self._carry(r, a)
        return r

    def _inplace(self, op, a, b):
        dims = self._bcast([a.dims] + ([b.dims] if isinstance(b, SArr) else []))
        if len(dims) != len(a.dims) or not _native_all(self._same(x, y) for x, y in zip(dims, a.dims)):
            raise ValueError('non-broadcastable output operand')
        if not isinstance(b, SArr) and not is_scalar(b):
            b = self.arr(b)
        r = self._binop(op, a, b)
        o = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
        if o[r.dt.kind] > o[a.dt.kind]:
            raise TypeError("Cannot cast ufunc '%s' output from dtype('%s') to dtype('%s') with casting rule 'same_kind'" % (op, r.dt, a.dt))
        self._assign(a, r)
        return a

    def _assign(self, a, val, guard=None):
        """a[...] = val (a may be a view); guard: extra view-index predicate"""
        fv = self.broadcast_fn(val, a.dims)
        base = a.base
        old = base.fn
        dt = base.dt
        if a.imap is None:
            self.E.log_write(base, guard or (lambda idx: TRUE))

            def fn(idx):
                v = fix_kind(fv(idx), dt)
                if guard is None:
                    return v
                return cite(guard(idx), v, old(idx))
        else:
            wm = a.wmap
            if wm is None:
                raise Unsupported('write through a non-invertible view')

            def wguard(idx):
                g, vi = wm(idx)
                return g if guard is None or g is FALSE else t.band(g, guard(vi))
            self.E.log_write(base, wguard)

            def fn(idx):
                g, vi = wm(idx)
                if g is FALSE:
                    return old(idx)
                if guard is not None:
                    g = t.band(g, guard(vi))
                return cite(g, fix_kind(fv(vi), dt), old(idx))
        base.fn = memo_fn(fn)

    # ---------------------------------------------------------------- indexing
    def _norm_key(self, a, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        key = [self._kconv(k) for k in key]
        # count consumed axes
        n = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            n += k.ndim if isinstance(k, SArr) and k.dt.kind == 'b' else 1
        if not _native_any(k is Ellipsis for k in key):
            key.append(Ellipsis)
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        fill = len(a.dims) - n
        if fill < 0:
            raise IndexError('too many indices for array')
        key = key[:i] + [slice(None)] * fill + key[i + 1:]
        return key

    def _kconv(self, k):
        if isinstance(k, (list, SymList)):
            return self.arr(k) if k else self.arr(k).astype('int')
        if isinstance(k, bool):
            raise Unsupported('boolean scalar index')
        if isinstance(k, SV):
            if k.kind == 'b':
                raise Unsupported('boolean scalar index')
            if k.kind != 'i':
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
            return k
        if isinstance(k, float):
            raise IndexError('only integers are valid indices')
        if isinstance(k, SArr) and k.ndim == 0:
            return out(k.cell(()))
        return k

    def slice_bounds(self, s, d):
        """(start, length, step) terms of slice s on a dimension d (python semantics)"""
        n = dimT(d)
        step = s.step
        if isinstance(step, SV):
            step = step.const()
            if step is None:
                raise Unsupported('symbolic slice step')
        step = 1 if step is None else int(step)
        ent = self.E.entails

        def clip(x, lo, hi):
            if not ent(t.le(lo, x)):
                x = lo if ent(t.le(x, lo)) else t.tmax(x, lo)
            if not ent(t.le(x, hi)):
                x = hi if ent(t.le(hi, x)) else t.tmin(x, hi)
            return x

        def wrap(x):
            if x.op == 'num':
                return x if x.args[0] >= 0 else t.add(n, x)
            if ent(t.le(ZERO, x)):
                return x
            if ent(t.lt(x, ZERO)):
                return t.add(n, x)
            return t.ite(t.lt(x, ZERO), t.add(n, x), x)

        def conv(x):
            v = lift(x)
            if v.kind not in 'ib':
                raise TypeError('slice indices must be integers or None or have an __index__ method')
            return tonum(v).re
        if step > 0:
            lo = ZERO if s.start is None else clip(wrap(conv(s.start)), ZERO, n)
            hi = n if s.stop is None else clip(wrap(conv(s.stop)), ZERO, n)
            ln = t.sub(hi, lo)
            if step != 1:
                ln = t.idiv(t.add(ln, t.num(step - 1)), t.num(step))
            if not ent(t.le(ZERO, ln)):
                ln = ZERO if ent(t.le(ln, ZERO)) else t.tmax(ln, ZERO)
            return lo, ln, step
        if step == -1:
            m1 = t.MONE
            lo = t.sub(n, ONE) if s.start is None else clip(wrap(conv(s.start)), m1, t.sub(n, ONE))
            hi = m1 if s.stop is None else clip(wrap(conv(s.stop)), m1, t.sub(n, ONE))
            ln = t.sub(lo, hi)
            if not ent(t.le(ZERO, ln)):
                ln = t.tmax(ln, ZERO)
            return lo, ln, -1
        raise Unsupported('slice step %r' % step)

    def int_index(self, k, d, what='index'):
        n = dimT(d)
        x = tonum(lift(k)).re
        if x.op == 'num' and x.args[0] < 0:
            x = t.add(n, x)
        elif x.op != 'num':
            if not self.E.entails(t.le(ZERO, x)):
                if self.E.entails(t.lt(x, ZERO)):
                    x = t.add(n, x)
                else:
                    x = t.ite(t.lt(x, ZERO), t.add(n, x), x)
        self.E.bounds(x, n)
        return x

    def _view(self, a, key):
        """basic indexing -> view.  mask / index-array entries are left as full axes and
        reported in the second result as (view axis, key)"""
        key = self._norm_key(a, key)
        vmap = []      # for each source axis: function of view idx
        dims = []
        adv = []
        ax = 0
        inv = []       # for each source axis: ('int', i) | ('sl', vaxis, lo, ln, step)
        newax = 0
        for k in key:
            if k is None:
                dims.append(1)
                continue
            if isinstance(k, slice):
                d = a.dims[ax]
                if k.start is None and k.stop is None and k.step in (None, 1):
                    lo, ln, st = ZERO, dimT(d), 1
                else:
                    lo, ln, st = self.slice_bounds(k, d)
                inv.append(('sl', len(dims), lo, ln, st))
                dims.append(normdim(ln))
                ax += 1
            elif isinstance(k, SArr):
                m = k.ndim if k.dt.kind == 'b' else 1
                adv.append((len(dims), m, k))
                for j in range(m):
                    d = a.dims[ax]
                    inv.append(('sl', len(dims), ZERO, dimT(d), 1))
                    dims.append(d)
                    ax += 1
            elif isinstance(k, SymIndex):
                raise Unsupported('symbolic index list')
            else:
                i = self.int_index(k, a.dims[ax])
                inv.append(('int', i))
                ax += 1
        dims = tuple(dims)
        full = all(e[0] == 'sl' and e[2] is ZERO and e[4] == 1 and self._dimis(e[3], a.dims[j]) for j, e in enumerate(inv)) and len(dims) == len(a.dims)
        if full:
            return a, adv
        nd = len(dims)
        oim, owm = a.imap, a.wmap

        def imap(idx):
            r = []
            for e in inv:
                if e[0] == 'int':
                    r.append(e[1])
                else:
                    x = idx[e[1]]
                    r.append(t.add(e[2], x) if e[4] == 1 else t.add(e[2], t.scale(x, e[4])))
            r = tuple(r)
            return oim(r) if oim is not None else r
        wmap = None
        if not (a.imap is not None and a.wmap is None):
            def wmap(bidx):
                g = TRUE
                if owm is not None:
                    g, bidx = owm(bidx)
                v = [ZERO] * nd
                for j, e in enumerate(inv):
                    x = bidx[j]
                    if e[0] == 'int':
                        g = t.band(g, t.eq(x, e[1]))
                    else:
                        _, vax, lo, ln, st = e
                        if st == 1:
                            y = t.sub(x, lo)
                        elif st == -1:
                            y = t.sub(lo, x)
                        else:
                            y = t.idiv(t.sub(x, lo), t.num(st))
                            g = t.band(g, t.eq(t.imod(t.sub(x, lo), t.num(st)), ZERO))
                        v[vax] = y
                        if not (lo is ZERO and st == 1 and self._dimis(ln, a.dims[j])):
                            g = t.band(g, t.le(ZERO, y), t.lt(y, ln))
                return g, tuple(v)
        r = SArr(dims, a.dt, base=a.base, imap=imap, wmap=wmap)
        if a.masked is not None:
            r.masked = self._view(a.masked, tuple(key))[0] if not adv else None
        return r, adv

    def _dimis(self, ln, d):
        return ln is dimT(d)

    def _getitem(self, a, key):
        if isinstance(key, str):
            raise Unsupported('structured array field')
        sm = self._selmask(key)
        if sm is not None:
            key = sm
        if isinstance(key, tuple) and any(isinstance(k, SArr) and k.dt.kind != 'b' for k in key) or isinstance(key, SArr) and key.dt.kind == 'i' and key.ndim > 0:
            return self._take(a, key if isinstance(key, tuple) else (key,))
        v, adv = self._view(a, key)
        if not adv:
            if not v.dims:
                if v.masked is not None:
                    pass
                return out(v.cell(()))
            return v
        if len(adv) > 1:
            raise Unsupported('several boolean masks in one index')
        ax, m, k = adv[0]
        if k.dt.kind == 'b':
            return self._compress(v, ax, m, k)
        return self._take1(v, ax, k)

    def _selmask(self, key):
        """A[np.where(c)] is A[c]"""
        if isinstance(key, tuple) and key and all(isinstance(k, SArr) and getattr(k, 'selof', None) is not None for k in key):
            m0, _, n0 = key[0].selof
            if all(k.selof[0] is m0 and k.selof[1] == j for j, k in enumerate(key)) and len(key) == n0:
                return m0
        if isinstance(key, SArr) and getattr(key, 'selof', None) is not None and key.selof[2] == 1:
            return key.selof[0]
        if isinstance(key, tuple):
            new = []
            ch = False
            for k in key:
                if isinstance(k, SArr) and getattr(k, 'selof', None) is not None and k.selof[2] == 1:
                    new.append(k.selof[0])
                    ch = True
                else:
                    new.append(k)
            if ch and sum(isinstance(k, SArr) for k in new) == 1:
                return tuple(new)
        return None

    def mask_key(self, dims, f):
        """canonical identity of a boolean array (for selections)"""
        vs = [t.var('$m%d' % next(t._fresh), 'I') for _ in dims]
        c = f(tuple(vs)).re
        return t.red('maskid', [dimT(d) for d in dims], [(vs, c)], sort='I')

    def count_of(self, dims, f):
        r = ONE
        vs = [t.var('$m%d' % next(t._fresh), 'I') for _ in dims]
        c = t.ind(f(tuple(vs)).re)
        for v, d in zip(vs, dims):
            c = t.mk_sum(ZERO, dimT(d), v, c)
        return c

    def _compress(self, v, ax, m, k):
        mk = [v.dims[ax + j] for j in range(m)]
        for d1, d2 in zip(mk, k.dims):
            if not self._same(d1, d2):
                if not self.E.decide(t.eq(dimT(d1), dimT(d2))):
                    raise IndexError('boolean index did not match indexed array')
        kf = k.snap()
        if m == 1:
            sl = self._interval_mask(k, kf)
            if sl is not None:
                return v[(slice(None),) * ax + (sl,)]
        key = self.mask_key(k.dims, kf)
        n = self.count_of(k.dims, kf)
        sn = v.snap()
        dims = v.dims[:ax] + (normdim(n),) + v.dims[ax + m:]
        if n is dimT(mk[0]) and m == 1:
            return SArr(dims, v.dt, lambda idx: sn(idx))

        def fn(idx):
            j = idx[ax]
            s = tuple(t.app('sel', key, t.num(q), j, sort='I') for q in range(m))
            return sn(idx[:ax] + s + idx[ax + 1:])
        self.E.add_sel(key, k.dims, n)
        r = SArr(dims, v.dt, fn)
        r.cmask = (key, ax, m)
        return r

    def _interval_mask(self, k, kf):
        """the mask  j < c  or  j >= c  as a slice"""
        n = dimT(k.dims[0])
        j = t.fresh('ix', 'I')
        with self.E.ctx(t.le(ZERO, j), t.lt(j, n)):
            c = kf((j,)).re
        neg = c.op == 'not'
        if neg:
            c = c.args[0]
        if c.op != 'lt0' or j not in t.fv(c):
            return None
        p = t.poly_of(c.args[0])
        k1 = p.get(((j, 1),))
        if k1 not in (1, -1) or any(j in t.fv(a) for m in p for a, e in m if m != ((j, 1),)):
            return None
        rest = t.sub(c.args[0], t.scale(j, k1))
        if rest.sort != t.I:
            return None
        # k1=1:  j < -rest ; negated: j >= -rest ;  k1=-1:  j > rest ; negated: j <= rest
        cut = t.neg(rest) if k1 == 1 else t.add(rest, ONE)
        prefix = (k1 == 1) != neg
        if not self.E.entails(t.le(ZERO, cut)):
            if self.E.decide(t.lt(cut, ZERO)):
                cut = ZERO
        return slice(None, mkint(cut)) if prefix else slice(mkint(cut), None)

    def _scatter(self, a, key, val):
        """a[.., ka, kb, ..] = val for one-dimensional index arrays: one assignment per position, in order"""
        key = self._norm_key(a, key)
        pos = [j for j, k in enumerate(key) if isinstance(k, SArr)]
        ks = [key[j] for j in pos]
        if pos != list(range(pos[0], pos[0] + len(pos))) or any(k.dt.kind != 'i' or k.ndim != 1 for k in ks):
            raise Unsupported('several advanced indices in assignment')
        if any(not (isinstance(k, slice) and k == slice(None)) for j, k in enumerate(key) if j not in pos):
            raise Unsupported('several advanced indices in assignment')
        n = ks[0].dims[0]
        for k in ks[1:]:
            if not self._same(k.dims[0], n) and not self.E.decide(t.eq(dimT(k.dims[0]), dimT(n))):
                raise IndexError('shape mismatch: indexing arrays could not be broadcast together')
        rd = a.dims[:pos[0]] + (n,) + a.dims[pos[-1] + 1:]
        if not is_scalar(val):
            # numpy broadcasts the value to the shape of the selection (and ignores leading ones)
            while val.ndim > len(rd) and isinstance(val.dims[0], int) and val.dims[0] == 1:
                val = val[0]
            val = self.broadcast_to(val, rd)
            if val is a or getattr(val, 'base', None) is getattr(a, 'base', 0):
                val = self.copy(val)
        full = (slice(None),)

        def body(j):
            x = val if is_scalar(val) else val[full * pos[0] + (j,)]
            a[tuple(key[:pos[0]]) + tuple(k[j] for k in ks) + tuple(key[pos[-1] + 1:])] = x
        def get():
            return {}

        def set_(d):
            pass
        self.E.for_(self.E.shims._range(mkint(dimT(n))), body, get, set_, ('numpy', 'index assignment', 0))

    def _take1(self, v, ax, k):
        kf = k.snap()
        sn = v.snap()
        nk = len(k.dims)
        dims = v.dims[:ax] + k.dims + v.dims[ax + 1:]
        n = dimT(v.dims[ax])

        def fn(idx):
            j = kf(idx[ax:ax + nk]).re
            if j.op == 'num' and j.args[0] < 0:
                j = t.add(n, j)
            return sn(idx[:ax] + (j,) + idx[ax + nk:])
        # bounds of the index array
        vs = tuple(t.fresh('ix', 'I') for _ in k.dims)
        rng = t.band(*[t.band(t.le(ZERO, x), t.lt(x, dimT(d))) for x, d in zip(vs, k.dims)])
        j = kf(vs).re
        self.E.bounds_c(t.implies(rng, t.band(t.le(t.neg(n), j), t.lt(j, n))))
        return SArr(dims, v.dt, fn)

    def _take(self, a, key):
        nk = [k for k in key if isinstance(k, SArr)]
        if len(nk) == 1:
            v, adv = self._view(a, key)
            ax, m, k = adv[0]
            return self._take1(v, ax, k)
        # several index arrays on leading axes: pointwise
        key = self._norm_key(a, key)
        pos = [j for j, k in enumerate(key) if isinstance(k, SArr)]
        if pos != list(range(pos[0], pos[0] + len(pos))) or any(k.dt.kind != 'i' for k in nk):
            raise Unsupported('advanced indexing')
        if any(not (isinstance(k, slice) and k == slice(None)) for j, k in enumerate(key) if j not in pos):
            raise Unsupported('advanced indexing with slices')
        dims = self._bcast([k.dims for k in nk])
        fs = [self.broadcast_fn(k, dims) for k in nk]
        p0 = pos[0]
        sn = a.snap()
        nd = len(dims)

        def fn(idx):
            mid = idx[p0:p0 + nd]
            return sn(idx[:p0] + tuple(f(mid).re for f in fs) + idx[p0 + nd:])
        return SArr(a.dims[:p0] + dims + a.dims[p0 + len(pos):], a.dt, fn)

    def _setitem(self, a, key, val):
        sm = self._selmask(key)
        if sm is not None:
            key = sm
        if isinstance(val, (list, tuple, range, SymList)):
            val = self.arr(val)
        if val is None:
            raise Unsupported('assigning None into an array')
        v, adv = self._view(a, key)
        if isinstance(a.masked, SArr) and val is self.ma.masked:
            raise Unsupported('masked assignment')
        if not adv:
            self._assign(v, val)
            return
        if len(adv) > 1:
            self._scatter(a, key, val)
            return
        ax, m, k = adv[0]
        if k.dt.kind != 'b':
            return self._set_index(v, ax, k, val)
        mk = [v.dims[ax + j] for j in range(m)]
        for d1, d2 in zip(mk, k.dims):
            if not self._same(d1, d2):
                if not self.E.decide(t.eq(dimT(d1), dimT(d2))):
                    raise IndexError('boolean index did not match indexed array')
        kf = k.snap()
        guard = lambda idx: kf(tuple(idx[ax:ax + m])).re
        if is_scalar(val) or (isinstance(val, SArr) and val.ndim == 0):
            self._assign(v, val, guard)
            return
        if val.cmask is not None:
            key2 = self.mask_key(k.dims, kf)
            if val.cmask[0] is key2 and val.ndim == v.ndim - m + 1:
                ax2 = val.cmask[1]
                vf = val.snap()
                if ax2 == ax:
                    def fn(idx):
                        rk = t.app('rank', key2, *idx[ax:ax + m], sort='I')
                        c = vf(idx[:ax] + (rk,) + idx[ax + m:])
                        mm = {t.app('sel', key2, t.num(q), rk, sort='I'): idx[ax + q] for q in range(m)}
                        return map_sv(c, lambda x: t.subst(x, mm))
                    self._assign(v, SArr(v.dims, val.dt, fn), guard)
                    return
        # value broadcast along the masked axis (e.g. A[:, mask] = col[:, None])
        if val.ndim >= 1 and val.ndim == v.ndim - m + 1 and isinstance(val.dims[ax], int) and val.dims[ax] == 1 and m == 1:
            self._assign(v, val, guard)
            return
        raise Unsupported('masked assignment of an array')

    def _set_index(self, v, ax, k, val):
        if k.ndim == 1 and isinstance(k.dims[0], int):
            vals = None
            if not is_scalar(val):
                vals = val
            for j in range(k.dims[0]):
                i = out(k.cell((t.num(j),)))
                key = tuple([slice(None)] * ax + [i])
                if vals is None:
                    self._setitem(v, key, val)
                else:
                    self._setitem(v, key, vals[tuple([slice(None)] * _native_max(0, ax) + [j])] if vals.ndim > ax else vals)
            return
        raise Unsupported('assignment through an index array')

    # ---------------------------------------------------------------- creation
    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        a = self.arr(x)
        if dtype is not None:
            a = self._astype(a, dtype)
        elif a is x:
            a = self.copy(a)
        return a

    def asarray(self, x, dtype=None, **k):
        a = self.arr(x)
        return a if dtype is None else self._astype(a, dtype)

    asanyarray = asarray

    def ascontiguousarray(self, x, dtype=None):
        a = self.arr(x)
        if a.ndim == 0:
            a = self.reshape(a, (1,))
        return a if dtype is None else self._astype(a, dtype)

    def copy(self, a, **k):
        a = self.arr(a)
        f = a.snap()
        r = SArr(a.dims, a.dt, f)
        r.masked = a.masked
        r.cmask = a.cmask
        return r

    def _shape_arg(self, s):
        if isinstance(s, SArr):
            s = list(s)
        if isinstance(s, (list, tuple, SymList)):
            return tuple(normdim(x) for x in s)
        return (normdim(s),)

    def full(self, shape, v, dtype=None, **k):
        sv = lift(v) if is_scalar(v) or (isinstance(v, SArr) and v.ndim == 0) else None
        if sv is None:
            r = self.empty(shape, dtype or self.arr(v).dt)
            self._assign(r, v)
            return r
        dt = DType.of(dtype) if dtype is not None else kind_dt(sv.kind)
        c = fix_kind(sv, dt)
        return SArr(self._shape_arg(shape), dt, lambda idx: c)

    def zeros(self, shape, dtype='float64', **k):
        dt = DType.of(dtype)
        return self.full(shape, False if dt.kind == 'b' else 0, dt)

    def ones(self, shape, dtype='float64', **k):
        dt = DType.of(dtype)
        return self.full(shape, True if dt.kind == 'b' else 1, dt)

    def empty(self, shape, dtype='float64', **k):
        dt = DType.of(dtype)
        nm = 'uninit%d' % self.E.uid()
        return SArr(self._shape_arg(shape), dt, lambda idx: uninit(nm, dt, idx))

    def zeros_like(self, a, dtype=None, **k):
        a = self.arr(a)
        return self.zeros(a.shape, dtype or a.dt)

    def ones_like(self, a, dtype=None, **k):
        a = self.arr(a)
        return self.ones(a.shape, dtype or a.dt)

    def full_like(self, a, v, dtype=None, **k):
        a = self.arr(a)
        return self.full(a.shape, v, dtype or a.dt)

    def empty_like(self, a, dtype=None, **k):
        a = self.arr(a)
        return self.empty(a.shape, dtype or a.dt)

    def arange(self, *args, dtype=None, **k):
        vs = [tonum(lift(x)) for x in args]
        isint = all(v.kind == 'i' for v in vs)
        if len(vs) == 1:
            lo, hi, st = lift(0), vs[0], lift(1)
        elif len(vs) == 2:
            lo, hi, st = vs[0], vs[1], lift(1)
        else:
            lo, hi, st = vs
        if st.re is ONE:
            n = t.sub(hi.re, lo.re)
            if n.sort != 'I':
                n = t.neg(t.floor(t.neg(n)))
        elif st.re is t.MONE:
            n = t.sub(lo.re, hi.re)
            if n.sort != 'I':
                n = t.neg(t.floor(t.neg(n)))
        else:
            n = t.neg(t.floor(t.neg(t.div(t.sub(hi.re, lo.re), st.re))))
        if not self.E.entails(t.le(ZERO, n)):
            n = t.tmax(n, ZERO)
        dt = DType.of(dtype) if dtype is not None else DType('int64' if isint else 'float64')
        return SArr((normdim(n),), dt, lambda idx: SV(dt.kind, t.add(lo.re, t.mul(st.re, idx[0]))))

    def linspace(self, a, b, num=50, endpoint=True, dtype=None, **k):
        a, b = tonum(lift(a)), tonum(lift(b))
        nv = lift(num)
        if nv.kind == 'f':
            raise TypeError("'float' object cannot be interpreted as an integer")
        n = nv.re
        if not self.E.entails(t.le(ZERO, n)):
            if not self.E.decide(t.le(ZERO, n)):
                raise ValueError('Number of samples must be non-negative.')
        dt = DType.of(dtype) if dtype is not None else DType('float64')
        nan = t.bor(a.nan, b.nan, a.inf, b.inf)
        den = t.sub(n, ONE) if endpoint else n
        stp = t.div(t.sub(b.re, a.re), den)
        return SArr((normdim(n),), dt, lambda idx: SV('f', t.add(a.re, t.mul(idx[0], stp)), ZERO, nan))

    def eye(self, n, **k):
        return SArr((normdim(n), normdim(n)), DType('float64'), lambda idx: SV('f', t.ind(t.eq(idx[0], idx[1]))))

    identity = eye

    # ---------------------------------------------------------------- ufuncs
    def _u(op):
        def f(self, a, *args, out=None, where=None, dtype=None, **k):
            if out is not None or where is not None:
                raise Unsupported('ufunc out/where')
            return self._unop(op, a)
        return f

    abs = absolute = _u('abs')
    fabs = _u('abs')
    sqrt = _u('sqrt')
    exp = _u('exp')
    log = _u('log')
    log10 = _u('log10')
    cos = _u('cos')
    sin = _u('sin')
    tan = _u('tan')
    arctan = _u('arctan')
    arcsin = _u('arcsin')
    arccos = _u('arccos')
    real = _u('real')
    imag = _u('imag')
    conj = conjugate = _u('conj')
    isnan = _u('isnan')
    isinf = _u('isinf')
    isfinite = _u('isfinite')
    floor = _u('floor')
    ceil = _u('ceil')
    rint = _u('rint')
    trunc = _u('trunc')
    deg2rad = radians = _u('deg2rad')
    rad2deg = degrees = _u('rad2deg')
    square = _u('square')
    sign = _u('sign')
    negative = _u('neg')
    invert = logical_not_ = _u('not')
    del _u

    def _b(op):
        def f(self, a, b, *args, out=None, where=None, dtype=None, **k):
            if out is not None or where is not None:
                raise Unsupported('ufunc out/where')
            a = self.arr(a) if isinstance(a, (list, tuple, SymList)) else a
            b = self.arr(b) if isinstance(b, (list, tuple, SymList)) else b
            return self._binop(op, a, b)
        return f

    add = _b('add')
    subtract = _b('sub')
    multiply = _b('mul')
    divide = true_divide = _b('div')
    power = float_power = _b('pow')
    mod = remainder = _b('mod')
    floor_divide = _b('floordiv')
    minimum = _b('minimum')
    maximum = _b('maximum')
    fmin = _b('fmin')
    fmax = _b('fmax')
    arctan2 = _b('arctan2')
    equal = _b('eq')
    not_equal = _b('ne')
    less = _b('lt')
    less_equal = _b('le')
    greater = _b('gt')
    greater_equal = _b('ge')
    bitwise_and = _b('and')
    bitwise_or = _b('or')
    del _b

    def _tobool(self, a):
        a = self.arr(a) if not is_scalar(a) else a
        if isinstance(a, SArr):
            return a if a.dt.kind == 'b' else self._astype(a, 'bool')
        return out(SV('b', truth(a)))

    def logical_and(self, a, b, **k):
        return self._binop('and', self._tobool(a), self._tobool(b))

    def logical_or(self, a, b, **k):
        return self._binop('or', self._tobool(a), self._tobool(b))

    def logical_xor(self, a, b, **k):
        return self._binop('xor', self._tobool(a), self._tobool(b))

    def logical_not(self, a, **k):
        b = self._tobool(a)
        return (not b) if isinstance(b, bool) else self._unop('not', b)

    def hypot(self, a, b):
        return self.sqrt(self._binop('add', self.square(a), self.square(b)))

    def angle(self, z, deg=False):
        r = self.arctan2(self.imag(z), self.real(z))
        return self.degrees(r) if deg else r

    def reciprocal(self, a):
        return self._binop('div', 1.0, a)

    def exp2(self, a):
        return self.power(2.0, a)

    def sinc(self, x):
        y = self._binop('mul', self.pi, x)
        s = self._binop('div', self.sin(y), y)
        return self.where(self._binop('eq', y, 0), 1.0, s)

    def clip(self, a, lo, hi, **k):
        r = a
        if lo is not None:
            r = self.maximum(r, lo)
        if hi is not None:
            r = self.minimum(r, hi)
        return r

    def nan_to_num(self, a, copy=True, nan=None, posinf=None, neginf=None):
        if is_scalar(a):
            return out(cnan_to_num(lift(a), nan, posinf, neginf))
        a = self.arr(a)
        f = a.snap()
        r = SArr(a.dims, a.dt, lambda idx: cnan_to_num(f(idx), nan, posinf, neginf))
        if not copy:
            self._assign(a, r)
            return a
        return r

    def where(self, c, *ab):
        if len(ab) == 0:
            return self._where1(self._tobool(c))
        a, b = ab
        a = self.arr(a) if isinstance(a, (list, tuple, SymList)) else a
        b = self.arr(b) if isinstance(b, (list, tuple, SymList)) else b
        if a is None or b is None:
            raise Unsupported('where(None)')
        if isinstance(c, bool) or isinstance(c, SV):
            ct = truth(c)
            if not isinstance(a, SArr) and not isinstance(b, SArr):
                return out(cite(ct, lift(a), lift(b)))
            c = self.arr(c)
        c = self._tobool(c)
        if isinstance(c, (bool, SV)):
            c = self.arr(c)
        dt = res_dt('where', a if isinstance(a, SArr) else self.arr(a) if not isinstance(b, SArr) else a,
                    b if isinstance(b, SArr) else self.arr(b) if not isinstance(a, SArr) else b)
        dims = self._bcast([c.dims] + [z.dims for z in (a, b) if isinstance(z, SArr)])
        fc = self.broadcast_fn(c, dims)
        fa = self.broadcast_fn(a, dims)
        fb = self.broadcast_fn(b, dims)
        return SArr(dims, dt, lambda idx: fix_kind(cite(fc(idx).re, fa(idx), fb(idx)), dt))

    def _where1(self, c):
        if isinstance(c, (bool, SV)):
            raise Unsupported('where(scalar)')
        f = c.snap()
        if all(isinstance(d, int) for d in c.dims) and c.ndim == 1 and c.dims[0] <= 16:
            vals = [f((t.num(i),)).re for i in range(c.dims[0])]
            if all(v in (TRUE, FALSE) for v in vals):
                return (self.arr([i for i, v in enumerate(vals) if v is TRUE] or []).astype('int'),)
        key = self.mask_key(c.dims, f)
        n = self.count_of(c.dims, f)
        self.E.add_sel(key, c.dims, n)
        res = []
        cc = SArr(c.dims, c.dt, f)
        for q in range(c.ndim):
            r = SArr((normdim(n),), DType('int64'), lambda idx, q=q: SV('i', t.app('sel', key, t.num(q), idx[0], sort='I')))
            r.selof = (cc, q, c.ndim)
            r.cmask = (key, 0, c.ndim)
            res.append(r)
        return tuple(res)

    def nonzero(self, c):
        return self._where1(self._tobool(c))

    def argwhere(self, c):
        w = self._where1(self._tobool(c))
        return self.transpose(self._from_list(list(w)))

    @property
    def r_(self):
        np_ = self

        class R:
            def __getitem__(self, k):
                k = k if isinstance(k, tuple) else (k,)
                if isinstance(k[0], str):
                    ax, nd = ([int(x) for x in k[0].split(',')] + [1])[:2]
                    k = k[1:]
                else:
                    ax, nd = 0, 1
                xs = []
                for x in k:
                    if isinstance(x, (slice, str)):
                        raise Unsupported('np.r_ with slices')
                    x = np_.arr(x)
                    for _ in range(nd - x.ndim):
                        x = np_.expand_dims(x, 0)
                    xs.append(x)
                return np_.concatenate(xs, axis=ax)
        return R()

    def flatnonzero(self, c):
        return self._where1(self._tobool(self.ravel(c)))[0]

    # ---------------------------------------------------------------- shapes
    def shape(self, a):
        return self.arr(a).shape

    def ndim(self, a):
        return self.arr(a).ndim

    def size(self, a, axis=None):
        a = self.arr(a)
        return a.size if axis is None else a.shape[axis]

    def isscalar(self, x):
        return is_scalar(x) and not (isinstance(x, SArr)) or isinstance(x, str)

    def iscomplexobj(self, x):
        return self.arr(x).dt.kind == 'c'

    def isrealobj(self, x):
        return not self.iscomplexobj(x)

    def _astype(self, a, dt, copy=True, **k):
        dt = DType.of(dt)
        f = a.snap()
        if dt.kind == 'O':
            return a
        r = SArr(a.dims, dt, lambda idx: cast(f(idx), dt))
        r.masked = a.masked
        r.cmask = a.cmask
        return r

    def reshape(self, a, shape, order='C', **k):
        a = self.arr(a)
        if order not in ('C', 'A', None):
            raise Unsupported('reshape order')
        shp = list(self._shape_arg(shape))
        n1 = ONE
        for d in a.dims:
            n1 = t.mul(n1, dimT(d))
        if any(isinstance(d, int) and d == -1 for d in shp):
            j = [i for i, d in enumerate(shp) if isinstance(d, int) and d == -1]
            if len(j) > 1:
                raise ValueError('can only specify one unknown dimension')
            known = ONE
            for i, d in enumerate(shp):
                if i != j[0]:
                    known = t.mul(known, dimT(d))
            q = self._exact_div(n1, known)
            shp[j[0]] = normdim(q)
        n2 = ONE
        for d in shp:
            n2 = t.mul(n2, dimT(d))
        if n1 is not n2 and not self.E.entails(t.eq(n1, n2)):
            if not self.E.decide(t.eq(n1, n2)):
                raise ValueError('cannot reshape array')
        shp = tuple(shp)
        r = self._reshape(a, shp)
        return r

    def _exact_div(self, n, k):
        if k is ONE:
            return n
        pn, pk = t.poly_of(n), t.poly_of(k)
        if len(pk) == 1:
            (mb, cb), = pk.items()
            q = {}
            for m, c in pn.items():
                dm = dict(m)
                for x, e in mb:
                    if dm.get(x, 0) < e:
                        return t.idiv(n, k)
                    dm[x] -= e
                    if not dm[x]:
                        del dm[x]
                q[tuple(sorted(dm.items(), key=lambda ae: ae[0].id))] = c / cb
            return t.from_poly(q)
        return t.idiv(n, k)

    def _groups(self, A, Bd):
        """split both shapes into minimal groups with equal products"""
        groups = []
        i = j = 0
        A, Bd = list(A), list(Bd)
        while i < len(A) or j < len(Bd):
            gi, gj = [], []
            pa = pb = ONE
            if i < len(A):
                gi.append(i)
                pa = dimT(A[i])
                i += 1
            if j < len(Bd):
                gj.append(j)
                pb = dimT(Bd[j])
                j += 1
            while not (pa is pb or self.E.entails(t.eq(pa, pb))):
                # a size-1 axis can be peeled off on its own
                if len(gi) == 1 and pa is ONE and not (len(gj) == 0):
                    groups.append((gi, []))
                    gi = []
                    if i < len(A):
                        gi = [i]
                        pa = dimT(A[i])
                        i += 1
                    else:
                        pa = ONE
                        if pb is ONE:
                            break
                    continue
                if len(gj) == 1 and pb is ONE and not (len(gi) == 0):
                    groups.append(([], gj))
                    gj = []
                    if j < len(Bd):
                        gj = [j]
                        pb = dimT(Bd[j])
                        j += 1
                    else:
                        pb = ONE
                        if pa is ONE:
                            break
                    continue
                # extend the side whose product divides the other
                if i < len(A) and (j >= len(Bd) or self._divides(pa, pb)):
                    pa = t.mul(pa, dimT(A[i]))
                    gi.append(i)
                    i += 1
                elif j < len(Bd):
                    pb = t.mul(pb, dimT(Bd[j]))
                    gj.append(j)
                    j += 1
                elif i < len(A):
                    pa = t.mul(pa, dimT(A[i]))
                    gi.append(i)
                    i += 1
                else:
                    raise Unsupported('reshape grouping')
            groups.append((gi, gj))
        return groups

    def _divides(self, pa, pb):
        ma = t.poly_of(pa)
        mb = t.poly_of(pb)
        if len(ma) == 1 and len(mb) == 1:
            (x, cx), = ma.items()
            (y, cy), = mb.items()
            dy = dict(y)
            return all(dy.get(a, 0) >= e for a, e in x) and x != y
        return False

    def _reshape(self, a, shp):
        groups = self._groups(a.dims, shp)
        A = [dimT(d) for d in a.dims]
        Bd = [dimT(d) for d in shp]

        def mapper(src, dst, gsrc, gdst):
            # index on dst axes -> index on src axes
            def f(idx):
                r = [None] * len(src)
                for gs, gd in zip(gsrc, gdst):
                    if len(gs) == 1 and len(gd) == 1:
                        r[gs[0]] = idx[gd[0]]
                        continue
                    nt_s = [s for s in gs if src[s] is not ONE]
                    nt_d = [s for s in gd if dst[s] is not ONE]
                    if len(nt_s) == len(nt_d) and all(src[x] is dst[y] for x, y in zip(nt_s, nt_d)):
                        for s in gs:
                            r[s] = ZERO
                        for x, y in zip(nt_s, nt_d):
                            r[x] = idx[y]
                        continue
                    flat = ZERO
                    for s in gd:
                        flat = t.add(t.mul(flat, dst[s]), idx[s])
                    # unflatten over gs
                    rem = flat
                    strides = []
                    p = ONE
                    for s in reversed(gs):
                        strides.append(p)
                        p = t.mul(p, src[s])
                    strides = strides[::-1]
                    for pos, s in enumerate(gs):
                        if src[s] is ONE:
                            r[s] = ZERO
                            continue
                        last = all(src[q] is ONE for q in gs[pos + 1:])
                        if last:
                            r[s] = rem
                            rem = ZERO
                        else:
                            with self.E.assuming_idx(idx, dst):
                                q = t.idiv(rem, strides[pos])
                                rem2 = t.imod(rem, strides[pos])
                            r[s] = q
                            rem = rem2
                return tuple(r)
            return f
        ga = [g[0] for g in groups]
        gb = [g[1] for g in groups]
        fwd = memo_fn(mapper(A, Bd, ga, gb))      # new idx -> old idx
        bwd = memo_fn(mapper(Bd, A, gb, ga))      # old idx -> new idx
        oim, owm = a.imap, a.wmap

        def imap(idx):
            r = fwd(tuple(idx))
            return oim(r) if oim is not None else r
        if a.imap is not None and a.wmap is None:
            wmap = None
        else:
            def wmap(bidx):
                g = TRUE
                if owm is not None:
                    g, bidx = owm(bidx)
                return g, bwd(tuple(bidx))
        r = SArr(shp, a.dt, base=a.base, imap=imap, wmap=wmap)
        if a.masked is not None:
            r.masked = self._reshape(a.masked, shp)
        return r

    def ravel(self, a, **k):
        a = self.arr(a)
        return self.reshape(a, (a.size,))

    def transpose(self, a, axes=None):
        a = self.arr(a)
        nd = a.ndim
        if axes is None:
            axes = tuple(range(nd))[::-1]
        axes = tuple(int(x) % nd for x in axes)
        if sorted(axes) != list(range(nd)):
            raise ValueError("axes don't match array")
        dims = tuple(a.dims[x] for x in axes)
        oim, owm = a.imap, a.wmap
        inv = [axes.index(j) for j in range(nd)]

        def imap(idx):
            r = tuple(idx[inv[j]] for j in range(nd))
            return oim(r) if oim is not None else r
        wmap = None
        if not (oim is not None and owm is None):
            def wmap(bidx):
                g = TRUE
                if owm is not None:
                    g, bidx = owm(bidx)
                return g, tuple(bidx[axes[j]] for j in range(nd))
        return SArr(dims, a.dt, base=a.base, imap=imap, wmap=wmap)

    def swapaxes(self, a, i, j):
        a = self.arr(a)
        ax = list(range(a.ndim))
        ax[i], ax[j] = ax[j], ax[i]
        return self.transpose(a, ax)

    def moveaxis(self, a, src, dst):
        a = self.arr(a)
        nd = a.ndim
        src = [src] if isinstance(src, int) else list(src)
        dst = [dst] if isinstance(dst, int) else list(dst)
        for x in src + dst:
            if not -nd <= x < nd:
                raise ValueError('axis out of bounds')
        src = [x % nd for x in src]
        dst = [x % nd for x in dst]
        order = [n for n in range(nd) if n not in src]
        for d, s in sorted(zip(dst, src)):
            order.insert(d, s)
        return self.transpose(a, order)

    def rollaxis(self, a, axis, start=0):
        a = self.arr(a)
        n = a.ndim
        axis %= n
        if start < 0:
            start += n
        if axis < start:
            start -= 1
        axes = list(range(n))
        axes.remove(axis)
        axes.insert(start, axis)
        return self.transpose(a, axes)

    def squeeze(self, a, axis=None):
        if is_scalar(a):
            return a
        a = self.arr(a)
        if axis is not None:
            axs = [x % a.ndim for x in ([axis] if isinstance(axis, int) else axis)]
            for x in axs:
                if not self.E.decide(t.eq(dimT(a.dims[x]), ONE)):
                    raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        else:
            axs = [i for i, d in enumerate(a.dims) if self.E.decide(t.eq(dimT(d), ONE))]
        if not axs:
            return a
        key = tuple(0 if i in axs else slice(None) for i in range(a.ndim))
        r, _ = self._view(a, key)
        return r

    def expand_dims(self, a, axis):
        a = self.arr(a)
        axs = [axis] if isinstance(axis, int) else list(axis)
        nd = a.ndim + len(axs)
        axs = [x % nd for x in axs]
        key = tuple(None if i in axs else slice(None) for i in range(nd))
        return self._view(a, key)[0]

    def atleast_1d(self, a):
        a = self.arr(a)
        return a if a.ndim else self.reshape(a, (1,))

    def broadcast_to(self, a, shape, **k):
        dims = self._shape_arg(shape)
        f = self.broadcast_fn(a, dims)
        return SArr(dims, self.arr(a).dt, f)

    def tile(self, a, reps):
        a = self.arr(a)
        reps = self._shape_arg(reps)
        nd = _native_max(a.ndim, len(reps))
        ad = (1,) * (nd - a.ndim) + a.dims
        reps = (1,) * (nd - len(reps)) + reps
        f = a.snap()
        off = nd - a.ndim
        dims = tuple(normdim(t.mul(dimT(d), dimT(r))) for d, r in zip(ad, reps))

        def fn(idx):
            r = []
            for j in range(off, nd):
                if isinstance(reps[j], int) and reps[j] == 1:
                    r.append(idx[j])
                elif isinstance(ad[j], int) and ad[j] == 1:
                    r.append(ZERO)
                else:
                    r.append(t.imod(idx[j], dimT(ad[j])))
            return f(tuple(r))
        return SArr(dims, a.dt, fn)

    def repeat(self, a, n, axis=None):
        a = self.arr(a)
        if axis is None:
            a = self.ravel(a)
            axis = 0
        axis %= a.ndim
        k = dimT(n)
        f = a.snap()
        dims = a.dims[:axis] + (normdim(t.mul(dimT(a.dims[axis]), k)),) + a.dims[axis + 1:]
        return SArr(dims, a.dt, lambda idx: f(idx[:axis] + ((ZERO if a.dims[axis] == 1 else t.idiv(idx[axis], k)),) + idx[axis + 1:]))

    def concatenate(self, arrs, axis=0, **k):
        if isinstance(arrs, SymList):
            raise Unsupported('concatenate of symbolic list')
        arrs = [self.arr(x) for x in arrs]
        nd = arrs[0].ndim
        if nd == 0:
            raise ValueError('zero-dimensional arrays cannot be concatenated')
        axis %= nd
        dt = arrs[0].dt
        for x in arrs[1:]:
            dt = promote_dt(dt, x.dt)
            for j in range(nd):
                if j != axis and not self._same(x.dims[j], arrs[0].dims[j]):
                    if not self.E.decide(t.eq(dimT(x.dims[j]), dimT(arrs[0].dims[j]))):
                        raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        offs = [ZERO]
        for x in arrs:
            offs.append(t.add(offs[-1], dimT(x.dims[axis])))
        fs = [x.snap() for x in arrs]

        def fn(idx):
            i = idx[axis]
            r = fs[-1](idx[:axis] + (t.sub(i, offs[len(fs) - 1]),) + idx[axis + 1:])
            for q in range(len(fs) - 2, -1, -1):
                r = cite(t.lt(i, offs[q + 1]), fs[q](idx[:axis] + (t.sub(i, offs[q]),) + idx[axis + 1:]), r)
            return fix_kind(r, dt)
        dims = list(arrs[0].dims)
        dims[axis] = normdim(offs[-1])
        r = SArr(dims, dt, fn)
        r.parts = (arrs, axis)
        return r

    def append(self, a, b, axis=None):
        if axis is None:
            return self.concatenate([self.ravel(a), self.ravel(b)])
        return self.concatenate([a, b], axis)

    def stack(self, arrs, axis=0, **k):
        arrs = [self.arr(x) for x in arrs]
        r = self._from_list(arrs)
        return self.moveaxis(r, 0, axis) if axis not in (0,) else r

    def vstack(self, arrs):
        arrs = [self.arr(x) for x in arrs]
        arrs = [x if x.ndim > 1 else self.reshape(x, (1, x.size)) for x in arrs]
        return self.concatenate(arrs, 0)

    def hstack(self, arrs):
        arrs = [self.arr(x) for x in arrs]
        return self.concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)

    def column_stack(self, arrs):
        arrs = [self.arr(x) for x in arrs]
        arrs = [x if x.ndim > 1 else self.reshape(x, (x.size, 1)) for x in arrs]
        return self.concatenate(arrs, 1)

    def roll(self, a, shift, axis=None):
        a = self.arr(a)
        if axis is None:
            if a.ndim != 1:
                raise Unsupported('roll of n-d array')
            axis = 0
        axis %= a.ndim
        s = tonum(lift(shift)).re
        n = dimT(a.dims[axis])
        f = a.snap()
        return SArr(a.dims, a.dt, lambda idx: f(idx[:axis] + (t.imod(t.sub(idx[axis], s), n),) + idx[axis + 1:]))

    def flip(self, a, axis=None):
        a = self.arr(a)
        axs = range(a.ndim) if axis is None else ([axis % a.ndim] if isinstance(axis, int) else [x % a.ndim for x in axis])
        key = tuple(slice(None, None, -1) if i in axs else slice(None) for i in range(a.ndim))
        return self._view(a, key)[0]

    def flipud(self, a):
        return self.flip(a, 0)

    def fliplr(self, a):
        return self.flip(a, 1)

    def rot90(self, m, k=1, axes=(0, 1)):
        m = self.arr(m) if not isinstance(m, tuple) else self._from_list(list(m))
        k %= 4
        if k == 0:
            return m
        if k == 2:
            return self.flip(self.flip(m, axes[0]), axes[1])
        ax = list(range(m.ndim))
        ax[axes[0]], ax[axes[1]] = ax[axes[1]], ax[axes[0]]
        if k == 1:
            return self.transpose(self.flip(m, axes[1]), ax)
        return self.flip(self.transpose(m, ax), axes[1])

    def diff(self, a, n=1, axis=-1):
        a = self.arr(a)
        axis %= a.ndim
        if n != 1:
            raise Unsupported('diff n')
        sl = [slice(None)] * a.ndim
        s2 = list(sl)
        sl[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        return self._binop('sub', self._getitem(a, tuple(sl)), self._getitem(a, tuple(s2)))

    def outer(self, a, b):
        a, b = self.ravel(a), self.ravel(b)
        return self._binop('mul', self.expand_dims(a, 1), self.expand_dims(b, 0))

    def dot(self, a, b):
        a, b = self.arr(a), self.arr(b)
        if a.ndim == 1 and b.ndim == 1:
            return self.sum(self._binop('mul', a, b))
        if a.ndim == 0 or b.ndim == 0:
            return self._binop('mul', a, b)
        if a.ndim == 2 and b.ndim == 1:
            return self.sum(self._binop('mul', a, b), axis=1)
        if a.ndim == 1 and b.ndim == 2:
            return self.sum(self._binop('mul', self.expand_dims(a, 1), b), axis=0)
        if a.ndim == 2 and b.ndim == 2:
            return self.sum(self._binop('mul', self.expand_dims(a, 2), self.expand_dims(b, 0)), axis=1)
        raise Unsupported('dot')

    matmul = dot

    def meshgrid(self, x, y, indexing='xy'):
        x, y = self.arr(x), self.arr(y)
        fx, fy = x.snap(), y.snap()
        if indexing == 'xy':
            d = (y.dims[0], x.dims[0])
            return [SArr(d, x.dt, lambda i: fx((i[1],))), SArr(d, y.dt, lambda i: fy((i[0],)))]
        d = (x.dims[0], y.dims[0])
        return [SArr(d, x.dt, lambda i: fx((i[0],))), SArr(d, y.dt, lambda i: fy((i[1],)))]

    def ndenumerate(self, a):
        raise Unsupported('ndenumerate')

    # ---------------------------------------------------------------- reductions
    def _reduce_axes(self, a, axis):
        if axis is None:
            return list(range(a.ndim))
        axs = [axis] if isinstance(axis, (int, SV)) else list(axis)
        r = []
        for x in axs:
            x = int(x)
            if not -a.ndim <= x < a.ndim:
                raise ValueError('axis %d is out of bounds for array of dimension %d' % (x, a.ndim))
            r.append(x % a.ndim)
        return r

    def _red(self, a, axis, keepdims, dt, cellfn):
        """cellfn(vs, dims, f, idx->cell) : reduce over axes"""
        a = self.arr(a)
        axs = self._reduce_axes(a, axis)
        f = a.snap()
        keep = [i for i in range(a.ndim) if i not in axs]
        dims_r = [a.dims[i] for i in axs]
        dims_k = [a.dims[i] for i in keep]
        cm = a.cmask

        def fn(idx):
            if keepdims:
                idx = tuple(idx[i] for i in keep)

            def g(vs):
                full = [None] * a.ndim
                for j, i in enumerate(keep):
                    full[i] = idx[j]
                for j, i in enumerate(axs):
                    full[i] = vs[j]
                return f(tuple(full))
            return cellfn(dims_r, g)
        if keepdims:
            od = [1 if i in axs else a.dims[i] for i in range(a.ndim)]
        else:
            od = dims_k
        if not od:
            v = fn(())
            return out(v)
        return SArr(od, dt, fn)

    def _vars(self, n):
        return tuple(t.var('$r%d' % next(t._fresh), 'I') for _ in range(n))

    def _sumcell(self, dims, g, skipnan=False):
        vs = self._vars(len(dims))
        with self.E.ctx(*[x for v, d in zip(vs, dims) for x in (t.le(ZERO, v), t.lt(v, dimT(d)))]):
            c = tonum(g(vs))
        re, im, nan = c.re, c.im, c.nan
        if c.inf is not FALSE:
            raise Unsupported('sum over possibly infinite values: ' + t.show(c.inf)[:200])
        if skipnan:
            w = t.ind(t.bnot(nan))
            re, im = t.mul(w, re), t.mul(w, im)
            nan = FALSE
        re, im = desel(self.E, vs, dims, re), desel(self.E, vs, dims, im)
        vs2, dims2, re, im, nan = self._unsel(vs, dims, re, im, nan)
        for v, d in zip(vs2, dims2):
            re = t.mk_sum(ZERO, dimT(d), v, re)
            im = t.mk_sum(ZERO, dimT(d), v, im)
        if nan is not FALSE:
            nan = self.any_term(vs2, dims2, nan)
        return SV(c.kind if c.kind != 'b' else 'i', re, im, nan)

    def _unsel(self, vs, dims, re, im, nan):
        """rewrite a sum over a selected (compressed) axis into a masked sum"""
        if len(dims) == 1 and not isinstance(dims[0], int):
            for key, (kd, n) in self.E.sels.items():
                if n is dimT(dims[0]) and len(kd) >= 1:
                    ms = tuple(self._vars(len(kd)))
                    m = {t.app('sel', key, t.num(q), vs[0], sort='I'): ms[q] for q in range(len(kd))}
                    re2, im2, nan2 = t.subst(re, m), t.subst(im, m), t.subst(nan, m)
                    if any(vs[0] in t.fv(x) for x in (re2, im2, nan2)):
                        continue
                    mask = mask_at(key, ms)
                    return ms, kd, t.mul(t.ind(mask), re2), t.mul(t.ind(mask), im2), t.band(mask, nan2)
        return vs, dims, re, im, nan

    def _unsel_set(self, vs, dims, c):
        """the same for an order-independent reduction: -> variables, extents, values, membership, flag"""
        if len(dims) == 1 and not isinstance(dims[0], int):
            for key, (kd, n) in self.E.sels.items():
                if n is dimT(dims[0]) and len(kd) >= 1:
                    ms = tuple(self._vars(len(kd)))
                    m = {t.app('sel', key, t.num(q), vs[0], sort='I'): ms[q] for q in range(len(kd))}
                    re2, nan2 = t.subst(c.re, m), t.subst(c.nan, m)
                    if not any(vs[0] in t.fv(x) for x in (re2, nan2)):
                        return ms, kd, re2, mask_at(key, ms), nan2
        return vs, dims, c.re, TRUE, c.nan

    def any_term(self, vs, dims, body):
        """exists vs in dims: body"""
        if body is FALSE:
            return FALSE
        return t.mk_any(vs, [dimT(d) for d in dims], body)

    def all_term(self, vs, dims, body):
        return t.bnot(self.any_term(vs, dims, t.bnot(body)))

    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if is_scalar(a):
            return a
        a = self.arr(a)
        if a.masked is not None:
            raise Unsupported('masked sum')
        dt = a.dt if a.dt.kind != 'b' else DType('int64')
        return self._red(a, axis, keepdims, dt, lambda d, g: self._sumcell(d, g))

    def nansum(self, a, axis=None, keepdims=False, **k):
        a = self.arr(a)
        dt = a.dt if a.dt.kind != 'b' else DType('int64')
        return self._red(a, axis, keepdims, dt, lambda d, g: self._sumcell(d, g, True))

    def count_nonzero(self, a, axis=None, **k):
        return self.sum(self._tobool(a), axis=axis)

    def _ndimprod(self, a, axis):
        r = ONE
        for x in self._reduce_axes(a, axis):
            r = t.mul(r, dimT(a.dims[x]))
        return SV('i', r)

    def mean(self, a, axis=None, keepdims=False, **k):
        a = self.arr(a)
        s = self.sum(a, axis, keepdims=keepdims)
        n = self._ndimprod(a, axis)
        if isinstance(s, SV) and n.re.op != 'num' and s.kind != 'c' and self.E.entails(t.lt(ZERO, n.re)):
            return SV('f', t.mul(s.re, t.inv(n.re)), ZERO, s.nan, s.inf)
        return self._binop('div', s, n)

    def nanmean(self, a, axis=None, keepdims=False, **k):
        a = self.arr(a)
        s = self.nansum(a, axis, keepdims=keepdims)
        n = self.sum(self._unop('not', self.isnan(a)), axis, keepdims=keepdims)
        return self._binop('div', s, n)

    def average(self, a, axis=None, weights=None, **k):
        if weights is None:
            return self.mean(a, axis)
        a = self.arr(a)
        w = self.arr(weights)
        return self._binop('div', self.sum(self._binop('mul', a, w), axis), self.sum(w, axis))

    def prod(self, a, axis=None, **k):
        if isinstance(a, (list, tuple, SymList)):
            r = 1
            for x in a:
                r = r * x
            return r
        a = self.arr(a)
        if a.ndim == 1 and isinstance(a.dims[0], int):
            r = 1
            for x in a:
                r = r * x
            return r
        raise Unsupported('prod')

    product = prod

    def any(self, a, axis=None, keepdims=False, **k):
        if is_scalar(a):
            return out(SV('b', truth(a)))
        a = self._tobool(self.arr(a))

        def cf(d, g):
            vs = self._vars(len(d))
            return SV('b', self.any_term(vs, d, g(vs).re))
        return self._red(a, axis, keepdims, DType('bool'), cf)

    def all(self, a, axis=None, keepdims=False, **k):
        if is_scalar(a):
            return out(SV('b', truth(a)))
        a = self._tobool(self.arr(a))

        def cf(d, g):
            vs = self._vars(len(d))
            return SV('b', self.all_term(vs, d, g(vs).re))
        return self._red(a, axis, keepdims, DType('bool'), cf)

    def allclose(self, a, b, **k):
        raise Unsupported('allclose')

    def array_equal(self, a, b):
        a, b = self.arr(a), self.arr(b)
        if a.ndim != b.ndim:
            return False
        for d1, d2 in zip(a.dims, b.dims):
            if not self.E.decide(t.eq(dimT(d1), dimT(d2))):
                return False
        return self.all(self._binop('eq', a, b))

    def _maxcell(self, name, skipnan):
        def cf(dims, g):
            vs = self._vars(len(dims))
            c = tonum(g(vs))
            if c.kind == 'c':
                raise Unsupported('max of complex')
            if c.inf is not FALSE:
                raise Unsupported('max over possibly infinite values')
            n = ONE
            for d in dims:
                n = t.mul(n, dimT(d))
            if not self.E.entails(t.lt(ZERO, n)):
                if not self.E.decide(t.lt(ZERO, n)):
                    raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
            if not any(v in t.fv(c.re) | t.fv(c.nan) for v in vs):
                return c
            if all(isinstance(d, int) for d in dims) and len(dims) == 1 and dims[0] <= 4:
                r = g((ZERO,))
                for i in range(1, dims[0]):
                    r = (cmax if name == 'max' else cmin)(r, g((t.num(i),)), skipnan)
                return r
            mono = monotone_extreme(self.E, c, vs, dims, name)
            if mono is not None:
                return mono
            vs, dims, re, sel, nanc = self._unsel_set(vs, dims, c)
            valid = t.band(sel, t.bnot(nanc))
            body = re if name == 'max' else t.neg(re)
            m = t.red('max', [dimT(d) for d in dims], [(vs, valid), (vs, body)], sort='I' if c.kind == 'i' else 'R')
            if skipnan:
                nan = self.all_term(vs, dims, t.bor(t.bnot(sel), nanc))
            else:
                nan = self.any_term(vs, dims, t.band(sel, nanc))
            return SV(c.kind, m if name == 'max' else t.neg(m), ZERO, nan)
        return cf

    def _mx(name, skip):
        def f(self, a, axis=None, keepdims=False, **k):
            if is_scalar(a):
                return a
            if 'initial' in k or 'where' in k:
                raise Unsupported('max initial/where')
            a = self.arr(a)
            if a.masked is not None:
                return getattr(self.ma, name)(a)
            return self._red(a, axis, keepdims, a.dt, self._maxcell(name, skip))
        return f

    max = amax = _mx('max', False)
    min = amin = _mx('min', False)
    nanmax = _mx('max', True)
    nanmin = _mx('min', True)
    del _mx

    def ptp(self, a, axis=None):
        return self._binop('sub', self.max(a, axis), self.min(a, axis))

    def _argcell(self, name, skipnan):
        def cf(dims, g):
            vs = self._vars(1)
            if len(dims) != 1:
                raise Unsupported('argmax over several axes')
            c = tonum(g(vs))
            n = dimT(dims[0])
            if not self.E.entails(t.lt(ZERO, n)):
                if not self.E.decide(t.lt(ZERO, n)):
                    raise ValueError('attempt to get argmax of an empty sequence')
            if c.nan is not FALSE:
                nm = FALSE
                if skipnan:
                    alln = self.all_term(vs, dims, c.nan)
                    if alln is not FALSE and self.E.decide(alln):
                        raise ValueError('All-NaN slice encountered')
                else:
                    # first NaN wins in numpy
                    an = self.any_term(vs, dims, c.nan)
                    if self.E.decide(an):
                        raise Unsupported('argmax with NaN present')
            if c.inf is not FALSE:
                raise Unsupported('argmax over possibly infinite values')
            valid = t.bnot(c.nan)
            if c.kind == 'c':
                if name != 'max':
                    raise Unsupported('argmin complex')
                r = t.red('argmaxc', [n], [(vs, valid), (vs, c.re), (vs, c.im)], sort='I')
            else:
                body = c.re if name == 'max' else t.neg(c.re)
                r = t.red('argmax', [n], [(vs, valid), (vs, body)], sort='I')
            return SV('i', r)
        return cf

    def _ag(name, skip):
        def f(self, a, axis=None, **k):
            a = self.arr(a)
            if a.masked is not None:
                return self.ma.argmax(a) if name == 'max' else self.ma.argmin(a)
            if axis is None and a.ndim > 1:
                a = self.ravel(a)
            return self._red(a, 0 if axis is None else axis, False, DType('int64'), self._argcell(name, skip))
        return f

    argmax = _ag('max', False)
    argmin = _ag('min', False)
    nanargmax = _ag('max', True)
    nanargmin = _ag('min', True)
    del _ag

    def _opq(name, skip, params=0):
        def f(self, a, *args, axis=None, keepdims=False, **k):
            if is_scalar(a):
                a = self.arr([a])
            a = self.arr(a)
            ps = list(args)
            if params == 0 and ps:
                axis = ps.pop(0)
            elif params == 1 and len(ps) > 1:
                axis = ps.pop(1)
            prm = []
            for p in ps[:params]:
                prm.append(tonum(lift(p)).re)
            nm = name
            if k.get('ddof'):
                nm = name + 'ddof%s' % k['ddof']

            def cf(dims, g):
                vs = self._vars(len(dims))
                c = tonum(g(vs))
                if c.kind == 'c':
                    raise Unsupported(name + ' of complex')
                if c.inf is not FALSE:
                    raise Unsupported(name + ' over possibly infinite values')
                vs, dims, re, sel, nanc = self._unsel_set(vs, dims, c)
                valid = t.band(sel, t.bnot(nanc))
                # all of these are homogeneous in a positive factor
                fac, re = pos_content(re)
                r = t.mul(fac if not nm.startswith('var') else t.mul(fac, fac), t.red(nm, [dimT(d) for d in dims], [(vs, valid), (vs, re)], params=tuple(prm)))
                n = self.all_term(vs, dims, t.bor(t.bnot(sel), nanc)) if skip else self.any_term(vs, dims, t.band(sel, nanc))
                return SV('f', r, ZERO, n)
            dt = a.dt if a.dt.kind == 'f' else DType('float64')
            return self._red(a, axis, keepdims, dt, cf)
        return f

    median = _opq('median', False)
    nanmedian = _opq('median', True)
    std = _opq('std', False)
    nanstd = _opq('std', True)
    var = _opq('var', False)
    nanvar = _opq('var', True)
    percentile = _opq('percentile', False, 1)
    nanpercentile = _opq('percentile', True, 1)
    quantile = _opq('quantile', False, 1)
    del _opq

    def cumsum(self, a, axis=None, **k):
        a = self.arr(a)
        if a.ndim != 1:
            raise Unsupported('cumsum of n-d')
        f = a.snap()
        j = t.var('$c%d' % next(t._fresh), 'I')
        c = tonum(f((j,)))
        if c.nan is not FALSE or c.inf is not FALSE:
            raise Unsupported('cumsum of nan')

        def fn(idx):
            return SV(c.kind, t.mk_sum(ZERO, t.add(idx[0], ONE), j, c.re), t.mk_sum(ZERO, t.add(idx[0], ONE), j, c.im))
        return SArr(a.dims, a.dt if a.dt.kind != 'b' else DType('int64'), fn)

    def unique(self, a, **k):
        if k:
            raise Unsupported('unique with options')
        return UniqueSet(self, self.arr(a))

    def interp(self, x, xp, fp, left=None, right=None, **k):
        xp, fp = self.arr(xp), self.arr(fp)
        n = dimT(xp.dims[0])
        fx, ff = xp.snap(), fp.snap()
        vs = self._vars(1)
        cx = tonum(fx(vs))
        if fp.dt.kind == 'c':
            re = self.interp(x, xp, self.real(fp))
            im = self.interp(x, xp, self.imag(fp))
            return self._binop('add', re, self._binop('mul', SV('c', ZERO, ONE), im))

        def cellf(v):
            v = tonum(v)
            j = vs[0]
            if cx.re is j and v.re.sort == 'I':
                i = t.tmin(t.tmax(v.re, ZERO), t.sub(n, ONE))
                if self.E.entails(t.band(t.le(ZERO, v.re), t.lt(v.re, n))):
                    i = v.re
                c = ff((i,))
                c = SV('f', c.re, c.im, t.bor(c.nan, v.nan), c.inf)
                if left is not None:
                    c = cite(t.lt(v.re, ZERO), lift(left), c)
                if right is not None:
                    c = cite(t.lt(t.sub(n, ONE), v.re), lift(right), c)
                return c
            cf = tonum(ff(vs))
            r = t.red('interp', [n], [(vs, cx.re), (vs, cf.re)], params=(v.re,))
            nn = t.bor(v.nan, v.inf)
            if cf.nan is not FALSE or cx.nan is not FALSE:
                nn = t.bor(nn, t.red('interpnan', [n], [(vs, cx.re), (vs, t.ind(cx.nan)), (vs, t.ind(cf.nan))], params=(v.re,), sort='B'))
            c = SV('f', r, ZERO, nn)
            if left is not None:
                c = cite(t.lt(v.re, tonum(fx((ZERO,))).re), lift(left), c)
            if right is not None:
                c = cite(t.lt(tonum(fx((t.sub(n, ONE),))).re, v.re), lift(right), c)
            return c
        if is_scalar(x):
            return out(cellf(lift(x)))
        x = self.arr(x)
        f = x.snap()
        return SArr(x.dims, DType('float64'), lambda idx: cellf(f(idx)))

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        return self._binop('le', self.abs(self._binop('sub', a, b)), self._binop('add', atol, self._binop('mul', rtol, self.abs(b))))

    def round(self, a, decimals=0, **k):
        if is_scalar(a):
            r = rnd(lift(a), decimals)
            return r
        a = self.arr(a)
        f = a.snap()
        return SArr(a.dims, a.dt, lambda idx: lift(rnd(f(idx), decimals)) if decimals else crint(f(idx)))

    round_ = around = round

    def trapz(self, y, x=None, **k):
        raise Unsupported('trapz')

    def isin(self, a, b):
        raise Unsupported('isin')

    def errstate(self, **k):
        return _Ctx()

    def seterr(self, **k):
        return {}

    def set_printoptions(self, **k):
        return None

    def finfo(self, *a):
        raise Unsupported('finfo')

    def vectorize(self, f, **k):
        def g(*args, **kw):
            arrs = [self.arr(x) for x in args]
            dims = self._bcast([x.dims for x in arrs])
            fs = [self.broadcast_fn(x, dims) for x in args]
            return SArr(dims, DType('float64'), lambda idx: lift(f(*[out(h(idx)) for h in fs])))
        return g

    def dtype(self, x):
        return DType.of(x)

    def result_type(self, *a):
        r = None
        for x in a:
            d = x.dt if isinstance(x, SArr) else DType.of(x)
            r = d if r is None else promote_dt(r, d)
        return r

    def can_cast(self, *a):
        raise Unsupported('can_cast')

    def save(self, *a, **k):
        raise Unsupported('np.save')


def desel(E, vs, dims, x):
    return x


def mask_at(key, ms):
    """the boolean body of a mask key at indices ms"""
    bs = key.args[-1]
    nd = len(bs)
    return t.subst(key.args[1 + nd], dict(zip(bs, ms)))


def monotone_extreme(E, c, vs, dims, name):
    """largest / smallest element of an affine sequence A + B k, 0 <= k < n, when the sign of B is known and n >= 1"""
    if len(vs) != 1 or c.kind == 'c' or c.nan is not FALSE or c.inf is not FALSE:
        return None
    v, n = vs[0], dimT(dims[0])
    if v not in t.fv(c.re):
        return None
    a = t.subst(c.re, {v: ZERO})
    b = t.sub(t.subst(c.re, {v: ONE}), a)
    if v in t.fv(a) | t.fv(b) or t.sub(c.re, t.add(a, t.mul(b, v))) is not ZERO:
        return None
    if not E.entails(t.lt(ZERO, n)):
        return None
    end = t.add(a, t.mul(b, t.sub(n, ONE)))
    if E.entails(t.le(ZERO, b)):
        return SV(c.kind, end if name == 'max' else a)
    if E.entails(t.le(b, ZERO)):
        return SV(c.kind, a if name == 'max' else end)
    return None


def uninit(nm, dt, idx):
    k = dt.kind
    if k == 'b':
        return SV('b', t.bapp(nm, *idx))
    if k == 'c':
        return SV('c', t.app(nm + '_re', *idx), t.app(nm + '_im', *idx), t.bapp(nm + '_nan', *idx))
    if k == 'i':
        return SV('i', t.app(nm, *idx, sort='I'))
    return SV('f', t.app(nm, *idx), ZERO, t.bapp(nm + '_nan', *idx))


class _Ctx:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Mod:
    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        nm = self._n + '.' + n

        def f(*a, **k):
            raise Unsupported(nm)
        f.__name__ = n
        return f


class _ScalarTypeMeta:
    pass


class _ScalarType:
    def __init__(self, nm):
        self._dtname = nm
        self.__name__ = nm

    def __call__(self, x=0):
        if isinstance(x, SArr):
            return E().np._astype(x, self._dtname)
        return out(cast(lift(x), DType(self._dtname)))

    def __instancecheck__(self, x):
        return False

    def __eq__(self, o):
        if o is self:
            return True
        try:
            return DType.of(o).name == self._dtname
        except BaseException:
            return False

    def __hash__(self):
        return hash(self._dtname)


class Quantity:
    pass


class SymIndex:
    pass


class UniqueSet:
    """np.unique(A): only membership / emptiness queries are supported"""

    def __init__(self, np, a, removed=()):
        self.np = np
        self.a = a
        self.removed = list(removed)

    def tolist(self):
        return UniqueSet(self.np, self.a, self.removed)

    def _present(self, extra=None):
        f = self.a.snap()
        vs = self.np._vars(self.a.ndim)
        c = f(vs)
        body = TRUE
        for r in self.removed:
            body = t.band(body, t.bnot(ccmp('eq', c, r).re))
        if extra is not None:
            body = t.band(body, ccmp('eq', c, extra).re)
        return self.np.any_term(vs, self.a.dims, body)

    def remove(self, v):
        v = lift(v)
        if not E().decide(self._present(v)):
            raise ValueError('list.remove(x): x not in list')
        self.removed.append(v)

    def __contains__(self, v):
        return E().decide(self._present(lift(v)))

    def sym_len(self):
        n = t.fresh('nuniq', 'I')
        E().assume(t.le(ZERO, n))
        p = self._present()
        E().assume(t.bor(t.band(p, t.lt(ZERO, n)), t.band(t.bnot(p), t.eq(n, ZERO))))
        return mkint(n)

    @property
    def size(self):
        return self.sym_len()

    def __bool__(self):
        return E().decide(self._present())

    def __getattr__(self, n):
        raise Unsupported('np.unique(...).%s' % n)


def pos_content(re):
    """re = positive rational factor * rest"""
    c, u = t.content(re)
    c = abs(c)
    return (t.num(c), t.scale(re, 1 / c)) if c else (ONE, re)


class MA:
    """numpy.ma (only what the verified code uses)"""

    def __init__(self, np):
        self.np = np
        self.masked = object()
        self.MaskedArray = SArr

    def array(self, a, mask=None, **k):
        a = self.np.copy(self.np.arr(a)) if k.get('copy', True) else self.np.arr(a)
        if mask is None:
            mask = self.np.zeros_like(a, dtype='bool')
        r = SArr(a.dims, a.dt, a.snap())
        m = self.np._tobool(mask)
        r.masked = SArr(a.dims, DType('bool'), self.np.broadcast_fn(m, a.dims))
        return r

    masked_array = array

    def abs(self, a):
        return self.np._unop('abs', a)

    def masked_invalid(self, a, **k):
        a = self.np.arr(a)
        return self.array(a, mask=self.np._unop('not', self.np._unop('isfinite', a)))

    def masked_where(self, c, a, **k):
        return self.array(a, mask=c)

    def _mm(self, a, name):
        if a.masked is None:
            return getattr(self.np, name)(a)
        if a.ndim != 1:
            raise Unsupported('masked max n-d')
        f, mf = a.snap(), a.masked.snap()
        vs = self.np._vars(1)
        c, m = tonum(f(vs)), mf(vs).re
        allm = self.np.all_term(vs, a.dims, m)
        if E().decide(allm):
            return MaskedConst()
        if c.nan is not FALSE or c.inf is not FALSE:
            cn = self.np.any_term(vs, a.dims, t.band(t.bnot(m), t.bor(c.nan, c.inf)))
            if E().decide(cn):
                raise Unsupported('masked max over nan')
        body = c.re if name == 'max' else t.neg(c.re)
        r = t.red('max', [dimT(a.dims[0])], [(vs, t.bnot(m)), (vs, body)], sort='I' if c.kind == 'i' else 'R')
        return out(SV(c.kind, r if name == 'max' else t.neg(r)))

    def max(self, a, **k):
        return self._mm(a, 'max')

    def min(self, a, **k):
        return self._mm(a, 'min')

    def fabs(self, a):
        return self.np._unop('abs', a)

    def mean(self, a, axis=None, **k):
        a = self.np.arr(a)
        if axis is not None and not (axis == 0 and a.ndim == 1):
            raise Unsupported('masked mean along an axis')
        if a.masked is None:
            return self.np.mean(a)
        f, mf = a.snap(), a.masked.snap()
        vs = self.np._vars(a.ndim)
        if E().decide(self.np.all_term(vs, a.dims, mf(vs).re)):
            return MaskedConst()
        return self.np.mean(SArr(a.dims, a.dt, f)[self.np._unop('not', SArr(a.dims, DType('bool'), mf))])

    def median(self, a, axis=None, **k):
        a = self.np.arr(a)
        if k or axis not in (None, 0):
            raise Unsupported('masked median with options')
        if a.masked is None:
            return self.np.median(a)
        if a.ndim != 1:
            raise Unsupported('masked median n-d')
        f, mf = a.snap(), a.masked.snap()
        vs = self.np._vars(1)
        c, m = tonum(f(vs)), mf(vs).re
        if E().decide(self.np.all_term(vs, a.dims, m)):
            return MaskedConst()
        if c.kind == 'c' or c.inf is not FALSE:
            raise Unsupported('masked median of complex or infinite values')
        if c.nan is not FALSE and E().decide(self.np.any_term(vs, a.dims, t.band(t.bnot(m), c.nan))):
            return out(SV('f', ZERO, ZERO, TRUE))
        vs, dims, re, sel, _ = self.np._unsel_set(vs, a.dims, SV('f', c.re, ZERO, m))
        fac, re = pos_content(re)
        return out(SV('f', t.mul(fac, t.red('median', [dimT(d) for d in dims], [(vs, t.band(sel, t.bnot(_))), (vs, re)]))))

    def argmax(self, a, **k):
        if a.masked is None:
            return self.np.argmax(a)
        f, mf = a.snap(), a.masked.snap()
        vs = self.np._vars(1)
        c, m = tonum(f(vs)), mf(vs).re
        # all masked: numpy fills with the minimum and returns 0
        allm = self.np.all_term(vs, a.dims, m)
        if E().decide(allm):
            return 0
        r = t.red('argmax', [dimT(a.dims[0])], [(vs, t.bnot(m)), (vs, c.re)], sort='I')
        return mkint(r)


class MaskedConst:
    """np.ma.masked: comparisons give masked, which is falsy"""

    def _m(self, o):
        return self
    __ge__ = __gt__ = __le__ = __lt__ = __add__ = __sub__ = __mul__ = _m

    def __bool__(self):
        return False


class Rand:
    def __init__(self, np):
        self.np = np

    def seed(self, *a):
        return None

    def normal(self, loc=0.0, scale=1.0, size=None):
        nm = 'randn%d' % self.np.E.uid()
        if size is None:
            return SV('f', t.add(tonum(lift(loc)).re, t.mul(tonum(lift(scale)).re, t.app(nm))))
        dims = self.np._shape_arg(size)
        a = SArr(dims, DType('float64'), lambda idx: SV('f', t.app(nm, *idx)))
        return loc + scale * a

    def randn(self, *shape):
        return self.normal(0.0, 1.0, shape)

    def __getattr__(self, n):
        def f(*a, **k):
            raise Unsupported('np.random.' + n)
        return f


class SymList:
    """python list of symbolic length: element function Int term -> python value"""

    def __init__(self, n, elem):
        self.n = n
        self.elem = elem

    def sym_len(self):
        return mkint(self.n)

    def __getitem__(self, k):
        if isinstance(k, slice):
            lo, ln, st = E().np.slice_bounds(k, normdim(self.n))
            f = self.elem
            return SymList(ln, lambda j: f(t.add(lo, t.scale(j, st))))
        i = E().np.int_index(k, normdim(self.n))
        return self.elem(i)

    def __iter__(self):
        raise Unsupported('native iteration over a list of symbolic length')

    def __len__(self):
        raise Unsupported('native len() of a list of symbolic length')

    def __bool__(self):
        return E().decide(t.lt(ZERO, self.n))

    def __add__(self, o):
        raise Unsupported('list concatenation (symbolic)')

    def append(self, x):
        old, n = self.elem, self.n

        def f(j):
            if j is n:
                return x
            if E().entails(t.lt(j, n)):
                return old(j)
            if E().entails(t.eq(j, n)):
                return x
            raise Unsupported('symbolic list access')
        self.elem = f
        self.n = t.add(n, ONE)

    def to_array(self):
        k = t.fresh('li', 'I')
        with E().ctx(t.le(ZERO, k), t.lt(k, dimT(self.n))):
            s = self.elem(k)
        np = E().np
        if is_scalar(s):
            v = lift(s)
            return SArr((normdim(self.n),), kind_dt(v.kind), lambda idx: lift(self.elem(idx[0])))
        a = np.arr(s)
        return SArr((normdim(self.n),) + a.dims, a.dt, lambda idx: np.arr(self.elem(idx[0])).cell(idx[1:]))


def _m(name):
    def f(a, *args, **k):
        return getattr(E().np, name)(a, *args, **k)
    return f


for _n in ('sum', 'mean', 'max', 'min', 'argmax', 'argmin', 'all', 'any', 'squeeze', 'swapaxes', 'ravel', 'copy', 'repeat', 'clip', 'round', 'ptp', 'std', 'var', 'cumsum', 'dot'):
    _arr_methods[_n] = _m(_n)
_arr_methods['flatten'] = lambda a, *x: E().np.copy(E().np.ravel(a))
_arr_methods['astype'] = lambda a, dt, **k: E().np._astype(a, dt)
_arr_methods['view'] = lambda a, *x: a
_arr_methods['conj'] = _m('conj')
_arr_methods['conjugate'] = _m('conj')
_arr_methods['filled'] = lambda a, v: E().np.where(a.masked, v, a)
_arr_methods['fill'] = lambda a, v: E().np._assign(a, v)
_arr_methods['nonzero'] = _m('nonzero')


def _reshape_m(a, *shape, **k):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list, SArr)):
        shape = shape[0]
    return E().np.reshape(a, shape, **k)


def _transpose_m(a, *axes):
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
        axes = axes[0]
    return E().np.transpose(a, axes or None)


def _tolist_m(a):
    if a.ndim == 1:
        if isinstance(a.dims[0], int):
            return [a[i] for i in range(a.dims[0])]
        f = a.snap()
        return SymList(dimT(a.dims[0]), lambda j: out(f((j,))))
    if a.ndim == 0:
        return a.item()
    if isinstance(a.dims[0], int):
        return [_tolist_m(a[i]) for i in range(a.dims[0])]
    return SymList(dimT(a.dims[0]), lambda j: _tolist_m(a[mkint(j)]))


_arr_methods['reshape'] = _reshape_m
_arr_methods['transpose'] = _transpose_m
_arr_methods['tolist'] = _tolist_m
