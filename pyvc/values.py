"""Symbolic scalar values and symbolic-shape arrays.

Scalars: kind b/i/f/c with a value term (two for complex) and nan / inf flags.
Floats are idealised as reals plus the special values nan, +inf, -inf.
Arrays: shape (ints or Int terms) and an element function idx -> scalar.
"""
import itertools
from fractions import Fraction
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE


class Unsupported(BaseException):
    """Construct outside the verifier's reach (not a verdict)."""


class PathEnd(BaseException):
    """Current symbolic path needs no further execution."""


ENGINE = [None]


def E():
    return ENGINE[0]


_order = {'b': 0, 'i': 1, 'f': 2, 'c': 3}


def token(v, spec):
    """a symbolic number inside a string: recoverable marker"""
    tk = E().__dict__.setdefault('tokens', [])
    tk.append((v, spec))
    return '<sym%d>' % (len(tk) - 1)


def untoken(s):
    import re
    g = re.fullmatch(r'\s*<sym(\d+)>\s*', s)
    return E().tokens[int(g.group(1))][0] if g else None


class SV:
    __slots__ = ('kind', 're', 'im', 'nan', 'inf', 'dt', 'ghost')
    __array_priority__ = 1000

    def __init__(self, kind, re, im=ZERO, nan=FALSE, inf=FALSE, dt=None):
        self.kind = kind
        self.re = re
        self.im = im
        self.nan = nan
        self.inf = inf
        self.dt = dt

    # -- python protocol
    def __repr__(self):
        s = '<%s %s' % (self.kind, t.show(self.re))
        if self.kind == 'c':
            s += ' + i %s' % t.show(self.im)
        if self.nan is not FALSE:
            s += ' nan?%s' % t.show(self.nan)
        if self.inf is not FALSE:
            s += ' inf?%s' % t.show(self.inf)
        return s + '>'

    def __str__(self):
        c = self.const()
        return token(self, '') if c is None else str(c)

    def __format__(self, spec):
        c = self.const()
        if c is None:
            return token(self, spec)
        return format(c, spec)

    def const(self):
        if self.nan is TRUE:
            return float('nan')
        if self.kind == 'b':
            if self.re is TRUE:
                return True
            if self.re is FALSE:
                return False
            return None
        if self.nan is not FALSE or self.inf not in (FALSE, TRUE):
            return None
        if self.re.op != 'num' or self.im.op != 'num':
            return None
        if self.inf is TRUE:
            return float('inf') * (1 if self.re.args[0] > 0 else -1)
        if self.kind == 'i':
            return int(self.re.args[0])
        if self.kind == 'f':
            return float(self.re.args[0])
        return complex(float(self.re.args[0]), float(self.im.args[0]))

    def __bool__(self):
        return E().decide(truth(self))

    def __hash__(self):
        return hash((self.kind, self.re.id, self.im.id, self.nan.id, self.inf.id))

    def __index__(self):
        c = self.const()
        if isinstance(c, int):
            return int(c)
        raise Unsupported('symbolic value used where a concrete integer is required')

    def __float__(self):
        c = self.const()
        if c is not None and not isinstance(c, complex):
            return float(c)
        raise Unsupported('symbolic value used where a concrete float is required')

    def __int__(self):
        c = self.const()
        if c is not None and not isinstance(c, complex):
            return int(c)
        raise Unsupported('symbolic value used where a concrete int is required')

    def __complex__(self):
        c = self.const()
        if c is not None:
            return complex(c)
        raise Unsupported('symbolic complex')

    def __round__(self, n=None):
        return rnd(self, n)

    def __len__(self):
        raise TypeError("object of type 'float' has no len()")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __iter__(self):
        raise TypeError("'float' object is not iterable")

    # numpy scalar API
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return out(creal(self))

    @property
    def imag(self):
        return out(cimag(self))

    @property
    def dtype(self):
        return DType(self.dt or {'b': 'bool', 'i': 'int64', 'f': 'float64', 'c': 'complex128'}[self.kind])

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def value(self):
        return self

    def item(self, *a):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, **k):
        return out(cast(self, DType.of(dt)))

    def conjugate(self):
        return out(cconj(self))
    conj = conjugate

    def squeeze(self):
        return self

    def is_integer(self):
        if self.re.sort == 'I':
            return True
        raise Unsupported('is_integer on symbolic')

    def sum(self, *a, **k):
        return self

    def all(self):
        return out(SV('b', truth(self)))
    any = all

    def max(self):
        return self
    min = max

    def __getitem__(self, k):
        if k is Ellipsis or k == ():
            return self
        raise TypeError("scalar is not subscriptable")


class DType:
    def __init__(self, name):
        self.name = name

    _alias = {'float': 'float64', 'f4': 'float32', 'f8': 'float64', '<f4': 'float32', '>f4': 'float32', '>f8': 'float64', '<f8': 'float64',
              'int': 'int64', 'i4': 'int32', 'i8': 'int64', 'complex': 'complex128', 'c8': 'complex64', 'c16': 'complex128',
              'f': 'float32', 'd': 'float64', 'bool_': 'bool', '?': 'bool', 'single': 'float32', 'double': 'float64', 'uint': 'int64', 'uint8': 'int64'}

    @staticmethod
    def of(x):
        if x is None:
            return DType('float64')
        if isinstance(x, DType):
            return x
        if isinstance(x, str):
            n = DType._alias.get(x, x)
            if n in ('float16', 'float32', 'float64', 'complex64', 'complex128', 'int32', 'int64', 'bool', 'object'):
                return DType(n)
            raise TypeError("data type '%s' not understood" % x)
        n = getattr(x, '_dtname', None)
        if n:
            return DType(n)
        if x is float:
            return DType('float64')
        if x is int:
            return DType('int64')
        if x is bool:
            return DType('bool')
        if x is complex:
            return DType('complex128')
        if getattr(x, '__name__', '') in ('float', 'int', 'bool', 'complex'):
            return DType.of(x.__name__)
        raise Unsupported('dtype %r' % (x,))

    @property
    def kind(self):
        return {'f': 'f', 'c': 'c', 'i': 'i', 'b': 'b', 'o': 'O'}[self.name[0]]

    char = kind

    @property
    def itemsize(self):
        return {'float16': 2, 'float32': 4, 'float64': 8, 'complex64': 8, 'complex128': 16, 'int32': 4, 'int64': 8, 'bool': 1, 'object': 8}[self.name]

    def __eq__(self, o):
        try:
            return DType.of(o).name == self.name
        except (Unsupported, TypeError):
            return False

    def __hash__(self):
        return hash(self.name)

    def __str__(self):
        return self.name

    def __repr__(self):
        return "dtype('%s')" % self.name

    @property
    def type(self):
        return self


def promote_dt(a, b):
    """a, b DType or None (weak python scalar of a kind given by tuple)"""
    o = {'bool': 0, 'int32': 1, 'int64': 2, 'float16': 3, 'float32': 4, 'float64': 5, 'complex64': 6, 'complex128': 7}
    x, y = (a, b) if o[a.name] >= o[b.name] else (b, a)
    if x.name == 'float32' and y.name in ('int64', 'int32'):
        return DType('float64')
    if x.name == 'complex64' and y.name in ('float64', 'int64', 'int32'):
        return DType('complex128')
    return x


# ------------------------------------------------------------------ lifting
def lift(x):
    if isinstance(x, SV):
        return x
    if isinstance(x, bool):
        return SV('b', TRUE if x else FALSE)
    if isinstance(x, int):
        return SV('i', t.num(x))
    if isinstance(x, Fraction):
        return SV('f', t.num(x))
    if isinstance(x, float):
        if x != x:
            return SV('f', ZERO, nan=TRUE)
        if x in (float('inf'), float('-inf')):
            return SV('f', ONE if x > 0 else t.MONE, inf=TRUE)
        return SV('f', t.num(x))
    if isinstance(x, complex):
        a, b = lift(x.real), lift(x.imag)
        return SV('c', a.re, b.re, t.bor(a.nan, b.nan), t.bor(a.inf, b.inf))
    if isinstance(x, T):
        return SV('b' if x.sort == 'B' else ('i' if x.sort == 'I' else 'f'), x)
    if isinstance(x, SArr) and len(x.shape) == 0:
        return x.cell(())
    tn = type(x).__module__
    if tn == 'numpy':
        return lift(x.item())
    raise Unsupported('cannot lift %r' % (type(x),))


def is_scalar(x):
    return isinstance(x, (SV, bool, int, float, complex, Fraction)) or type(x).__module__ == 'numpy' and getattr(x, 'ndim', 1) == 0


def out(v):
    """SV -> python-level object (concrete ints / bools become native)"""
    if v.kind == 'i' and v.re.op == 'num':
        return int(v.re.args[0])
    if v.kind == 'b':
        if v.re is TRUE:
            return True
        if v.re is FALSE:
            return False
    return v


def mkint(x):
    """T -> python-level int"""
    return out(SV('i', x))


def dimT(d):
    if isinstance(d, int):
        return t.num(d)
    if isinstance(d, T):
        return d
    return lift(d).re


def normdim(d):
    """python-level int / SV / T -> shape entry (int or T)"""
    x = dimT(d)
    if x.op == 'num':
        return int(x.args[0])
    return x


def truth(v):
    """Bool term for python truthiness"""
    v = lift(v)
    if v.kind == 'b':
        return v.re
    z = t.eq0(v.re)
    if v.kind == 'c':
        z = t.band(z, t.eq0(v.im))
    return t.bor(v.nan, v.inf, t.bnot(z)) if v.kind != 'i' else t.bnot(z)


def tonum(v):
    if v.kind == 'b':
        return SV('i', t.ind(v.re))
    return v


# -------------------------------------------------------------- scalar ops
def _pk(a, b):
    return a.kind if _order[a.kind] >= _order[b.kind] else b.kind


def _flags_simple(a, b):
    return a.inf is FALSE and b.inf is FALSE


def _dt2(a, b, k):
    """precision tag of the result"""
    if a.dt is None and b.dt is None:
        return None
    if a.dt is None:
        x = DType(b.dt)
    elif b.dt is None:
        x = DType(a.dt)
    else:
        x = promote_dt(DType(a.dt), DType(b.dt))
    return x.name if x.kind == k else None


def cadd(a, b, sgn=1):
    a, b = tonum(a), tonum(b)
    k = _pk(a, b)
    br, bi = (b.re, b.im) if sgn == 1 else (t.neg(b.re), t.neg(b.im))
    if _flags_simple(a, b):
        return SV(k, t.add(a.re, br), t.add(a.im, bi) if k == 'c' else ZERO, t.bor(a.nan, b.nan), FALSE, None)
    opp = t.bnot(t.eq(a.re, br))
    nan = t.bor(a.nan, b.nan, t.band(a.inf, b.inf, opp))
    inf = t.band(t.bor(a.inf, b.inf), t.bnot(nan))
    re = t.ite(a.inf, a.re, t.ite(b.inf, br, t.add(a.re, br)))
    return SV(k, re, t.add(a.im, bi) if k == 'c' else ZERO, nan, inf)


def cneg(a):
    a = tonum(a)
    return SV(a.kind, t.neg(a.re), t.neg(a.im), a.nan, a.inf, a.dt)


def sign(x):
    return t.sub(t.ind(t.lt(ZERO, x)), t.ind(t.lt(x, ZERO)))


def cmul(a, b):
    a, b = tonum(a), tonum(b)
    k = _pk(a, b)
    nan = t.bor(a.nan, b.nan)
    if _flags_simple(a, b):
        if k == 'c':
            if a.kind != 'c':
                return SV('c', t.mul(a.re, b.re), t.mul(a.re, b.im), nan)
            if b.kind != 'c':
                return SV('c', t.mul(a.re, b.re), t.mul(a.im, b.re), nan)
            return SV('c', t.sub(t.mul(a.re, b.re), t.mul(a.im, b.im)),
                      t.add(t.mul(a.re, b.im), t.mul(a.im, b.re)), nan)
        return SV(k, t.mul(a.re, b.re), ZERO, nan)
    if k == 'c':
        # infinities in complex products are not tracked precisely
        z = t.bor(a.inf, b.inf)
        s = cmul(SV(a.kind, a.re, a.im, a.nan), SV(b.kind, b.re, b.im, b.nan))
        return SV('c', s.re, s.im, t.bor(s.nan, z))
    za = t.band(t.bnot(a.inf), t.eq0(a.re))
    zb = t.band(t.bnot(b.inf), t.eq0(b.re))
    nan = t.bor(nan, t.band(a.inf, zb), t.band(b.inf, za))
    inf = t.band(t.bor(a.inf, b.inf), t.bnot(nan))
    anyinf = t.bor(a.inf, b.inf)
    re = t.ite(anyinf, t.mul(sign(a.re), sign(b.re)), t.mul(a.re, b.re))
    return SV(k, re, ZERO, nan, inf)


def cdiv(a, b):
    a, b = tonum(a), tonum(b)
    k = _pk(a, b)
    if k == 'i':
        k = 'f'
    nan = t.bor(a.nan, b.nan)
    if b.kind == 'c':
        d = t.add(t.mul(b.re, b.re), t.mul(b.im, b.im))
        z = t.bor(t.eq0(d), a.inf, b.inf)
        iv = t.inv(d)
        c = SV('c', t.mul(b.re, iv), t.neg(t.mul(b.im, iv)), t.bor(b.nan, z))
        if b.im is ZERO:
            c = SV('c', t.inv(b.re), ZERO, t.bor(b.nan, t.eq0(b.re), a.inf, b.inf))
        return cmul(SV(a.kind, a.re, a.im, a.nan), c)
    zb = t.eq0(b.re) if b.inf is FALSE else t.band(t.bnot(b.inf), t.eq0(b.re))
    iv = t.inv(b.re)
    if k == 'c':
        return SV('c', t.mul(a.re, iv), t.mul(a.im, iv), t.bor(nan, zb, a.inf, b.inf))
    if zb is FALSE and _flags_simple(a, b):
        return SV(k, t.mul(a.re, iv), ZERO, nan)
    za = t.band(t.bnot(a.inf), t.eq0(a.re))
    nan = t.bor(nan, t.band(za, zb), t.band(a.inf, b.inf))
    inf = t.band(t.bor(t.band(zb, t.bnot(za)), a.inf), t.bnot(nan))
    re = t.ite(t.bor(zb, a.inf), t.mul(sign(a.re), t.add(sign(b.re), t.ind(zb))),
               t.ite(b.inf, ZERO, t.mul(a.re, iv)))
    return SV(k, re, ZERO, nan, inf)


def cfloordiv(a, b):
    a, b = tonum(a), tonum(b)
    if a.kind == 'i' and b.kind == 'i':
        if b.re.op == 'num' and b.re.args[0] < 0:
            return cfloordiv(cneg(a), cneg(b))
        return SV('i', t.idiv(a.re, b.re))
    q = cdiv(a, b)
    return SV('f', t.floor(q.re), ZERO, q.nan, q.inf)


def cmod(a, b):
    a, b = tonum(a), tonum(b)
    if a.kind == 'i' and b.kind == 'i':
        return SV('i', t.imod(a.re, b.re))
    q = cdiv(a, b)
    return SV('f', t.sub(a.re, t.mul(b.re, t.floor(q.re))), ZERO, t.bor(a.nan, b.nan, q.nan, q.inf))


def cpow(a, b):
    a, b = tonum(a), tonum(b)
    cb = b.const()
    if cb is not None and not isinstance(cb, complex) and cb == cb and abs(cb) < 64:
        if float(cb).is_integer():
            n = int(cb)
            if n == 0:
                return SV('f' if b.kind == 'f' else a.kind, ONE)
            r = a
            for _ in range(abs(n) - 1):
                r = cmul(r, a)
            if n < 0:
                r = cdiv(SV('f', ONE), r)
            if b.kind == 'f' and r.kind == 'i':
                r = SV('f', r.re)
            return r
        if cb == 0.5 and a.kind != 'c':
            return csqrt(a)
    if a.kind == 'c' or b.kind == 'c':
        raise Unsupported('complex power')
    nan = t.bor(a.nan, b.nan, t.lt0(a.re))
    if b.inf is not FALSE or a.inf is not FALSE:
        nan = t.bor(nan, a.inf, b.inf)
    ii = a.kind == 'i' and b.kind == 'i'
    return SV('f' if not ii else 'f', t.powr(a.re, b.re), ZERO, nan)


def csqrt(a):
    a = tonum(a)
    if a.kind == 'c':
        raise Unsupported('complex sqrt')
    ng = t.lt0(a.re)
    re = t.sqrt(a.re)
    if a.inf is not FALSE:
        re = t.ite(a.inf, ONE, re)
    return SV('f', re, ZERO, t.bor(a.nan, ng), t.band(a.inf, t.bnot(ng)))


def cexp(a):
    a = tonum(a)
    if a.inf is not FALSE:
        if a.kind == 'c':
            return cexp(SV('c', a.re, a.im, t.bor(a.nan, a.inf)))
        pos = t.lt(ZERO, a.re)
        return SV('f', t.ite(a.inf, t.ind(pos), t.mexp(a.re)), ZERO, a.nan, t.band(a.inf, pos))
    if a.kind == 'c':
        m = t.mexp(a.re)
        return SV('c', t.mul(m, t.cos(a.im)), t.mul(m, t.sin(a.im)), a.nan)
    return SV('f', t.mexp(a.re), ZERO, a.nan)


def clog(a, fn=t.log):
    a = tonum(a)
    z = t.eq0(a.re)
    ng = t.lt0(a.re)
    re = fn(a.re)
    if z is not FALSE:
        re = t.ite(z, t.MONE, re)
    inf = z
    if a.inf is not FALSE:
        re = t.ite(a.inf, ONE, re)
        inf = t.bor(z, t.band(a.inf, t.bnot(ng)))
    return SV('f', re, ZERO, t.bor(a.nan, ng), t.band(inf, t.bnot(a.nan)))


def ctrig(fn):
    def f(a):
        a = tonum(a)
        if a.kind == 'c':
            raise Unsupported('complex trig')
        return SV('f', fn(a.re), ZERO, t.bor(a.nan, a.inf))
    return f


ccos = ctrig(t.cos)
csin = ctrig(t.sin)


def uf(name):
    def f(a):
        a = tonum(a)
        if a.kind == 'c':
            raise Unsupported(name + ' of complex')
        return SV('f', t.app(name, a.re), ZERO, t.bor(a.nan, a.inf))
    return f


PI = t.app('pi')
t.known.nonneg(PI)


def basic_known():
    t.known.nonneg(PI)
    t.known.nonzero(PI)


def cdeg2rad(a):
    a = tonum(a)
    return cmul(a, SV('f', t.scale(PI, Fraction(1, 180))))


def crad2deg(a):
    a = tonum(a)
    return cmul(a, SV('f', t.scale(t.inv(PI), 180)))


def catan2(y, x):
    y, x = tonum(y), tonum(x)
    return SV('f', t.app('arctan2', y.re, x.re), ZERO, t.bor(y.nan, x.nan, y.inf, x.inf))


def cabs(a):
    a = tonum(a)
    if a.kind == 'c':
        return SV('f', t.sqrt(t.add(t.mul(a.re, a.re), t.mul(a.im, a.im))), ZERO, a.nan, a.inf)
    return SV(a.kind, t.mabs(a.re), ZERO, a.nan, a.inf)


def creal(a):
    a = tonum(a)
    return SV('f' if a.kind == 'c' else a.kind, a.re, ZERO, a.nan, a.inf)


def cimag(a):
    a = tonum(a)
    if a.kind == 'c':
        return SV('f', a.im, ZERO, a.nan, a.inf)
    return SV(a.kind, ZERO, ZERO)


def cconj(a):
    a = tonum(a)
    if a.kind == 'c':
        return SV('c', a.re, t.neg(a.im), a.nan, a.inf)
    return a


def ccmp(op, a, b):
    if a.kind == 'b' and b.kind == 'b':
        if op == 'eq':
            return SV('b', t.bor(t.band(a.re, b.re), t.band(t.bnot(a.re), t.bnot(b.re))))
        if op == 'ne':
            return SV('b', t.bnot(ccmp('eq', a, b).re))
    a, b = tonum(a), tonum(b)
    if op == 'ne':
        return SV('b', t.bnot(ccmp('eq', a, b).re))
    if op == 'gt':
        return ccmp('lt', b, a)
    if op == 'ge':
        return ccmp('le', b, a)
    valid = t.band(t.bnot(a.nan), t.bnot(b.nan))
    simple = _flags_simple(a, b)
    if op == 'eq':
        c = t.eq(a.re, b.re)
        if a.kind == 'c' or b.kind == 'c':
            c = t.band(c, t.eq(a.im, b.im))
        if not simple:
            ai = t.bor(a.inf, b.inf)
            c = t.bite(ai, t.band(a.inf, b.inf, t.eq(a.re, b.re)), c)
        return SV('b', t.band(valid, c))
    if a.kind == 'c' or b.kind == 'c':
        # numpy: lexicographic
        l = t.lt(a.re, b.re)
        e = t.eq(a.re, b.re)
        im = t.lt(a.im, b.im) if op == 'lt' else t.le(a.im, b.im)
        return SV('b', t.band(valid, t.bor(l, t.band(e, im))))
    f = t.lt if op == 'lt' else t.le
    c = f(a.re, b.re)
    if not simple:
        sa = t.lt0(a.re)
        sb = t.lt0(b.re)
        both = t.band(a.inf, b.inf)
        cb = t.band(sa, t.bnot(sb)) if op == 'lt' else t.bor(sa, t.bnot(sb))
        c = t.bite(both, cb, t.bite(a.inf, sa, t.bite(b.inf, t.bnot(sb), c)))
    return SV('b', t.band(valid, c))


def cite(c, a, b):
    """c Bool term"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.kind == 'b' and b.kind == 'b':
        return SV('b', t.bite(c, a.re, b.re))
    a, b = tonum(a), tonum(b)
    k = _pk(a, b)
    return SV(k, t.ite(c, a.re, b.re), t.ite(c, a.im, b.im) if k == 'c' else ZERO,
              t.bite(c, a.nan, b.nan), t.bite(c, a.inf, b.inf), a.dt if a.dt == b.dt else None)


def cisnan(a):
    return SV('b', a.nan if a.kind in 'fc' else FALSE)


def cisinf(a):
    return SV('b', t.band(a.inf, t.bnot(a.nan)) if a.kind in 'fc' else FALSE)


def cisfinite(a):
    return SV('b', t.band(t.bnot(a.nan), t.bnot(a.inf)) if a.kind in 'fc' else TRUE)


BIG = t.app('FLOATMAX')


def cnan_to_num(a, nan=None, posinf=None, neginf=None):
    if a.kind in 'bi':
        return a
    nv = lift(0.0 if nan is None else nan)
    r = a
    if a.inf is not FALSE:
        if a.kind == 'c':
            raise Unsupported('nan_to_num of complex inf')
        r = SV(a.kind, t.ite(a.inf, t.mul(sign(a.re), BIG), a.re), ZERO, a.nan, FALSE)
    if a.nan is not FALSE:
        r = cite(a.nan, SV(a.kind, nv.re), SV(r.kind, r.re, r.im))
    return r


def cnot(a):
    if a.kind == 'b':
        return SV('b', t.bnot(a.re))
    raise Unsupported('~ on non-boolean')


def cand(a, b):
    if a.kind == 'b' and b.kind == 'b':
        return SV('b', t.band(a.re, b.re))
    ca, cb = a.const(), b.const()
    if isinstance(ca, int) and isinstance(cb, int):
        return SV('i', t.num(int(ca) & int(cb)))
    raise Unsupported('& on non-boolean')


def cor(a, b):
    if a.kind == 'b' and b.kind == 'b':
        return SV('b', t.bor(a.re, b.re))
    ca, cb = a.const(), b.const()
    if isinstance(ca, int) and isinstance(cb, int):
        return SV('i', t.num(int(ca) | int(cb)))
    raise Unsupported('| on non-boolean')


def cxor(a, b):
    if a.kind == 'b' and b.kind == 'b':
        return SV('b', t.bor(t.band(a.re, t.bnot(b.re)), t.band(t.bnot(a.re), b.re)))
    raise Unsupported('^ on non-boolean')


def cast(a, dt):
    k = dt.kind
    if k == 'O':
        return a
    if k == a.kind:
        return SV(k, a.re, a.im, a.nan, a.inf, dt.name)
    if k == 'b':
        return SV('b', truth(a))
    a = tonum(a)
    if k == 'i':
        return trunc(a)
    if k == 'f':
        return SV('f', a.re, ZERO, a.nan, a.inf, dt.name)
    return SV('c', a.re, a.im, a.nan, a.inf, dt.name)


def trunc(a):
    a = tonum(a)
    if a.kind == 'i':
        return a
    if a.kind == 'c':
        raise Unsupported('int of complex')
    if a.re.sort == 'I':
        return SV('i', a.re)
    f = t.floor(a.re)
    ng = t.lt0(a.re)
    if ng is FALSE or E() is not None and E().entails(t.bnot(ng)):
        return SV('i', f)
    if ng is TRUE or E() is not None and E().entails(ng):
        return SV('i', t.neg(t.floor(t.neg(a.re))))
    return SV('i', t.ite(ng, t.neg(t.floor(t.neg(a.re))), f))


def cfloor(a):
    a = tonum(a)
    return SV('f' if a.kind == 'f' else 'i', t.floor(a.re), ZERO, a.nan, a.inf)


def cceil(a):
    a = tonum(a)
    return SV('f' if a.kind == 'f' else 'i', t.neg(t.floor(t.neg(a.re))), ZERO, a.nan, a.inf)


def round_term(x):
    """round half to even"""
    if x.sort == 'I':
        return x
    if x.op == 'num':
        return t.num(round(x.args[0]))
    return t.app('rint', x, sort='I')


def rnd(a, n=None):
    a = tonum(lift(a))
    if n not in (None, 0):
        s = t.num(10 ** n)
        return out(SV('f', t.div(round_term(t.mul(a.re, s)), s), ZERO, a.nan, a.inf))
    r = round_term(a.re)
    return out(SV('i', r)) if n is None else out(SV('f', r, ZERO, a.nan, a.inf))


def crint(a):
    a = tonum(a)
    return SV('f' if a.kind == 'f' else 'i', round_term(a.re), ZERO, a.nan, a.inf)


def cmin(a, b, ignore_nan=False):
    if ignore_nan:
        return cite(a.nan, b, cite(b.nan, a, cite(ccmp('le', a, b).re, a, b)))
    r = cite(ccmp('le', a, b).re, a, b)
    if a.nan is FALSE and b.nan is FALSE:
        return r
    return SV(r.kind, r.re, r.im, t.bor(a.nan, b.nan), r.inf)


def cmax(a, b, ignore_nan=False):
    if ignore_nan:
        return cite(a.nan, b, cite(b.nan, a, cite(ccmp('ge', a, b).re, a, b)))
    r = cite(ccmp('ge', a, b).re, a, b)
    if a.nan is FALSE and b.nan is FALSE:
        return r
    return SV(r.kind, r.re, r.im, t.bor(a.nan, b.nan), r.inf)


def map_sv(v, f):
    """apply a term transformation to all components"""
    return SV(v.kind, f(v.re), f(v.im) if v.im is not ZERO else ZERO, f(v.nan), f(v.inf), v.dt)


# ------------------------------------------------------------------- arrays
_bid = itertools.count(1)


class Base:
    __slots__ = ('fn', 'shape', 'dt', 'id', 'epoch', 'name')

    def __init__(self, shape, dt, fn, name=None):
        self.shape = tuple(shape)
        self.dt = dt
        self.fn = fn
        self.id = next(_bid)
        self.epoch = E().epoch if E() else 0
        self.name = name


def memo_fn(f):
    cache = {}

    def g(idx):
        e = E()
        r = cache.get(idx)
        if r is not None and (e is None or r[0] in e.active):
            return r[1]
        v = f(idx)
        cache[idx] = (e.tok if e is not None else 0, v)
        return v
    return g


class SArr:
    __array_priority__ = 2000

    def __init__(self, shape, dt, fn=None, base=None, imap=None, wmap=None):
        self._shape = tuple(normdim(d) for d in shape)
        self.dt = dt if isinstance(dt, DType) else DType(dt)
        if base is None:
            base = Base(self._shape, self.dt, memo_fn(fn))
            imap = None
        self.base = base
        self.imap = imap       # view index -> base index (None: identity)
        self.wmap = wmap       # base index -> (Bool guard, view index) for writes
        self.masked = None     # numpy.ma mask (SArr) or None
        self.cmask = None      # compressed by this mask key

    # -- element access
    def cell(self, idx):
        if self.imap is not None:
            idx = self.imap(idx)
        return self.base.fn(tuple(idx))

    def snap(self):
        """function idx -> SV of the current contents"""
        f = self.base.fn
        im = self.imap
        if im is None:
            return f
        return lambda idx: f(tuple(im(idx)))

    # -- properties
    @property
    def shape(self):
        return tuple(mkint(dimT(d)) for d in self._shape)

    @shape.setter
    def shape(self, s):
        r = E().np.reshape(self, s)
        self.__dict__.update(r.__dict__)

    @property
    def dims(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = ONE
        for d in self._shape:
            r = t.mul(r, dimT(d))
        return mkint(r)

    @property
    def dtype(self):
        return self.dt

    @property
    def itemsize(self):
        return self.dt.itemsize

    @property
    def T(self):
        return E().np.transpose(self)

    @property
    def real(self):
        return E().np.real(self)

    @property
    def imag(self):
        return E().np.imag(self)

    @property
    def value(self):
        return self

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def mask(self):
        if self.masked is None:
            raise AttributeError('mask')
        return self.masked

    def __len__(self):
        d = self._shape[0] if self._shape else None
        if isinstance(d, int):
            return d
        if d is None:
            raise TypeError('len() of unsized object')
        raise Unsupported('len() of symbolic array through C API')

    def __iter__(self):
        if not self._shape:
            raise TypeError('iteration over a 0-d array')
        if not isinstance(self._shape[0], int):
            raise Unsupported('iteration over an array of symbolic length')
        for i in range(self._shape[0]):
            yield self[i]

    def __bool__(self):
        if not self._shape or all(d == 1 for d in self._shape):
            return E().decide(truth(self.cell(tuple(ZERO for _ in self._shape))))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __float__(self):
        return float(self.item())

    def __contains__(self, x):
        return bool(E().np.any(self == x))

    def __copy__(self):
        return E().np.copy(self)

    def __deepcopy__(self, memo):
        return E().np.copy(self)

    def __hash__(self):
        return id(self)

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return out(self.cell(tuple(ZERO for _ in self._shape)))

    def __getitem__(self, key):
        return E().np._getitem(self, key)

    def __setitem__(self, key, val):
        E().np._setitem(self, key, val)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name == 'flat' and E():
            return E().np.ravel(self)
        f = _arr_methods.get(name)
        if f is None:
            raise Unsupported('array attribute .%s' % name) if E() and name in _arr_unsupported else AttributeError(name)
        import functools
        return functools.partial(f, self)

    def __repr__(self):
        return '<SArr %s %s>' % (self._shape, self.dt)

    __str__ = __repr__

    def __format__(self, spec):
        return '<symarray>'


_arr_unsupported = {'argsort', 'sort', 'tofile', 'dot', 'cumsum', 'std', 'var', 'prod', 'searchsorted', 'nonzero', 'byteswap', 'newbyteorder'}
_arr_methods = {}


def _bin(fname):
    def f(a, b):
        if b is None or isinstance(b, (str, list, tuple, dict)) and not isinstance(a, SArr):
            if fname == '__eq__':
                return False
            if fname == '__ne__':
                return True
            return NotImplemented
        if isinstance(b, str):
            return False if fname == '__eq__' else (True if fname == '__ne__' else NotImplemented)
        return E().np._binop(_opname[fname], a, b)
    return f


def _rbin(fname):
    def f(a, b):
        return E().np._binop(_opname[fname], b, a)
    return f


_opname = {'__add__': 'add', '__sub__': 'sub', '__mul__': 'mul', '__truediv__': 'div', '__floordiv__': 'floordiv',
           '__mod__': 'mod', '__pow__': 'pow', '__and__': 'and', '__or__': 'or', '__xor__': 'xor',
           '__lt__': 'lt', '__le__': 'le', '__gt__': 'gt', '__ge__': 'ge', '__eq__': 'eq', '__ne__': 'ne'}


def _ibin(fname):
    def f(a, b):
        return E().np._inplace(_opname[fname], a, b)
    return f


for _n in list(_opname):
    setattr(SArr, _n, _bin(_n))
    setattr(SV, _n, _bin(_n))
    if _n not in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__'):
        setattr(SArr, '__r' + _n[2:], _rbin(_n))
        setattr(SV, '__r' + _n[2:], _rbin(_n))
        setattr(SArr, '__i' + _n[2:], _ibin(_n))
SV.__hash__ = lambda self: hash((self.kind, self.re.id, self.im.id, self.nan.id, self.inf.id))
SArr.__hash__ = lambda self: id(self)
for _c in (SV, SArr):
    _c.__neg__ = lambda a: E().np._unop('neg', a)
    _c.__pos__ = lambda a: a
    _c.__invert__ = lambda a: E().np._unop('not', a)
    _c.__abs__ = lambda a: E().np._unop('abs', a)


def subst_obj(x, m):
    """structure-preserving substitution of variables in a python-level value"""
    if isinstance(x, SV):
        return out(map_sv(x, lambda y: t.subst(y, m)))
    if isinstance(x, T):
        return t.subst(x, m)
    if isinstance(x, SArr):
        f = x.snap()

        def g(idx):
            # indices may mention the substituted variables themselves: protect them
            vs = tuple(t.var('$p%d' % next(t._fresh), 'I') for _ in idx)
            r = f(vs)
            r = map_sv(r, lambda y: t.subst(y, m))
            return map_sv(r, lambda y: t.subst(y, dict(zip(vs, idx))))
        shp = [normdim(t.subst(dimT(d), m)) for d in x.dims]
        r = SArr(shp, x.dt, g)
        if x.masked is not None:
            r.masked = subst_obj(x.masked, m)
        return r
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return type(x)(*[subst_obj(y, m) for y in x])
    if isinstance(x, tuple):
        return tuple(subst_obj(y, m) for y in x)
    if isinstance(x, list):
        return [subst_obj(y, m) for y in x]
    if isinstance(x, dict):
        return {k: subst_obj(v, m) for k, v in x.items()}
    return x
