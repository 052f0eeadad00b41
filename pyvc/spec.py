"""Specification language used by the contract files: total, exact (real-number)
operations on symbolic values, quantifiers, sums, frame conditions and the
obligation-generating assertions."""
import builtins
from . import terms as t
from . import values as V
from .values import SV, SArr, Unsupported, PathEnd, lift, dimT, normdim, tonum
from .terms import T, TRUE, FALSE, ZERO, ONE

__all__ = ['Spec', 'SV', 'SArr', 'Unsupported', 'PathEnd', 'TRUE', 'FALSE', 'command_line']

# exceptions that numpy / python raise for bad values: reaching one on a feasible path
# violates a contract; anything else raised by the symbolic library means "not modelled"
VALUE_ERRORS = (ValueError, IndexError, ZeroDivisionError, KeyError, OverflowError)


class Raised:
    def __init__(self, ex):
        self.ex = ex


class Spec:
    def __init__(self, E):
        self.E = E
        self.true, self.false = TRUE, FALSE

    # ---------------------------------------------------------------- calls
    def silent(self, *a, **k):
        return None

    def call(self, f, *a, raises=False, **k):
        try:
            return f(*a, **k)
        except VALUE_ERRORS as e:
            if raises:
                return Raised(e)
            self.E.oblige('no exception (%s: %s)' % (type(e).__name__, str(e)[:80]), FALSE)
            raise PathEnd('raised')
        except SystemExit as e:
            if raises:
                return Raised(e)
            self.E.oblige('no exit', FALSE)
            raise PathEnd('exit')
        except Exception as e:
            raise Unsupported('%s: %s' % (type(e).__name__, str(e)[:300]))

    def pick(self, r, *names):
        """fields of a result by name or position"""
        return tuple(getattr(r, n) for n in names)

    # ---------------------------------------------------------------- values
    def num(self, x):
        return lift(x)

    def v(self, x):
        return tonum(lift(x))

    def arr(self, a):
        return self.E.np.arr(a)

    def mkarr(self, dims, f, dtype='float64'):
        """array given by a closed form of its indices"""
        return SArr(tuple(dims), V.DType(dtype), lambda idx: self.v(f(*idx)))

    def mkraw(self, dims, f, dtype='float64'):
        """array given elementwise, with nan flags"""
        return SArr(tuple(dims), V.DType(dtype), lambda idx: lift(f(*idx)))

    def select(self, i, xs):
        """xs[i] for a symbolic or concrete i"""
        i = dimT(i)
        if i.op == 'num':
            return lift(xs[int(i.args[0])])
        r = lift(xs[-1])
        for k in range(len(xs) - 2, -1, -1):
            r = V.cite(t.eq(i, t.num(k)), lift(xs[k]), r)
        return r

    def _idx(self, idx):
        return tuple(dimT(i) for i in idx)

    def at(self, a, *idx):
        """element with its nan / inf flags"""
        return self.arr(a).cell(self._idx(idx))

    def val(self, a, *idx):
        x = tonum(self.at(a, *idx)) if isinstance(a, SArr) or idx else tonum(lift(a))
        return SV(x.kind, x.re, x.im)

    def isnan(self, a, *idx):
        x = self.at(a, *idx) if isinstance(a, SArr) or idx else lift(a)
        return x.nan

    def isnan_v(self, v):
        return lift(v).nan

    def truth(self, v):
        return v if isinstance(v, T) else V.truth(v)

    def if_(self, c, a, b):
        return V.cite(self.truth(c), self.v(a), self.v(b))

    def and_(self, *c):
        return t.band(*[self.truth(x) for x in c])

    def or_(self, *c):
        return t.bor(*[self.truth(x) for x in c])

    def not_(self, c):
        return t.bnot(self.truth(c))

    def implies(self, a, b):
        return t.implies(self.truth(a), self.truth(b))

    def iff(self, a, b):
        a, b = self.truth(a), self.truth(b)
        return t.band(t.implies(a, b), t.implies(b, a))

    def eq(self, a, b):
        a, b = self.v(a), self.v(b)
        c = t.eq(a.re, b.re)
        if 'c' in (a.kind, b.kind):
            c = t.band(c, t.eq(a.im, b.im))
        return c

    def ne(self, a, b):
        return t.bnot(self.eq(a, b))

    def lt(self, a, b):
        return t.lt(self.v(a).re, self.v(b).re)

    def le(self, a, b):
        return t.le(self.v(a).re, self.v(b).re)

    def div(self, a, b):
        """total division (x/0 = 0); guard it in the specification"""
        a, b = self.v(a), self.v(b)
        iv = t.inv(b.re)
        assert b.kind != 'c'
        return SV('c' if a.kind == 'c' else 'f', t.mul(a.re, iv), t.mul(a.im, iv) if a.kind == 'c' else ZERO)

    def cexp(self, theta):
        """exp(i theta)"""
        x = self.v(theta)
        return SV('c', t.cos(x.re), t.sin(x.re))

    def exp(self, x):
        return SV('f', t.mexp(self.v(x).re))

    def sqrt(self, x):
        return SV('f', t.sqrt(self.v(x).re))

    def log(self, x):
        return SV('f', t.log(self.v(x).re))

    def log10(self, x):
        return SV('f', t.log10(self.v(x).re))

    def abs(self, x):
        x = self.v(x)
        if x.kind == 'c':
            return SV('f', t.sqrt(t.add(t.mul(x.re, x.re), t.mul(x.im, x.im))))
        return SV(x.kind, t.mabs(x.re))

    def abs2(self, x):
        x = self.v(x)
        return SV('f', t.add(t.mul(x.re, x.re), t.mul(x.im, x.im)))

    def re(self, x):
        return SV('f', self.v(x).re)

    def im(self, x):
        return SV('f', self.v(x).im)

    def cplx(self, a, b):
        return SV('c', self.v(a).re, self.v(b).re)

    def pow(self, a, b):
        return SV('f', t.powr(self.v(a).re, self.v(b).re))

    def ind(self, c):
        return SV('i', t.ind(self.truth(c)))

    @property
    def pi(self):
        return SV('f', V.PI)

    def app(self, name, *args):
        return SV('f', t.app(name, *[self.v(a).re for a in args]))

    # ------------------------------------------------------------- binders
    def sum(self, n, f, lo=0):
        E = self.E
        k = t.var('$y%d' % next(t._fresh), 'I')
        lo, hi = dimT(lo), dimT(n)
        with E.ctx(t.le(lo, k), t.lt(k, hi)):
            x = self.v(f(k))
        if x.nan is not FALSE or x.inf is not FALSE:
            raise AssertionError('specification sums must be total')
        return SV(x.kind, t.mk_sum(lo, hi, k, x.re), t.mk_sum(lo, hi, k, x.im) if x.kind == 'c' else ZERO)

    def exists(self, dims, f):
        E = self.E
        dims = tuple(dims)
        if not dims:
            return self.truth(f())
        vs = tuple(t.var('$y%d' % next(t._fresh), 'I') for _ in dims)
        with E.assuming_idx(vs, dims):
            c = self.truth(f(*vs))
        return E.np.any_term(vs, tuple(normdim(d) for d in dims), c)

    def all(self, dims, f):
        return t.bnot(self.exists(dims, lambda *v: t.bnot(self.truth(f(*v)))))

    def count(self, n, f):
        return self.sum(n, lambda k: self.ind(f(k)))

    def max(self, n, f, valid=None):
        E = self.E
        k = t.var('$y%d' % next(t._fresh), 'I')
        with E.ctx(t.le(ZERO, k), t.lt(k, dimT(n))):
            x = self.v(f(k))
            ok = TRUE if valid is None else self.truth(valid(k))
        from .npshim import monotone_extreme
        if ok is TRUE:
            m = monotone_extreme(E, x, (k,), (n,), 'max')
            if m is not None:
                return m
        return SV(x.kind, t.red('max', [dimT(n)], [((k,), ok), ((k,), x.re)], sort='I' if x.kind == 'i' else 'R'))

    def forall(self, *dims):
        return self.E.index(*dims)

    # ---------------------------------------------------------- squeezed access
    def cell(self, a, dims, idx):
        """element of np.squeeze of an array of nominal shape dims"""
        a = self.arr(a)
        idx = self._idx(idx)
        keep = [j for j, d in enumerate(dims) if not self.E.entails(t.eq(dimT(d), ONE))]
        if len(a.dims) == len(dims):
            return a.cell(idx)
        if len(keep) != len(a.dims):
            self.E.oblige('result shape', FALSE)
            raise PathEnd('shape')
        return a.cell(tuple(idx[j] for j in keep))

    # ---------------------------------------------------------- assertions
    def prove(self, name, c, extra=()):
        return self.E.oblige(name, self.truth(c), extra)

    def same(self, name, a, b, extra=()):
        return self.E.oblige_same(name, lift(a), lift(b), extra)

    def same_if(self, name, cond, a, b):
        """values agree under cond (flags of a are excluded by cond or must be false)"""
        c = self.truth(cond)
        if c is FALSE:
            return True
        a, b = self.v(a), self.v(b)
        with self.E.ctx(c):
            a = V.map_sv(a, self.E.prover.renorm)
            b = V.map_sv(b, self.E.prover.renorm)
            return self.E.oblige_same(name, a, b)

    def shape(self, name, a, dims):
        return self.E.oblige_shape(name, a, tuple(dims))

    def freeze(self, *arrs):
        return [(a, a.snap()) for a in arrs if isinstance(a, SArr)]

    def frame(self, frozen):
        """the caller's arrays are not modified"""
        for a, f in frozen:
            g = a.snap()
            with self.E.index(*a.dims) as ix:
                x, y = g(ix), f(ix)
                if x is y or (x.re is y.re and x.im is y.im and x.nan is y.nan):
                    continue
                self.E.oblige_same('input array unmodified', x, y)
        self.E.obligs_frame = getattr(self.E, 'obligs_frame', 0) + len(frozen)
        if frozen:
            self.E.oblige('input arrays unmodified (%d)' % len(frozen), TRUE)


# ------------------------------------------------------------------ command lines
class Parser:
    """contract of argparse: each option has its default unless it is given"""

    def __init__(self, given, pos):
        self.given, self.pos = given, list(pos)
        self.vals = {}
        self.npos = 0

    def add_argument(self, *names, dest=None, default=None, action=None, nargs=None, const=None, type=None, **k):
        if action in ('help', 'version'):
            return
        if not names[0].startswith('-'):
            d = names[0]
            if nargs in ('+', '*'):
                v = [p for p in self.pos[self.npos:]]
                self.npos = len(self.pos)
            elif isinstance(nargs, int):
                v = [p for p in self.pos[self.npos:self.npos + nargs]]
                self.npos += nargs
                if len(v) != nargs:
                    raise SystemExit(2)
            elif self.npos < len(self.pos):
                v = self.pos[self.npos]
                self.npos += 1
            else:
                v = default
            self.vals[d] = v
            return
        d = dest
        if d is None:
            long = [n for n in names if n.startswith('--')]
            d = (long or names)[0].lstrip('-').replace('-', '_')
        v = {'store_true': False, 'store_false': True}.get(action, None) if default is None else default
        for n in names:
            if n in self.given:
                g = self.given[n]
                v = g if action not in ('store_true', 'store_false', 'store_const') else {'store_true': True, 'store_false': False, 'store_const': const}[action]
        self.vals[d] = v

    def add_argument_group(self, *a, **k):
        return self

    add_mutually_exclusive_group = add_argument_group

    def set_defaults(self, **k):
        self.vals.update(k)

    def parse_args(self, *a):
        import argparse
        return argparse.Namespace(**self.vals)

    def parse_known_args(self, *a):
        return self.parse_args(), []

    def print_help(self, *a):
        pass

    print_usage = print_help

    def error(self, m):
        raise SystemExit(2)


class FakeArgparse:
    def __init__(self, given, pos):
        self.ArgumentParser = lambda *a, **k: Parser(given, pos)
        self.Namespace = __import__('argparse').Namespace

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return None


def command_line(E, mod, given, pos=()):
    """the module's main function sees this command line"""
    m = E.load(mod)
    m.__dict__['argparse'] = FakeArgparse(given, pos)
    E.__dict__.setdefault('override', {})['argparse'] = m.__dict__['argparse']
    return m
