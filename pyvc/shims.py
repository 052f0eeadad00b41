"""Trusted contracts of builtins and library modules other than numpy."""
import builtins as B
import importlib
from fractions import Fraction
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE
from . import values as V
from .values import SV, SArr, DType, Unsupported, PathEnd, lift, out, mkint, dimT, normdim, truth, is_scalar, E
from . import npshim
from .npshim import SymList, UniqueSet

_n = {k: getattr(B, k) for k in dir(B)}


def setup(eng):
    pass


# ------------------------------------------------------------------ hooks
_fc = {}


def vf_f(s):
    r = _fc.get(s)
    if r is None:
        if s in ('inf', 'nan', '-inf'):
            r = lift(float(s))
        else:
            r = SV('f', t.num(Fraction(s)))
        _fc[s] = r
    return r


def vf_c(a, b):
    return SV('c', t.num(Fraction(a)), t.num(Fraction(b)))


def _isint(x):
    return type(x) is int or type(x) is bool


def _isnum(x):
    return type(x) in (int, bool, float)


def vf_div(a, b):
    if _isint(a) and _isint(b):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return SV('f', t.num(Fraction(int(a), int(b))))
    if type(a) is float and _isnum(b) or type(b) is float and _isnum(a):
        return lift(a) / b
    return a / b


def vf_idiv(a, b):
    if isinstance(a, SArr):
        return E().np._inplace('div', a, b)
    return vf_div(a, b)


def vf_pow(a, b):
    if _isint(a) and _isint(b) and b < 0:
        return SV('f', t.num(Fraction(int(a)) ** b))
    if type(a) is float or type(b) is float:
        if _isnum(a) and _isnum(b):
            return lift(a) ** b
    return a ** b


def vf_mod(a, b):
    if isinstance(a, str):
        try:
            return a % b
        except (Unsupported, TypeError, ValueError):
            return '<formatted>'
    return a % b


def vf_add(a, b):
    if isinstance(a, (list, EList)) and isinstance(b, (list, EList)):
        return list_add(a, b)
    return a + b


def vf_iadd(a, b):
    if isinstance(a, SArr):
        return a.__iadd__(b)
    if isinstance(a, (list, EList)):
        if isinstance(a, EList):
            a.extend(b)
            return a
        a += list(iter_of(E(), b))
        return a
    return vf_add(a, b)


def vf_mul(a, b):
    if isinstance(a, list) and isinstance(b, SV) or isinstance(b, list) and isinstance(a, SV):
        l, n = (a, b) if isinstance(a, list) else (b, a)
        if n.const() is not None:
            return l * int(n.const())
        if len(l) == 1:
            x = l[0]
            nn = E().np._nonneg_len(n) if hasattr(E().np, '_nonneg_len') else t.tmax(lift(n).re, ZERO)
            return SymList(nn, lambda j: x)
        raise Unsupported('symbolic list repetition')
    if isinstance(a, EList) and a.items is not None:
        a = a.items
    if isinstance(b, EList) and b.items is not None:
        b = b.items
    if isinstance(a, str) or isinstance(b, str):
        return a * b
    return a * b


def vf_imul(a, b):
    if isinstance(a, SArr):
        return a.__imul__(b)
    return vf_mul(a, b)


def list_add(a, b):
    la = a.items if isinstance(a, EList) else a
    lb = b.items if isinstance(b, EList) else b
    if la is None or lb is None:
        raise Unsupported('concatenation of symbolic lists')
    return EList(la + lb)


class EList(SymList):
    """python list; concrete (items) until a symbolic loop appends to it"""

    def __init__(self, items=()):
        self.items = list(items)
        self._n = None
        self._elem = None
        self.lid = next(V._bid)

    @property
    def n(self):
        return t.num(len(self.items)) if self.items is not None else self._n

    @n.setter
    def n(self, v):
        self._n = v

    @property
    def elem(self):
        if self.items is None:
            return self._elem
        its = list(self.items)

        def f(j):
            if j.op == 'num':
                return its[int(j.args[0])]
            if all(is_scalar(x) for x in its) and its:
                r = lift(its[-1])
                for k in range(len(its) - 2, -1, -1):
                    r = V.cite(t.eq(j, t.num(k)), lift(its[k]), r)
                return out(r)
            raise Unsupported('symbolic index into a list of objects')
        return f

    @elem.setter
    def elem(self, f):
        self._elem = f

    def _log(self):
        e = E()
        if e.appends is not None:
            e.appends.setdefault(self, self.state())

    def state(self):
        return (None if self.items is None else list(self.items), self._n, self._elem)

    def restore(self, s):
        self.items = None if s[0] is None else list(s[0])
        self._n, self._elem = s[1], s[2]

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if self.items is not None:
            if isinstance(o, EList):
                o = o.items
            return self.items == o
        return self is o

    def append(self, x):
        self._log()
        if self.items is not None:
            self.items.append(x)
        else:
            SymList.append(self, x)

    def extend(self, xs):
        for x in iter_native(xs):
            self.append(x)

    def sym_len(self):
        return len(self.items) if self.items is not None else mkint(self._n)

    def __len__(self):
        if self.items is not None:
            return len(self.items)
        raise Unsupported('native len() of a list of symbolic length')

    def __iter__(self):
        if self.items is not None:
            return iter(self.items)
        raise Unsupported('native iteration over a list of symbolic length')

    def __getitem__(self, k):
        if self.items is not None and not isinstance(k, SV):
            if isinstance(k, slice):
                return EList(self.items[k])
            return self.items[k]
        return SymList.__getitem__(self, k)

    def __setitem__(self, k, v):
        self._log()
        if self.items is not None:
            self.items[k] = v
            return
        raise Unsupported('assignment into a symbolic list')

    def __bool__(self):
        if self.items is not None:
            return bool(self.items)
        return SymList.__bool__(self)

    def __contains__(self, x):
        if self.items is None:
            raise Unsupported('in symbolic list')
        return x in self.items

    def __add__(self, o):
        return list_add(self, o)

    def __radd__(self, o):
        return list_add(o, self)

    def __mul__(self, k):
        if self.items is None:
            raise Unsupported('repeat symbolic list')
        return EList(self.items * k)

    def pop(self, *a):
        self._log()
        if self.items is None:
            raise Unsupported('pop on symbolic list')
        return self.items.pop(*a)

    def insert(self, i, x):
        self._log()
        if self.items is None:
            raise Unsupported('insert')
        self.items.insert(i, x)

    def remove(self, x):
        self._log()
        self.items.remove(x)

    def index(self, x):
        return self.items.index(x)

    def sort(self, **k):
        if self.items is None or any(isinstance(x, SV) for x in self.items):
            raise Unsupported('sort of symbolic list')
        self._log()
        self.items.sort(**k)

    def reverse(self):
        self._log()
        self.items.reverse()

    def copy(self):
        r = EList()
        r.restore(self.state())
        return r

    def count(self, x):
        return self.items.count(x)

    def __repr__(self):
        return repr(self.items) if self.items is not None else '<symlist>'


def vf_list():
    return EList()


class SymSeq:
    """lazy iterable of symbolic length"""

    def __init__(self, n, elem, lo=None, step=1):
        self.n = n
        self.elem = elem

    def sym_len(self):
        return mkint(self.n)

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic-length iterable')

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported('slice of symbolic range')
        return self.elem(E().np.int_index(k, normdim(self.n)))

    def __len__(self):
        raise Unsupported('native len of a symbolic-length iterable')


def iter_of(eng, it):
    """native python iterable, or SymSeq"""
    if isinstance(it, SymSeq):
        if it.n.op == 'num':
            return [it.elem(t.num(i)) for i in range(int(it.n.args[0]))]
        return it
    if isinstance(it, SymList):
        if it.n.op == 'num':
            return [it.elem(t.num(i)) for i in range(int(it.n.args[0]))]
        return SymSeq(it.n, it.elem)
    if isinstance(it, SArr):
        if not it.dims:
            raise TypeError('iteration over a 0-d array')
        d = it.dims[0]
        if isinstance(d, int) and d <= 40:
            return [it[i] for i in range(d)]
        # positions of an iteration are in range by construction
        return SymSeq(dimT(d), (lambda j: out(it.cell((j,)))) if len(it.dims) == 1 else (lambda j: it[mkint(j)]))
    if isinstance(it, UniqueSet):
        raise Unsupported('iteration over np.unique')
    return it


def iter_native(it):
    r = iter_of(E(), it)
    if isinstance(r, SymSeq):
        raise Unsupported('symbolic-length iterable')
    return r


def vf_comp(f, it, cond, star):
    seq = iter_of(E(), it)

    def ap(g, x):
        if not star:
            return g(x)
        return g(*iter_native(x))
    if not isinstance(seq, SymSeq):
        r = EList()
        for x in seq:
            if cond is None or ap(cond, x):
                r.append(ap(f, x))
        return r
    if cond is not None:
        raise Unsupported('filtered comprehension over a symbolic iterable')
    e = E()

    def elem(j):
        return ap(f, seq.elem(j))
    # run once for an arbitrary element: exceptions must be impossible
    j = t.fresh('cj', 'I')
    def run():
        return elem(j)
    from .loops import Local
    res = e.subexplore(run, Local([j.args[0]], [], t._freshctr), fixed=[t.le(ZERO, j), t.lt(j, seq.n)])
    if len(res) > 1:
        return SymList(seq.n, lambda k: merged(res, j, k))
    return SymList(seq.n, lambda k: elem(k))


def merged(res, j, k):
    r = None
    for pc, v in res:
        c = t.band(*pc)
        v = V.subst_obj(v, {j: k})
        c = t.subst(c, {j: k})
        r = v if r is None else merge_val(c, v, r)
    return r


def merge_val(c, a, b):
    if a is b:
        return a
    if is_scalar(a) and is_scalar(b):
        return out(V.cite(c, lift(a), lift(b)))
    if isinstance(a, SArr) and isinstance(b, SArr) and len(a.dims) == len(b.dims) and all(dimT(x) is dimT(y) for x, y in zip(a.dims, b.dims)):
        fa, fb = a.snap(), b.snap()
        dt = V.promote_dt(a.dt, b.dt)
        return SArr(a.dims, dt, lambda idx: npshim.fix_kind(V.cite(c, fa(idx), fb(idx)), dt))
    if type(a) is type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
        return type(a)(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (str, type(None), bool)) and a == b and type(a) is type(b):
        return a
    raise Unsupported('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))


# --------------------------------------------------------------- builtins
class Ty:
    """class-like stand-in for a builtin type"""

    def __init__(self, name, call, kinds=(), native=()):
        self.__name__ = name
        self._call = call
        self.kinds = kinds
        self.native = native

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __eq__(self, o):
        return o is self or o in self.native or getattr(o, '_dtname', None) and {'float': 'float64', 'int': 'int64', 'bool': 'bool', 'complex': 'complex128'}.get(self.__name__) == o._dtname

    def __hash__(self):
        return hash(self.__name__)

    def __repr__(self):
        return "<class '%s'>" % self.__name__

    def __getattr__(self, n):
        if n.startswith('_') and n != '__doc__':
            raise AttributeError(n)
        return getattr(self.native[0], n)

    def __mro_entries__(self, bases):
        return (self.native[0],)

    def __or__(self, o):
        return (self, o)

    def __ror__(self, o):
        return (o, self)


def _int(x=0, *a):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, SV):
        if x.nan is not FALSE:
            if E().decide(x.nan):
                raise ValueError('cannot convert float NaN to integer')
        if x.inf is not FALSE:
            if E().decide(x.inf):
                raise OverflowError('cannot convert float infinity to integer')
        return out(V.trunc(x))
    if isinstance(x, Opaque):
        raise Unsupported('int(opaque)')
    return int(x, *a)


def _float(x=0.0):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, str):
        tk = V.untoken(x)
        if tk is not None:
            return _float(tk)
        f = float(x)
        return lift(f) if f != f or f in (float('inf'), float('-inf')) else SV('f', t.num(Fraction(x.strip())))
    if isinstance(x, Opaque):
        raise Unsupported('float(opaque)')
    if isinstance(x, (SV, int, float)):
        v = V.tonum(lift(x))
        if v.kind == 'c':
            raise TypeError("can't convert complex to float")
        return out(SV('f', v.re, ZERO, v.nan, v.inf))
    return lift(float(x))


def _bool(x=False):
    if isinstance(x, (SV,)):
        return out(SV('b', truth(x)))
    return bool(x)


def _complex(*a):
    if len(a) == 2:
        x, y = V.tonum(lift(a[0])), V.tonum(lift(a[1]))
        return SV('c', x.re, y.re, t.bor(x.nan, y.nan), t.bor(x.inf, y.inf))
    v = V.tonum(lift(a[0]))
    return SV('c', v.re, v.im, v.nan, v.inf)


def _list(x=()):
    if isinstance(x, EList):
        return x.copy()
    s = iter_of(E(), x)
    if isinstance(s, SymSeq):
        return SymList(s.n, s.elem)
    return EList(s)


def _tuple(x=()):
    return tuple(iter_native(x))


def _range(*a):
    a = [out(lift(x)) if isinstance(x, (SV, SArr)) else x for x in a]
    for x in a:
        if isinstance(x, SV) and x.kind not in 'ib' or isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if all(_isint(x) for x in a):
        r = range(*a)
        if len(r) > 400:
            st = r.step
            return SymSeq(t.num(len(r)), lambda j: mkint(t.add(t.num(r.start), t.scale(j, st))))
        return r
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    st = lift(st)
    lo, hi = lift(lo).re, lift(hi).re
    s = st.const()
    if s is None:
        if not E().entails(t.lt(ZERO, st.re)):
            raise Unsupported('range with symbolic step of unknown sign')
        n = t.idiv(t.add(t.sub(hi, lo), t.sub(st.re, ONE)), st.re)
        if not E().entails(t.le(ZERO, n)):
            n = t.tmax(n, ZERO)
        return SymSeq(n, lambda j: mkint(t.add(lo, t.mul(j, st.re))))
    s = int(s)
    if s == 0:
        raise ValueError('range() arg 3 must not be zero')
    n = t.sub(hi, lo) if s > 0 else t.sub(lo, hi)
    if abs(s) != 1:
        n = t.idiv(t.add(n, t.num(abs(s) - 1)), t.num(abs(s)))
    if not E().entails(t.le(ZERO, n)):
        n = ZERO if E().entails(t.le(n, ZERO)) else t.tmax(n, ZERO)
    return SymSeq(n, lambda j: mkint(t.add(lo, t.scale(j, s))))


def _len(x):
    if isinstance(x, SArr):
        if not x.dims:
            raise TypeError('len() of unsized object')
        return mkint(dimT(x.dims[0]))
    if hasattr(x, 'sym_len'):
        return x.sym_len()
    if isinstance(x, Opaque):
        raise Unsupported('len(opaque)')
    return len(x)


def _abs(x):
    return E().np._unop('abs', x) if isinstance(x, (SV, SArr)) else abs(x)


def _fold(f, npname, a, k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SArr):
            return getattr(E().np, npname)(x)
        s = iter_of(E(), x)
        if isinstance(s, SymSeq):
            return getattr(E().np, npname)(SymList(s.n, s.elem).to_array())
        a = list(s)
        if not a:
            if 'default' in k:
                return k['default']
            raise ValueError('%s() arg is an empty sequence' % npname)
    if 'key' in k and k['key'] is not None:
        if any(isinstance(k['key'](x), SV) and k['key'](x).const() is None for x in a):
            raise Unsupported('min/max with symbolic key')
        return (min if npname == 'min' else max)(a, key=k['key'])
    if not any(isinstance(x, (SV, SArr)) for x in a):
        return (min if npname == 'min' else max)(a)
    r = lift(a[0])
    for x in a[1:]:
        # python: keeps the first unless a later one compares strictly better
        y = lift(x)
        c = V.ccmp('lt', y, r).re if npname == 'min' else V.ccmp('gt', y, r).re
        r = V.cite(c, V.tonum(y), V.tonum(r))
    return out(r)


def _min(*a, **k):
    return _fold(V.cmin, 'min', a, k)


def _max(*a, **k):
    return _fold(V.cmax, 'max', a, k)


def _sum(x, start=0):
    s = iter_of(E(), x)
    if isinstance(s, SymSeq):
        a = SymList(s.n, s.elem).to_array()
        return E().np.sum(a, axis=0) + start
    r = start
    for y in s:
        r = r + y
    return r


def _any(x):
    if isinstance(x, SArr):
        return E().np.any(x) if x.ndim == 1 else any(x)
    s = iter_of(E(), x)
    if isinstance(s, SymSeq):
        return E().np.any(SymList(s.n, s.elem).to_array())
    return any(s)


def _all(x):
    if isinstance(x, SArr):
        return E().np.all(x) if x.ndim == 1 else all(x)
    s = iter_of(E(), x)
    if isinstance(s, SymSeq):
        return E().np.all(SymList(s.n, s.elem).to_array())
    return all(s)


def _round(x, n=None):
    if isinstance(x, SV):
        return V.rnd(x, n)
    return round(x) if n is None else round(x, n)


def _enumerate(x, start=0):
    s = iter_of(E(), x)
    if isinstance(s, SymSeq):
        return SymSeq(s.n, lambda j: (mkint(t.add(j, lift(start).re)), s.elem(j)))
    return enumerate(s, start)


def _zip(*xs):
    ss = [iter_of(E(), x) for x in xs]
    if any(isinstance(s, SymSeq) for s in ss):
        ss = [s if isinstance(s, SymSeq) else SymSeq(t.num(len(list(s))), EList(list(s)).elem) for s in ss]
        n = ss[0].n
        for s in ss[1:]:
            if s.n is not n and not E().entails(t.eq(s.n, n)):
                n = t.tmin(n, s.n)
        return SymSeq(n, lambda j: tuple(s.elem(j) for s in ss))
    return zip(*ss)


def _reversed(x):
    s = iter_of(E(), x)
    if isinstance(s, SymSeq):
        return SymSeq(s.n, lambda j: s.elem(t.sub(t.sub(s.n, ONE), j)))
    return reversed(list(s))


def _map(f, *xs):
    ss = [iter_of(E(), x) for x in xs]
    if any(isinstance(s, SymSeq) for s in ss):
        z = _zip(*xs)
        return SymSeq(z.n, lambda j: f(*z.elem(j)))
    return map(f, *ss)


def _sorted(x, **k):
    s = iter_of(E(), x)
    if isinstance(s, SymSeq):
        raise Unsupported('sorted symbolic')
    s = list(s)
    if any(isinstance(y, SV) and y.const() is None for y in s):
        raise Unsupported('sorted of symbolic values')
    return EList(sorted(s, **k))


def _type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SV):
        if x.dt:
            return getattr(E().np, x.dt, None) or TYPES[{'f': 'float', 'c': 'complex', 'i': 'int', 'b': 'bool'}[x.kind]]
        return TYPES[{'f': 'float', 'c': 'complex', 'i': 'int', 'b': 'bool'}[x.kind]]
    if isinstance(x, SymList):
        return TYPES['list']
    r = type(x)
    for v in TYPES.values():
        if r in v.native:
            return v
    return r


def _isinstance(x, ty):
    if isinstance(ty, tuple):
        return any(_isinstance(x, y) for y in ty)
    if isinstance(ty, Ty):
        if isinstance(x, SV):
            return x.kind in ty.kinds or (ty.__name__ == 'int' and x.kind == 'b')
        if isinstance(x, SymList):
            return ty.__name__ == 'list'
        return isinstance(x, ty.native)
    if isinstance(ty, npshim._ScalarType):
        if isinstance(x, SV):
            nm = ty._dtname
            if ty is E().np.integer:
                return x.kind == 'i'
            return x.dt == nm or (x.dt is None and {'float64': 'f', 'complex128': 'c', 'int64': 'i'}.get(nm) == x.kind)
        return False
    if isinstance(ty, Opaque):
        return False
    if ty is SArr:
        return isinstance(x, SArr)
    return isinstance(x, ty)


def _print(*a, **k):
    return None


def _unsup(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


TYPES = {
    'int': Ty('int', _int, 'i', (int,)), 'float': Ty('float', _float, 'f', (float,)),
    'bool': Ty('bool', _bool, 'b', (bool,)), 'complex': Ty('complex', _complex, 'c', (complex,)),
    'list': Ty('list', _list, (), (list,)), 'tuple': Ty('tuple', _tuple, (), (tuple,)),
}


def builtins_for(eng):
    d = dict(_n)
    d.update(TYPES)
    d.update(len=_len, range=_range, abs=_abs, min=_min, max=_max, sum=_sum, any=_any, all=_all, round=_round, enumerate=_enumerate,
             zip=_zip, reversed=_reversed, map=_map, sorted=_sorted, type=_type, isinstance=_isinstance, print=_print,
             open=_unsup('open()'), input=_unsup('input()'), exec=_unsup('exec()'), eval=_unsup('eval()'),
             __import__=eng.import_)
    return d


# ------------------------------------------------------------------ modules
class Opaque:
    """something outside the verified code: may be referenced, not used"""

    def __init__(self, name):
        self.__dict__['_name'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__version__',):
            raise AttributeError(n)
        r = Opaque(self._name + '.' + n)
        self.__dict__[n] = r
        return r

    def __setattr__(self, n, v):
        self.__dict__[n] = v

    def __call__(self, *a, **k):
        if E().loading:
            return Opaque(self._name + '()')
        raise Unsupported(self._name)

    def __mro_entries__(self, bases):
        return ()

    def __getitem__(self, k):
        if E().loading:
            return Opaque(self._name + '[]')
        raise Unsupported(self._name)

    def __setitem__(self, k, v):
        if not E().loading:
            raise Unsupported(self._name)

    def __iter__(self):
        raise Unsupported(self._name)

    def __bool__(self):
        raise Unsupported(self._name)

    def __repr__(self):
        return '<opaque %s>' % self._name


class MathShim:
    def __init__(self):
        self.pi = SV('f', V.PI)
        self.e = SV('f', t.app('exp', ONE))
        self.nan = SV('f', ZERO, nan=TRUE)
        self.inf = SV('f', ONE, inf=TRUE)

    def __getattr__(self, n):
        np = E().np

        def req(v, c, msg):
            if c is not FALSE and E().decide(c):
                raise ValueError(msg)
        if n in ('cos', 'sin', 'exp'):
            return lambda x: getattr(np, n)(x)
        if n in ('sqrt',):
            def f(x):
                v = V.tonum(lift(x))
                req(v, t.lt0(v.re), 'math domain error')
                return np.sqrt(x)
            return f
        if n in ('log', 'log10'):
            def f(x, *b):
                v = V.tonum(lift(x))
                req(v, t.le0(v.re), 'math domain error')
                r = getattr(np, n)(x)
                return r / getattr(np, n)(b[0]) if b else r
            return f
        if n in ('floor', 'ceil'):
            def f(x):
                v = V.tonum(lift(x))
                w = V.cfloor(v) if n == 'floor' else V.cceil(v)
                return mkint(w.re)
            return f
        if n == 'trunc':
            return _int
        if n == 'fabs':
            return lambda x: _float(_abs(x))
        if n == 'isnan':
            return lambda x: np.isnan(x)
        if n == 'isinf':
            return lambda x: np.isinf(x)
        if n == 'isfinite':
            return lambda x: np.isfinite(x)
        if n in ('radians', 'degrees'):
            return lambda x: (np.deg2rad if n == 'radians' else np.rad2deg)(x)
        if n == 'atan2':
            return lambda y, x: np.arctan2(y, x)
        if n == 'hypot':
            return lambda y, x: np.sqrt(y * y + x * x)
        if n == 'pow':
            return lambda y, x: _float(y) ** x
        if n == 'fmod':
            return _unsup('math.fmod')
        if n.startswith('__'):
            raise AttributeError(n)
        return _unsup('math.' + n)


class Const:
    def __init__(self, name, val):
        self.value = val
        self.name = name

    def __getattr__(self, n):
        if n in ('to', 'si', 'cgs'):
            raise Unsupported('astropy quantity conversion')
        raise AttributeError(n)


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        r = Opaque(self.__dict__.get('_name', '?') + '.' + n)
        self.__dict__[n] = r
        return r


def _tqdm(x=None, *a, **k):
    return x


class Pool:
    """process pools: assumed to be order-preserving maps"""

    def __init__(self, *a, **k):
        pass

    def map(self, f, xs, *a, **k):
        e = E()
        e.trusted.add('multiprocessing.Pool.map')
        return vf_comp(f, xs, None, False)

    def starmap(self, f, xs, *a, **k):
        e = E()
        e.trusted.add('multiprocessing.Pool.map')
        return vf_comp(f, xs, None, True)

    imap = map

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = wait = close

    def is_master(self):
        return True


def nufft1d3(x, c, s, isign=1, eps=1e-6, n_trans=1, **kw):
    """contract of finufft.nufft1d3 (assumed): f[..., k] = sum_j c[..., j] exp(+-1j s_k x_j)"""
    e = E()
    e.trusted.add('finufft.nufft1d3')
    np = e.np
    x, c, s = np.arr(x), np.arr(c), np.arr(s)
    if len(x.dims) != 1 or len(s.dims) != 1 or len(c.dims) not in (1, 2):
        raise RuntimeError('FINUFFT dimensions')
    m = dimT(x.dims[0])
    if not np._same(c.dims[-1], x.dims[0]):
        if not e.decide(t.eq(dimT(c.dims[-1]), m)):
            raise RuntimeError('FINUFFT c size does not match x')
    if x.dt.kind == 'c' or s.dt.kind == 'c':
        raise RuntimeError('FINUFFT data type must be real')
    if c.dt.kind != 'c':
        raise RuntimeError('FINUFFT data type must be complex')
    if c.dt.name == 'complex64' and (x.dt.name == 'float64' or s.dt.name == 'float64') or c.dt.name == 'complex128' and (x.dt.name == 'float32' or s.dt.name == 'float32'):
        raise RuntimeError('FINUFFT data type must match')
    sg = lift(isign).const()
    if sg is None:
        raise Unsupported('symbolic isign')
    sg = 1 if sg >= 0 else -1
    fx, fc, fs = x.snap(), c.snap(), s.snap()

    def fn(idx):
        k = idx[-1]
        j = t.var('$r%d' % next(t._fresh), 'I')
        a = fc(tuple(idx[:-1]) + (j,))
        xx, ss = V.tonum(fx((j,))), V.tonum(fs((k,)))
        ph = t.scale(t.mul(xx.re, ss.re), sg)
        cs, sn = t.cos(ph), t.sin(ph)
        re = t.sub(t.mul(a.re, cs), t.mul(a.im, sn))
        im = t.add(t.mul(a.re, sn), t.mul(a.im, cs))
        nan = t.bor(a.nan, a.inf, xx.nan, xx.inf, ss.nan, ss.inf)
        nn = FALSE
        if nan is not FALSE:
            nn = np.any_term((j,), (x.dims[0],), nan)
        return SV('c', t.mk_sum(ZERO, m, j, re), t.mk_sum(ZERO, m, j, im), nn)
    dims = tuple(c.dims[:-1]) + (s.dims[0],)
    return SArr(dims, c.dt, fn)


REAL = {'os', 'sys', 'time', 'argparse', 're', 'json', 'copy', 'itertools', 'functools', 'collections', 'warnings', 'traceback',
        'glob', 'configparser', 'string', 'operator', 'typing', 'datetime', 'shutil', 'io', 'abc', 'enum', 'logging', 'importlib', 'types',
        'fractions', 'numbers', 'contextlib', 'dataclasses', 'pathlib', 'gc', 'pickle', 'random', 'textwrap', 'subprocess', '__future__', 'errno', 'struct', 'sqlite3', 'ast', 'inspect', 'socket', 'signal', 'multiprocessing', 'unittest', 'tempfile'}


def import_(eng, name, fromlist):
    top = name.split('.')[0]
    ov = eng.__dict__.get('override', {})
    if name in ov:
        return ov[name]
    if top == 'numpy':
        if fromlist and name == 'numpy.ma':
            return eng.np.ma
        if fromlist and name == 'numpy.random':
            return eng.np.random
        if fromlist and name != 'numpy':
            return Opaque(name)
        return eng.np
    if name == 'math':
        return MathShim()
    if top == 'finufft':
        return NS(_name='finufft', nufft1d3=nufft1d3, __version__='2.5.1')
    if top == 'tqdm':
        m = NS(_name='tqdm', tqdm=_tqdm, trange=lambda *a, **k: _range(*a))
        m.auto = m
        return m
    if top == 'astropy':
        return astropy(eng, name, fromlist)
    if top == 'multiprocessing':
        m = NS(_name='multiprocessing', Pool=Pool, cpu_count=lambda: 4)
        m.pool = m
        return m
    if top == 'schwimmbad':
        return NS(_name='schwimmbad', MPIPool=Pool, MultiPool=Pool, SerialPool=Pool, JoblibPool=Pool, choose_pool=lambda **k: Pool())
    if top == 'packaging':
        return Opaque(name)
    if top in REAL and top not in ('multiprocessing', 'subprocess', 'sqlite3', 'random', 'shutil'):
        m = importlib.import_module(name)
        return m if fromlist else importlib.import_module(top)
    return Opaque(top if not fromlist else name)


_c = [None]


def astropy(eng, name, fromlist):
    if _c[0] is None or _c[0].eng is not eng:
        u = Opaque('astropy.units')
        const = NS(_name='astropy.constants', c=Const('c', SV('f', t.num(299792458))), k_B=Const('k_B', SV('f', t.num(Fraction('1.380649e-23')))),
                   h=Const('h', SV('f', t.num(Fraction('6.62607015e-34')))))
        from . import fitsshim
        a = NS(_name='astropy', constants=const, units=u, io=NS(_name='astropy.io', fits=fitsshim.fits(eng)), eng=eng)
        _c[0] = a
    a = _c[0]
    if not fromlist:
        return a
    r = a
    for p in name.split('.')[1:]:
        r = getattr(r, p)
    return r
