"""Hash-consed first-order terms over Int / Real / Bool with a polynomial normal form.

Numeric terms are kept in a canonical form: rational-coefficient polynomials over
*atoms*.  Atoms are variables, applications of uninterpreted functions (input
arrays, cos, sqrt, ...), finite sums  sum(lo,hi,body)  with a bound variable, and
0/1 indicators  ind(c)  of Boolean terms (so  ite(c,a,b) = b + ind(c)*(a-b)).

inv(x) is the total function with inv(0)=0 and x*inv(x)=1 otherwise.
"""
from fractions import Fraction
import itertools
import sys

sys.setrecursionlimit(100000)

I, R, B = 'I', 'R', 'B'


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '_sz', '_dep')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id



_table = {}
_cnt = itertools.count(1)


def reset():
    """Forget everything (used between independent verification units)."""
    pass


def _mk(op, args, sort):
    k = (op, args, sort)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = next(_cnt)
        t._fv = None
        t._sz = None
        t._dep = None
        _table[k] = t
    return t


def tcount():
    return len(_table)


def num(x, sort=None):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = Fraction(repr(x))
    else:
        x = Fraction(x)
    if sort is None:
        sort = I if x.denominator == 1 else R
    # numbers are unsorted on purpose: an integral constant is usable in both sorts
    return _mk('num', (x,), I if x.denominator == 1 else R)


ZERO = num(0)
ONE = num(1)
MONE = num(-1)
TRUE = _mk('true', (), B)
FALSE = _mk('false', (), B)


def var(name, sort):
    return _mk('var', (name,), sort)


_fresh = itertools.count(1)
_freshctr = {}


def reset_fresh():
    _freshctr.clear()


def fresh(prefix, sort):
    n = _freshctr.get(prefix, 0) + 1
    _freshctr[prefix] = n
    return var('%s!%d' % (prefix, n), sort)



# ------------------------------------------------------- canonical Boolean guards
class TooBig(BaseException):
    """a Boolean guard with too many atoms"""


_bdd_u = {}        # (atom, lo, hi) -> node
_bdd_n = [None, None]
_bdd_ite = {}
_bdd_of = {}
_bdd_t = {}


def _node(a, lo, hi):
    if lo == hi:
        return lo
    k = (a, lo, hi)
    n = _bdd_u.get(k)
    if n is None:
        n = len(_bdd_n)
        if n > 3000000:
            raise TooBig()
        _bdd_n.append(k)
        _bdd_u[k] = n
    return n


def _top(n):
    return _bdd_n[n][0].id if n > 1 else 1 << 60


def _cof(n, a):
    if n > 1 and _bdd_n[n][0] is a:
        return _bdd_n[n][1], _bdd_n[n][2]
    return n, n


def bdd_ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _bdd_ite.get(k)
    if r is not None:
        return r
    m = min((f, g, h), key=_top)
    a = _bdd_n[m][0]
    f0, f1 = _cof(f, a)
    g0, g1 = _cof(g, a)
    h0, h1 = _cof(h, a)
    r = _node(a, bdd_ite(f0, g0, h0), bdd_ite(f1, g1, h1))
    _bdd_ite[k] = r
    return r


def bdd_and(a, b):
    return bdd_ite(a, b, 0)


def bdd_or(a, b):
    return bdd_ite(a, 1, b)


def bdd_not(a):
    return bdd_ite(a, 0, 1)


def bdd_of(c):
    if c is TRUE:
        return 1
    if c is FALSE:
        return 0
    r = _bdd_of.get(c)
    if r is not None:
        return r
    if c.op == 'not':
        r = bdd_not(bdd_of(c.args[0]))
    elif c.op == 'and':
        r = 1
        for x in c.args:
            r = bdd_and(r, bdd_of(x))
    elif c.op == 'or':
        r = 0
        for x in c.args:
            r = bdd_or(r, bdd_of(x))
    else:
        r = _node(c, 0, 1)
    _bdd_of[c] = r
    return r


def bdd_support(n, acc=None):
    if acc is None:
        acc = {}
    st = [n]
    seen = set()
    while st:
        m = st.pop()
        if m <= 1 or m in seen:
            continue
        seen.add(m)
        acc[_bdd_n[m][0]] = True
        st.append(_bdd_n[m][1])
        st.append(_bdd_n[m][2])
    return acc


def bdd_restrict(n, a, val):
    """cofactor with respect to atom a"""
    memo = {}

    def go(m):
        if m <= 1:
            return m
        r = memo.get(m)
        if r is None:
            x, lo, hi = _bdd_n[m]
            if x is a:
                r = hi if val else lo
            elif x.id > a.id:
                r = m
            else:
                r = _node(x, go(lo), go(hi))
            memo[m] = r
        return r
    return go(n)


def bdd_essential(n):
    """literals implied by n: list of (atom, polarity)"""
    out = []
    for a in bdd_support(n):
        if bdd_restrict(n, a, False) == 0:
            out.append((a, True))
        elif bdd_restrict(n, a, True) == 0:
            out.append((a, False))
    return out


def bdd_term(n):
    """canonical Boolean term of a node (essential literals as top-level conjuncts)"""
    if n == 0:
        return FALSE
    if n == 1:
        return TRUE
    r = _bdd_t.get(n)
    if r is not None:
        return r
    ess = bdd_essential(n)
    lits = []
    m = n
    for a, pol in ess:
        m = bdd_restrict(m, a, pol)
        lits.append(a if pol else _mk('not', (a,), B))
    if lits:
        r = _rawand(lits + ([bdd_term(m)] if m != 1 else []))
    else:
        # dual: literals whose truth makes it true
        dis = []
        m = n
        for a in list(bdd_support(n)):
            if bdd_restrict(n, a, True) == 1:
                dis.append(a)
                m = bdd_restrict(m, a, False)
            elif bdd_restrict(n, a, False) == 1:
                dis.append(_mk('not', (a,), B))
                m = bdd_restrict(m, a, True)
        if dis:
            r = _rawor(dis + ([bdd_term(m)] if m != 0 else []))
        else:
            a, lo, hi = _bdd_n[n]
            r = _rawor([_rawand([a, bdd_term(hi)]), _rawand([_mk('not', (a,), B), bdd_term(lo)])])
    _bdd_t[n] = r
    _bdd_of[r] = n
    return r


def _flat(op, ts):
    out = set()
    for x in ts:
        if x.op == op:
            out.update(x.args)
        else:
            out.add(x)
    return out


def _rawand(ts):
    s = _flat('and', [x for x in ts if x is not TRUE])
    if FALSE in s:
        return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return _mk('and', tuple(sorted(s, key=lambda t: t.id)), B)


def _rawor(ts):
    s = _flat('or', [x for x in ts if x is not FALSE])
    if TRUE in s:
        return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return _mk('or', tuple(sorted(s, key=lambda t: t.id)), B)


_confl = {}


def bdd_conflict(n):
    """syntactic theory conflict between implied literals"""
    r = _confl.get(n)
    if r is None:
        r = False
        if n > 1:
            lits = [a if p else _mk('not', (a,), B) for a, p in bdd_essential(n)]
            lits = [x for x in lits if _rel(x) is not None]
            if len(lits) <= 10:
                for a, b in itertools.combinations(lits, 2):
                    if _conflict(a, b):
                        r = True
                        break
        _confl[n] = r
    return r


_care = [1]


class care:
    """simplify guards under the (propositional content of the) hypotheses"""

    def __init__(self, hyps):
        n = 1
        for h in hyps:
            m = bdd_and(n, bdd_of(h))
            if m == 0 or len(bdd_support(m)) > 60:
                continue
            n = m
        self.n = n

    def __enter__(self):
        self.old = _care[0]
        _care[0] = self.n
        _mulcache.clear()
        return self

    def __exit__(self, *a):
        _care[0] = self.old
        _mulcache.clear()
        return False


_restr = {}


def bdd_care(f, c):
    """Coudert-Madre restrict of f to the care set c"""
    if c == 1 or f <= 1:
        return f
    if bdd_and(c, f) == 0:
        return 0
    if bdd_and(c, bdd_not(f)) == 0:
        return 1

    def go(f, c):
        if c == 1 or f <= 1:
            return f
        if c == 0:
            return f
        k = (f, c)
        r = _restr.get(k)
        if r is not None:
            return r
        if _top(c) < _top(f):
            a, lo, hi = _bdd_n[c]
            r = go(f, bdd_or(lo, hi))
        else:
            a, lo, hi = _bdd_n[f]
            c0, c1 = _cof(c, a)
            if c0 == 0:
                r = go(hi, c1)
            elif c1 == 0:
                r = go(lo, c0)
            else:
                r = _node(a, go(lo, c0), go(hi, c1))
        _restr[k] = r
        return r
    return go(f, c)


_elim = {}


def _matches(body, bs, others):
    '''assignments of the bound variables bs that make some atom of body one of others'''
    out = []
    pats = [a for a in bdd_support(bdd_of(body))]
    for pt in pats:
        for o in others:
            m = {}
            if _unify(pt, o, bs, m) and len(m) == len(bs):
                tup = tuple(m[b] for b in bs)
                if tup not in out:
                    out.append(tup)
    return out


def _unify(p, o, bs, m):
    if p in bs:
        if p in m:
            return m[p] is o
        if o.sort != p.sort:
            return False
        m[p] = o
        return True
    if p is o:
        return True
    if p.op != o.op:
        return False
    if p.op == 'app':
        if p.args[0] != o.args[0] or len(p.args) != len(o.args):
            return False
        return all(_unify(x, y, bs, m) if isinstance(x, T) and isinstance(y, T) else x == y for x, y in zip(p.args[1:], o.args[1:]))
    if p.op in ('eq0', 'lt0', 'not'):
        return _unify(p.args[0], o.args[0], bs, m)
    return False


def _elim_any(n, c):
    '''drop an existential literal that is implied by one of its own instances'''
    sup = bdd_support(n)
    anys = [a for a in sup if a.op == 'red' and a.args[0] == 'any']
    if not anys:
        return n
    k0 = (n, c)
    if k0 in _elim:
        return _elim[k0]
    _elim[k0] = n
    for a in anys:
        if a not in bdd_support(n):
            continue
        bs = a.args[-1]
        nd = len(bs)
        body = a.args[1 + nd]
        dims = a.args[1:1 + nd]
        others = [x for x in bdd_support(n) if x is not a]
        for tup in _matches(body, bs, others)[:6]:
            inst = subst(band(body, *[band(le(ZERO, b), lt(b, d)) for b, d in zip(bs, dims)]), dict(zip(bs, tup)))
            f0, f1 = bdd_restrict(n, a, False), bdd_restrict(n, a, True)
            diff = bdd_ite(f0, bdd_not(f1), f1)
            if bdd_and(bdd_and(diff, bdd_not(bdd_of(inst))), c) == 0:
                n = f1
                break
    _elim[k0] = n
    return n


def _guard_split(m):
    """monomial -> (rest, guard node)"""
    for i, (a, e) in enumerate(m):
        if a.op == 'app' and a.args[0] == 'ind':
            return m[:i] + m[i + 1:], bdd_of(a.args[1])
    return m, 1


def _regions(lst):
    """[(guard, coef)] -> {value: guard} disjoint, canonical (0 omitted)"""
    regs = [(Fraction(0), 1)]
    for g, c in lst:
        new = {}
        for v, r in regs:
            x = bdd_and(r, g)
            y = bdd_and(r, bdd_not(g))
            if x and not bdd_conflict(x):
                new[v + c] = bdd_or(new.get(v + c, 0), x)
            if y and not bdd_conflict(y):
                new[v] = bdd_or(new.get(v, 0), y)
        regs = list(new.items())
    return [(v, r) for v, r in regs if v != 0]


def _ind_atom(n):
    return _mk('app', ('ind', bdd_term(n)), I)


def pieces(p, limit=6):
    """piecewise decomposition [(guard term, guard-free term)], or None"""
    if p.op == 'app' and p.args[0] == 'ind':
        g = p.args[1]
        return [(g, ONE), (bnot(g), ZERO)]
    if p.op != 'poly':
        return None
    has = False
    regs = {(): 1}
    for m, c in p.args:
        rest, g = _guard_split(m)
        if g != 1:
            has = True
        new = {}
        for k, r in regs.items():
            x = bdd_and(r, g)
            if x and not bdd_conflict(x):
                k2 = k + ((rest, c),)
                new[k2] = bdd_or(new.get(k2, 0), x)
            y = bdd_and(r, bdd_not(g))
            if y and not bdd_conflict(y):
                new[k] = bdd_or(new.get(k, 0), y)
        regs = new
        if len(regs) > limit:
            return None
    if not has:
        return None
    return [(bdd_term(g), from_poly(dict(k))) for k, g in regs.items()]


def lifted(p, f):
    """f(p) computed piecewise, or None when p is not piecewise"""
    ps = pieces(p)
    if ps is None:
        return None
    out = ZERO
    for g, q in ps:
        out = add(out, mul(ind(g), f(q)))
    return out


# ------------------------------------------------------------------ polynomials
def poly_of(t):
    """dict monomial -> coef ; monomial = tuple of (atom, exp) sorted by id."""
    if t.op == 'poly':
        return dict(t.args)
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    return {((t, 1),): Fraction(1)}


def _group(p):
    '''canonical step-function coefficients: monomials that differ only in their
    guard are merged into disjoint guards'''
    gs = {}
    anyg = False
    for m, c in p.items():
        rest, g = _guard_split(m)
        if g != 1:
            anyg = True
        gs.setdefault(rest, []).append((g, c))
    if not anyg:
        return p
    out = {}
    for rest, lst in gs.items():
        if len(lst) == 1:
            g, c = lst[0]
            if g:
                out[_with_guard(rest, g)] = c
            continue
        for v, g in _regions(lst):
            out[_with_guard(rest, g)] = v
    return out


def _with_guard(rest, g):
    if g == 1:
        return rest
    return tuple(sorted(rest + ((_ind_atom(g), 1),), key=lambda ae: ae[0].id))


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) > 1:
        p = _group(p)
        if not p:
            return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: _mono_key(mc[0])))
    sort = I
    for m, c in items:
        if c.denominator != 1:
            sort = R
            break
        for a, e in m:
            if a.sort != I:
                sort = R
                break
        if sort == R:
            break
    return _mk('poly', items, sort)


def add(*ts):
    if len(ts) == 2:
        if ts[0] is ZERO:
            return ts[1]
        if ts[1] is ZERO:
            return ts[0]
    out = {}
    for t in ts:
        if t.op == 'poly':
            it = t.args
        elif t.op == 'num':
            if t.args[0] == 0:
                continue
            it = (((), t.args[0]),)
        else:
            it = ((((t, 1),), Fraction(1)),)
        for m, c in it:
            v = out.get(m)
            out[m] = c if v is None else v + c
    return from_poly(out)


def scale(t, c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    if c == 1:
        return t
    return from_poly({m: k * c for m, k in poly_of(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


_nonzero = set()      # terms known to be non-zero in the current context
_nonneg = set()       # terms known to be >= 0 in the current context
EQS = {}              # integer variables equal to a constant / another variable here
_zeros = set()        # terms known to be 0 in the current context
NONNEG_FNS = set()    # input functions assumed >= 0 everywhere (precondition)
POS_FNS = set()       # input functions assumed > 0 everywhere (precondition)


class known:
    """Context facts used by the normaliser (cleared per verification unit)."""

    @staticmethod
    def clear():
        _nonzero.clear()
        _nonneg.clear()
        _zeros.clear()
        EQS.clear()
        NONNEG_FNS.clear()
        POS_FNS.clear()
        _mulcache.clear()

    @staticmethod
    def nonzero(t):
        if t not in _nonzero:
            _nonzero.add(t)
            _mulcache.clear()

    @staticmethod
    def nonneg(t):
        if t not in _nonneg:
            _nonneg.add(t)
            _mulcache.clear()


DEFS = {}         # let-bound variable -> definition
DEFNAMES = {}


def outer(x, acc=None, seen=None):
    """sub-terms outside binders"""
    if acc is None:
        acc, seen = [], set()
    if x in seen:
        return acc
    seen.add(x)
    acc.append(x)
    if x.op == 'poly':
        for m, c in x.args:
            for a, e in m:
                outer(a, acc, seen)
    elif x.op not in ('sum', 'red'):
        for a in x.args:
            if isinstance(a, T):
                outer(a, acc, seen)
    return acc


def size(x, limit=10 ** 9):
    """number of distinct sub-terms"""
    return len(atoms(x))


def eq0_raw(p):
    return _mk('eq0', (p,), B)


def unfold(x):
    """replace let-bound variables by their definitions"""
    for _ in range(20):
        hit = {v: DEFS[v] for v in fv(x) if v in DEFS}
        if not hit:
            return x
        x = subst(x, hit)
    return x


def unfold_top(x):
    """unfold let-bound variables that are factors of a (in)equality, not those inside
    function arguments or sums"""
    if x.op == 'and':
        return band(*[unfold_top(a) for a in x.args])
    if x.op == 'or':
        return bor(*[unfold_top(a) for a in x.args])
    if x.op == 'not':
        return bnot(unfold_top(x.args[0]))
    if x.op == 'eq0':
        return eq0(_unfold_p(x.args[0]))
    if x.op == 'lt0':
        return lt0(_unfold_p(x.args[0]))
    return x


def _unfold_p(p):
    for _ in range(6):
        r, hit = ZERO, False
        for m, c in poly_of(p).items():
            y = num(c)
            for a, e in m:
                if a.op == 'var' and a in DEFS:
                    a, hit = DEFS[a], True
                elif a.op == 'app' and a.args[0] == 'inv' and any(v in DEFS for z in atoms_top(a.args[1]) for v in (z,)):
                    a, hit = inv(_unfold_p(a.args[1])), True
                for _i in range(e):
                    y = mul(y, a)
            r = add(r, y)
        if not hit:
            return p
        p = r
    return p


def atoms_top(p):
    return [a for m, c in poly_of(p).items() for a, e in m]


def is_nonneg(t):
    """cheap syntactic sufficient test for t >= 0."""
    if t in _nonneg:
        return True
    if t.op == 'var' and t in DEFS:
        return is_nonneg(DEFS[t])
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op == 'app':
        f = t.args[0]
        if f in ('ind', 'sqrt', 'abs', 'exp', 'ln10', 'pi') or f in NONNEG_FNS or f in POS_FNS:
            return True
        if f == 'inv':
            return is_nonneg(t.args[1])
        if f in ('powr',):
            return is_nonneg(t.args[1])
    if t.op == 'sum':
        return is_nonneg(t.args[2])
    if t.op == 'poly':
        for m, c in t.args:
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not is_nonneg(a):
                    return False
        return True
    return False


def is_nonzero(t):
    if t.op == 'num':
        return t.args[0] != 0
    if t in _nonzero:
        return True
    if t.op == 'var' and t in DEFS:
        return is_nonzero(DEFS[t])
    if t.op == 'app' and (t.args[0] in ('exp', 'ln10', 'pi') or t.args[0] in POS_FNS):
        return True
    if t.op == 'app' and t.args[0] == 'inv':
        return is_nonzero(t.args[1])
    if t.op == 'app' and t.args[0] == 'sqrt':
        return is_nonzero(t.args[1]) and is_nonneg(t.args[1])
    if t.op == 'poly':
        if len(t.args) == 1:
            return all(is_nonzero(a) for a, e in t.args[0][0])
        # every monomial non-negative, one of them strictly positive
        strict = False
        for m, c in t.args:
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not is_nonneg(a):
                    return False
            strict = strict or all(is_nonzero(a) for a, e in m)
        return strict
    return False


def _mono_mul(m1, m2):
    """Multiply two monomials, applying atom-level rules.  Returns (coef, [terms])
    where the product is coef * prod(terms) if non-trivial, or a monomial."""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return _norm_mono(d)


def _norm_mono(d):
    """d: atom -> exp.  returns T (a term) or a canonical monomial tuple."""
    extra = []           # terms to be multiplied afterwards
    # indicators are idempotent, contradictory indicators vanish
    inds = None
    exps = None
    pows = None
    changed = False
    for a in list(d):
        if a.op != 'app' or a not in d:
            continue
        f = a.args[0]
        e = d[a]
        if f == 'ind':
            if e > 1:
                d[a] = 1
            if inds is None:
                inds = []
            inds.append(a)
        elif f == 'inv':
            x = a.args[1]
            ex = d.get(x, 0)
            if ex > 0:
                k = min(ex, e)
                if ex == e:
                    if is_nonzero(x):
                        del d[a]
                        del d[x]
                    else:
                        if e > 1:
                            d[a] = 1
                            d[x] = 1
                elif ex > e:
                    d[x] = ex - e
                    del d[a]
                else:
                    d[a] = e - ex
                    del d[x]
        elif f == 'sqrt':
            if e > 1 and is_nonneg(a.args[1]):
                del d[a]
                if e % 2:
                    d[a] = 1
                extra.append(power(a.args[1], e // 2))
        elif f == 'abs':
            if e > 1:
                del d[a]
                if e % 2:
                    d[a] = 1
                extra.append(power(a.args[1], e - e % 2))
        elif f == 'exp':
            if e > 1:
                del d[a]
                extra.append(mexp(scale(a.args[1], e)))
            else:
                if exps is None:
                    exps = []
                exps.append(a)
        elif f == 'powr':
            if pows is None:
                pows = {}
            pows.setdefault(a.args[1], []).append(a)
    if exps and len(exps) > 1:
        for a in exps:
            d.pop(a, None)
        extra.append(mexp(add(*[a.args[1] for a in exps])))
    if pows:
        for b, lst in pows.items():
            lst = [a for a in lst if a in d]
            tot = sum(d[a] for a in lst)
            if tot > 1:
                ex = ZERO
                for a in lst:
                    ex = add(ex, scale(a.args[2], d[a]))
                    del d[a]
                extra.append(powr(b, ex))
    if inds:
        g = 1
        for a in inds:
            g = bdd_and(g, bdd_of(a.args[1]))
        if g > 1:
            # x * inv(x) and x vanish at x == 0: the guard literal is redundant
            sup = None
            for a in d:
                x = None
                if a.op == 'app':
                    if a.args[0] == 'inv':
                        x = a.args[1]
                    elif a.args[0] == 'ind':
                        continue
                if sup is None:
                    sup = {b.args[0]: b for b in bdd_support(g) if b.op == 'eq0'}
                    if not sup:
                        break
                if x is not None:
                    z = eq0(x)
                    if z.op == 'eq0' and z.args[0] in sup:
                        g = bdd_restrict(g, z, False)
                        continue
                if a in sup:
                    g = bdd_restrict(g, sup[a], False)
        if g == 0 or bdd_conflict(g):
            return ZERO
        if len(inds) > 1 or g != bdd_of(inds[0].args[1]):
            for a in inds:
                del d[a]
            if g != 1:
                d[_ind_atom(g)] = 1
    m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))
    if not extra:
        return m
    t = from_poly({m: Fraction(1)})
    for x in extra:
        t = mul(t, x)
    return t


def _conflict(a, b):
    """syntactic mutual exclusion of two Boolean atoms"""
    pa = _rel(a)
    pb = _rel(b)
    if pa is None or pb is None:
        return None
    ka, ta = pa
    kb, tb = pb
    # forms:  lt: t < 0 ; eq: t = 0 ; ge: t >= 0 (not lt)
    d = None
    if ka == 'eq' and kb == 'eq':
        for s in (1, -1):
            d = add(ta, scale(tb, s))
            if d.op == 'num' and d.args[0] != 0:
                return True
        return None
    if ka == 'eq' and kb in ('lt', 'ge') or kb == 'eq' and ka in ('lt', 'ge'):
        if kb == 'eq':
            ka, ta, kb, tb = kb, tb, ka, ta
        for s in (1, -1):
            d = add(tb, scale(ta, s))       # tb +/- ta = tb under ta = 0
            if d.op == 'num':
                v = d.args[0]
                if kb == 'lt' and not v < 0:
                    return True
                if kb == 'ge' and not v >= 0:
                    return True
        return None
    if ka == 'lt' and kb == 'lt':
        d = add(ta, tb)
        if d.op == 'num' and d.args[0] >= 0:
            return True
    elif {ka, kb} == {'lt', 'ge'}:
        if ka == 'ge':
            ta, tb = tb, ta
        d = sub(tb, ta)          # ta<0, tb>=0 -> tb-ta>0
        if d.op == 'num' and d.args[0] <= 0:
            return True
    elif ka == 'ge' and kb == 'ge':
        d = add(ta, tb)
        if d.op == 'num' and d.args[0] < 0:
            return True
    return None


def _rel(c):
    if c.op == 'lt0':
        return ('lt', c.args[0])
    if c.op == 'eq0':
        return ('eq', c.args[0])
    if c.op == 'not' and c.args[0].op == 'lt0':
        return ('ge', c.args[0].args[0])
    return None


_mulcache = {}


def mul(*ts):
    out = ONE
    for t in ts:
        out = _mul2(out, t)
    return out


def _mul2(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    if a.op == 'num':
        return scale(b, a.args[0])
    if b.op == 'num':
        return scale(a, b.args[0])
    k = (a, b) if a.id <= b.id else (b, a)
    r = _mulcache.get(k)
    if r is not None:
        return r
    pa = poly_of(a)
    pb = poly_of(b)
    out = {}
    extra = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m = _mono_mul(m1, m2)
            c = c1 * c2
            if isinstance(m, T):
                extra.append(scale(m, c))
            else:
                v = out.get(m)
                out[m] = c if v is None else v + c
    r = from_poly(out)
    if extra:
        r = add(r, *extra)
    _mulcache[k] = r
    return r


def power(t, n):
    if n < 0:
        return power(inv(t), -n)
    out = ONE
    base = t
    while n:
        if n & 1:
            out = mul(out, base)
        base = mul(base, base) if n > 1 else base
        n >>= 1
    return out


def content(t):
    """(c, t') with t = c*t', leading coefficient of t' is 1."""
    if t.op != 'poly':
        if t.op == 'num':
            return t.args[0], ONE
        return Fraction(1), t
    c = t.args[0][1] if t.args[0][0] != () or len(t.args) == 1 else t.args[1][1]
    return c, scale(t, 1 / c)


def inv(t):
    if t in _zeros:
        return ZERO
    if t.op == 'num':
        v = t.args[0]
        return ZERO if v == 0 else num(1 / v)
    if t.op == 'poly' and len(t.args) == 1:
        m, c = t.args[0]
        out = num(1 / c)
        for a, e in m:
            out = mul(out, power(inv(a), e))
        return out
    if t.op == 'poly':
        r = lifted(t, inv)
        if r is not None:
            return r
    if t.op == 'app':
        f = t.args[0]
        if f == 'inv':
            return t.args[1]
        if f == 'ind':
            return t
        if f == 'exp':
            return mexp(neg(t.args[1]))
        if f == 'powr':
            return powr(t.args[1], neg(t.args[2]))
        if f == 'sqrt' and is_nonneg(t.args[1]):
            # 1/sqrt(x) = sqrt(x)/x
            return mul(t, inv(t.args[1]))
    if t.op == 'poly':
        g = _common(t)
        if g is not None:
            gt, rest = g
            return mul(inv(gt), inv(rest))
        c, u = content(t)
        return scale(_mk('app', ('inv', u), R), 1 / c)
    return _mk('app', ('inv', t), R)


def _common(t):
    """extract a common monomial factor."""
    it = iter(t.args)
    m0 = dict(next(it)[0])
    for m, c in it:
        md = dict(m)
        for a in list(m0):
            e = min(m0[a], md.get(a, 0))
            if e == 0:
                del m0[a]
            else:
                m0[a] = e
        if not m0:
            return None
    # do not pull out indicators (idempotent, not a real factor)
    m0 = {a: e for a, e in m0.items() if not (a.op == 'app' and a.args[0] in ('ind',))}
    if not m0:
        return None
    g = tuple(sorted(m0.items(), key=lambda ae: ae[0].id))
    rest = {}
    for m, c in t.args:
        md = dict(m)
        for a, e in m0.items():
            md[a] -= e
            if md[a] == 0:
                del md[a]
        rest[tuple(sorted(md.items(), key=lambda ae: ae[0].id))] = c
    return from_poly({g: Fraction(1)}), from_poly(rest)


def div(a, b):
    return mul(a, inv(b))


# ------------------------------------------------------------------- functions
def app(f, *args, sort=R):
    return _mk('app', (f,) + args, sort)


def sqrt(t):
    if t.op == 'poly' or t.op == 'app' and t.args[0] == 'ind':
        r = lifted(t, sqrt)
        if r is not None:
            return r
    if t.op == 'num':
        v = t.args[0]
        if v >= 0:
            a = _isqrt(v.numerator)
            b = _isqrt(v.denominator)
            if a is not None and b is not None:
                return num(Fraction(a, b))
    c, u = content(t)
    if c > 0 and c != 1:
        a = _isqrt(c.numerator)
        b = _isqrt(c.denominator)
        if a is not None and b is not None:
            if u is ONE:
                return num(Fraction(a, b))
            return scale(sqrt(u), Fraction(a, b))
        if u is not ONE:
            return mul(sqrt(num(c)), sqrt(u))
    if t.op == 'poly' and len(t.args) == 1:
        # pull out even powers of non-negative atoms
        m, c = t.args[0]
        out = ONE
        rest = {}
        for a, e in m:
            if e >= 2 and is_nonneg(a):
                out = mul(out, power(a, e // 2))
                e = e % 2
            elif e >= 2 and e % 2 == 0:
                out = mul(out, power(mabs(a), e // 2))
                e = 0
            if e:
                rest[a] = e
        if out is not ONE:
            r = from_poly({tuple(sorted(rest.items(), key=lambda ae: ae[0].id)): Fraction(c)})
            return mul(out, sqrt(r))
        if len(m) > 1 and all(is_nonneg(a) for a, e in m):
            out = sqrt(num(c)) if c != 1 else ONE
            for a, e in m:
                out = mul(out, power(sqrt(a), e))
            return out
    if t.op == 'app' and t.args[0] == 'inv' and is_nonneg(t.args[1]):
        return mul(sqrt(t.args[1]), t)
    return app('sqrt', t)


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def mabs(t):
    if t.op == 'poly' or t.op == 'app' and t.args[0] == 'ind':
        r = lifted(t, mabs)
        if r is not None:
            return r
    if t.op == 'num':
        return num(abs(t.args[0]))
    c, u = content(t)
    if is_nonneg(u):
        return scale(u, abs(c))
    if is_nonneg(neg(u)):
        return scale(u, -abs(c))
    if u.op == 'poly' and len(u.args) == 1:
        out = num(abs(c))
        for a, e in u.args[0][0]:
            if e % 2 == 0:
                out = mul(out, power(a, e))
            else:
                out = mul(out, power(mabs(a), 1), power(a, e - 1))
        return out
    return scale(app('abs', u, sort=u.sort), abs(c))


def mexp(t):
    if t.op == 'poly' or t.op == 'app' and t.args[0] == 'ind':
        r = lifted(t, mexp)
        if r is not None:
            return r
    if t is ZERO:
        return ONE
    return app('exp', t)


def _ctxlead(t):
    if t.op == 'poly':
        return t.args[0][1]
    if t.op == 'num':
        return t.args[0]
    return 1


def cos(t):
    if t.op == 'poly' or t.op == 'app' and t.args[0] == 'ind':
        r = lifted(t, cos)
        if r is not None:
            return r
    if t is ZERO:
        return ONE
    if _ctxlead(t) < 0:
        t = neg(t)
    return app('cos', t)


def sin(t):
    if t.op == 'poly' or t.op == 'app' and t.args[0] == 'ind':
        r = lifted(t, sin)
        if r is not None:
            return r
    if t is ZERO:
        return ZERO
    if _ctxlead(t) < 0:
        return neg(app('sin', neg(t)))
    return app('sin', t)


def powr(b, e):
    """b ** e for real exponent (b > 0 assumed by the caller's NaN flag)."""
    if e.op == 'num':
        v = e.args[0]
        if v.denominator == 1 and abs(v) <= 12:
            return power(b, int(v))
        if v.denominator == 2 and abs(v) <= 12:
            k = v.numerator
            return power(sqrt(b), k) if k > 0 else inv(power(sqrt(b), -k))
    if b is ONE:
        return ONE
    return app('powr', b, e)


def log(t):
    if t.op == 'poly' or t.op == 'app' and t.args[0] == 'ind':
        r = lifted(t, log)
        if r is not None:
            return r
    if t is ONE:
        return ZERO
    if t.op == 'app' and t.args[0] == 'exp':
        return t.args[1]
    return app('log', t)


def log10(t):
    if t.op == 'poly' or t.op == 'app' and t.args[0] == 'ind':
        r = lifted(t, log10)
        if r is not None:
            return r
    if t.op == 'num':
        v = t.args[0]
        k = 0
        if v > 0:
            while v >= 10 and v.numerator % 10 == 0:
                v /= 10
                k += 1
            if v == 1:
                return num(k)
    return app('log10', t)


# --------------------------------------------------------------------- Booleans
_bnot_memo = {}


def bnot(c):
    r = _bnot_memo.get(c)
    if r is None:
        r = _bnot_memo[c] = _bnot(c)
    return r


def _bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'and':
        return bor(*[bnot(x) for x in c.args])
    if c.op == 'or':
        return band(*[bnot(x) for x in c.args])
    return _mk('not', (c,), B)


_band_memo = {}


def band(*cs):
    key = frozenset(cs)
    r = _band_memo.get(key)
    if r is None:
        r = _band(key)
        _band_memo[key] = r
    return r


def _band(cs):
    out = set()
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == 'and':
            out.update(c.args)
        else:
            out.add(c)
    for c in out:
        if c.op == 'not' and c.args[0] in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) > 1:
        # absorption / simplification by contained disjunctions
        out2 = set()
        for c in out:
            if c.op == 'or':
                ds = [d for d in c.args if bnot(d) not in out]
                if any(d in out for d in ds):
                    continue
                c = bor(*ds)
                if c is FALSE:
                    return FALSE
            if c.op == 'and':
                out2.update(c.args)
            else:
                out2.add(c)
        out = out2
    if len(out) == 1:
        return next(iter(out))
    if not out:
        return TRUE
    srt = tuple(sorted(out, key=lambda t: t.id))
    if len(srt) <= 8:
        for a, b in itertools.combinations(srt, 2):
            if _conflict(a, b):
                return FALSE
    return _mk('and', srt, B)


_bor_memo = {}


def bor(*cs):
    key = frozenset(cs)
    r = _bor_memo.get(key)
    if r is None:
        r = _bor(key)
        _bor_memo[key] = r
    return r


def _bor(cs):
    out = set()
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == 'or':
            out.update(c.args)
        else:
            out.add(c)
    for c in out:
        if c.op == 'not' and c.args[0] in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) > 1:
        out2 = set()
        for c in out:
            if c.op == 'and':
                ds = [d for d in c.args if bnot(d) not in out]
                if any(d in out for d in ds):
                    continue
                c = band(*ds)
                if c is TRUE:
                    return TRUE
            if c.op == 'or':
                out2.update(c.args)
            else:
                out2.add(c)
        out = out2
    if len(out) == 1:
        return next(iter(out))
    if not out:
        return FALSE
    return _mk('or', tuple(sorted(out, key=lambda t: t.id)), B)


def implies(a, b):
    return bor(bnot(a), b)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def _posnorm(t):
    """divide by a positive rational so the coefficients are coprime integers."""
    p = poly_of(t)
    from math import gcd
    g = 0
    l = 1
    for m, c in p.items():
        g = gcd(g, c.numerator)
        l = l * c.denominator // gcd(l, c.denominator)
    if g == 0:
        return t
    return scale(t, Fraction(l, g))


def lt0(t):
    """t < 0"""
    if t.op == 'num':
        return TRUE if t.args[0] < 0 else FALSE
    if is_nonneg(t):
        return FALSE
    if t.op == 'poly':
        ps = pieces(t)
        if ps is not None:
            return bor(*[band(g, lt0(q)) for g, q in ps])
    if t.sort == I:
        p = poly_of(t)
        ks = [m for m in p if m != ()]
        if len(ks) == 1 and len(ks[0]) == 1 and ks[0][0][1] == 1 and ks[0][0][0].op == 'sum' and _is_count(ks[0][0][0]):
            # count - 1 < 0  <=>  count == 0;   -count < 0  <=>  count != 0
            c0, c1 = p.get((), Fraction(0)), p[ks[0]]
            if c1 > 0 and -c1 <= c0 < 0:
                return eq0(ks[0][0][0])
            if c1 < 0 and c0 == 0:
                return bnot(eq0(ks[0][0][0]))
        if len(p) >= 2:
            # count - size < 0  <=>  not all;   size - count - 1 < 0  <=>  all
            r = _full_count(p)
            if r is not None:
                return FALSE if r[0] > 0 else bnot(_all_cond(r))
            q = dict(p)
            q[()] = q.get((), Fraction(0)) + 1
            if not q[()]:
                del q[()]
            r = _full_count(q)
            if r is not None and r[0] > 0:
                return _all_cond(r)
        # integer tightening:  sum c_i m_i + k < 0   with gcd g of c_i
        from math import gcd
        g = 0
        k = p.get((), Fraction(0))
        for m, c in p.items():
            if m != ():
                g = gcd(g, c.numerator)
        if g > 1:
            # sum (c_i/g) m_i < -k/g  <=> ... <= ceil(-k/g)-1
            import math
            q = math.ceil(-k / g) - 1
            r = {m: c / g for m, c in p.items() if m != ()}
            r[()] = Fraction(-q - 1)
            t = from_poly(r)
        lead = [c for m, c in t.args if m != ()][0] if t.op == 'poly' else 1
        if lead < 0:
            return bnot(_mk('lt0', (sub(neg(t), ONE),), B))
        return _mk('lt0', (t,), B)
    t = _posnorm(t)
    if is_nonneg(neg(t)):
        return bnot(eq0(t))
    return _mk('lt0', (t,), B)


def le0(t):
    return bnot(lt0(neg(t)))


def eq0(t):
    if t.op == 'num':
        return TRUE if t.args[0] == 0 else FALSE
    if is_nonzero(t):
        return FALSE
    if t in _zeros:
        return TRUE
    if t.op == 'poly':
        ps = pieces(t)
        if ps is not None:
            return bor(*[band(g, eq0(q)) for g, q in ps])
    t = _posnorm(t)
    lead = t.args[0][1] if t.op == 'poly' else 1
    if lead < 0:
        t = neg(t)
    if t in _zeros:
        return TRUE
    if t.op == 'app' and t.args[0] == 'ind':
        return bnot(t.args[1])
    if t.op == 'poly' and t.sort == I:
        k = dict(t.args).get((), Fraction(0))
        from math import gcd
        g = 0
        for m, c in t.args:
            if m != ():
                g = gcd(g, c.numerator)
        if g > 1 and k % g != 0:
            return FALSE
    if t.op == 'poly' and t.sort == I and len(t.args) == 2:
        d = dict(t.args)
        k = d.pop((), None)
        (m, c), = d.items() if len(d) == 1 else [((), 0)]
        if k is not None and len(m) >= 2 and c in (1, -1) and k == -c:
            # a product of positive integers is 1 iff every factor is
            h = _entails_hook[0]
            if all(is_nonneg(a) or (h and h(le(ZERO, a))) for a, e in m):
                return band(*[eq0(sub(a, ONE)) for a, e in m])
    if t.op == 'poly' and t.sort == I and len(t.args) >= 2:
        r = _full_count(dict(t.args))
        if r is not None:
            return _all_cond(r)
    if t.op == 'poly' and len(t.args) == 1:
        m, c = t.args[0]
        if len(m) == 1:
            return eq0(m[0][0])
        return bor(*[eq0(a) for a, e in m])
    if t.op == 'app' and t.args[0] == 'inv':
        return eq0(t.args[1])
    if t.op == 'sum' and t.args[0] is ZERO and t.args[2].op == 'app' and t.args[2].args[0] == 'ind':
        # a count is zero iff nothing satisfies the condition
        lo, hi, body, b = t.args
        return bnot(mk_any((b,), (hi,), body.args[1]))
    if t.op == 'sum' and t.args[0] is ZERO and t.args[2].op == 'sum' and _is_count(t.args[2]):
        lo, hi, body, b = t.args
        return bnot(mk_any((b,), (hi,), bnot(eq0(body))))
    if t.op == 'app' and t.args[0] == 'abs':
        return eq0(t.args[1])
    return _mk('eq0', (t,), B)


def _full_count(p):
    """p (a poly dict) == s*(size - count): (s, binders, dims, condition) or None"""
    cs = [(m, c) for m, c in p.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum' and c in (1, -1) and _is_count(m[0][0])]
    for m, c in cs:
        x = m[0][0]
        vs, ds = [], []
        while x.op == 'sum':
            vs.append(x.args[3])
            ds.append(x.args[1])
            x = x.args[2]
        if any(v in fv(d) for v in vs for d in ds):
            continue
        size = ONE
        for d in ds:
            size = mul(size, d)
        rest = {k: v for k, v in p.items() if k != m}
        if poly_of(scale(size, -c)) == rest:
            h = _entails_hook[0]
            if all(d.op == 'num' or (h and h(le(ZERO, d))) for d in ds):
                return -c, vs, ds, x.args[1]
    return None


def _all_cond(r):
    _, vs, ds, c = r
    return bnot(mk_any(vs, ds, bnot(c)))


def _is_count(x):
    while x.op == 'sum' and x.args[0] is ZERO:
        x = x.args[2]
    return x.op == 'app' and x.args[0] == 'ind'


def mk_any(vs, dims, body):
    '''exists vs in [0, dims): body   (canonical)'''
    if body is FALSE:
        return FALSE
    fb = fv(body)
    if EQS:
        dims = tuple(eqvar(d) for d in dims)
    dep = [(v, d) for v, d in zip(vs, dims) if v in fb]
    g = []
    for v, d in zip(vs, dims):
        if v not in fb:
            c = lt(ZERO, d)
            h = _entails_hook[0]
            if c is not TRUE and not (h and h(c)):
                g.append(c)
    if not dep:
        return band(body, *g)
    vs = tuple(v for v, _ in dep)
    dims = tuple(d for _, d in dep)
    if len(dep) == 1 and dims[0].op == 'num' and dims[0].args[0] <= 6:
        return band(*g, bor(*[subst(body, {vs[0]: num(i)}) for i in range(int(dims[0].args[0]))]))
    for v, d in dep:
        sp = split_flat(v, d, body) if d.op == 'poly' else None
        if sp:
            v1, a, v2, b, b2 = sp
            nv, nd = [], []
            for x, e in dep:
                nv += [v1, v2] if x is v else [x]
                nd += [a, b] if x is v else [e]
            return band(*g, mk_any(nv, nd, b2))
        if d is ONE:
            return band(*g, mk_any([x for x, _ in dep if x is not v], [e for x, e in dep if x is not v], subst(body, {v: ZERO})))
    n = bdd_of(body)
    if n == 0:
        return FALSE
    if _care[0] != 1:
        n = _elim_any(n, _care[0])
    body = bdd_term(n)
    if body.op == 'and':
        free = [c for c in body.args if not any(v in fv(c) for v in vs)]
        rest = [c for c in body.args if c not in free]
        if free:
            return band(*g, *free, mk_any(vs, dims, band(*rest)))
    if body.op == 'or':
        return band(*g, bor(*[mk_any(vs, dims, c) for c in body.args]))
    if body.op == 'red' and body.args[0] == 'any':
        bs2 = body.args[-1]
        k = len(bs2)
        d2 = body.args[1:1 + k]
        if not any(v in fv(x) for v in vs for x in d2):
            return band(*g, red('any', dims + tuple(d2), [(vs + tuple(bs2), body.args[1 + k])], sort=B))
    return band(*g, red('any', dims, [(vs, body)], sort=B))


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def eq(a, b):
    return eq0(sub(a, b))


def bvar(name):
    return var(name, B)


def bapp(f, *args):
    return _mk('app', (f,) + args, B)


def ind(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    n = bdd_of(c)
    if _care[0] != 1:
        n = bdd_care(n, _care[0])
        if n > 1:
            n = _elim_any(n, _care[0])
    if n == 1:
        return ONE
    if n == 0 or bdd_conflict(n):
        return ZERO
    return _ind_atom(n)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == B:
        return bite(c, a, b)
    i = ind(c)
    return add(b, mul(i, sub(a, b)))


def tmin(a, b):
    if a is b:
        return a
    return ite(le(a, b), a, b)


def tmax(a, b):
    if a is b:
        return a
    return ite(le(a, b), b, a)


# ------------------------------------------------------------- integer division
_entails_hook = [None]


def idiv(a, b):
    """floor division of integers, b > 0 (callers guarantee)"""
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] // b.args[0])
    if b is ONE:
        return a
    q, r = _divsplit(a, b)
    if q is not None:
        return q
    return app('idiv', a, b, sort=I)


def imod(a, b):
    if a.op == 'num' and b.op == 'num':
        return num(a.args[0] % b.args[0])
    if b is ONE:
        return ZERO
    q, r = _divsplit(a, b)
    if q is not None:
        return r
    return app('imod', a, b, sort=I)


def _divsplit(a, b):
    """a = q*b + r with 0<=r<b known -> (q,r)"""
    h = _entails_hook[0]
    pa = poly_of(a)
    bm = poly_of(b)
    if len(bm) == 1:
        (mb, cb), = bm.items()
        q = {}
        r = {}
        dmb = dict(mb)
        for m, c in pa.items():
            dm = dict(m)
            ok = True
            for x, e in dmb.items():
                if dm.get(x, 0) < e:
                    ok = False
            if ok and (c / cb).denominator == 1:
                for x, e in dmb.items():
                    dm[x] -= e
                    if not dm[x]:
                        del dm[x]
                q[tuple(sorted(dm.items(), key=lambda ae: ae[0].id))] = c / cb
            elif ok and mb == () and cb != 0:
                # constant divisor: split the coefficient
                qq = c // cb
                if qq:
                    q[m] = qq
                rr = c - qq * cb
                if rr:
                    r[m] = rr
            else:
                r[m] = c
        qt = from_poly(q)
        rt = from_poly(r)
    else:
        qt = ZERO
        rt = a
    if rt is ZERO:
        return qt, rt
    if h is not None and h(band(le(ZERO, rt), lt(rt, b))):
        return qt, rt
    # try quotient +-1
    if h is not None and qt is not ZERO or h is not None:
        for k in (1, -1):
            r2 = sub(rt, scale(b, k))
            if h(band(le(ZERO, r2), lt(r2, b))):
                return add(qt, num(k)), r2
    return None, None


def floor(t):
    """floor of a real term -> Int"""
    if t.sort == I:
        return t
    if t.op == 'num':
        import math
        return num(math.floor(t.args[0]))
    # split integer part
    p = poly_of(t)
    ip = {}
    rp = {}
    for m, c in p.items():
        if all(a.sort == I for a, e in m):
            if c.denominator == 1:
                ip[m] = c
                continue
            if m == ():
                import math
                f = math.floor(c)
                if f:
                    ip[m] = Fraction(f)
                if c - f:
                    rp[m] = c - f
                continue
        rp[m] = c
    it = from_poly(ip)
    rt = from_poly(rp)
    if rt is ZERO:
        return it
    # rational-coefficient integer polynomial -> integer division
    pr = poly_of(rt)
    if all(a.sort == I for m in pr for a, e in m):
        l = 1
        from math import gcd
        for c in pr.values():
            l = l * c.denominator // gcd(l, c.denominator)
        return add(it, idiv(scale(rt, l), num(l)))
    return add(it, app('floor', rt, sort=I))


# ------------------------------------------------------------------------- sums
def fv(t):
    """free variables (frozenset of var terms)"""
    if t._fv is not None:
        return t._fv
    if t.op == 'var':
        r = frozenset([t])
    elif t.op in ('num', 'true', 'false'):
        r = frozenset()
    elif t.op == 'poly':
        s = set()
        for m, c in t.args:
            for a, e in m:
                s |= fv(a)
        r = frozenset(s)
    elif t.op in ('sum', 'red', 'forall'):
        s = set()
        for a in t.args:
            if isinstance(a, T):
                s |= fv(a)
        r = frozenset(x for x in s if not x.args[0].startswith('$b') or x not in bound_of(t))
    else:
        s = set()
        for a in t.args:
            if isinstance(a, T):
                s |= fv(a)
        r = frozenset(s)
    t._fv = r
    return r


def bound_of(t):
    if t.op == 'sum':
        return (t.args[3],)
    if t.op == 'red':
        return t.args[-1]
    if t.op == 'forall':
        return t.args[-1]
    return ()


def depth(t):
    """binder depth"""
    if t._dep is not None:
        return t._dep
    d = 0
    if t.op == 'poly':
        for m, c in t.args:
            for a, e in m:
                d = max(d, depth(a))
    elif t.op in ('sum', 'red', 'forall'):
        for a in t.args:
            if isinstance(a, T):
                d = max(d, depth(a))
        for b in bound_of(t):
            d = max(d, int(b.args[0][2:]))
    else:
        for a in t.args:
            if isinstance(a, T):
                d = max(d, depth(a))
    t._dep = d
    return d


def bv(n, sort=I):
    return var('$b%d' % n, sort)


def sum_(lo, hi, f):
    """sum_{k=lo}^{hi-1} f(k)"""
    v = var('$k%d' % next(_fresh), I)
    body = f(v)
    return mk_sum(lo, hi, v, body)


def eqvar(d):
    while d in EQS:
        d = EQS[d]
    return d


def learn_eq(p):
    '''p == 0 (integer): resolve a variable'''
    q = poly_of(p)
    if p.sort != I or len(q) > 2 or any(len(m) > 1 or (m and (m[0][1] != 1 or m[0][0].op != 'var')) for m in q):
        return
    vs = sorted((m[0][0] for m in q if m), key=lambda a: a.id)
    if not vs or vs[-1].args[0].startswith('$'):
        return
    v = vs[-1]
    c = q[((v, 1),)]
    if abs(c) != 1:
        return
    EQS[v] = scale(sub(p, scale(v, c)), -1 / c)


def split_flat(v, d, body):
    '''v ranges over a flattened index [0, a*b) and body uses it only through
    v // b and v % b: -> ((v1, a), (v2, b), body')'''
    if d.op != 'poly' or len(d.args) != 1 or d.args[0][1] != 1 or v not in fv(body):
        return None
    m = d.args[0][0]
    for a, e in m:
        b = a
        q = _mk('app', ('idiv', v, b), I)
        r = _mk('app', ('imod', v, b), I)
        rest = from_poly({tuple((x, k - (x is b)) for x, k in m if k - (x is b)): Fraction(1)})
        v1, v2 = var('$k%d' % next(_fresh), I), var('$k%d' % next(_fresh), I)
        b2 = subst(body, {q: v1, r: v2})
        if v not in fv(b2):
            return v1, rest, v2, b, b2
    return None


def mk_sum(lo, hi, v, body):
    if EQS:
        lo, hi = eqvar(lo), eqvar(hi)
    if lo is not ZERO and not (lo.op == 'num' and hi.op == 'num'):
        # sums start at zero
        v2 = var('$k%d' % next(_fresh), I)
        return mk_sum(ZERO, sub(hi, lo), v2, subst(body, {v: add(v2, lo)}))
    if lo is ZERO and hi.op == 'poly':
        sp = split_flat(v, hi, body)
        if sp:
            v1, a, v2, b, b2 = sp
            return mk_sum(ZERO, a, v1, mk_sum(ZERO, b, v2, b2))
    if body is ZERO:
        return ZERO
    if lo.op == 'num' and hi.op == 'num' and hi.args[0] - lo.args[0] <= 4:
        out = ZERO
        for k in range(int(lo.args[0]), int(hi.args[0])):
            out = add(out, subst(body, {v: num(k)}))
        return out
    if v not in fv(body):
        n = sub(hi, lo)
        h = _entails_hook[0]
        if is_nonneg(n) or (h and h(le(ZERO, n))):
            return mul(n, body)
        return mul(tmax(n, ZERO), body)
    out = []
    rest = {}
    for m, c in poly_of(body).items():
        free = []
        dep = []
        m, g = _guard_split(m)
        gfree, gdep = [], []
        if g != 1:
            gt = bdd_term(g)
            for x in (gt.args if gt.op == 'and' else (gt,)):
                (gdep if v in fv(x) else gfree).append(x)
        for a, e in m:
            (dep if v in fv(a) else free).append((a, e))
        # Kronecker delta:  ind(k == t) with t free of k
        kron = None
        for x in gdep:
            if x.op == 'eq0':
                s = _solve(x.args[0], v)
                if s is not None:
                    kron = (x, s)
                    break
        ft = from_poly({tuple(free): c})
        if gfree:
            ft = mul(ft, ind(band(*gfree)))
        # the first / last index excluded
        cut = None
        if not kron and lo is ZERO:
            for x in gdep:
                if x.op == 'not' and x.args[0].op == 'eq0':
                    s = _solve(x.args[0].args[0], v)
                    if s is ZERO or s is not None and s is sub(hi, ONE):
                        cut = (x, s)
                        break
        if cut:
            x, s = cut
            g = from_poly({tuple(dep): Fraction(1)})
            if len(gdep) > 1:
                g = mul(g, ind(band(*[y for y in gdep if y is not x])))
            if s is ZERO:
                v2 = var('$k%d' % next(_fresh), I)
                out.append(mul(ft, mk_sum(ZERO, sub(hi, ONE), v2, subst(g, {v: add(v2, ONE)}))))
            else:
                out.append(mul(ft, mk_sum(ZERO, sub(hi, ONE), v, g)))
            continue
        if kron:
            x, s = kron
            g = from_poly({tuple(dep): Fraction(1)})
            if len(gdep) > 1:
                g = mul(g, ind(band(*[y for y in gdep if y is not x])))
            g = subst(g, {v: s})
            out.append(mul(ft, ind(band(le(lo, s), lt(s, hi))), g))
            continue
        if gdep:
            gi = ind(band(*gdep))
            d = mul(from_poly({tuple(dep): Fraction(1)}), gi)
            if d.op == 'poly' and len(d.args) > 1 or d is ZERO:
                out.append(mul(ft, mk_sum(lo, hi, v, d)))
            else:
                out.append(mul(ft, _sum_atom(lo, hi, v, d)))
            continue
        if not dep:
            n = sub(hi, lo)
            h = _entails_hook[0]
            if is_nonneg(n) or (h and h(le(ZERO, n))):
                out.append(mul(ft, n))
            else:
                out.append(mul(ft, tmax(n, ZERO)))
            continue
        d = from_poly({tuple(dep): Fraction(1)})
        out.append(mul(ft, _sum_atom(lo, hi, v, d)))
    return add(*out) if out else ZERO


def _solve(p, v):
    """p == 0 linear in v with coefficient +-1 -> value of v"""
    q = poly_of(p)
    c = None
    rest = {}
    for m, k in q.items():
        if m == ((v, 1),):
            c = k
        else:
            for a, e in m:
                if v in fv(a):
                    return None
            rest[m] = k
    if c is None:
        return None
    s = scale(from_poly(rest), -1 / c)
    if s.sort != I:
        return None
    return s


def _sum_atom(lo, hi, v, d):
    b = levels_for((lo, hi, d), (v,))[0]
    if b is not v:
        d = subst(d, {v: b})
    srt = I if d.sort == I else R
    if d.op == 'poly' and not (len(d.args) == 1 and d.args[0][1] == 1):
        # renaming may flip the canonical sign of sin(): pull the coefficient out again
        out = []
        for m, c in d.args:
            x = from_poly({m: Fraction(1)})
            out.append(scale(_mk('sum', (lo, hi, x, b), I if x.sort == I else R), c))
        return add(*out)
    return _mk('sum', (lo, hi, d, b), srt)


def levels_for(ts, own):
    '''binder variables for a binder over ts: above every inner binder and different
    from every free bound-variable name'''
    dep = max(depth(a) for a in ts)
    free = fvs(ts) - set(own)
    n = dep + 1
    k = len(own)
    while any(bv(n + j) in free for j in range(k)):
        n += 1
    return tuple(bv(n + j) for j in range(k))


def red(op, n_args, arrs, params=(), sort=R):
    """opaque reduction over arrays: op(name), shape terms, function bodies.
    arrs: list of (vars, body terms).  Canonical binder names."""
    shapes = tuple(n_args)
    nd = len(shapes)
    bodies = []
    dep = 0
    ts = list(shapes) + list(params) + [body for vs, body in arrs]
    dep = max([depth(a) for a in ts] + [0])
    free = fvs(shapes) | fvs(params)
    for vs, body in arrs:
        free |= fv(body) - set(vs)
    while any(bv(dep + 1 + j) in free for j in range(nd)):
        dep += 1
    bs = tuple(bv(dep + 1 + j) for j in range(nd))
    for vs, body in arrs:
        bodies.append(subst(body, dict(zip(vs, bs))))
    return _mk('red', (op,) + shapes + tuple(bodies) + tuple(params) + (bs,), sort)


# ----------------------------------------------------------------- substitution
def subst(t, m):
    """simultaneous substitution of variables (or arbitrary terms) by terms"""
    return _subst(t, m, {}, frozenset(m))


def _subst(t, m, memo, keys):
    if t in m:
        return m[t]
    if t.op in ('num', 'true', 'false', 'var'):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if all(k.op == 'var' for k in keys) and not (fv(t) & keys):
        return t
    av = memo.get(0)
    if av is None:
        av = memo[0] = keys | fvs(m.values())
    r = rebuild(t, lambda x: _subst(x, m, memo, keys), av)
    memo[t] = r
    return r


def _lev(b):
    return int(b.args[0][2:])


def fvs(ts):
    out = set()
    for x in ts:
        out |= fv(x)
    return out


def rebuild(t, f, avoid=frozenset()):
    """rebuild t with f applied to its immediate sub-terms (atoms of polynomials);
    avoid: the variables that f replaces or may introduce (capture avoidance)"""
    op = t.op
    if op == 'poly':
        out = []
        for m, c in t.args:
            x = num(c)
            for a, e in m:
                x = mul(x, power(f(a), e))
            out.append(x)
        return add(*out)
    if op == 'app':
        fn = t.args[0]
        args = [f(a) if isinstance(a, T) else a for a in t.args[1:]]
        return mkapp(fn, args, t.sort)
    if op == 'sum':
        lo, hi, body, b = t.args
        if b not in avoid:
            body2 = f(body)
            if depth(body2) < _lev(b):
                return mk_sum(f(lo), f(hi), b, body2)
        v = var('$k%d' % next(_fresh), I)
        body2 = subst(body, {b: v})
        return mk_sum(f(lo), f(hi), v, f(body2))
    if op == 'red':
        name = t.args[0]
        bs = t.args[-1]
        rest = t.args[1:-1]
        vs = bs
        new = None
        if not any(b in avoid for b in bs):
            new = [f(a) for a in rest]
            if any(depth(a) >= _lev(bs[0]) for a in new):
                new = None
        if new is None:
            vs = tuple(var('$k%d' % next(_fresh), I) for _ in bs)
            ren = dict(zip(bs, vs))
            new = [f(subst(a, ren) if (fv(a) & set(bs)) else a) for a in rest]
        if name == 'any' and len(new) == len(vs) + 1:
            return mk_any(vs, tuple(new[:-1]), new[-1])
        nb = levels_for(new, vs)
        if nb != vs:
            back = dict(zip(vs, nb))
            new = [subst(a, back) for a in new]
        return _mk('red', (name,) + tuple(new) + (nb,), t.sort)
    if op == 'not':
        return bnot(f(t.args[0]))
    if op == 'and':
        return band(*[f(a) for a in t.args])
    if op == 'or':
        return bor(*[f(a) for a in t.args])
    if op == 'lt0':
        return lt0(f(t.args[0]))
    if op == 'eq0':
        return eq0(f(t.args[0]))
    if op == 'forall':
        raise NotImplementedError
    return t


def fv0(t):
    return fv(t)


def mkapp(fn, args, sort):
    if fn == 'ind':
        return ind(args[0])
    if fn == 'inv':
        return inv(args[0])
    if fn == 'sqrt':
        return sqrt(args[0])
    if fn == 'abs':
        return mabs(args[0])
    if fn == 'exp':
        return mexp(args[0])
    if fn == 'cos':
        return cos(args[0])
    if fn == 'sin':
        return sin(args[0])
    if fn == 'powr':
        return powr(args[0], args[1])
    if fn == 'log':
        return log(args[0])
    if fn == 'log10':
        return log10(args[0])
    if fn == 'idiv':
        return idiv(*args)
    if fn == 'imod':
        return imod(*args)
    if fn == 'floor':
        return floor(args[0])
    if fn == 'rint' and args[0].sort == I:
        return args[0]
    if fn == 'rint' and args[0].op == 'num':
        return num(round(args[0].args[0]))
    if fn in _special:
        return _special[fn](*args)
    return _mk('app', (fn,) + tuple(args), sort)


_special = {}


def atoms(t, acc=None, seen=None):
    """all sub-terms (not under binders renamed; binder bodies included)"""
    if acc is None:
        acc = []
        seen = set()
    if t in seen:
        return acc
    seen.add(t)
    acc.append(t)
    if t.op == 'poly':
        for m, c in t.args:
            for a, e in m:
                atoms(a, acc, seen)
    else:
        for a in t.args:
            if isinstance(a, T):
                atoms(a, acc, seen)
    return acc


_sh = {}


def shash(t):
    '''structural fingerprint, independent of term numbering'''
    r = _sh.get(t)
    if r is not None:
        return r
    import zlib
    if t.op == 'poly':
        parts = sorted('%s:%s' % (c, sorted((shash(a), e) for a, e in m)) for m, c in t.args)
    elif t.op in ('and', 'or'):
        parts = sorted(shash(a) for a in t.args)
    else:
        parts = [shash(a) if isinstance(a, T) else [shash(x) for x in a] if isinstance(a, tuple) else str(a) for a in t.args]
    r = zlib.crc32(repr((t.op, parts)).encode())
    _sh[t] = r
    return r


def show(t, d=0):
    op = t.op
    if d > 12:
        return '...'
    if op == 'num':
        return str(t.args[0])
    if op == 'var':
        return t.args[0]
    if op == 'true' or op == 'false':
        return op
    if op == 'poly':
        out = []
        for m, c in t.args:
            s = '*'.join(show(a, d + 1) + ('^%d' % e if e != 1 else '') for a, e in m)
            if not m:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = str(c) + '*' + s
            out.append(s)
        return '(' + ' + '.join(out) + ')'
    if op == 'app':
        return t.args[0] + '(' + ', '.join(show(a, d + 1) if isinstance(a, T) else str(a) for a in t.args[1:]) + ')'
    if op == 'sum':
        lo, hi, body, b = t.args
        return 'SUM[%s=%s..%s](%s)' % (b.args[0], show(lo, d + 1), show(hi, d + 1), show(body, d + 1))
    if op == 'red':
        return 'RED:%s(%s)' % (t.args[0], '; '.join(show(a, d + 1) for a in t.args[1:-1]))
    if op == 'lt0':
        return '%s<0' % show(t.args[0], d + 1)
    if op == 'eq0':
        return '%s==0' % show(t.args[0], d + 1)
    if op == 'not':
        return '!(%s)' % show(t.args[0], d + 1)
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(show(a, d + 1) for a in t.args) + ')'
    return op + str(t.args)
