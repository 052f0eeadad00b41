"""Discharging of obligations: ring normaliser, z3, cvc5 (SMT-LIB)."""
import time
import z3
from fractions import Fraction
from . import terms as t
from .terms import T

TIMEOUT_MS = 8000
FEAS_MS = 1500


class Facts:
    """Instantiable facts, part of the symbolic input description (preconditions)
    or produced by trusted contracts (argmax, max, ...)."""

    def __init__(self):
        self.by_fn = {}          # uninterpreted function name -> callable(*args)->[Bool]
        self.by_term = {}        # specific atom -> [Bool]
        self.quant = []          # (id, arity, callable(*ints)->[Bool]) instantiated on index terms
        self.global_ = []        # plain Bool terms

    def copy(self):
        f = Facts()
        f.by_fn = dict(self.by_fn)
        f.by_term = dict(self.by_term)
        f.quant = list(self.quant)
        f.global_ = list(self.global_)
        return f


class Trans:
    def __init__(self):
        self.cache = {}
        self.fns = {}
        self.seen_atoms = []

    def fn(self, name, argsorts, sort):
        key = (name, tuple(argsorts), sort)
        f = self.fns.get(key)
        if f is None:
            zs = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}
            f = z3.Function('%s_%d' % (name, len(self.fns)), *([zs[s] for s in argsorts] + [zs[sort]]))
            self.fns[key] = f
        return f

    def real(self, x):
        e = self.tr(x)
        if x.op == 'num':
            v = x.args[0]
            return z3.RealVal('%d/%d' % (v.numerator, v.denominator))
        if x.sort == 'I':
            return z3.ToReal(e)
        return e

    def tr(self, x):
        r = self.cache.get(x)
        if r is None:
            r = self._tr(x)
            self.cache[x] = r
        return r

    def _tr(self, x):
        op = x.op
        if op == 'num':
            v = x.args[0]
            if v.denominator == 1:
                return z3.IntVal(int(v))
            return z3.RealVal('%d/%d' % (v.numerator, v.denominator))
        if op == 'var':
            n = x.args[0]
            if x.sort == 'I':
                return z3.Int(n)
            if x.sort == 'R':
                return z3.Real(n)
            return z3.Bool(n)
        if op == 'poly':
            isint = x.sort == 'I'
            conv = self.tr if isint else self.real
            parts = []
            for m, c in x.args:
                fs = []
                if c != 1 or not m:
                    fs.append(z3.IntVal(int(c)) if isint else z3.RealVal('%d/%d' % (c.numerator, c.denominator)))
                for a, e in m:
                    for _ in range(e):
                        fs.append(conv(a))
                p = fs[0]
                for q in fs[1:]:
                    p = p * q
                parts.append(p)
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'not':
            return z3.Not(self.tr(x.args[0]))
        if op == 'and':
            return z3.And([self.tr(a) for a in x.args])
        if op == 'or':
            return z3.Or([self.tr(a) for a in x.args])
        if op in ('lt0', 'eq0'):
            # move to two sides to keep numbers readable
            p = self.tr(x.args[0])
            zero = z3.IntVal(0) if x.args[0].sort == 'I' else z3.RealVal(0)
            return p < zero if op == 'lt0' else p == zero
        if op == 'app':
            f = x.args[0]
            if f == 'ind':
                return z3.If(self.tr(x.args[1]), z3.IntVal(1), z3.IntVal(0))
            if f == 'abs':
                a = self.tr(x.args[1])
                return z3.If(a >= 0, a, -a)
            if f == 'idiv':
                return self.tr(x.args[1]) / self.tr(x.args[2])
            if f == 'imod':
                return self.tr(x.args[1]) % self.tr(x.args[2])
            if f == 'floor':
                return z3.ToInt(self.real(x.args[1]))
            args = [a for a in x.args[1:] if isinstance(a, T)]
            strs = [str(a) for a in x.args[1:] if not isinstance(a, T)]
            name = '_'.join([f] + strs)
            if f in ('inv', 'sqrt', 'cos', 'sin', 'exp', 'log', 'log10', 'powr', 'arctan2', 'rint'):
                return self.fn(name, ['R'] * len(args), x.sort)(*[self.real(a) for a in args])
            # uninterpreted: argument sorts by term sort; constants count as the
            # sort the function was first used with
            srt = []
            for i, a in enumerate(args):
                srt.append(a.sort)
            key = self.fns.get(('sig', name, len(args)))
            if key is None:
                key = list(srt)
                self.fns[('sig', name, len(args))] = key
            za = []
            for s, a in zip(key, args):
                if s == 'R':
                    za.append(self.real(a))
                elif s == 'I' and a.sort == 'R':
                    # widen signature
                    key2 = ['R' if (k == 'I' or k == 'R') else k for k in key]
                    self.fns[('sig', name, len(args))] = key2
                    return self._tr(x)
                else:
                    za.append(self.tr(a))
            f_ = self.fn(name, key, x.sort)
            return f_(*za) if za else f_()
        if op in ('sum', 'red'):
            nm = '%s!%d' % (op, x.id)
            return z3.Int(nm) if x.sort == 'I' else (z3.Bool(nm) if x.sort == 'B' else z3.Real(nm))
        raise NotImplementedError(op)


_rf = {}


def real_fns(x):
    """names of the numeric functions in a term (conditions apart)"""
    r = _rf.get(x)
    if r is None:
        out = set()
        todo, seen = [x], set()
        while todo:
            y = todo.pop()
            if y in seen or y.sort == 'B':
                continue
            seen.add(y)
            if y.op == 'app':
                if y.args[0] == 'ind':
                    continue
                out.add(y.args[0])
            elif y.op in ('sum', 'red') and y is not x:
                out.add(y.op)
            if y.op == 'poly':
                for m, c in y.args:
                    for z, e in m:
                        todo.append(z)
            else:
                for z in y.args:
                    if isinstance(z, t.T):
                        todo.append(z)
        r = _rf[x] = frozenset(out)
    return r


_io = {}


def index_only(c):
    """a statement about integer variables alone (no functions, sums or reductions)"""
    r = _io.get(c)
    if r is None:
        if c.op in ('and', 'or', 'not'):
            r = all(index_only(x) for x in c.args)
        elif c.op in ('lt0', 'eq0') and c.args[0].sort == 'I':
            r = all(a.op == 'var' or (a.op == 'app' and a.args[0] in ('idiv', 'imod') and a.args[2].op == 'num' and all(x.op == 'var' for m, k in t.poly_of(a.args[1]).items() for x, e in m))
                    for m, k in t.poly_of(c.args[0]).items() for a, e in m)
        else:
            r = c in (t.TRUE, t.FALSE)
        _io[c] = r
    return r


def relevant(hyps, c):
    """the hypotheses about integers that share variables (transitively) with c"""
    hs = [h for h in hyps if int_literal(h)]
    vs = set(t.fv(c))
    out, rest = [], hs
    while True:
        nxt = []
        for h in rest:
            if not vs.isdisjoint(t.fv(h)):
                out.append(h)
                vs |= t.fv(h)
            else:
                nxt.append(h)
        if len(nxt) == len(rest):
            return out
        rest = nxt


_il = {}


def int_literal(h):
    r = _il.get(h)
    if r is None:
        if h.op in ('and', 'or', 'not'):
            r = all(int_literal(x) for x in h.args)
        else:
            r = h.op in ('lt0', 'eq0') and h.args[0].sort == 'I' and not any(a.op in ('sum', 'red') for a in t.outer(h))
        _il[h] = r
    return r


def patterns(x):
    """applications in the body of a quantifier whose arguments include the bound variables bare"""
    bs = x.args[-1]
    nd = len(bs)
    out, todo, seen = [], [x.args[1 + nd]], set()
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.op == 'app' and isinstance(y.args[0], str) and y.args[0] not in ('ind', 'inv') and any(b in y.args[1:] for b in bs):
            out.append(y)
        if y.op == 'poly':
            for m, c in y.args:
                todo.extend(a for a, e in m)
        else:
            todo.extend(a for a in y.args if isinstance(a, t.T))
    return out


def tuples(x, cd, acc, nd):
    """instances worth considering for quantifier x"""
    import itertools
    if nd == 1:
        for c in cd:
            yield (c,)
        return
    bs = x.args[-1]
    done = set()
    pats = [p for p in patterns(x) if all(b in p.args[1:] for b in bs)]
    if not pats:
        if len(cd) ** nd <= 60:
            yield from itertools.product(cd, repeat=nd)
        return
    byname = {}
    for y in acc:
        if y.op == 'app':
            byname.setdefault(y.args[0], []).append(y)
    n = 0
    for p in pats:
        for y in byname.get(p.args[0], ()):
            if len(y.args) != len(p.args):
                continue
            tup = tuple(y.args[p.args.index(b)] for b in bs)
            if tup in done or any(v.args[0].startswith('$b') for c in tup for v in t.fv(c)):
                continue
            done.add(tup)
            n += 1
            if n > 60:
                return
            yield tup


def outer_atoms(x, acc, seen):
    """sub-terms not under a binder."""
    if x in seen:
        return
    seen.add(x)
    acc.append(x)
    if x.op == 'poly':
        for m, c in x.args:
            for a, e in m:
                outer_atoms(a, acc, seen)
    elif x.op in ('sum', 'red'):
        bs = set(t.bound_of(x))
        for a in x.args:
            if isinstance(a, T) and not (t.fv(a) & bs) and a not in bs:
                outer_atoms(a, acc, seen)
    else:
        for a in x.args:
            if isinstance(a, T):
                outer_atoms(a, acc, seen)


def axioms_for(x):
    """axiom instances of the interpreted-by-axiom functions"""
    out = []
    if x.op == 'app':
        f = x.args[0]
        if f == 'inv':
            a = x.args[1]
            out.append(('inv', a, x))
        elif f in ('sqrt', 'exp', 'cos', 'sin', 'log10', 'log', 'powr', 'arctan2', 'rint'):
            out.append((f, x))
    return out


class Result:
    def __init__(self, status, backend, secs, model=None, note=''):
        self.status = status      # 'proved' | 'refuted' | 'unknown'
        self.backend = backend
        self.secs = secs
        self.model = model
        self.note = note


def literal(h):
    '''a hypothesis about variables only (no sums, applications)'''
    if h.op == 'not':
        h = h.args[0]
    if h.op == 'var':
        return True
    if h.op not in ('lt0', 'eq0'):
        return False
    p = h.args[0]
    if p.op == 'var':
        return True
    return p.op == 'poly' and all(a.op == 'var' for m, c in p.args for a, e in m)


def renorm(x, memo=None):
    """rebuild bottom-up under the current known facts"""
    if memo is None:
        memo = {}
    r = memo.get(x)
    if r is not None:
        return r
    if x.op == 'var':
        return t.eqvar(x)
    if x.op in ('num', 'true', 'false'):
        return x
    r = t.rebuild(x, lambda y: renorm(y, memo))
    memo[x] = r
    return r


def expand_trig(x):
    """expand cos/sin of sums (angle addition) everywhere; sin^2 -> 1-cos^2"""
    memo = {}

    def ex(y):
        r = memo.get(y)
        if r is not None:
            return r
        if y.op in ('num', 'var', 'true', 'false'):
            r = y
        elif y.op == 'app' and y.args[0] in ('cos', 'sin'):
            a = ex(y.args[1])
            r = cs(a)[0 if y.args[0] == 'cos' else 1]
        elif y.op == 'poly':
            out = []
            for m, c in y.args:
                z = t.num(c)
                for a, e in m:
                    z = t.mul(z, t.power(ex(a), e))
                out.append(z)
            r = sin2(t.add(*out))
        else:
            r = t.rebuild(y, ex)
        memo[y] = r
        return r

    def sin2(p):
        q = t.poly_of(p)
        out = []
        ch = False
        for m, c in q.items():
            z = t.num(c)
            for a, e in m:
                if a.op == 'app' and a.args[0] == 'sin' and e >= 2:
                    ch = True
                    z = t.mul(z, t.power(t.sub(t.ONE, t.power(t.cos(a.args[1]), 2)), e // 2))
                    if e % 2:
                        z = t.mul(z, a)
                else:
                    z = t.mul(z, t.power(a, e))
            out.append(z)
        return sin2(t.add(*out)) if ch else p

    def cs(a):
        q = list(t.poly_of(a).items())
        if not q:
            return t.ONE, t.ZERO
        if len(q) > 6:
            return t.cos(a), t.sin(a)
        c, s = t.ONE, t.ZERO
        for m, k in q:
            m1 = t.from_poly({m: Fraction(abs(k))})
            # integer multiples: reduce to the base angle
            base, mult = t.from_poly({m: Fraction(1, k.denominator)}), abs(k.numerator)
            if mult > 6:
                base, mult = m1, 1
            bc, bs = t.app('cos', base), t.app('sin', base)
            cc, ss = t.ONE, t.ZERO
            for _ in range(mult):
                cc, ss = t.sub(t.mul(cc, bc), t.mul(ss, bs)), t.add(t.mul(ss, bc), t.mul(cc, bs))
            if k < 0:
                ss = t.neg(ss)
            c, s = t.sub(t.mul(c, cc), t.mul(s, ss)), t.add(t.mul(s, cc), t.mul(c, ss))
        return sin2(c), sin2(s)

    return ex(x)


LN10 = t.app('ln10')


def _log_of(x):
    """log10 of a positive term as a sum over its factors, or None"""
    def lg_num(v):
        out = t.ZERO
        for w, sg in ((v.numerator, 1), (v.denominator, -1)):
            k = 0
            while w % 10 == 0:
                w //= 10
                k += 1
            out = t.add(out, t.num(sg * k))
            for pr in (2, 3, 5, 7):
                while w % pr == 0:
                    w //= pr
                    z = t.sub(t.ONE, t.app('log10', t.num(2))) if pr == 5 else t.app('log10', t.num(pr))
                    out = t.add(out, z if sg > 0 else t.neg(z))
            if w != 1:
                z = t.app('log10', t.num(w))
                out = t.add(out, z if sg > 0 else t.neg(z))
        return out

    def lg_atom(a):
        if a.op == 'app' and a.args[0] == 'exp':
            return t.mul(a.args[1], t.inv(LN10))
        if a.op == 'app' and a.args[0] == 'inv':
            z = _log_of(a.args[1])
            return None if z is None else t.neg(z)
        if a.op == 'app' and a.args[0] == 'sqrt':
            z = _log_of(a.args[1])
            return None if z is None else t.scale(z, Fraction(1, 2))
        if t.is_nonneg(a) and t.is_nonzero(a):
            return t.app('log10', a)
        return None
    q = t.poly_of(x)
    if len(q) != 1:
        return t.app('log10', x) if t.is_nonneg(x) and t.is_nonzero(x) else None
    (m, c), = q.items()
    if c <= 0:
        return None
    out = lg_num(Fraction(c))
    for a, e in m:
        z = lg_atom(a)
        if z is None:
            return None
        out = t.add(out, t.scale(z, e))
    return out


def expand_log(x):
    """log, log10 and powr of positive terms in terms of log10 of their factors"""
    memo = {}

    def ex(y):
        r = memo.get(y)
        if r is not None:
            return r
        if y.op in ('num', 'var', 'true', 'false'):
            r = y
        else:
            r = t.rebuild(y, ex)
            if r.op == 'app' and r.args[0] in ('log', 'log10', 'powr'):
                z = _log_of(r.args[1])
                if z is not None:
                    r = {'log': lambda: t.mul(z, LN10), 'log10': lambda: z, 'powr': lambda: t.mexp(t.mul(t.mul(z, LN10), r.args[2]))}[r.args[0]]()
        memo[y] = r
        return r

    def unexp(y):
        # exp(k ln10 log10 z) = z ** k
        q = t.poly_of(y)
        out = t.ZERO
        for m, c in q.items():
            z = t.num(c)
            for a, e in m:
                if a.op == 'app' and a.args[0] == 'exp':
                    rest, pw = t.ZERO, t.ONE
                    for m2, c2 in t.poly_of(a.args[1]).items():
                        d = dict(m2)
                        if d.get(LN10) == 1 and Fraction(c2).denominator == 1:
                            d.pop(LN10)
                            if not d:
                                pw = t.mul(pw, t.power(t.num(10), int(c2)) if c2 > 0 else t.inv(t.power(t.num(10), -int(c2))))
                                continue
                            if len(d) == 1:
                                (b, be), = d.items()
                                if be == 1 and b.op == 'app' and b.args[0] == 'log10':
                                    k = int(c2)
                                    pw = t.mul(pw, t.power(b.args[1], k) if k > 0 else t.inv(t.power(b.args[1], -k)))
                                    continue
                        rest = t.add(rest, t.from_poly({m2: c2}))
                    a = t.mul(pw, t.mexp(rest))
                z = t.mul(z, t.power(a, e))
            out = t.add(out, z)
        return out
    r = ex(x)
    return unexp(r) if r is not x else x


def clear_denoms(p):
    """p == 0 with inv(q) atoms -> (list of q, numerator poly) valid when all q != 0"""
    dens = []
    for _ in range(12):
        q = t.poly_of(p)
        invs = set()
        for m in q:
            for a, e in m:
                if a.op == 'app' and a.args[0] == 'inv':
                    invs.add(a)
        if not invs:
            return dens, p
        r = sorted(invs, key=lambda a: a.id)[0]
        x = r.args[1]
        dens.append(x)
        E = max(dict(m).get(r, 0) for m in q)
        out = []
        for m, c in q.items():
            d = dict(m)
            e = d.pop(r, 0)
            rest = t.from_poly({tuple(sorted(d.items(), key=lambda ae: ae[0].id)): c})
            out.append(t.mul(rest, t.power(x, E - e)))
        p = t.add(*out)
    return dens, p


class Prover:
    def __init__(self, facts, stats):
        self.facts = facts
        self.stats = stats
        self._extcache = {}
        self.feas_cache = {}
        self.depth = 0
        self.busy = 0

    def newpath(self):
        pass

    @staticmethod
    def renorm(x):
        return renorm(x)

    # ------------------------------------------------------------------
    def context(self, hyps, goal, rounds=4):
        """all terms needed: hyps, facts instances, axioms"""
        work = list(hyps) + ([goal] if goal is not None else []) + list(self.facts.global_)
        out = list(hyps) + list(self.facts.global_)
        seen = set()
        acc = []
        done_terms = set()
        done_quant = set()
        done_struct = set()
        axs = []
        for rd in range(rounds):
            n0 = len(acc)
            for w in work:
                outer_atoms(w, acc, seen)
            work = []
            for x in acc[n0:]:
                if x in done_terms:
                    continue
                done_terms.add(x)
                for b in self.facts.by_term.get(x, ()):
                    work.append(b)
                if x.op == 'app':
                    f = self.facts.by_fn.get(x.args[0])
                    if f is not None:
                        for b in f(*x.args[1:]):
                            work.append(b)
                axs.extend(axioms_for(x))
            if self.facts.quant and rd < 2:
                # candidate index terms: integer arguments of applications and integer vars
                cands = self.cands(acc)
                import itertools
                for (qid, ar, f) in self.facts.quant:
                    for tup in itertools.product(cands, repeat=ar):
                        k = (qid, tup)
                        if k in done_quant:
                            continue
                        done_quant.add(k)
                        work.extend(f(*tup))
            if rd < 3:
                for b in self.structural(acc, done_struct):
                    work.append(b)
            out.extend(work)
            if not work:
                break
        return out, acc, axs

    # ------------------------------------------------------------------
    def cands(self, acc, limit=14):
        out, cs = [], set()
        for x in acc:
            if x.op == 'app' and x.args[0] not in ('ind', 'idiv', 'imod', 'floor', 'inv', 'rint'):
                for a in x.args[1:]:
                    if isinstance(a, T) and a.sort == 'I' and a not in cs and a.op != 'red':
                        cs.add(a)
                        out.append(a)
            elif x.op == 'var' and x.sort == 'I' and x not in cs:
                cs.add(x)
                out.append(x)
            elif x.op == 'red' and x.args[0].startswith('argmax') and x not in cs:
                cs.add(x)
                out.append(x)
        out = [c for c in out if not any(v.args[0].startswith('$b') for v in t.fv(c))]
        # shorter terms first, order otherwise stable
        return out[:limit]

    def structural(self, acc, done):
        '''defining facts of reductions and selections, instantiated at the index
        terms of the query (all of them are consequences of the definitions)'''
        out = []
        reds = [x for x in acc if x.op == 'red' and x.args[0] in ('any', 'max', 'argmax', 'argmaxc')]
        sums = [x for x in acc if x.op == 'sum']
        sels = [x for x in acc if x.op == 'app' and x.args[0] in ('sel', 'rank')]
        if not reds and not sums and not sels:
            return out
        import itertools
        cd = self.cands(acc)

        def once(*k):
            if k in done:
                return False
            done.add(k)
            return True
        for x in reds:
            if any(v.args[0].startswith('$b') for v in t.fv(x)):
                continue
            nm = x.args[0]
            bs = x.args[-1]
            nd = len(bs)
            dims = x.args[1:1 + nd]
            bodies = x.args[1 + nd:-1]
            rng = lambda tup: t.band(*[t.band(t.le(t.ZERO, c), t.lt(c, d)) for c, d in zip(tup, dims)])
            at = lambda k, tup: t.subst(bodies[k], dict(zip(bs, tup)))
            wit = tuple(t.var('w!%d_%d' % (x.id, j), 'I') for j in range(nd))
            if nm == 'any':
                if once('w', x):
                    out.append(t.implies(x, t.band(rng(wit), at(0, wit))))
                for tup in tuples(x, cd, acc, nd):
                    if once('i', x, tup):
                        out.append(t.implies(t.band(rng(tup), at(0, tup)), x))
            elif nm == 'max':
                for tup in itertools.product(cd + [wit[0]] if nd == 1 else cd, repeat=nd):
                    if len(cd) ** nd > 60:
                        break
                    if once('i', x, tup):
                        g = t.band(rng(tup), at(0, tup))
                        out.append(t.implies(g, t.band(t.le(at(1, tup), x), rng(wit), at(0, wit), t.eq(at(1, wit), x))))
                if nd == 1 and at(0, wit) is t.TRUE and once('n', x):
                    out.append(t.implies(t.lt(t.ZERO, dims[0]), t.band(rng(wit), t.eq(at(1, wit), x))))
            else:
                r = (x,)
                for c in cd + [t.ZERO]:
                    if c is x or not once('i', x, c):
                        continue
                    g = t.band(rng((c,)), at(0, (c,)))
                    if nm == 'argmax':
                        le_ = t.band(t.le(at(1, (c,)), at(1, r)), t.implies(t.lt(c, x), t.lt(at(1, (c,)), at(1, r))))
                    else:
                        le_ = t.bor(t.lt(at(1, (c,)), at(1, r)), t.band(t.eq(at(1, (c,)), at(1, r)), t.le(at(2, (c,)), at(2, r))))
                    out.append(t.implies(g, t.band(rng(r), at(0, r), le_)))
        for x in sums:
            lo, hi, body, b = x.args
            if any(v.args[0].startswith('$b') and v is not b for v in t.fv(x)):
                continue
            if not t.is_nonneg(body):
                continue
            if once('p', x):
                out.append(t.le(t.ZERO, x))
                wv = t.var('w!%d' % x.id, 'I')
                out.append(t.implies(t.lt(t.ZERO, x), t.band(t.le(lo, wv), t.lt(wv, hi), t.lt(t.ZERO, t.subst(body, {b: wv})))))
            for c in cd:
                if once('i', x, c):
                    out.append(t.implies(t.band(t.le(lo, c), t.lt(c, hi)), t.le(t.subst(body, {b: c}), x)))
        eng = getattr(self, 'engine', None)
        for x in sels:
            if any(v.args[0].startswith('$b') for v in t.fv(x)):
                continue
            key = x.args[1]
            dims, n = key.args[1:1 + len(key.args[-1])], None
            info = eng.sels.get(key) if eng else None
            if info is None:
                continue
            n = info[1]
            bs = key.args[-1]
            body = key.args[1 + len(bs)]
            if x.args[0] == 'sel':
                j = x.args[3]
                if not once('s', key, j):
                    continue
                sv = tuple(t.app('sel', key, t.num(q), j, sort='I') for q in range(len(bs)))
                g = t.band(t.le(t.ZERO, j), t.lt(j, n))
                out.append(t.implies(g, t.band(*[t.band(t.le(t.ZERO, s), t.lt(s, d)) for s, d in zip(sv, dims)], t.subst(body, dict(zip(bs, sv))))))
                if len(bs) == 1:
                    # the first (last) selected index is at or before (after) every selected one
                    first, last = j is t.ZERO, j is t.sub(n, t.ONE)
                    for c in (cd if first or last else ()):
                        if once('e', x, c):
                            h = t.band(t.le(t.ZERO, c), t.lt(c, dims[0]), t.subst(body, {bs[0]: c}))
                            out.append(t.implies(h, t.band(t.lt(t.ZERO, n), t.le(x, c) if first else t.TRUE, t.le(c, x) if last else t.TRUE)))
                    for y in sels:
                        if y is not x and y.args[0] == 'sel' and y.args[1] is key and once('m', x, y) and once('m', y, x):
                            k = y.args[3]
                            gg = t.band(g, t.le(t.ZERO, k), t.lt(k, n))
                            out.append(t.implies(t.band(gg, t.lt(j, k)), t.lt(x, y)))
                            out.append(t.implies(t.band(gg, t.lt(k, j)), t.lt(y, x)))
            else:
                idx = x.args[2:]
                if not once('r', x):
                    continue
                g = t.band(*[t.band(t.le(t.ZERO, s), t.lt(s, d)) for s, d in zip(idx, dims)], t.subst(body, dict(zip(bs, idx))))
                sv = [t.app('sel', key, t.num(q), x, sort='I') for q in range(len(bs))]
                out.append(t.implies(g, t.band(t.le(t.ZERO, x), t.lt(x, n), *[t.eq(s, i) for s, i in zip(sv, idx)])))
        return out

    def _axiom_z3(self, tr, axs):
        out = []
        pi = t.app('pi')
        for a in axs:
            if a[0] == 'inv':
                x = tr.real(a[1])
                r = tr.real(a[2])
                out.append(z3.Implies(x != 0, r * x == 1))
                out.append(z3.Implies(x == 0, r == 0))
                out.append(z3.Implies(x > 0, r > 0))
                out.append(z3.Implies(x < 0, r < 0))
            else:
                f, x = a
                r = tr.real(x)
                if f == 'sqrt':
                    y = tr.real(x.args[1])
                    out.append(z3.Implies(y >= 0, z3.And(r >= 0, r * r == y)))
                    out.append(z3.Implies(y > 0, r > 0))
                elif f == 'rint':
                    # nearest integer (ties either way)
                    y = tr.real(x.args[1])
                    out.append(z3.And(2 * r - 2 * y <= 1, 2 * r - 2 * y >= -1))
                elif f == 'exp':
                    y = tr.real(x.args[1])
                    out.append(r > 0)
                    out.append(z3.Implies(y <= 0, r <= 1))
                    out.append(z3.Implies(y >= 0, r >= 1))
                elif f in ('cos', 'sin'):
                    c = tr.real(t.app('cos', x.args[1]))
                    s = tr.real(t.app('sin', x.args[1]))
                    out.append(c * c + s * s == 1)
                    out.append(z3.And(c <= 1, c >= -1, s <= 1, s >= -1))
                elif f == 'arctan2':
                    p = tr.real(t.app('pi'))
                    out.append(z3.And(r <= p, r > -p))
                elif f == 'powr':
                    out.append(z3.Implies(tr.real(x.args[1]) > 0, r > 0))
        out.append(tr.real(pi) > z3.RealVal('3.14159265358979'))
        out.append(tr.real(pi) < z3.RealVal('3.14159265358980'))
        out.append(tr.real(LN10) > z3.RealVal('2.302585092994'))
        out.append(tr.real(LN10) < z3.RealVal('2.302585092995'))
        return out

    # ------------------------------------------------------------------
    def feasible(self, hyps, extra=None):
        """False only if hyps are proved inconsistent"""
        hs = list(hyps) + ([extra] if extra is not None else [])
        if any(h is t.FALSE for h in hs):
            return False
        key = frozenset(h.id for h in hs)
        r = self.feas_cache.get(key)
        if r is not None:
            return r
        st = self._check(hs, None, FEAS_MS)
        r = st[0] != 'unsat'
        self.feas_cache[key] = r
        return r

    def entails(self, hyps, c, ms=FEAS_MS):
        if c is t.TRUE:
            return True
        if c is t.FALSE and not hyps:
            return False
        if c in hyps:
            return True
        if index_only(c):
            # statements about index variables: only the index hypotheses matter
            hyps = relevant(hyps, c)
        key = (frozenset(h.id for h in hyps), c.id)
        r = self.feas_cache.get(key)
        if r is not None:
            return r
        st = self._check(list(hyps), c, ms)
        r = st[0] == 'unsat'
        self.feas_cache[key] = r
        return r

    def _check(self, hyps, goal, ms, extra_lemmas=(), want_model=False):
        t0 = time.time()
        self.busy += 1
        try:
            ctx, acc, axs = self.context(list(hyps) + list(extra_lemmas), goal)
        finally:
            self.busy -= 1
        tr = Trans()
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('random_seed', 1)
        try:
            fs = [tr.tr(c) for c in ctx]
            fs += self._axiom_z3(tr, axs)
            for f in fs:
                s.add(f)
            if goal is not None:
                s.add(z3.Not(tr.tr(goal)))
            r = s.check()
        except z3.Z3Exception as e:
            self.stats['z3_exc'] = self.stats.get('z3_exc', 0) + 1
            return ('unknown', None, str(e), None)
        self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t0
        self.stats['z3_calls'] = self.stats.get('z3_calls', 0) + 1
        m = None
        if r == z3.sat and want_model:
            m = (s.model(), tr)
        return (str(r), m, s.reason_unknown() if r == z3.unknown else '', s)

    # ------------------------------------------------------------------
    def ext_lemmas(self, hyps, goal, alike=None):
        """pairwise extensional equality of sum / red atoms (alike: only pairs of sums whose
        bodies use / do not use the same functions)"""
        acc, seen = [], set()
        for w in list(hyps) + [goal]:
            outer_atoms(w, acc, seen)
        gacc, gseen = [], set()
        outer_atoms(goal, gacc, gseen)
        ats = [x for x in acc if x.op in ('sum', 'red')]
        gs = set(x for x in gacc if x.op in ('sum', 'red'))
        out = []
        for i in range(len(ats)):
            for j in range(i):
                a, b = ats[i], ats[j]
                if a.op != b.op or not (a in gs or b in gs):
                    continue
                if alike and (a.sort == 'B' or real_fns(a) != real_fns(b)):
                    continue
                if alike is False and a.sort != 'B' and real_fns(a) == real_fns(b) and self.ext_eq(hyps, a, b, rev=False):
                    continue
                l = self.ext_eq(hyps, a, b, rev=not alike)
                if l:
                    out.append(t.eq(a, b) if a.sort != 'B' else t.band(t.implies(a, b), t.implies(b, a)))
                elif a.op == 'sum' and (not alike or 'sin' in real_fns(a)):
                    if self.ext_eq(hyps, a, b, sign=-1):
                        out.append(t.eq(a, t.neg(b)))
        return out

    def ext_eq(self, hyps, a, b, sign=1, rev=True):
        if a is b:
            return sign == 1
        if self.depth >= 3:
            return False
        key = (a, b, sign, rev, frozenset(h.id for h in hyps))
        if key in self._extcache:
            return self._extcache[key]
        self._extcache[key] = False
        r = False
        self.depth += 1
        try:
            if a.op == 'sum':
                lo1, hi1, b1, v1 = a.args
                lo2, hi2, b2, v2 = b.args
                if self._eqq(hyps, lo1, lo2) and self._eqq(hyps, hi1, hi2):
                    k = t.fresh('ext', 'I')
                    h2 = list(hyps) + [t.le(lo1, k), t.lt(k, hi1)]
                    x = t.subst(b1, {v1: k})
                    y = t.subst(b2, {v2: k})
                    if sign == -1:
                        y = t.neg(y)
                    r = self.prove(h2, t.eq(x, y), quick=True).status == 'proved'
                if not r and sign == 1 and rev:
                    # reversed / shifted index:  k -> hi1+lo... - 1 - k
                    if self._eqq(hyps, t.sub(hi1, lo1), t.sub(hi2, lo2)):
                        k = t.fresh('ext', 'I')
                        h2 = list(hyps) + [t.le(lo1, k), t.lt(k, hi1)]
                        x = t.subst(b1, {v1: k})
                        rev = t.add(lo2, t.sub(t.sub(hi1, t.ONE), k))
                        y = t.subst(b2, {v2: rev})
                        r = self.prove(h2, t.eq(x, y), quick=True).status == 'proved'
            else:
                if a.args[0] != b.args[0] or len(a.args) != len(b.args) or a.sort != b.sort:
                    return False
                bs1, bs2 = a.args[-1], b.args[-1]
                nd = len(bs1)
                if nd != len(bs2):
                    return False
                ok = True
                ks = [t.fresh('ext', 'I') for _ in range(nd)]
                h2 = list(hyps)
                for i in range(nd):
                    n1, n2 = a.args[1 + i], b.args[1 + i]
                    if not self._eqq(hyps, n1, n2):
                        ok = False
                        break
                    h2 += [t.le(t.ZERO, ks[i]), t.lt(ks[i], n1)]
                if ok:
                    for x, y in zip(a.args[1 + nd:-1], b.args[1 + nd:-1]):
                        x = t.subst(x, dict(zip(bs1, ks)))
                        y = t.subst(y, dict(zip(bs2, ks)))
                        g = t.eq(x, y) if x.sort != 'B' else t.band(t.implies(x, y), t.implies(y, x))
                        if x is y:
                            continue
                        if self.prove(h2, g, quick=True).status != 'proved':
                            ok = False
                            break
                r = ok
        finally:
            self.depth -= 1
        self._extcache[key] = r
        return r

    def _eqq(self, hyps, x, y):
        if x is y:
            return True
        return self.entails(hyps, t.eq(x, y))

    # ------------------------------------------------------------------
    def prove(self, hyps, goal, quick=False, ms=None):
        t0 = time.time()
        ms = ms or (3000 if quick else TIMEOUT_MS)
        notes = []

        def done(status, backend, model=None):
            return Result(status, backend, time.time() - t0, model, '; '.join(notes))
        if goal is t.TRUE:
            return done('proved', 'ring-normaliser')
        if goal in hyps:
            return done('proved', 'ring-normaliser')
        # conjunctions are proved separately
        if goal.op == 'and':
            worst = None
            for g in goal.args:
                r = self.prove(hyps, g, quick, ms)
                if r.status != 'proved':
                    return done(r.status, r.backend, r.model)
                worst = r if worst is None or worst.backend == 'ring-normaliser' else worst
            return done('proved', worst.backend)
        hy2, base = [], []
        for h in hyps:
            if literal(h):
                hy2.append(h)
                base.append(h)
        with t.care(base):
            memo = {}
            for h in hyps:
                if not literal(h):
                    r = renorm(h, memo)
                    hy2.append(h if r is t.TRUE else r)
        with t.care(list(hyps) + [h for h in hy2 if h not in hyps]) as cr:
            if goal.op in ('or', 'not', 'and') and t.bdd_and(cr.n, t.bdd_not(t.bdd_of(goal))) == 0 and cr.n != 0:
                return done('proved', 'propositional')
            g2 = renorm(goal)
            if g2 is not t.TRUE and g2.op in ('or', 'not') and cr.n != 0 and t.bdd_and(cr.n, t.bdd_not(t.bdd_of(g2))) == 0:
                return done('proved', 'propositional')
        if g2 is t.TRUE or g2 in hy2:
            return done('proved', 'ring-normaliser')
        if g2.op == 'and':
            return self.prove(hyps, g2, quick, ms)
        if t.DEFS and any(v in t.DEFS for v in t.fv(g2)):
            gt = t.unfold_top(g2)
            if gt is not g2:
                # names that are factors: their structure matters
                with t.care(hyps):
                    g2 = renorm(gt)
                if g2 is t.TRUE:
                    return done('proved', 'ring-normaliser')
            gu = t.unfold(g2)
            if gu is not g2:
                r = self.prove_core(hyps, g2, hy2, True, min(ms, 3000), done, notes)
                if r.status == 'proved' or quick:
                    return r
                with t.care(hyps):
                    gu = renorm(gu)
                if gu is t.TRUE:
                    return done('proved', 'ring-normaliser')
                hu = [t.unfold(h) for h in hy2]
                return self.prove_core(hyps, gu, hu, quick, ms, done, notes)
        return self.prove_core(hyps, g2, hy2, quick, ms, done, notes)

    def prove_core(self, hyps, g2, hy2, quick, ms, done, notes):
        # implication goals: or(...) -> hyps + one disjunct (atomic equality preferred)
        if g2.op == 'or':
            eqs = [x for x in g2.args if x.op == 'eq0']
            if len(eqs) == 1:
                rest = [t.bnot(x) for x in g2.args if x is not eqs[0]]
                return self.prove(hy2 + rest, eqs[0], quick, ms)
            gd = self.guard_of(g2) if self.splits < 7 else None
            if gd is not None:
                # case analysis on a condition of the goal
                self.splits += 1
                try:
                    ok = True
                    for c in (gd, t.bnot(gd)):
                        h3 = hy2 + [c]
                        if not self.feasible(h3):
                            continue
                        if self.prove(h3, g2, quick, ms).status != 'proved':
                            ok = False
                            break
                finally:
                    self.splits -= 1
                if ok:
                    return done('proved', 'z3')
                if self.splits:
                    return done('unknown', 'z3')
        if g2.op == 'eq0':
            p = g2.args[0]
            # cancel denominators
            dens, q = clear_denoms(p)
            if dens:
                if q is t.ZERO or t.eq0(q) is t.TRUE:
                    if all(self.entails(hy2, t.bnot(t.eq0(d))) for d in dens):
                        return done('proved', 'ring-normaliser+z3')
            e = expand_trig(q if dens else p)
            if e is t.ZERO:
                if not dens or all(self.entails(hy2, t.bnot(t.eq0(d))) for d in dens):
                    return done('proved', 'ring-normaliser')
            e2 = expand_log(p)
            if e2 is not p:
                d2, e2 = clear_denoms(e2)
                e2 = expand_log(e2)
                if e2 is t.ZERO and all(self.entails(hy2, t.bnot(t.eq0(d))) for d in d2):
                    return done('proved', 'ring-normaliser')
            # hypothesis equalities with an isolated variable: substitute
            s = self.eq_subst(hy2, p)
            if s is t.ZERO:
                return done('proved', 'ring-normaliser')
            # case analysis on indicator conditions under hypotheses
            c = self.ind_cases(hy2, p)
            if c is t.ZERO:
                return done('proved', 'ring-normaliser+z3')
            if c is not p:
                g2 = t.eq0(c)
                if g2 is t.TRUE:
                    return done('proved', 'ring-normaliser+z3')
        # a cheap attempt before the extensionality search
        st = self._check(hy2, g2, min(ms, 2000), want_model=True)
        if st[0] == 'unsat':
            return done('proved', 'z3')
        lem = self.ext_lemmas(hy2, g2, True)
        if lem:
            if g2.op == 'eq0' and self.eq_subst(list(lem), g2.args[0], sums=True) is t.ZERO:
                return done('proved', 'ring-normaliser+z3')
            st = self._check(hy2, g2, min(ms, 3000), extra_lemmas=lem, want_model=True)
            if st[0] == 'unsat':
                return done('proved', 'z3')
        lem = lem + self.ext_lemmas(hy2, g2, False)
        if lem:
            notes.append('%d extensionality lemmas' % len(lem))
            st = self._check(hy2, g2, ms, extra_lemmas=lem, want_model=True)
            if st[0] == 'unsat':
                return done('proved', 'z3')
            if g2.op == 'eq0':
                # substitute the proved equalities and re-normalise
                s = self.eq_subst(list(lem), g2.args[0], sums=True)
                if s is t.ZERO:
                    return done('proved', 'ring-normaliser+z3')
        elif st[0] == 'unknown' and ms > 2000:
            st = self._check(hy2, g2, ms, want_model=True)
            if st[0] == 'unsat':
                return done('proved', 'z3')
        if not quick and g2.op == 'eq0':
            e = expand_trig(g2.args[0])
            if e is not g2.args[0]:
                g3 = t.eq0(e)
                h3 = [expand_trig(h) for h in hy2 + lem]
                l3 = self.ext_lemmas(h3, g3)
                st3 = self._check(h3, g3, ms, extra_lemmas=l3, want_model=True)
                if st3[0] == 'unsat':
                    return done('proved', 'z3')
            dens, q = clear_denoms(g2.args[0])
            if dens and all(self.entails(hy2, t.bnot(t.eq0(d))) for d in dens):
                st3 = self._check(hy2, t.eq0(q), ms, extra_lemmas=lem, want_model=True)
                if st3[0] == 'unsat':
                    return done('proved', 'z3')
        if st[0] == 'unknown' and not quick and st[3] is not None:
            r = cvc5_check(st[3], ms)
            self.stats['cvc5_calls'] = self.stats.get('cvc5_calls', 0) + 1
            if r == 'unsat':
                return done('proved', 'cvc5')
            notes.append('cvc5: ' + r)
        if st[0] == 'sat':
            return done('refuted', 'z3', st[1])
        notes.append('z3: ' + str(st[2]))
        return done('unknown', 'z3')

    splits = 0

    @staticmethod
    def guard_of(g):
        """a condition (not a real equation) on which the shape of goal g depends, if the goal
        contains real equations"""
        cnt, eqs = {}, 0
        todo = [g]
        while todo:
            x = todo.pop()
            if x.op in ('and', 'or', 'not'):
                todo.extend(x.args)
            elif x.op == 'eq0' and x.args[0].sort == 'R':
                eqs += 1
            elif x not in (t.TRUE, t.FALSE):
                cnt[x] = cnt.get(x, 0) + 1
        if not eqs or not cnt:
            return None
        return max(cnt, key=lambda x: (cnt[x], -x.id))

    def eq_subst(self, hyps, p, sums=False):
        m = {}
        for h in hyps:
            if h.op == 'eq0':
                q = t.poly_of(h.args[0])
                for mono, c in q.items():
                    if len(mono) == 1 and mono[0][1] == 1 and abs(c) == 1:
                        a = mono[0][0]
                        if a.op == 'var' or (a.op in ('sum', 'red')):
                            rest = t.scale(t.from_poly({k: v for k, v in q.items() if k != mono}), -1 / c)
                            if a.op == 'var' and a in t.fv(rest):
                                continue
                            if a in m:
                                continue
                            m[a] = rest
                            break
        for _ in range(4):
            hit = [a for a in m if any(x is a for x in t.atoms(p))]
            if not hit:
                break
            p2 = t.subst(p, {hit[0]: m[hit[0]]})
            if p2 is p:
                break
            p = p2
            if p is t.ZERO:
                break
        return renorm(p)

    def ind_cases(self, hyps, p):
        """replace indicators decided by the hypotheses"""
        acc, seen = [], set()
        outer_atoms(p, acc, seen)
        inds = [x for x in acc if x.op == 'app' and x.args[0] == 'ind']
        if len(inds) > 24:
            return p
        m = {}
        for x in inds:
            c = x.args[1]
            if self.entails(hyps, c, 400):
                m[x] = t.ONE
            elif self.entails(hyps, t.bnot(c), 400):
                m[x] = t.ZERO
        if not m:
            return p
        return renorm(t.subst(p, m))


def cvc5_check(z3solver, ms):
    import subprocess
    import tempfile
    import os
    txt = '(set-logic ALL)\n' + z3solver.to_smt2()
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(txt)
        r = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--nl-ext-tplanes', path],
                           capture_output=True, text=True, timeout=ms / 1000 + 10)
        o = r.stdout.strip().split('\n')
        return o[0] if o and o[0] else 'error'
    except Exception as e:
        return 'error:%s' % e
    finally:
        os.unlink(path)
