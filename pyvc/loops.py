"""Rules for loops of symbolic length.

An arbitrary iteration i of the body is executed on a havoced state (every variable /
array the body can change replaced by fresh symbols); the effect of the whole loop is
then derived by one of: map (every slot written by at most one iteration), sum
(pre + SUM F(i)), disjunction, last value, list append.  Anything else is Unsupported.
"""
import os
import itertools
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE
from . import values as V
from .values import SV, SArr, Base, DType, Unsupported, PathEnd, lift, out, mkint, dimT, normdim, truth, map_sv, is_scalar, memo_fn
from .engine import BRK, Ret


class Local:
    def __init__(self, names, prefixes, snap):
        self.names, self.prefixes, self.snap = set(names), tuple(prefixes), dict(snap)

    def has(self, n):
        if n in self.names:
            return True
        if self.prefixes and n.startswith(self.prefixes):
            return True
        a, s, b = n.rpartition('!')
        if s and b.isdigit() and int(b) > self.snap.get(a, 0):
            return True
        return False


def occurrences(x, names):
    """apps / vars of the given names in x (binder bodies included)"""
    return [y for y in t.atoms(x) if (y.op == 'app' and y.args[0] in names) or (y.op == 'var' and y.args[0] in names)]


class Obj:
    """a mutated location: local variable or array base"""

    def __init__(self, kind, name, key):
        self.kind, self.name, self.key = kind, name, key
        self.solved = False


def havoc_cell(name, kind, idx, nan):
    if kind == 'b':
        return SV('b', t.bapp(name, *idx))
    if kind == 'i':
        return SV('i', t.app(name, *idx, sort='I'))
    nn = t.bapp(name + '_nan', *idx) if nan else FALSE
    if kind == 'c':
        return SV('c', t.app(name + '_re', *idx), t.app(name + '_im', *idx), nn)
    return SV('f', t.app(name, *idx), nan=nn)


def mutable_snapshot(body):
    """identity snapshot of native containers / objects reachable from the closure"""
    res = []
    seen = set()

    def visit(o, d):
        if id(o) in seen or d > 2:
            return
        if isinstance(o, (list, dict)) and not isinstance(o, type):
            seen.add(id(o))
            res.append((o, list(o) if isinstance(o, list) else dict(o)))
            for v in (o if isinstance(o, list) else o.values()):
                visit(v, d + 1)
        elif getattr(type(o), '__module__', '').split('.')[0] in ('RMutils', 'RMtools_1D', 'RMtools_3D'):
            seen.add(id(o))
            dd = getattr(o, '__dict__', None)
            if dd is not None:
                res.append((dd, dict(dd)))
                for v in dd.values():
                    visit(v, d + 1)
    for c in body.__closure__ or ():
        try:
            v = c.cell_contents
        except ValueError:
            continue
        visit(v, 0)
        if callable(v) and getattr(v, '__closure__', None) and getattr(v, '__name__', '').startswith('_vf_'):
            pass
    return res


def snapshot_changed(snap):
    for o, s in snap:
        if isinstance(o, list):
            if len(o) != len(s) or any(a is not b for a, b in zip(o, s)):
                return True
        else:
            if len(o) != len(s) or any(k not in o or o[k] is not v for k, v in s.items()):
                return True
    return False


def same_value(a, b):
    if a is b:
        return True
    if type(a) in (int, bool, str, float) and type(a) is type(b):
        return a == b
    if isinstance(a, SV) and isinstance(b, SV):
        return a.kind == b.kind and a.re is b.re and a.im is b.im and a.nan is b.nan and a.inf is b.inf
    return False


def sym_for(E, seq, body, get, set_, info):
    n = seq.n
    if E.entails(t.le(n, ZERO)) or not E.decide(t.lt(ZERO, n)):
        return None
    uid = E.uid()
    pfx = 'L%d!' % uid
    ivar = t.var('it%d' % uid, 'I')
    local = Local([ivar.args[0]], [pfx], t._freshctr)
    start_id = next(V._bid)
    pre = E.read_state(get)
    snap = mutable_snapshot(body)
    outer_w, outer_a, outer_g = E.writes, E.appends, E.wguards
    rng = [t.le(ZERO, ivar), t.lt(ivar, n)]

    mut_locals = set()
    carried = {}
    mut_bases = {}      # base -> (pre fn)
    mut_lists = {}
    nanflag = set()

    def run():
        st = {k: v for k, v in pre.items() if k not in mut_locals}
        st.update({k: v[1] for k, v in carried.items()})
        set_(st)
        for b, (fn, nm) in mut_bases.items():
            b.fn = memo_fn(lambda idx, nm=nm, b=b: havoc_cell(nm, b.dt.kind, idx, True))
        E.writes, E.appends, E.wguards = {}, {}, {}
        try:
            try:
                r = body(seq.elem(ivar))
                oc = ('ok', None)
                if r is BRK:
                    oc = ('break', None)
                elif isinstance(r, Ret):
                    oc = ('return', r.value)
            except NameError as e:
                raise
            except Exception as e:
                oc = ('raise', e)
            st2 = E.read_state(get)
            ws = {b: b.fn for b in E.writes if b.id < start_id}
            gs = {b: list(E.wguards.get(b, [])) for b in ws}
            ap = {}
            for l, s in E.appends.items():
                if l.lid < start_id:
                    ap[l] = (s, l.state())
            return (oc, st2, ws, gs, ap)
        finally:
            for b, fn in E.writes.items():
                b.fn = fn
            for b, (fn, nm) in mut_bases.items():
                b.fn = fn
            for l, s in E.appends.items():
                l.restore(s)
            E.writes, E.appends, E.wguards = outer_w, outer_a, outer_g

    def explore():
        E.loopvars.append(ivar)
        try:
            return E.subexplore(run, local, fixed=rng)
        finally:
            E.loopvars.pop()

    res = None
    for attempt in range(14):
        try:
            res = explore()
        except NameError as e:
            nm = getattr(e, 'name', None)
            if nm is None or nm not in pre or nm in carried:
                if nm is not None and nm in mut_locals and nm not in pre:
                    raise Unsupported('loop reads %s before it is bound' % nm)
                raise
            v = pre[nm]
            carried[nm] = (v, havoc_value(E, pfx + nm, v, nanflag))
            continue
        if snapshot_changed(snap):
            raise Unsupported('loop body mutates a container or attribute')
        again = False
        for pc, (oc, st2, ws, gs, ap) in res:
            for k, v in st2.items():
                base0 = carried[k][1] if k in carried else pre.get(k, None)
                if k not in mut_locals and not (k in pre and same_value(pre[k], v)):
                    mut_locals.add(k)
                    again = True
                if k in carried and is_scalar(v) and isinstance(carried[k][1], SV):
                    lv, hv = V.tonum(lift(v)) if lift(v).kind != 'b' or carried[k][1].kind != 'b' else lift(v), carried[k][1]
                    if V._order[lv.kind] > V._order[hv.kind]:
                        carried[k] = (carried[k][0], havoc_scalar(pfx + k, lv.kind, (pfx + k) in nanflag))
                        again = True
                    elif lv.nan is not FALSE and hv.nan is FALSE and lv.kind in 'fc':
                        nanflag.add(pfx + k)
                        carried[k] = (carried[k][0], havoc_scalar(pfx + k, hv.kind, True))
                        again = True
            for b in ws:
                if b not in mut_bases:
                    mut_bases[b] = (b.fn, '%sb%d' % (pfx, len(mut_bases)))
                    again = True
        if not again:
            break
    else:
        raise Unsupported('loop effect analysis did not converge')
    if not res:
        raise PathEnd('loop body has no feasible path')

    # ---- exceptions / early exits
    normal = [(pc, r) for pc, r in res if r[0][0] == 'ok']
    other = [(pc, r) for pc, r in res if r[0][0] != 'ok']
    hvnames = set()
    for k, (v, h) in carried.items():
        hvnames |= comp_names(pfx + k)
    for b, (fn, nm) in mut_bases.items():
        hvnames |= comp_names(nm)
    for pc, r in other:
        c = t.band(*pc)
        if occurrences(c, hvnames):
            raise Unsupported('loop exit condition depends on the loop state (%s line %d)' % (info[1], info[2]))
        if r[0][0] == 'break' or r[0][0] == 'return':
            raise Unsupported('break / return inside a loop of symbolic length (%s line %d)' % (info[1], info[2]))
        ex = E.np.any_term((ivar,), (normdim(n),), c)
        if E.decide(ex):
            raise r[0][1]
        E.levels[-1].pc.append(t.bnot(ex))
    if other:
        # the remaining paths cover everything now; conditions of the others are excluded
        pass
    if not normal:
        raise PathEnd('loop always raises')
    esc = lambda x: check_escape(x, local, ivar, hvnames, info)

    # ---- locals: closed forms.  obj: value at start of iteration i (hv -> closed form), final value
    sub_at = {}        # hv var/app closed form at iteration i: name -> fn(idx) -> term
    loc_new = {}
    todo = []
    for k in carried:
        todo.append(k)
    fin = {}
    closed = {}

    def merge_scalar(vals):
        r = None
        for c, v in vals:
            v = lift(v)
            r = v if r is None else V.cite(c, v, r)
        return r

    pend_l = list(carried)
    pend_b = list(mut_bases)
    closed_fns = {}     # function name -> f(i, idx) term: value at start of iteration i

    def apply_closed(x, i):
        """replace solved havoc symbols by their closed forms at iteration i"""
        for _ in range(6):
            occ = occurrences(x, closed_fns)
            if not occ:
                return x
            memo = {}

            def ap(y):
                r = memo.get(y)
                if r is None:
                    if y.op == 'app' and y.args[0] in closed_fns:
                        r = closed_fns[y.args[0]](i, tuple(ap(a) for a in y.args[1:]))
                    elif y.op == 'var' and y.args[0] in closed_fns:
                        r = closed_fns[y.args[0]](i, ())
                    elif y.op in ('var', 'num', 'true', 'false'):
                        r = y
                    elif y.op == 'sum' and occurrences(y, closed_fns):
                        lo, hi, body, b = y.args
                        lo, hi = ap(lo), ap(hi)
                        v = t.var('$c%d' % next(t._fresh), 'I')
                        with E.ctx(t.le(lo, v), t.lt(v, hi)):
                            body = E.prover.renorm(ap(t.subst(body, {b: v})))
                        r = t.mk_sum(lo, hi, v, body)
                    else:
                        r = t.rebuild(y, ap)
                    memo[y] = r
                return r
            x = ap(x)
        return x

    dtypes = {}
    for rounds in range(8):
        progress = False
        for k in list(pend_l):
            v0, hv = carried[k]
            if isinstance(hv, SArr):
                vals = [(t.band(*pc), r[1].get(k)) for pc, r in normal]
                if any(not isinstance(v, SArr) or len(v.dims) != len(hv.dims) for c, v in vals):
                    raise Unsupported('carried array %s changes type' % k)
                for c, v in vals:
                    for d1, d2 in zip(v.dims, hv.dims):
                        if not E.np._same(d1, d2):
                            raise Unsupported('carried array %s changes shape' % k)
                snaps = [(c, v.snap()) for c, v in vals]
                pf = E.np.arr(v0).snap()
                kind = hv.dt.kind
                r = solve_obj(E, pfx + k, kind, hv.dims, lambda q, snaps=snaps: merge_scalar([(c, f(q)) for c, f in snaps]), pf,
                              [(TRUE, [lambda q: TRUE])], ivar, n, apply_closed, hvnames, closed_fns, info)
                if r is None:
                    continue
                atf, finf, W = r
                fin[k] = ('arr', hv.dims, vals[0][1].dt, finf)
                register(closed_fns, pfx + k, kind, atf)
            else:
                vals = [(t.band(*pc), r[1].get(k)) for pc, r in normal]
                if any(not is_scalar(v) for c, v in vals):
                    raise Unsupported('carried variable %s changes type' % k)
                r = solve_obj(E, pfx + k, hv.kind, (), lambda q, vals=vals: merge_scalar([(c, v) for c, v in vals]), lambda q, v0=v0: lift(v0),
                              [(TRUE, [lambda q: TRUE])], ivar, n, apply_closed, hvnames, closed_fns, info)
                if r is None:
                    continue
                atf, finf, W = r
                fin[k] = ('sc', finf)
                register(closed_fns, pfx + k, hv.kind, atf)
            pend_l.remove(k)
            progress = True
        for b in list(pend_b):
            fn0, nm = mut_bases[b]
            paths = []
            for pc, r in normal:
                paths.append((t.band(*pc), r[2].get(b), r[3].get(b, [])))

            def cell(q, paths=paths, nm=nm, b=b):
                r = None
                for c, f, g in paths:
                    v = f(q) if f is not None else havoc_cell(nm, b.dt.kind, q, True)
                    r = v if r is None else V.cite(c, v, r)
                return r
            r = solve_obj(E, nm, b.dt.kind, b.shape, cell, fn0, [(c, g) for c, f, g in paths if f is not None], ivar, n, apply_closed, hvnames, closed_fns, info)
            if r is None:
                continue
            atf, finf, W = r
            fin[b] = finf, W
            if atf is not None:
                register(closed_fns, nm, b.dt.kind, atf)
            pend_b.remove(b)
            progress = True
        if not pend_l and not pend_b:
            break
        if not progress:
            raise Unsupported('no loop rule applies (%s line %d)' % (info[1], info[2]))

    # ---- commit
    last = t.sub(n, ONE)
    st = dict(pre)
    for k in mut_locals:
        if k in fin:
            f = fin[k]
            if f[0] == 'sc':
                st[k] = out(f[1](()))
            else:
                st[k] = SArr(f[1], f[2], f[3])
            continue
        vals = [(t.band(*pc), r[1][k]) for pc, r in normal if k in r[1]]
        st.pop(k, None)
        if len(vals) == len(normal):
            try:
                from .shims import merge_val
                v = vals[-1][1]
                for c, w in reversed(vals[:-1]):
                    v = merge_val(c, w, v)
                st[k] = at_iter(E, v, ivar, last, apply_closed, hvnames)
            except Unsupported:
                pass
    set_(st)
    for b in mut_bases:
        finf, W = fin[b]
        E.log_write(b, W)
        b.fn = memo_fn(finf)
    # appended lists
    lists = {}
    for pc, r in res:
        for l in r[4]:
            lists[l] = None
    for l in lists:
        seqs = []
        for pc, r in normal:
            if l not in r[4]:
                raise Unsupported('conditional append in a symbolic loop')
            s0, s1 = r[4][l]
            if s0[0] is None or s1[0] is None or len(s1[0]) < len(s0[0]) or any(a is not b for a, b in zip(s0[0], s1[0])):
                raise Unsupported('list mutated in a symbolic loop')
            seqs.append((t.band(*pc), s1[0][len(s0[0]):]))
        cnts = {len(s) for c, s in seqs}
        if len(cnts) != 1 or cnts != {1} or len(s0[0]) != 0:
            raise Unsupported('append pattern')
        from .shims import merge_val
        v = seqs[-1][1][0]
        for c, w in reversed(seqs[:-1]):
            v = merge_val(c, w[0], v)
        if E.appends is not None:
            E.appends.setdefault(l, l.state())
        l.items = None
        l._n = n
        l._elem = lambda j, v=v: at_iter(E, v, ivar, j, apply_closed, hvnames)
    return None


def comp_names(nm):
    return {nm, nm + '_re', nm + '_im', nm + '_nan'}


def register(closed, nm, kind, atf):
    """atf(i, idx) -> SV"""
    if kind == 'c':
        closed[nm + '_re'] = lambda i, q: atf(i, q).re
        closed[nm + '_im'] = lambda i, q: atf(i, q).im
    else:
        closed[nm] = lambda i, q: atf(i, q).re
    closed[nm + '_nan'] = lambda i, q: atf(i, q).nan


def havoc_scalar(nm, kind, nan):
    return havoc_cell(nm, kind, (), nan)


def havoc_value(E, nm, v, nanflag):
    if is_scalar(v):
        x = lift(v)
        if x.nan is not FALSE:
            nanflag.add(nm)
        return havoc_scalar(nm, x.kind, nm in nanflag)
    if isinstance(v, SArr):
        if v.masked is not None:
            raise Unsupported('carried masked array')
        dt = v.dt
        return SArr(v.dims, dt, lambda idx: havoc_cell(nm, dt.kind, idx, True))
    raise Unsupported('loop-carried value of type %s' % type(v).__name__)


def check_escape(x, local, ivar, hv, info):
    for y in t.atoms(x):
        n = y.args[0] if y.op in ('var', 'app') else None
        if isinstance(n, str) and local.has(n) and y is not ivar:
            raise Unsupported('loop-local symbol %s escapes (%s line %d)' % (n, info[1], info[2]))


def at_iter(E, v, ivar, j, apply_closed, hvnames):
    def f(x):
        x = apply_closed(x, ivar)
        if occurrences(x, hvnames):
            raise Unsupported('value depends on an unresolved loop state')
        return t.subst(x, {ivar: j})
    return map_obj(v, f)


def map_obj(v, f):
    if isinstance(v, SV):
        return out(map_sv(v, f))
    if isinstance(v, SArr):
        g = v.snap()
        dims = [normdim(f(dimT(d))) for d in v.dims]

        def fn(idx):
            vs = tuple(t.var('$p%d' % next(t._fresh), 'I') for _ in idx)
            r = map_sv(g(vs), f)
            return map_sv(r, lambda y: t.subst(y, dict(zip(vs, idx))))
        r = SArr(dims, v.dt, fn)
        if v.masked is not None:
            r.masked = map_obj(v.masked, f)
        if v.imap is not None:
            r.imap = lambda idx: idx      # a detached view: writing through it is refused
        return r
    if isinstance(v, tuple):
        return tuple(map_obj(x, f) for x in v)
    if isinstance(v, list):
        return [map_obj(x, f) for x in v]
    from .shims import EList
    if isinstance(v, EList) and v.items is not None:
        return EList([map_obj(x, f) for x in v.items])
    if isinstance(v, (str, int, float, type(None), bool)):
        return v
    if isinstance(v, dict):
        return {k: map_obj(x, f) for k, x in v.items()}
    raise Unsupported('loop value of type %s' % type(v).__name__)


def _disjuncts(c):
    return list(c.args) if c.op == 'or' else [c]


def _conjuncts(c):
    return list(c.args) if c.op == 'and' else [c]


def solve_for(E, W, i, q):
    """find phi(q) (terms) such that W(i,q) implies i = phi(q); returns (phi, extra map)"""
    phis = []
    for d in _disjuncts(W):
        cand = None
        sels = {}
        for c in _conjuncts(d):
            if c.op == 'eq0':
                s = t._solve(c.args[0], i)
                if s is not None:
                    cand = ('lin', s, {})
                    break
                # q_r == sel(key, r, i)
                p = t.poly_of(c.args[0])
                ss = [m[0][0] for m in p if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'sel' and m[0][0].args[3] is i]
                for s_ in ss:
                    k = p[((s_, 1),)]
                    rest = t.scale(t.sub(c.args[0], t.scale(s_, k)), -1 / k)
                    if i not in t.fv(rest) and abs(k) == 1:
                        sels.setdefault(s_.args[1], {})[int(s_.args[2].args[0])] = (s_, rest)
                # a + c*i with |c| > 1
                k = p.get(((i, 1),))
                if k is not None and cand is None and not any(i in t.fv(a) for m in p for a, e in m if m != ((i, 1),)):
                    rest = t.scale(t.sub(c.args[0], t.scale(i, k)), -1)
                    kk = int(abs(k))
                    if k < 0:
                        rest = t.neg(rest)
                    cand = ('lin', t.idiv(rest, t.num(kk)), {})
        if cand is None:
            for key, dd in sels.items():
                nd = len(key.args[-1])
                if len(dd) == nd:
                    idx = tuple(dd[r][1] for r in range(nd))
                    phi = t.app('rank', key, *idx, sort='I')
                    from .npshim import mask_at
                    cand = ('sel', phi, {t.app('sel', key, t.num(r), phi, sort='I'): idx[r] for r in range(nd)}, mask_at(key, idx))
                    break
        if cand is None:
            # q = i div b  and  r = i mod b
            parts = {}
            for c in _conjuncts(d):
                if c.op != 'eq0':
                    continue
                for m, k in t.poly_of(c.args[0]).items():
                    if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op == 'app' and m[0][0].args[0] in ('idiv', 'imod'):
                        a = m[0][0]
                        rest = t.scale(t.sub(c.args[0], t.scale(a, k)), -1 / k)
                        if i not in t.fv(rest) and i in t.fv(a.args[1]):
                            parts[(a.args[0], a.args[1], a.args[2])] = rest
            for (f_, a, b), rest in list(parts.items()):
                if f_ == 'idiv' and ('imod', a, b) in parts:
                    v = t.add(t.mul(rest, b), parts[('imod', a, b)])
                    s = t._solve(t.sub(a, v), i)
                    if s is not None:
                        cand = ('lin', s, {})
                        break
        if cand is None:
            # block:  lo(i) <= x < lo(i) + c  with lo = a + c*i
            cand = block_solve(E, d, i)
        if cand is None:
            return None
        phis.append(cand)
    f = phis[0]
    for g in phis[1:]:
        if g[1] is not f[1] and not E.entails(t.eq(g[1], f[1])):
            return None
    return f


def block_solve(E, d, i):
    lows = []
    for c in _conjuncts(d):
        if c.op == 'not' and c.args[0].op == 'lt0':     # x >= 0
            x = c.args[0].args[0]
            p = t.poly_of(x)
            step = {}
            rest = {}
            ok = True
            for m, k in p.items():
                dm = dict(m)
                if i in dm:
                    if dm[i] != 1:
                        ok = False
                        break
                    del dm[i]
                    step[tuple(sorted(dm.items(), key=lambda ae: ae[0].id))] = -k
                elif any(i in t.fv(a) for a, e in m):
                    ok = False
                    break
                else:
                    rest[m] = k
            if ok and step:
                st = t.from_poly(step)
                if E.entails(t.lt(ZERO, st)):
                    lows.append((st, t.from_poly(rest), x))
    for st, rest, x in lows:
        # need x < st from the other conjuncts
        v = i
        if E.prover.entails(E.hyps() + _conjuncts(d), t.lt(x, st), 3000):
            return ('lin', t.idiv(rest, st), {})
    return None


def solve_obj(E, nm, kind, dims, cell, prefn, wpaths, ivar, n, apply_closed, hvnames, closed_fns, info):
    """returns (at(i, idx) -> SV at start of iteration i, final(idx) -> SV, written(idx) -> Bool) or None (not yet)"""
    own = comp_names(nm)
    qs = tuple(t.fresh('lq', 'I') for _ in dims)
    with E.assuming_idx(qs, dims):
        with E.ctx(t.le(ZERO, ivar), t.lt(ivar, n)):
            W = t.bor(*[t.band(c, t.bor(*[g(qs) for g in gs])) for c, gs in wpaths])
            W = apply_closed(W, ivar)
            if not dims:
                W = TRUE
            N = cell(qs)
            N = map_sv(N, lambda x: apply_closed(x, ivar))
            others = set()
            for comp in (N.re, N.im, N.nan, N.inf, W):
                for o in occurrences(comp, hvnames):
                    if o.args[0] not in own:
                        others.add(o.args[0])
            if others:
                if os.environ.get('PYVC_LOOPS'):
                    print(nm, 'depends on', others, t.show(N.re)[:1500])
                return None
            if occurrences(W, own):
                raise Unsupported('write target depends on the array itself')
            if N.inf is not FALSE:
                raise Unsupported('infinite values in a loop')
            if W is not TRUE and E.entails(W):
                W = TRUE
            hvc = havoc_cell(nm, kind, qs, True)
            if ivar in t.fv(W):
                return map_rule(E, nm, kind, dims, qs, N, W, prefn, ivar, n, own, hvc, info)
            return acc_rule(E, nm, kind, dims, qs, N, W, prefn, ivar, n, own, hvc, info)


def inst(v, qs, idx, extra=None):
    m = dict(zip(qs, idx))
    if extra:
        m.update(extra)
    return map_sv(v, lambda x: t.subst(x, m))


def map_rule(E, nm, kind, dims, qs, N, W, prefn, ivar, n, own, hvc, info):
    s = solve_for(E, W, ivar, qs)
    if s is None:
        try:
            at, fin, w = acc_rule(E, nm, kind, dims, qs, N, W, prefn, ivar, n, own, hvc, info)
            return at, fin, (lambda idx: TRUE)
        except Unsupported:
            pass
        raise Unsupported('cannot determine which iteration writes a slot (%s line %d): %s' % (info[1], info[2], t.show(W)[:300]))
    phi = s[1]
    selmap = s[2]
    selguard = s[3] if len(s) > 3 else None
    # reads of the array itself
    prq = prefn(qs)

    def own_reads(x):
        m = {}
        for o in occurrences(x, own):
            r = o.args[1:]
            at = tuple(t.subst(y, {ivar: phi}) for y in r)
            if all(a is b for a, b in zip(r, qs)) or all(a is b or E.entails(t.eq(a, b)) for a, b in zip(at, qs)):
                c = prq
            else:
                # slot must not have been written before
                j = t.fresh('lj', 'I')
                Wj = t.subst(t.subst(W, {ivar: j}), dict(zip(qs, r)))
                if any(v.args[0].startswith('$') for a in r for v in t.fv(a)):
                    raise Unsupported('loop reads its own array under a binder')
                hy = E.hyps() + _conjuncts(W) + [t.le(ZERO, j), t.lt(j, ivar)]
                if not E.prover.entails(hy, t.bnot(Wj), 3000):
                    raise Unsupported('loop reads slots written by earlier iterations (%s line %d)' % (info[1], info[2]))
                c = prefn(tuple(r))
            nmm = o.args[0]
            m[o] = c.nan if nmm.endswith('_nan') else (c.im if nmm.endswith('_im') else c.re)
        return t.subst(x, m) if m else x
    N = map_sv(N, own_reads)
    Wphi = t.subst(W, {ivar: phi})
    if selmap:
        Wphi = t.subst(Wphi, selmap)
    guard = t.band(t.le(ZERO, phi), t.lt(phi, n), Wphi)
    if selguard is not None:
        guard = t.band(selguard, Wphi)
    with E.ctx(*_conjuncts(guard)):
        val = map_sv(N, lambda x: t.subst(x, {ivar: phi}))
        if selmap:
            val = map_sv(val, lambda x: t.subst(x, selmap))

    def final(idx):
        g = t.subst(guard, dict(zip(qs, idx)))
        if g is FALSE:
            return prefn(tuple(idx))
        with E.ctx(*_conjuncts(g)):
            v = inst(val, qs, idx)
        if g is TRUE:
            return v
        return V.cite(g, v, prefn(tuple(idx)))

    def written(idx):
        return t.subst(guard, dict(zip(qs, idx)))

    def at(i, idx):
        """value at the start of iteration i: the slot has been written by an earlier one"""
        sub = dict(zip(qs, idx))
        g = t.band(t.subst(guard, sub), t.lt(t.subst(phi, sub), i))
        if g is FALSE:
            return prefn(tuple(idx))
        with E.ctx(*_conjuncts(g)):
            v = inst(val, qs, idx)
        return v if g is TRUE else V.cite(g, v, prefn(tuple(idx)))
    return at, final, written


def acc_rule(E, nm, kind, dims, qs, N, W, prefn, ivar, n, own, hvc, info):
    j = t.var('$s%d' % next(t._fresh), 'I')

    def mention(x):
        return bool(occurrences(x, own))
    comps = {}
    if not (mention(N.re) or mention(N.im) or mention(N.nan)) and ivar not in t.fv(W):
        # last value (under W)
        def fin_at(i, idx, n_):
            v = map_sv(inst(N, qs, idx), lambda x: t.subst(x, {ivar: t.sub(n_, ONE)}))
            return v

        def final(idx):
            w = t.subst(W, dict(zip(qs, idx)))
            v = fin_at(None, idx, n)
            return v if w is TRUE else V.cite(w, v, prefn(tuple(idx)))

        def at(i, idx):
            w = t.subst(W, dict(zip(qs, idx)))
            v = map_sv(inst(N, qs, idx), lambda x: t.subst(x, {ivar: t.sub(i, ONE)}))
            return V.cite(t.band(w, t.lt(ZERO, i)), v, prefn(tuple(idx)))
        return at, final, (lambda idx: t.subst(W, dict(zip(qs, idx))))
    if kind == 'b':
        g = t.subst(N.re, {hvc.re: FALSE})
        h = t.subst(N.re, {hvc.re: TRUE})
        if mention(g) or mention(h):
            raise Unsupported('boolean loop state')
        if h is TRUE or E.entails(h):
            def val(m, idx):
                p = prefn(tuple(idx))
                return SV('b', t.bor(p.re, E.np.any_term((j,), (normdim(m),), t.subst(t.subst(g, dict(zip(qs, idx))), {ivar: j}))))
        elif g is FALSE or E.entails(t.bnot(g)):
            def val(m, idx):
                p = prefn(tuple(idx))
                return SV('b', t.band(p.re, E.np.all_term((j,), (normdim(m),), t.subst(t.subst(h, dict(zip(qs, idx))), {ivar: j}))))
        else:
            raise Unsupported('boolean loop state')
        return (lambda i, idx: val(i, idx)), (lambda idx: val(n, idx)), (lambda idx: t.subst(W, dict(zip(qs, idx))))
    F = {}
    for c in ('re', 'im'):
        x = getattr(N, c)
        if x is ZERO and c == 'im' and kind != 'c':
            F[c] = ZERO
            continue
        d = t.sub(x, getattr(hvc, c))
        if mention(d):
            d = E.prover.renorm(d)
            if mention(d):
                raise Unsupported('loop state update is not an accumulation (%s line %d): %s' % (info[1], info[2], t.show(d)[:300]))
        F[c] = d
    gn = t.subst(N.nan, {hvc.nan: FALSE})
    hn = t.subst(N.nan, {hvc.nan: TRUE})
    if mention(gn) or mention(hn):
        raise Unsupported('NaN state of a loop accumulation')
    if hn is not TRUE and not E.entails(hn):
        # the update may clear a NaN
        raise Unsupported('loop may clear NaN')

    def val(m, idx):
        p = prefn(tuple(idx))
        mp = dict(zip(qs, idx))
        mp[ivar] = j
        re = t.add(p.re, t.mk_sum(ZERO, m, j, t.subst(F['re'], mp)))
        im = t.add(p.im, t.mk_sum(ZERO, m, j, t.subst(F['im'], mp))) if kind == 'c' else ZERO
        nan = p.nan
        if gn is not FALSE:
            nan = t.bor(nan, E.np.any_term((j,), (normdim(m),), t.subst(gn, mp)))
        if p.inf is not FALSE:
            raise Unsupported('infinite loop state')
        return SV(kind, re, im, nan)
    return (lambda i, idx: val(i, idx)), (lambda idx: val(n, idx)), (lambda idx: t.subst(W, dict(zip(qs, idx))))
