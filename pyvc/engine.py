"""Symbolic execution of the (mechanically transformed) source of /repo: path
exploration, loop rules, obligations."""
import builtins
import collections
import itertools
import os
import signal
import sys
import threading
import time
import types
from fractions import Fraction
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE
from . import values as V
from .values import SV, SArr, Base, DType, Unsupported, PathEnd, lift, out, mkint, dimT, normdim, truth, map_sv, is_scalar
from . import solver
from . import loader

NATIVE_LIMIT = 40
TRACE = int(os.environ.get('PYVC_TRACE', '0'))
BUDGET = int(os.environ.get('PYVC_BUDGET', '60'))


class ObligTimeout(BaseException):
    pass



class Ret:
    __slots__ = ('value',)

    def __init__(self, v):
        self.value = v


class _Brk:
    value = None


BRK = _Brk()


class LoopRaise(BaseException):
    """an exception escaping the arbitrary iteration of a symbolic loop"""


class Level:
    """one nesting level of exploration"""

    def __init__(self, prefix, local=None):
        self.prefix = list(prefix)
        self.trace = []
        self.sigs = []
        self.pc = []
        self.local = local       # set of local symbol names (None: top level)
        self.pending = []


class Oblig:
    def __init__(self, name, status, backend, secs, path, note='', model=None, goal=None, hyps=None):
        self.name, self.status, self.backend, self.secs, self.path = name, status, backend, secs, path
        self.note, self.model = note, model
        self.goal, self.hyps = goal, hyps


class Engine:
    def __init__(self, deadline=None):
        from .npshim import NP
        self.np = None
        self.levels = []
        self.facts = solver.Facts()
        self.stats = {}
        self.prover = solver.Prover(self.facts, self.stats)
        self.prover.engine = self
        self.epoch = 0
        self._uid = 0
        self.obligs = []
        self.sels = {}
        self.active = {0}
        self.tok = 0
        self._tokc = itertools.count(1)
        self.idxctx = []
        self.modules = {}
        self.loading = 0
        self.stubs = {}           # qualified name -> stub(E, *args, **kw)
        self.used_stubs = set()
        self.funcs = set()        # functions executed
        self.files = {}
        self.loop_inv = []
        self.max_paths = 400
        self.deadline = deadline
        self.writes = None
        self.appends = None
        self.trusted = set()
        self.local_objs = None
        self.wguards = None
        self.loopvars = []
        self.captured = []
        V.ENGINE[0] = self
        self.np = NP(self)
        t._entails_hook[0] = self._entails_hook
        from . import shims
        self.shims = shims
        shims.setup(self)

    # ------------------------------------------------------------ contexts
    def uid(self):
        self._uid += 1
        return self._uid

    def _entails_hook(self, c):
        if self.prover.busy:
            return False
        return self.entails(c)

    def hyps(self):
        out = []
        for l in self.levels:
            out.extend(l.pc)
        out.extend(self.idxctx)
        return out

    class _Ctx:
        def __init__(self, E, conds):
            self.E, self.conds = E, conds

        def __enter__(self):
            E = self.E
            self.s = (set(t._nonzero), set(t._nonneg), set(t._zeros), dict(t.EQS), E.tok, set(E.active), len(E.idxctx))
            E.tok = next(E._tokc)
            E.active = set(E.active) | {E.tok}
            t._mulcache.clear()
            for c in self.conds:
                E.idxctx.append(c)
                E._learn(c)
            return self

        def __exit__(self, *a):
            E = self.E
            nz, nn, zz, eqs, E.tok, E.active, n = self.s
            t.EQS.clear()
            t.EQS.update(eqs)
            t._zeros.clear()
            t._zeros.update(zz)
            t._nonzero.clear()
            t._nonzero.update(nz)
            t._nonneg.clear()
            t._nonneg.update(nn)
            t._mulcache.clear()
            del E.idxctx[n:]
            return False

    def ctx(self, *conds):
        return Engine._Ctx(self, [c for c in conds if c is not TRUE])

    def assuming_idx(self, idx, dims):
        cs = []
        for i, d in zip(idx, dims):
            cs.append(t.le(ZERO, i))
            cs.append(t.lt(i, dimT(d)))
        return self.ctx(*cs)

    def _learn(self, c):
        if c.op == 'and':
            for x in c.args:
                self._learn(x)
        elif c.op == 'not' and c.args[0].op == 'lt0':
            t.known.nonneg(c.args[0].args[0])
            x = c.args[0].args[0]
            # x - k >= 0 with k >= 0 constant: leading variable non-negative
            p = t.poly_of(x)
            k = p.get((), Fraction(0))
            if k < 0:
                y = t.sub(x, t.num(k))
                t.known.nonneg(y)
                t.known.nonzero(y)
        elif c.op == 'not' and c.args[0].op == 'eq0':
            t.known.nonzero(c.args[0].args[0])
        elif c.op == 'eq0':
            t._zeros.add(c.args[0])
            t.learn_eq(c.args[0])
            t._mulcache.clear()
        elif c.op == 'lt0':
            t.known.nonneg(t.neg(c.args[0]))
            t.known.nonzero(c.args[0])
            t.known.nonzero(t.neg(c.args[0]))
            p = t.poly_of(c.args[0])
            k = p.get((), Fraction(0))
            if k >= 0:
                y = t.neg(t.sub(c.args[0], t.num(k)))
                t.known.nonneg(y)
                t.known.nonzero(y)
        elif c.op == 'or':
            # sum of non-negatives being non-zero etc. is left to the solver
            pass

    def assume(self, c, check=True):
        if isinstance(c, SV):
            c = truth(c)
        if c is True or c is TRUE:
            return
        if c is False or c is FALSE:
            raise PathEnd('assumption is false')
        l = self.levels[-1]
        if l.local is not None:
            raise Unsupported('assumption inside a loop body')
        l.pc.append(c)
        self._learn(c)

    def entails(self, c):
        if c is TRUE:
            return True
        return self.prover.entails(self.hyps(), c)

    def feasible(self):
        return self.prover.feasible(self.hyps())

    def _level_of(self, c):
        """outermost level whose symbols include everything in c"""
        k = len(self.levels) - 1
        while k > 0:
            loc = self.levels[k].local
            if mentions(c, loc):
                return k
            k -= 1
        return 0

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the proof exhausted')
        hy = self.hyps()
        if c in hy:
            return True
        n = t.bnot(c)
        if n in hy:
            return False
        if self.prover.entails(hy, c):
            return True
        if self.prover.entails(hy, n):
            return False
        if any(v.args[0].startswith('$') for v in t.fv(c)):
            raise Unsupported('data-dependent decision on a bound index')
        if self.idxctx:
            raise Unsupported('data-dependent decision inside an index context')
        l = self.levels[self._level_of(c)]
        k = len(l.trace)
        sig = t.shash(c)
        if k < len(l.prefix):
            b = l.prefix[k]
            if isinstance(b, tuple):
                b, s0 = b
                if s0 != sig:
                    raise Unsupported('path replay diverged')
        else:
            b = True
            l.pending.append(l.sigs + [(False, sig)])
        l.trace.append(b)
        l.sigs.append((b, sig))
        cc = c if b else n
        l.pc.append(cc)
        self._learn(cc)
        return b

    def bounds(self, x, n):
        c = t.band(t.le(ZERO, x), t.lt(x, n))
        self.bounds_c(c)

    def bounds_c(self, c):
        if c is TRUE or self.entails(c):
            return
        if any(v.args[0].startswith('$') for v in t.fv(c)) or self.idxctx:
            raise Unsupported('index not provably in bounds: %s' % t.show(c)[:200])
        if not self.decide(c):
            raise IndexError('index out of bounds')

    def add_sel(self, key, dims, n):
        self.sels[key] = (dims, n)

    def log_write(self, base, guard):
        if self.writes is not None:
            self.writes.setdefault(base, base.fn)
            self.wguards.setdefault(base, []).append(guard)

    # ------------------------------------------------------------ obligations
    def oblige(self, name, goal, extra=()):
        if isinstance(goal, bool):
            goal = TRUE if goal else FALSE
        if isinstance(goal, SV):
            goal = truth(goal)
        hy = self.hyps() + list(extra)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the proof exhausted')
        key = (frozenset(h.id for h in hy), goal.id)
        r = self.prover._obl.get(key) if hasattr(self.prover, '_obl') else None
        if not hasattr(self.prover, '_obl'):
            self.prover._obl = {}
        if r is None:
            if TRACE:
                print('   ..', ''.join('T' if b else 'F' for b in self.levels[0].trace), name, t.show(goal)[:TRACE], flush=True)
            r = self._prove_timed(hy, goal)
            if TRACE:
                print('     ', r.status, r.backend, '%.2fs' % r.secs, flush=True)
            if r.status == 'refuted':
                # a path that is itself infeasible proves anything
                if not self.prover.feasible(hy):
                    r = solver.Result('proved', 'z3', r.secs)
            self.prover._obl[key] = r
        o = Oblig(name, r.status, r.backend, r.secs, ''.join('T' if b else 'F' for b in self.levels[0].trace), r.note, r.model, goal, hy)
        self.obligs.append(o)
        return r.status == 'proved'

    def _prove_timed(self, hy, goal):
        if not BUDGET or threading.current_thread() is not threading.main_thread():
            return self.prover.prove(hy, goal)
        t0 = time.time()

        fired = []

        def stop(*a):
            fired.append(1)
            raise ObligTimeout()
        old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, BUDGET, 5)
        try:
            r = self.prover.prove(hy, goal)
        except ObligTimeout:
            r = solver.Result('unknown', 'z3', time.time() - t0, None, 'obligation budget of %ds exhausted' % BUDGET)
        except t.TooBig as e:
            r = solver.Result('unknown', 'z3', time.time() - t0, None, 'formula too large: %s' % e)
        except Exception:
            # the alarm may surface as another exception when it interrupts a ctypes call
            if not fired:
                raise
            r = solver.Result('unknown', 'z3', time.time() - t0, None, 'obligation budget of %ds exhausted' % BUDGET)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            self.prover.depth = 0
            self.prover.busy = 0
        return r

    # ------------------------------------------------------------ exploration
    def run_path(self, fn, prefix):
        """run fn along one decision prefix; -> (reached the end, pending prefixes)"""
        self._begin_path()
        l = Level(prefix)
        self.levels = [l]
        reached = False
        try:
            fn(self)
            reached = True
        except PathEnd:
            pass
        finally:
            self.pending_prefixes = list(l.pending)
            self.idxctx = []
        return reached, list(l.pending)

    def explore(self, fn, name='unit'):
        """run fn on every feasible path"""
        stack = [[]]
        npaths = 0
        nreach = 0
        while stack:
            prefix = stack.pop()
            npaths += 1
            if npaths > self.max_paths:
                raise Unsupported('more than %d paths in %s' % (self.max_paths, name))
            self._begin_path()
            l = Level(prefix)
            self.levels = [l]
            try:
                fn(self)
                nreach += 1
            except PathEnd:
                pass
            finally:
                self.idxctx = []
            stack.extend(l.pending)
            self.levels = []
        self.stats['paths'] = self.stats.get('paths', 0) + npaths
        self.stats['paths_to_end'] = self.stats.get('paths_to_end', 0) + nreach
        return npaths, nreach

    def _begin_path(self):
        t.DEFS.clear()
        t.DEFNAMES.clear()
        self._ndef = 0
        t.known.clear()
        V.basic_known()
        t.reset_fresh()
        self._uid = 0
        self.epoch = 0
        self.sels = {}
        self.facts.by_fn.clear()
        self.facts.by_term.clear()
        del self.facts.quant[:]
        del self.facts.global_[:]
        self.idxctx = []
        self.writes = None
        self.appends = None
        self.wguards = None
        self.loopvars = []
        self.captured = []
        self.tok = next(self._tokc)
        self.active = {self.tok}
        self.prover.newpath()

    def subexplore(self, run, local, fixed=()):
        """run() on every path of an inner level; returns list of (pc, result)"""
        res = []
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > 64:
                raise Unsupported('too many paths in a loop body')
            l = Level(prefix, local)
            self.levels.append(l)
            with self.ctx():
                for c in fixed:
                    l.pc.append(c)
                    self._learn(c)
                nfix = len(fixed)
                try:
                    r = run()
                    res.append((list(l.pc[nfix:]), r))
                except PathEnd:
                    pass
                finally:
                    self.levels.pop()
            stack.extend(l.pending)
        return res

    # ------------------------------------------------------------ let-names
    def named(self, v):
        '''scalar results that contain a finite sum are let-bound (definitional names),
        so that later expressions stay small; the definitions are facts'''
        if v.kind not in 'fc' or self.idxctx or self.loading or len(self.levels) != 1:
            return v
        re, im = self.name_term(v.re), self.name_term(v.im)
        if re is v.re and im is v.im:
            return v
        return SV(v.kind, re, im, v.nan, v.inf, v.dt)

    def name_term(self, x):
        if x.op != 'poly' or (len(x.args) < 2 and t.size(x, 12) < 12):
            return x
        if not any(y.op in ('sum', 'red') for y in t.outer(x)):
            return x
        if any(v.args[0].startswith('$') for v in t.fv(x)):
            return x
        nm = t.DEFNAMES.get(x)
        if nm is None:
            self._ndef += 1
            nm = t.var('let!%d' % self._ndef, 'R')
            t.DEFNAMES[x] = nm
            t.DEFS[nm] = x
            self.facts.by_term[nm] = [t.eq0_raw(t.sub(nm, x))]
        return nm

    # ------------------------------------------------------------ modules
    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            base = pkg.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            name = '.'.join([b for b in base if b] + ([name] if name else []))
        top = name.split('.')[0]
        if top in ('RMutils', 'RMtools_1D', 'RMtools_3D', 'RMtools_1D.models_ns'):
            try:
                m = self.load(name)
            except Unsupported:
                # cannot be executed symbolically even at import time: opaque
                m = self.modules[name] = self.shims.Opaque(name)
                return m
            if isinstance(m, self.shims.Opaque):
                return m
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and loader.find_module(name + '.' + f):
                        setattr(m, f, self.load(name + '.' + f))
                return m
            return self.load(top)
        return self.shims.import_(self, name, fromlist)

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = loader.find_module(name)
        if path is None:
            raise ImportError(name)
        m = types.ModuleType(name)
        self.modules[name] = m
        if os.path.isdir(path) or path.endswith('__init__.py'):
            m.__path__ = [os.path.dirname(path) if path.endswith('.py') else path]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        par, _, ch = name.rpartition('.')
        if par:
            setattr(self.load(par), ch, m)
        if path.endswith('.py'):
            code, h = loader.compile_module(name, path)
            self.files[path] = h
            m.__file__ = path
            m.__dict__['__builtins__'] = self.shims.builtins_for(self)
            m.__dict__.update(self.hooks())
            self.loading += 1
            try:
                exec(code, m.__dict__)
            finally:
                self.loading -= 1
            # patch in stubs
        return m

    def hooks(self):
        s = self.shims
        return {'_vf_f': s.vf_f, '_vf_c': s.vf_c, '_vf_div': s.vf_div, '_vf_idiv': s.vf_idiv, '_vf_pow': s.vf_pow,
                '_vf_mod': s.vf_mod, '_vf_add': s.vf_add, '_vf_mul': s.vf_mul, '_vf_iadd': s.vf_iadd, '_vf_imul': s.vf_imul,
                '_vf_list': s.vf_list, '_vf_comp': s.vf_comp, '_vf_BRK': BRK, '_vf_RET': Ret,
                '_vf_isret': lambda r: isinstance(r, Ret), '_vf_for': self.for_, '_vf_while': self.while_}

    def fn(self, mod, name):
        """the (transformed) function under verification"""
        m = self.load(mod)
        o = m
        for p in name.split('.'):
            if not hasattr(o, p):
                raise Unsupported('function %s.%s no longer exists' % (mod, name))
            o = getattr(o, p)
        self.funcs.add(mod + '.' + name)
        return o

    def stub(self, mod, name, f, missing_ok=False):
        """replace a callee by its contract in every module that imported it"""
        m = self.load(mod)
        if not hasattr(m, name):
            if missing_ok:
                return None
            raise Unsupported('function %s.%s no longer exists' % (mod, name))
        orig = getattr(m, name)
        self.stubs[mod + '.' + name] = (orig, f)
        for mm in list(self.modules.values()):
            for k, v in list(mm.__dict__.items()):
                if v is orig:
                    mm.__dict__[k] = f
        return orig

    def unstub(self):
        for q, (orig, f) in self.stubs.items():
            for mm in list(self.modules.values()):
                for k, v in list(mm.__dict__.items()):
                    if v is f:
                        mm.__dict__[k] = orig
        self.stubs = {}

    # ------------------------------------------------------------ loops
    def for_(self, it, body, get, set_, info):
        seq = self.shims.iter_of(self, it)
        if isinstance(seq, self.shims.SymSeq):
            return self.sym_for(seq, body, get, set_, info)
        for x in seq:
            r = body(x)
            if r is BRK:
                return BRK
            if isinstance(r, Ret):
                return r
        return None

    def while_(self, cond, body, get, set_, info):
        for h in self.loop_inv:
            r = h(self, cond, body, get, set_, info)
            if r is not NotImplemented:
                return r
        n = 0
        while cond():
            n += 1
            if n > 64:
                raise Unsupported('while loop without an invariant (%s line %d)' % (info[1], info[2]))
            # every iteration must be decided by the path; unbounded symbolic loops end here
            r = body()
            if r is BRK:
                return BRK
            if isinstance(r, Ret):
                return r
        return None

    @staticmethod
    def read_state(get):
        st = {}
        for k, g in get().items():
            try:
                st[k] = g()
            except NameError:
                pass
        return st

    def sym_for(self, seq, body, get, set_, info):
        from . import loops
        return loops.sym_for(self, seq, body, get, set_, info)

    # ------------------------------------------------------------ inputs
    def int(self, name, lo=None, hi=None):
        v = t.var(name, 'I')
        if lo is not None:
            self.assume(t.le(t.num(lo), v))
        if hi is not None:
            self.assume(t.le(v, t.num(hi)))
        return SV('i', v)

    def real(self, name, lo=None, nan=False, pos=False):
        v = t.var(name, 'R')
        if lo is not None:
            self.assume(t.le(t.num(lo), v))
        if pos:
            self.assume(t.lt(ZERO, v))
        return SV('f', v, nan=t.bvar(name + '_isnan') if nan else FALSE)

    def bool(self, name):
        return SV('b', t.bvar(name))

    def array(self, name, shape, dtype='float64', nan=False, nonneg=False, pos=False):
        dt = DType(dtype)
        shape = tuple(shape)
        if pos:
            t.POS_FNS.add(name)
            self.facts.by_fn[name] = lambda *k: [t.bnot(t._mk('lt0', (t.neg(t.app(name, *k)),), 'B')).args[0]]
        elif nonneg:
            t.NONNEG_FNS.add(name)
            self.facts.by_fn[name] = lambda *k: [t._mk('not', (t._mk('lt0', (t.app(name, *k),), 'B'),), 'B')]

        def fn(idx):
            nn = t.bapp(name + '_nan', *idx) if nan else FALSE
            if dt.kind == 'c':
                return SV('c', t.app(name + '_re', *idx), t.app(name + '_im', *idx), nn)
            if dt.kind == 'b':
                return SV('b', t.bapp(name, *idx))
            if dt.kind == 'i':
                return SV('i', t.app(name, *idx, sort='I'))
            return SV('f', t.app(name, *idx), nan=nn)
        return SArr(shape, dt, fn)

    def index(self, *dims):
        """fresh index variables with range context; use as: with E.index(n, m) as (i, j)"""
        return _Idx(self, dims)

    # ------------------------------------------------------------ comparing
    def same(self, a, b):
        """Bool term: values a and b agree (nan = nan)"""
        a, b = V.tonum(lift(a)), V.tonum(lift(b))
        v = t.eq(a.re, b.re)
        if a.kind == 'c' or b.kind == 'c':
            v = t.band(v, t.eq(a.im, b.im))
        nn = t.band(t.implies(a.nan, b.nan), t.implies(b.nan, a.nan))
        ii = TRUE
        if a.inf is not FALSE or b.inf is not FALSE:
            ii = t.bor(a.nan, t.band(t.implies(a.inf, b.inf), t.implies(b.inf, a.inf)))
        return t.band(nn, ii, t.bor(a.nan, v))

    def oblige_same(self, name, a, b, extra=()):
        a, b = V.tonum(lift(a)), V.tonum(lift(b))
        if a.nan is not FALSE or b.nan is not FALSE:
            self.oblige(name + ':nan', t.band(t.implies(a.nan, b.nan), t.implies(b.nan, a.nan)), extra)
        if a.inf is not FALSE or b.inf is not FALSE:
            self.oblige(name + ':inf', t.bor(a.nan, t.band(t.implies(a.inf, b.inf), t.implies(b.inf, a.inf))), extra)
        ex = list(extra) + [t.bnot(a.nan)] if a.nan is not FALSE else list(extra)
        self.oblige(name + (':re' if 'c' in (a.kind, b.kind) else ':value'), t.eq(a.re, b.re), ex)
        if 'c' in (a.kind, b.kind):
            self.oblige(name + ':im', t.eq(a.im, b.im), ex)

    def oblige_shape(self, name, a, dims):
        a = self.np.arr(a)
        if len(a.dims) != len(dims):
            self.oblige(name + ':ndim', FALSE)
            return False
        ok = True
        for k, (x, y) in enumerate(zip(a.dims, dims)):
            ok = self.oblige('%s:dim%d' % (name, k), t.eq(dimT(x), dimT(y))) and ok
        return ok


class _Idx:
    def __init__(self, E, dims):
        self.E, self.dims = E, dims

    def __enter__(self):
        vs = tuple(ZERO if t.eqvar(dimT(d)) is ONE else t.fresh('q', 'I') for d in self.dims)
        self.c = self.E.assuming_idx(vs, self.dims)
        self.c.__enter__()
        return vs

    def __exit__(self, *a):
        return self.c.__exit__(*a)


def mentions(c, local):
    """does term c mention a local symbol (variable or function name)"""
    seen = set()
    todo = [c]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('var', 'app') and isinstance(x.args[0], str) and local.has(x.args[0]):
            return True
        if x.op == 'poly':
            for m, k in x.args:
                for a, e in m:
                    todo.append(a)
        else:
            for a in x.args:
                if isinstance(a, T):
                    todo.append(a)
    return False
