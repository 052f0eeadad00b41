"""Run-time checking of the same contracts on the real code (under the repository's own
interpreter): used (a) to replay / search a concrete failing input when an obligation is not
discharged, (b) as the cross-check of the contracts assumed for numpy, finufft, astropy ...
It never counts as proof.

    rt.py C01 --time 20 --seed 1 --tier quick --out out.json
    rt.py C01 --replay case.json
"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import os
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, REPO)
import numpy as np  # noqa


class Bad(Exception):
    """the contract is violated"""


class Skip(Exception):
    pass


class Gen:
    """seeded source of test inputs"""

    def __init__(self, seed, tier='quick'):
        self.seed = seed
        self.r = np.random.default_rng(seed)
        self.tier = tier
        self.info = {}

    def int(self, lo, hi):
        return int(self.r.integers(lo, hi + 1))

    def pick(self, *xs):
        return xs[int(self.r.integers(len(xs)))]

    def chance(self, p):
        return bool(self.r.random() < p)

    def uni(self, lo, hi, *shape):
        return self.r.uniform(lo, hi, shape) if shape else float(self.r.uniform(lo, hi))

    def norm(self, *shape):
        return self.r.normal(size=shape) if shape else float(self.r.normal())

    def note(self, **k):
        for a, b in k.items():
            self.info[a] = b if isinstance(b, (int, float, str, bool, type(None))) else repr(b)[:200]

    def nans(self, a, p):
        """flag a random subset of a (in place)"""
        a[self.r.random(a.shape) < p] = np.nan
        return a


def close(a, b, rtol=1e-6, atol=1e-9, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    ok = ~na
    if not ok.any():
        return True
    s = np.max(np.abs(b[ok])) if scale is None else scale
    with np.errstate(all='ignore'):
        d = np.abs(a[ok] - b[ok])
        same = (a[ok] == b[ok]) | (d <= atol + rtol * max(s, 0))
    return bool(np.all(same))


def need(c, msg, *a):
    if not c:
        raise Bad(msg % a if a else msg)


def same(name, got, want, **k):
    if not close(got, want, **k):
        g, w = np.asarray(got), np.asarray(want)
        d = ''
        if g.shape == w.shape and g.size:
            with np.errstate(all='ignore'):
                e = np.abs(g - w)
            e = np.where(np.isnan(g) != np.isnan(w), np.inf, np.nan_to_num(e))
            i = np.unravel_index(int(np.argmax(e)), e.shape) if e.ndim else ()
            d = ' at %s got %r expected %r' % (tuple(int(x) for x in i), g[i], w[i])
        raise Bad('%s: shapes %s %s%s' % (name, g.shape, w.shape, d))


def caseseed(prop, name, seed, i):
    h = hashlib.sha256(('%s/%s/%d/%d' % (prop, name, seed, i)).encode()).digest()
    return int.from_bytes(h[:7], 'big')


def run_case(fn, seed, tier):
    g = Gen(seed, tier)
    sink = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            fn(g)
        return 'ok', '', g
    except Skip:
        return 'skip', '', g
    except Bad as e:
        return 'bad', str(e)[:600], g
    except MemoryError:
        return 'skip', '', g
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
        return 'bad', 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:300], where), g


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--time', type=float, default=20)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--max', type=int, default=300)
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--replay')
    a = ap.parse_args()
    mod = importlib.import_module(a.prop.lower())
    tests = dict((t[0], t[1]) for t in mod.TESTS)
    if a.replay:
        c = json.load(open(a.replay))
        st, msg, g = run_case(tests[c['test']], c['case_seed'], c.get('tier', 'quick'))
        print(st, msg)
        sys.exit(1 if st == 'bad' else 0)
    t0 = time.time()
    done = {n: 0 for n in tests}
    skipped = {n: 0 for n in tests}
    keys = set()
    samples, bad = [], []
    names = [n for n in tests if not a.only or n == a.only]
    i = a.start
    while time.time() - t0 < a.time and i < a.start + a.max and names:
        for n in list(names):
            if time.time() - t0 > a.time and i > a.start:
                break
            s = caseseed(a.prop, n, a.seed, i)
            st, msg, g = run_case(tests[n], s, a.tier)
            if st == 'skip':
                skipped[n] += 1
                continue
            done[n] += 1
            keys.add((n, json.dumps(g.info, sort_keys=True) if g.info else s))
            if len(samples) < 6 and i == a.start:
                samples.append(dict(test=n, case_seed=s, **g.info))
            if st == 'bad':
                bad.append(dict(property=a.prop, test=n, case_seed=s, tier=a.tier, message=msg, inputs=g.info))
                if len([b for b in bad if b['test'] == n]) >= 3:
                    names.remove(n)
        i += 1
    out = dict(cases=sum(done.values()), per_test=done, skipped=skipped, distinct=len(keys), samples=samples, bad=bad, next=i,
               secs=time.time() - t0)
    if a.out:
        json.dump(out, open(a.out, 'w'))
    else:
        print(json.dumps({k: out[k] for k in ('cases', 'per_test', 'skipped', 'distinct', 'secs')}))
        for b in bad:
            print(b['test'], b['case_seed'], b['message'][:400], str(b['inputs'])[:300])


if __name__ == '__main__':
    sys.modules['rt'] = sys.modules['__main__']
    main()
