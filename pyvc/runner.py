"""Parallel proof driver: every execution path of every unit is proved in its own
forked process (so results do not depend on the order in which paths are run)."""
import collections
import importlib
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback

MEM = 6 << 30


def child(fn, prefix, limit, out, prop):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    res = {'reached': False, 'pending': [], 'unsupported': None, 'obligs': [], 'secs': 0}
    t0 = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        from . import engine, values, terms as t
        E = engine.Engine(deadline=t0 + limit)
        try:
            res['reached'], _ = E.run_path(fn, prefix)
            if res['reached']:
                res['consistent'] = E.prover.feasible(E.hyps())
        except values.Unsupported as e:
            res['unsupported'] = str(e)[:400]
        except t.TooBig as e:
            res['unsupported'] = 'formula too large'
        except (engine.ObligTimeout, MemoryError) as e:
            res['unsupported'] = 'resources exhausted (%s)' % type(e).__name__
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
            res['unsupported'] = 'engine: %s: %s at %s' % (type(e).__name__, str(e)[:200], where)
        res['pending'] = getattr(E, 'pending_prefixes', [])
        for o in E.obligs:
            m = ''
            if o.status == 'refuted' and o.model:
                try:
                    m = str(o.model[0])[:2000]
                except Exception:
                    m = ''
            res['obligs'].append(dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 3), path=o.path,
                                      note=o.note, goal='' if o.status == 'proved' else t.show(o.goal)[:3000], model=m))
        res['stats'] = {k: v for k, v in E.stats.items()}
        res['files'] = dict(E.files)
        res['funcs'] = sorted(E.funcs)
        res['trusted'] = sorted(E.trusted)
    except BaseException as e:
        res['unsupported'] = 'driver: %s' % str(e)[:200]
    res['secs'] = time.time() - t0
    with open(out, 'wb') as f:
        pickle.dump(res, f)
    os._exit(0)


def run_units(units, limit, jobs=8, path_limit=240, log=None, early=None):
    """units: [(name, fn)] -> list of per-unit results"""
    from . import engine   # preloaded before forking
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='pyvc-')
    R = [dict(name=n, paths=0, reached=0, obligs=[], unsupported=[], stats=collections.Counter(), files={}, funcs=set(),
              trusted=set(), secs=0.0, consistent=0, unfinished=0) for n, _ in units]
    queue = collections.deque((i, []) for i in range(len(units)))
    live = {}
    n = 0
    try:
        while queue or live:
            left = limit - (time.time() - t0)
            while queue and len(live) < jobs and left > 5:
                i, prefix = queue.popleft()
                if R[i]['unsupported']:
                    continue
                n += 1
                if R[i]['paths'] >= 400:
                    R[i]['unsupported'].append('more than 400 paths')
                    continue
                out = os.path.join(tmp, '%d.pkl' % n)
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                    except OSError:
                        pass
                    child(units[i][1], prefix, min(path_limit, left), out, None)
                R[i]['paths'] += 1
                live[pid] = (i, out, time.time())
            if not live:
                if left <= 5:
                    for i, p in queue:
                        R[i]['unsupported'].append('proof time budget exhausted')
                    break
                continue
            pid, st = 0, 0
            t1 = time.time()
            while time.time() - t1 < 1.0:
                pid, st = os.waitpid(-1, os.WNOHANG)
                if pid:
                    break
                time.sleep(0.01)
            if pid in live:
                i, out, ts = live.pop(pid)
                u = R[i]
                u['secs'] += time.time() - ts
                try:
                    with open(out, 'rb') as f:
                        r = pickle.load(f)
                    os.unlink(out)
                except Exception:
                    u['unsupported'].append('a path prover process ended abnormally (status %d)' % st)
                    continue
                u['obligs'] += r['obligs']
                u['reached'] += r['reached']
                u['consistent'] += bool(r.get('consistent'))
                if r['unsupported']:
                    u['unsupported'].append(r['unsupported'])
                for k, v in r.get('stats', {}).items():
                    if isinstance(v, (int, float)):
                        u['stats'][k] += v
                u['files'].update(r.get('files', {}))
                u['funcs'] |= set(r.get('funcs', ()))
                u['trusted'] |= set(r.get('trusted', ()))
                queue.extend((i, p) for p in r['pending'])
            now = time.time()
            if early is not None and early():
                limit = 0       # a concrete failing input is at hand: stop proving
                queue.clear()
            for pid, (i, out, ts) in list(live.items()):
                if now - ts > path_limit + 30 or now - t0 > limit + 5:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        try:
                            os.kill(pid, signal.SIGKILL)
                        except OSError:
                            pass
                    R[i]['unsupported'].append('proof time budget exhausted')
                    os.waitpid(pid, 0)
                    del live[pid]
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return R


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from pyvc import runner
    mod = importlib.import_module('contracts.' + sys.argv[1])
    sel = [int(x) for x in sys.argv[2:]] or range(len(mod.UNITS))
    t0 = time.time()
    rs = runner.run_units([mod.UNITS[i][:2] for i in sel], 800)
    for i, u in zip(sel, rs):
        c = collections.Counter(o['status'] for o in u['obligs'])
        print(i, u['name'], 'paths %d/%d' % (u['reached'], u['paths']), dict(c), 'cpu %.1f' % u['secs'], sorted(set(u['unsupported']))[:3])
        seen = set()
        for o in u['obligs']:
            if o['status'] != 'proved' and o['name'] not in seen:
                seen.add(o['name'])
                print('     ', o['path'], o['name'], o['status'], o['note'][:80], o['goal'][:int(os.environ.get('GOAL', '300'))])
    print('wall %.1f' % (time.time() - t0))
