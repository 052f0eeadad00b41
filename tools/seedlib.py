"""Helper for planted bugs:  seedlib.make(id, prop, edits=[(file, old, new)], needs, what, demo)
writes seeded/<id>/;  python3 tools/seedlib.py validate ID.. | check ID.. [--tests]
Everything runs on a copy of /repo bind-mounted over /repo in a private namespace."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = ROOT + '/seeded'


def make(id, prop, edits, needs, what, demo):
    d = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', d + '/w', 'HEAD'])
        for f, old, new in edits:
            p = d + '/w/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', d + '/w', 'diff']).decode()
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', d + '/w'])
        shutil.rmtree(d)
    o = SD + '/' + id
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(o + '/demo.sh', 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(o + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(o + '/meta.json', 'w'), indent=1)


def ns(repo, cmd, timeout, ev=None):
    m = 'mount --bind %s /repo; ' % repo
    if ev:
        m += 'mount --bind %s /verif/evidence; ' % ev
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', m + 'cd /repo; ' + cmd], capture_output=True, text=True, timeout=timeout)


def copy(id=None):
    d = tempfile.mkdtemp(prefix='rep')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    if id:
        subprocess.check_call(['git', '-C', d + '/repo', 'apply', SD + '/' + id + '/patch.diff'])
    return d


def validate(id):
    r = []
    d0, d1 = copy(), copy(id)
    try:
        a = ns(d0 + '/repo', 'bash %s/%s/demo.sh' % (SD, id), 300)
        b = ns(d1 + '/repo', 'bash %s/%s/demo.sh' % (SD, id), 300)
        r.append('demo clean=%d patched=%d' % (a.returncode, b.returncode))
        if a.returncode or not b.returncode:
            r.append((a.stdout + a.stderr)[-300:] + '//' + (b.stdout + b.stderr)[-300:])
        if '--tests' in sys.argv:
            t = ns(d1 + '/repo', '. /opt/vp/env.sh; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --junitxml=%s/j.xml' % d1, 900)
            x = subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', d1 + '/o.json', 'junit:' + d1 + '/j.xml'], capture_output=True, text=True)
            r.append('tests: ' + (t.stdout.strip().split('\n') or [''])[-1][:100])
            try:
                res = json.load(open(d1 + '/o.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))
                def names(j):
                    for k in ('passed', 'stable', 'pass'):
                        if k in j: return set(j[k])
                    return set(k for k, v in j.get('tests', j).items() if v in ('passed', 'pass', True))
                miss = names(base) - names(res)
                r.append('stable tests broken: %s' % sorted(miss) if miss else 'stable tests ok')
            except Exception as e:
                r.append('? %s' % e)
    finally:
        shutil.rmtree(d0); shutil.rmtree(d1)
    return id + ': ' + ' | '.join(r)


def check(id, prop=None):
    prop = prop or json.load(open(SD + '/' + id + '/meta.json'))['property']
    d1 = copy(id)
    os.makedirs(d1 + '/ev')
    try:
        b = ns(d1 + '/repo', 'cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3-vt /verif/check.py %s quick' % prop, 1000, d1 + '/ev')
        lines = [l[:200] for l in b.stdout.strip().split('\n')]
        return '%s %s: exit %d\n   %s' % (id, prop, b.returncode, '\n   '.join(lines[-6:]))
    finally:
        shutil.rmtree(d1)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = [a for a in sys.argv[2:] if not a.startswith('--')] or sorted(os.listdir(SD))
    if sys.argv[1] == 'check':
        for i in ids:
            print(check(i), flush=True)
    else:
        with ThreadPoolExecutor(7) as ex:
            for x in ex.map(validate, ids):
                print(x, flush=True)
