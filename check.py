"""Decide one property:  python3-vt /verif/check.py C01 [quick|thorough]

1. deductive proof (pyvc): every execution path of every contract unit of the property is
   symbolically executed from /repo's current source and every generated obligation is sent to
   the provers;
2. the same contract is evaluated at run time on the real code (search for a concrete failing
   input / cross-check of the trusted library contracts; bounded, never counted as proof).

exit 1 + VIOLATION line : a concrete failing input was found, or a prover refuted an obligation
                          (then, without an input, the line ends with no-failing-input-found)
exit 0                  : otherwise (obligations without an answer are reported as undecided)
"""
import collections
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = '/opt/venv/bin/python'
JOBS = int(os.environ.get('PYVC_JOBS', '8'))


def rt_start(prop, secs, seed, tier, out, start=0, mx=300):
    env = dict(os.environ)
    env.update(PATH='/opt/venv/bin:' + env.get('PATH', ''), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               MPLCONFIGDIR='/opt/venv/mplconfig', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    return subprocess.Popen([VENV, os.path.join(HERE, 'runtime', 'rt.py'), prop, '--time', str(secs), '--seed', str(seed),
                             '--tier', tier, '--out', out, '--start', str(start), '--max', str(mx)],
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd='/tmp')


def rt_finish(p, out, limit):
    try:
        _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'the run-time harness did not finish'
    try:
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
        return r, ''
    except Exception:
        return None, 'the run-time harness failed: ' + err.decode(errors='replace')[-1500:]


def known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                d = json.loads(l.split(' ', 2)[2])
                out.append(d)
    except FileNotFoundError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    out = os.path.join(evdir, '.rt-%s-%d.json' % (prop, os.getpid()))
    quick = tier == 'quick'
    rp = rt_start(prop, 15 if quick else 300, seed, tier, out, 0, 300 if quick else 100000)
    state = {}

    def early():
        """the run-time search has a failing input and the proof has had a minute"""
        if time.time() - t0 < (60 if quick else 400) or rp.poll() is None:
            return False
        if 'bad' not in state:
            try:
                with open(out) as f:
                    state['bad'] = any(not any(k['test'] == b['test'] and k['match'] in b['message'] for k in kf) for b in json.load(f)['bad'])
            except Exception:
                state['bad'] = False
        return state['bad']
    kf = known(prop)
    # ---------------------------------------------------------------- proof
    units, R, perr = [], [], ''
    checker = 'python3-vt /verif/check.py %s %s' % (prop, tier)
    mod = None
    try:
        mod = importlib.import_module('contracts.' + prop.lower())
        units = [u for u in mod.UNITS if not (quick and len(u) > 2 and u[2].get('thorough'))]
        from pyvc import runner
        R = runner.run_units([u[:2] for u in units], 420 if quick else 760, jobs=JOBS, path_limit=200 if quick else 600, early=early)
    except Exception as e:      # a broken engine decides nothing
        perr = '%s: %s' % (type(e).__name__, e)
    rr, rerr = rt_finish(rp, out, 400 if quick else 500)
    obs = [dict(o, unit=u['name']) for u in R for o in u['obligs']]
    proved = [o for o in obs if o['status'] == 'proved']
    refuted = [o for o in obs if o['status'] == 'refuted']
    unknown = [o for o in obs if o['status'] not in ('proved', 'refuted')]
    undecided = [(u['name'], m) for u in R for m in sorted(set(u['unsupported']))]
    for u in R:
        if not u['unsupported'] and (u['reached'] == 0 or not u['obligs']):
            undecided.append((u['name'], 'vacuous: no path reaches the end of the contract'))
        elif u['reached'] and not u['consistent']:
            undecided.append((u['name'], 'vacuous: preconditions inconsistent on every path'))
    if perr:
        undecided.append(('engine', perr))
    if not units:
        undecided.append(('engine', 'no contract units'))
    # a further search for a concrete failing input where the proof is incomplete
    extra = None
    if rr is not None and not rr['bad'] and (refuted or unknown or undecided):
        left = (600 if quick else 850) - (time.time() - t0)
        secs = min(60 if quick else 200, left)
        if secs > 10:
            ps = []
            for k in range(4):
                o2 = out + '.%d' % k
                ps.append((rt_start(prop, secs, seed + 1000 * (k + 1), tier, o2, 0, 100000), o2))
            for p, o2 in ps:
                x, e = rt_finish(p, o2, secs + 150)
                if x:
                    rr['bad'] += x['bad']
                    rr['cases'] += x['cases']
                    rr['distinct'] += x['distinct']
                    extra = (extra or 0) + x['cases']
    # ---------------------------------------------------------------- verdict
    viol, seen_known = [], []
    for b in (rr or {}).get('bad', []):
        k = next((k for k in kf if k['test'] == b['test'] and k['match'] in b['message']), None)
        if k is not None:
            if k not in seen_known:
                seen_known.append(k)
            continue
        viol.append(b)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    lines = []
    if viol:
        b = viol[0]
        path = os.path.join(rdir, '%s-%s-%s.json' % (prop, b['test'], b['case_seed']))
        b['failed_obligations'] = [dict(unit=o['unit'], obligation=o['name'], path=o['path'], goal=o['goal'][:500]) for o in refuted[:10]]
        b['replay_cmd'] = '%s %s/runtime/rt.py %s --replay %s' % (VENV, HERE, prop, path)
        json.dump(b, open(path, 'w'), indent=1)
        print('contract violated on the real code: [%s] %s' % (b['test'], b['message'][:400]))
        for o in refuted[:5]:
            print('obligation not discharged: %s / %s (path %s)' % (o['unit'], o['name'], o['path']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    elif refuted and not any(k.get('obligation') for k in kf):
        o = refuted[0]
        path = os.path.join(rdir, '%s-obligation.json' % prop)
        json.dump(dict(property=prop, kind='failed obligation', obligations=refuted[:20],
                       note='the prover found a counter-model of the obligation; the search on the real code (%s inputs) found no failing input' % (rr or {}).get('cases'),
                       rerun=checker), open(path, 'w'), indent=1)
        for o in refuted[:8]:
            print('obligation refuted: %s / %s (path %s)' % (o['unit'], o['name'], o['path']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    # ---------------------------------------------------------------- evidence
    back = collections.Counter(o['backend'] for o in proved)
    files = {}
    funcs, trusted = set(), set()
    st = collections.Counter()
    for u in R:
        files.update(u['files'])
        funcs |= u['funcs']
        trusted |= u['trusted']
        st.update(u['stats'])
    from pyvc import loader
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=len(viol) + (1 if lines and not viol else 0),
              coverage=dict(
                  obligations=len(obs), discharged=len(proved), refuted=len(refuted), undecided=len(unknown),
                  undecided_units=[list(x) for x in undecided][:20],
                  proof_complete=bool(obs) and len(proved) == len(obs) and not undecided,
                  checker_cmd=checker, by_backend=dict(back),
                  functions_under_contract=sorted(funcs), source_sha256=files,
                  paths=sum(u['paths'] for u in R), paths_to_postcondition=sum(u['reached'] for u in R),
                  solver_s=round(st.get('solver_s', 0.0), 2), solver_calls=int(st.get('z3_calls', 0)), proof_cpu_s=round(sum(u['secs'] for u in R), 1),
                  units=[dict(name=u['name'], paths=u['paths'], obligations=len(u['obligs']),
                              discharged=sum(o['status'] == 'proved' for o in u['obligs']), cpu_s=round(u['secs'], 1)) for u in R],
                  named_obligations=dict(collections.Counter(o['name'] for o in obs).most_common(60)),
                  extraction=list(loader.EXTRACTION),
                  trusted_base=sorted(trusted) + TRUSTED + list(getattr(mod, 'TRUSTED', [])),
                  bounded_runtime=dict(label='bounded, not proof: the same contract evaluated on the real code',
                                       cases=(rr or {}).get('cases', 0), distinct=(rr or {}).get('distinct', 0), per_test=(rr or {}).get('per_test', {}),
                                       samples=(rr or {}).get('samples', []), error=rerr, extra_search=extra)),
              assumptions=ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])))
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d refuted, %d undecided; %d paths; run-time cases %s; %.0fs'
          % (prop, tier, len(obs), len(proved), len(refuted), len(unknown), sum(u['paths'] for u in R), (rr or {}).get('cases'), time.time() - t0))
    for n, m in undecided[:10]:
        print('undecided: %s: %s' % (n, m[:300]))
    for o in unknown[:10]:
        print('undecided obligation: %s / %s: %s' % (o['unit'], o['name'], o['note'][:160]))
    if rerr:
        print(rerr[-800:])
    if lines:
        print(lines[0])
        sys.exit(1)
    if rerr and not proved:
        sys.exit(2)
    sys.exit(0)


TRUSTED = [
    'pyvc (this verifier): AST transform, symbolic semantics of Python and numpy, polynomial / guard normaliser',
    'z3 4.x and cvc5 answers (unsat)',
]
ASSUMPTIONS = [
    'machine floating point is treated as exact real arithmetic (no rounding, overflow or underflow)',
    'inputs are finite or NaN (no infinities) unless the contract says otherwise',
    'numpy / finufft / scipy / astropy functions satisfy the contracts modelled in pyvc (cross-checked by the run-time cases, bounded)',
]

if __name__ == '__main__':
    main()
