import json
NA = {
 'C23': 'the inline-assembly packers are outside any C/C++ deductive verifier available here (no semantics for the asm blocks) and are not compiled by the default build',
 'C25': 'the values come from lscpu and grep through popen: external processes no contract of this code base can specify',
}
LEVEL = {}   # filled from vf/props.py when it declares a level
try:
    import sys; sys.path.insert(0, '/verif')
    from vf.props import LEVELS, NOTES
except ImportError:
    LEVELS, NOTES = {}, {}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    checks.append(dict(property=i, quick_cmd='python3-vt -m vf.check %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt -m vf.check %s' % i,
      evidence_file='evidence/%s.json' % i, technique='contract-based deductive verification of the real sources (symbolic execution against function contracts, obligations discharged by polynomial normalisation and SMT); bounded replay of the real code for counterexamples',
      level=LEVELS.get(i, 'exploration'), level_note=NOTES.get(i, '')))
m = dict(version=1, setup_cmd='true', checks=checks,
  not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes='No hooks in /repo. Every check stages /repo\'s current tree in a scratch directory, generates the kernels with the project\'s own install step, runs the verifier on it and removes the scratch directory.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
