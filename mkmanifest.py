"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = ('proof', 'contracts on the functions of /repo, extracted as the compiler\'s IR on every run; each obligation discharged by the symbolic '
     'executor with polynomial arithmetic and z3', 'native structured runs confirm failed obligations and are the bounded stand-in where the prover is undecided')
LEVEL = {i: P for i in ('C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C03', 'C10', 'C11', 'C12', 'C13', 'C14')}
NOTE = {}
DEF = ('exploration', 'structured native runs of the public API against a big-integer specification',
       'bounded: structured inputs only, proof layers under construction')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    lv, tech, note = LEVEL.get(i, DEF)
    checks.append({'property': i, 'quick_cmd': 'python3-vt -m vcir.check %s' % i, 'thorough_cmd': 'python3-vt -m vcir.check %s --thorough' % i,
                   'technique': tech, 'level': lv, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': []},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
