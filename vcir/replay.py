"""python3-vt -m vcir.replay FILE: runs the recorded call on the code built from the repository's working tree."""
import json
import sys

from . import build
from .native import Native

d = json.load(open(sys.argv[1]))
if 'fn' not in d:
    print(json.dumps(d, indent=1))
    sys.exit('no concrete input recorded')
cfg = d.get('config', 'native')
b = build.build([cfg])
n = Native(b[cfg], build.rng_lib())
for e in d.get('before', []):       # the result depends on earlier calls
    n.call(e['fn'], e['ret'], e['args'], bytes.fromhex(e['rng']))
r = n.call(d['fn'], d['ret'], d['args'], bytes.fromhex(d['rng']))
n.close()
print('recorded:', d.get('got'), d.get('message'))
print('now     :', r if isinstance(r, str) else [r[0], [o.hex() for o in r[1]]])
