"Writes MANIFEST.json from the registered checks: python3 tools/manifest.py"
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from sa import rules  # noqa
from sa.core import REGISTRY
sys.path.insert(0, os.path.join(V, 'tools'))
from na import NA
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in REGISTRY:
        e = REGISTRY[i]
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
                           technique='static analysis: ' + e['technique'], level='other',
                           level_note=e['explanation']))
na = [dict(property=i, reason=NA[i]) for i in ids if i not in REGISTRY]
json.dump(dict(version=1, setup_cmd='python3 check.py --list', checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
