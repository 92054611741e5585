"""Write MANIFEST.json from engine/table.py and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import table

checks, na = [], []
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)['id']
    if p in table.PROPS:
        s = table.PROPS[p]
        checks.append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 engine/check.py ' + p,
                           thorough_cmd='VERIF_TIER=thorough python3 engine/check.py ' + p,
                           technique=s.get('technique', table.TECHNIQUE), level='other', level_note=s.get('note', table.NOTE)))
    else:
        na.append(dict(property=p, reason=table.NOT_APPLICABLE.get(p, 'not decided yet')))
m = dict(version=1, setup_cmd='python3 engine/build.py', checks=checks, not_applicable=na,
         notes='Static analysis of the compiler\'s MIR of /repo; see DESIGN.md. No hooks in /repo are needed.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
