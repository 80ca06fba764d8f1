"""Writes /verif/MANIFEST.json from properties.jsonl and the claims below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + '/fw']
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
from checks import registry
NA = registry.NOT_APPLICABLE
checks = []
for i in ids:
    if i in NA or i not in registry.CLAIMS: continue
    tech, note = registry.CLAIMS[i]
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}', 'technique': tech, 'level': 'exploration', 'level_note': note})
na = [{'property': i, 'reason': NA.get(i, 'the monitor for this property is not built yet')} for i in ids if i in NA or i not in registry.CLAIMS]
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks: every monitor observes public interfaces, printed programs or executed code', 'source_commits': []},
     'notes': 'Each check builds what it needs from /repo into .build (ccache in .cache). See DESIGN.md.'}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
