"""Writes MANIFEST.json from the registered checks."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import framework, checks
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in framework.CHECKS:
        f, tech, note = framework.CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i,
                            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                            'technique': tech, 'level': 'model_checking', 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
