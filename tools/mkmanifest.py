"""writes MANIFEST.json from the list of implemented checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def t(i, tech, note): T[i] = (tech, note)
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
have = [i for i in ids if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py'))]
m = {'version': 1, 'setup_cmd': 'true',
     'checks': [{'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                 'technique': T[i][0], 'level': 'exploration', 'level_note': T[i][1]} for i in have],
     'not_applicable': [{'property': i, 'reason': 'check not built yet'} for i in ids if i not in have],
     'notes': 'No hooks in /repo: the checks build the working tree as it is, in a scratch directory. Known findings and repaired defects: known_findings.json.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(have), 'checks')
