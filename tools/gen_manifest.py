"""writes /verif/MANIFEST.json from the registry of checks and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
sys.path.insert(0, os.path.join(V, 'mirvc'))
import notes
checks, na = [], []
for p in props:
    i = p['id']
    if i in notes.CLAIMED:
        c = notes.CLAIMED[i]
        checks.append({'property': i,
                       'quick_cmd': f'python3-vt mirvc/check.py {i}',
                       'thorough_cmd': f'python3-vt mirvc/check.py {i}',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': c['technique'], 'level': c.get('level', 'proof'), 'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': notes.NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'mirvc: contract-based deductive verification over the rustc MIR of the real code; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
