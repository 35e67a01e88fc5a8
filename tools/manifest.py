"""Writes MANIFEST.json from the checks present."""
import json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTES = {}
exec(open(os.path.join(H, 'tools', 'notes.py')).read(), NOTES)
checks, na = [], []
for p in P:
	f = os.path.join(H, 'checks', p['id'].lower() + '.py')
	if os.path.exists(f):
		src = open(f).read()
		checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py ' + p['id'], 'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
			'evidence_file': 'evidence/%s.json' % p['id'],
			'technique': 'property-based testing: ' + NOTES['TECH'].get(p['id'], 'generated inputs against an explicit oracle (Hypothesis, shrinking)'),
			'level': 'exploration',
			'level_note': NOTES['LEVEL'].get(p['id'], 'Randomized search with shrinking; nothing outside the generated cases is covered.')})
	else:
		na.append({'property': p['id'], 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py --selfcheck', 'checks': checks, 'not_applicable': na}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
