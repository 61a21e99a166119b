#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []


def consts(path):
	out = {}
	for n in ast.parse(open(path).read()).body:
		if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
			try:
				out[n.targets[0].id] = ast.literal_eval(n.value)
			except ValueError:
				pass
	return out


for p in props:
	path = os.path.join(V, 'checks', p['id'].lower() + '.py')
	if not os.path.exists(path):
		na.append({'property': p['id'], 'reason': 'no check built yet'})
		continue
	c = consts(path)
	checks.append({
		'property': p['id'],
		'quick_cmd': 'python3 run.py %s quick' % p['id'],
		'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
		'technique': c.get('TECHNIQUE', 'explicit-state model checking: exhaustive bounded enumeration of programs on a reference model, every model trace replayed on the real interpreter'),
		'level': c.get('LEVEL', 'model_checking'),
		'level_note': c.get('NOTE', 'Holds for every program/input of the bounded space listed in the evidence; trusts the reference model and that larger inputs behave like small ones.'),
	})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
	'notes': 'No hooks in /repo: all checks observe the hush binary built from the working tree. See DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
	json.dump(m, f, indent=1)
	f.write('\n')
print(len(checks), 'checks;', len(na), 'not claimed')
