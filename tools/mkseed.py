#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< JSON {"edits":[[file,old,new]...],"needs":..,"what_it_breaks":..,"demo":".."}
writes /verif/seeded/ID from exact-once text edits of /repo's HEAD (in a scratch copy)."""
import sys, json, os, subprocess, tempfile, shutil
def make(id, prop, edits, needs, breaks, demo_py=None, demo_sh=None):
	W = tempfile.mkdtemp(prefix='mkseed.')
	subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', W + '/r', 'HEAD'])
	try:
		for f, old, new in edits:
			p = os.path.join(W, 'r', f)
			s = open(p).read()
			assert s.count(old) == 1, (f, old, s.count(old))
			open(p, 'w').write(s.replace(old, new))
		d = subprocess.check_output(['git', '-C', W + '/r', 'diff']).decode()
	finally:
		subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', W + '/r'])
		shutil.rmtree(W)
	# the removed lines must be original ones
	root = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).decode().split()[0]
	for f in {e[0] for e in edits}:
		orig = set(subprocess.check_output(['git', '-C', '/repo', 'show', root + ':' + f]).decode().split('\n'))
		cur = None
		for l in d.split('\n'):
			if l.startswith('--- '): cur = l[6:]
			elif l.startswith('-') and cur == f and l[1:].strip(): assert l[1:] in orig, ('not an original line', f, l)
	S = os.path.join('/verif/seeded', id)
	os.makedirs(S, exist_ok=True)
	open(S + '/patch.diff', 'w').write(d)
	json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(S + '/meta.json', 'w'), indent=1)
	if demo_py:
		open(S + '/demo.py', 'w').write(demo_py)
		demo_sh = demo_sh or '#!/bin/bash\n# cwd /repo\nD=$(cd "$(dirname "$0")" && pwd)\nexec env PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$D/demo.py"\n'
	open(S + '/demo.sh', 'w').write(demo_sh)
	os.chmod(S + '/demo.sh', 0o755)
	print(id, len(d))
