#!/usr/bin/env python3
"""seedpar.py [-n NPAR] [-t] ID...: each planted bug's demo and check, in scratch copies of /repo; with -t the stable
tests once with all of the patches applied together to /repo (undone afterwards)."""
import sys, os, json, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
npar = int(args.pop(args.index('-n') + 1)) if '-n' in args else 4
tests = '-t' in args
ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir('/verif/seeded'))
def one(i):
	S = '/verif/seeded/' + i
	prop = json.load(open(S + '/meta.json'))['property']
	W = tempfile.mkdtemp(prefix='seedpar.', dir='/tmp'); R = W + '/r'
	os.chmod(W, 0o755)
	try:
		subprocess.check_call(['cp', '-a', '/repo', R])
		D = W + '/demo'; os.mkdir(D)
		for f in os.listdir(S):
			if f in ('patch.diff', 'meta.json'): continue
			s = open(S + '/' + f).read().replace('PYTHONPATH=/repo', 'PYTHONPATH=' + R)
			open(D + '/' + f, 'w').write(s)
		demo = lambda: subprocess.run(['timeout', '300', 'bash', D + '/demo.sh'], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
		a = demo()
		subprocess.check_call(['git', 'apply', S + '/patch.diff'], cwd=R)
		b = demo()
		c = subprocess.run(['timeout', '900', 'python3', 'run.py', prop], cwd='/verif', env=dict(os.environ, VERIF_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
		v = [l for l in c.stdout.decode(errors='replace').split('\n') if 'VIOLATION' in l or 'law' in l][:2]
		ok = a.returncode == 0 and b.returncode != 0 and c.returncode == 1
		return '%s %s %s: demo %d -> %d, check %d %s%s' % ('ok ' if ok else 'BAD', i, prop, a.returncode, b.returncode, c.returncode, v, '' if a.returncode == 0 else a.stdout.decode(errors='replace')[-600:])
	finally:
		shutil.rmtree(W, ignore_errors=True)
with ThreadPoolExecutor(npar) as ex:
	if "--only-tests" in args: one = lambda i: i
	for r in ex.map(one, ids): print(r, flush=True)
if tests:
	assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'])
	try:
		for i in ids: subprocess.check_call(['git', '-C', '/repo', 'apply', '/verif/seeded/%s/patch.diff' % i])
		subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seedpar.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
		b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p = set(json.load(open('/tmp/seedpar.json'))['passed'])
		print('stable failing with all of them:', len(b - p), sorted(b - p)[:8])
	finally:
		subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
		subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
