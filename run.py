#!/usr/bin/env python3
"""
Orchestrator of the checks: run.py <ID> [--replay FILE] [--tier T] [--seed N] [--law NAME]

Runs as root in /verif.  It copies /repo's working tree to a scratch directory,
builds the C extension there, starts an unprivileged worker (user pgtest) that
explores the property's laws, and turns the worker's report into evidence and
VIOLATION lines.  The worker can write nothing outside the scratch directory.

exit 0: held; 1: VIOLATION line(s) printed; 2: the check itself failed.
"""
import sys, os, json, shutil, subprocess, tempfile, time, signal, argparse, re

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/veriftools/pyvenv/bin/python'
USER = 'pgtest'

def sh(cmd, **kw):
	return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stage(W, asan=False):
	"""Copy the sources to W/site/postgresql (with the extension) and W/site/postgresql_pure (without)."""
	site = os.path.join(W, 'site')
	os.makedirs(site)
	src = os.path.join(REPO, 'postgresql')
	ign = shutil.ignore_patterns('*.so', '__pycache__', '*.pyc')
	shutil.copytree(src, os.path.join(site, 'postgresql'), ignore=ign)
	pure = os.path.join(site, 'postgresql_pure')
	shutil.copytree(src, pure, ignore=ign)
	for root, dirs, names in os.walk(pure):
		for n in names:
			if n.endswith('.py'):
				p = os.path.join(root, n)
				with open(p, encoding='utf-8') as f:
					s = f.read()
				t = re.sub(r'(?m)^(\s*)(from|import) postgresql(?=[.\s])', r'\1\2 postgresql_pure', s)
				if t != s:
					with open(p, 'w', encoding='utf-8') as f:
						f.write(t)
	# build: setup.py is used on the copy, so that added sources and macros are honoured
	bdir = os.path.join(W, 'b')
	os.makedirs(bdir)
	os.symlink(os.path.join(site, 'postgresql'), os.path.join(bdir, 'postgresql'))
	for n in ('setup.py', 'README.md', 'MANIFEST.in', 'pyproject.toml'):
		p = os.path.join(REPO, n)
		if os.path.exists(p):
			shutil.copy(p, bdir)
	env = dict(os.environ, CFLAGS='-Wno-deprecated-declarations', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PIP_NO_INDEX='1')
	env.pop('PYTHONPATH', None)
	if asan:
		env['CFLAGS'] += ' -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment -O1 -g -fno-omit-frame-pointer'
		env['LDFLAGS'] = '-fsanitize=address,undefined'
	r = sh(['/opt/venv/bin/python', 'setup.py', '-q', 'build_ext', '--inplace', '--force'], cwd=bdir, env=env)
	port = os.path.join(site, 'postgresql', 'port')
	if not any(x.endswith('.so') for x in os.listdir(port)):
		sys.stderr.write(r.stdout)
		raise SystemExit('building the extension failed')
	shutil.copytree(os.path.join(HERE, 'vlib'), os.path.join(W, 'v', 'vlib'), ignore=ign)
	shutil.copytree(os.path.join(HERE, 'checks'), os.path.join(W, 'v', 'checks'), ignore=ign)
	for n in ('known-findings.json',):
		p = os.path.join(HERE, n)
		if os.path.exists(p):
			shutil.copy(p, os.path.join(W, 'v'))

def current(out):
	"""The case the worker was running."""
	cp = os.path.join(out, 'current')
	if os.path.exists(cp):
		with open(cp) as f:
			s = f.read().split('\0', 1)[0]
		try:
			return json.loads(s)
		except ValueError:
			pass
	return {}

def selfcheck():
	"""What the checks need from the sandbox."""
	ok = True
	for p in (PY, '/opt/venv/bin/python', '/opt/pgtest/bin/postgres', '/opt/pgtest/bin/initdb', REPO + '/postgresql'):
		if not os.path.exists(p):
			print('missing: ' + p)
			ok = False
	r = sh(['setpriv', '--reuid=' + USER, '--regid=' + USER, '--clear-groups', PY, '-c', 'import hypothesis; print(hypothesis.__version__)'])
	print('hypothesis', r.stdout.strip())
	return 0 if ok and r.returncode == 0 else 2

def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('id', nargs='?')
	ap.add_argument('--selfcheck', action='store_true')
	ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
	ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
	ap.add_argument('--replay')
	ap.add_argument('--law', action='append', default=[])
	ap.add_argument('--all', action='store_true', help='go on after the first violation')
	ap.add_argument('--scale', type=float, default=1.0)
	ap.add_argument('--keep', action='store_true')
	a = ap.parse_args()
	if a.selfcheck:
		return selfcheck()
	pid = a.id
	t0 = time.time()
	W = tempfile.mkdtemp(prefix='v%s' % pid, dir='/tmp')
	os.chmod(W, 0o755)
	try:
		asan = False
		with open(os.path.join(HERE, 'checks', pid.lower() + '.py')) as f:
			head = f.read(4000)
		passes = ['plain']
		if '# ASAN-PASS' in head:
			passes.append('asan')
		rc_all, reports = 0, []
		for pas in passes:
			PW = os.path.join(W, pas[0])
			os.makedirs(PW)
			os.chmod(PW, 0o755)
			stage(PW, asan=(pas == 'asan'))
			sh(['chmod', '-R', 'a+rX', PW])
			out = os.path.join(PW, 'o')
			os.makedirs(out)
			sh(['chown', USER + ':' + USER, out])
			cmd = ['setpriv', '--reuid=' + USER, '--regid=' + USER, '--clear-groups', 'env', '-i',
				'HOME=' + out, 'TMPDIR=' + out, 'PATH=/usr/bin:/bin', 'LANG=C.UTF-8', 'LC_ALL=C.UTF-8', 'TZ=UTC',
				'PGINSTALLATION=/opt/pgtest/bin/pg_config', 'PYTHONDONTWRITEBYTECODE=1', 'PYTHONHASHSEED=0',
				'PYTHONPATH=' + os.path.join(PW, 'v') + ':' + os.path.join(PW, 'site'),
				'VERIF_SITE=' + os.path.join(PW, 'site'), 'VERIF_OUT=' + out, 'VERIF_PASS=' + pas,
				'VERIF_SCALE=%r' % a.scale]
			if pas == 'asan':
				lib = sh(['gcc', '-print-file-name=libasan.so']).stdout.strip()
				ub = sh(['gcc', '-print-file-name=libubsan.so']).stdout.strip()
				cmd += ['LD_PRELOAD=' + lib + ':' + ub, 'PYTHONMALLOC=malloc',
					'ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_segv=1:log_path=' + out + '/asan',
					'UBSAN_OPTIONS=halt_on_error=1:print_stacktrace=1:exitcode=77:log_path=' + out + '/asan']
			cmd += [PY, '-B', '-m', 'vlib.worker', pid, '--tier', a.tier, '--seed', str(a.seed)]
			if a.replay:
				shutil.copy(a.replay, os.path.join(PW, 'replay.json'))
				os.chmod(os.path.join(PW, 'replay.json'), 0o644)
				cmd += ['--replay', os.path.join(PW, 'replay.json')]
			for l in a.law:
				cmd += ['--law', l]
			if a.all:
				cmd += ['--all']
			p = subprocess.Popen(cmd, cwd=out, start_new_session=True, stdin=subprocess.DEVNULL)
			try:
				rc = p.wait(timeout=(850 if a.tier == 'quick' else 6 * 3600))
			except subprocess.TimeoutExpired:
				rc = None
			try:
				os.killpg(p.pid, signal.SIGKILL)
			except OSError:
				pass
			p.wait()
			rep = {}
			rp = os.path.join(out, 'report.json')
			if os.path.exists(rp):
				with open(rp) as f:
					rep = json.load(f)
			viol = rep.get('violations', [])
			crashed = rc is not None and (rc in (-11, -6, -7, -8, -4, 77, 139, 134) )
			if crashed:
				case = current(out)
				note = 'the interpreter died (%r)' % rc
				for n in os.listdir(out):
					if n.startswith('asan.'):
						with open(os.path.join(out, n), errors='replace') as f:
							note += '\n' + f.read(6000)
				viol.append({'law': case.get('law', '?'), 'message': note, 'case': case.get('case'), 'repr': case.get('repr', '')})
			elif rc == 1 and not rep:
				# ended by the watchdog: a case blocked where no signal handler could run
				case = current(out)
				viol.append({'law': case.get('law', '?'), 'message': 'hang: the case did not end in time', 'case': case.get('case'), 'repr': case.get('repr', '')})
			elif rc not in (0, 1):
				sys.stderr.write('worker ended with %r\n' % (rc,))
				rc_all = 2
			rep['violations'] = viol
			rep['pass'] = pas
			reports.append(rep)
			if viol:
				break
		viol = [v for r in reports for v in r['violations']]
		if a.replay:
			for v in viol:
				print('VIOLATION property=%s replay=%s' % (pid, a.replay))
				print(v['message'])
			return 1 if viol else rc_all
		rdir = os.path.join(HERE, 'evidence', 'replay')
		lines = []
		for i, v in enumerate(viol):
			os.makedirs(rdir, exist_ok=True)
			path = os.path.join(rdir, '%s-%s.json' % (pid, re.sub(r'\W+', '_', v['law'])))
			with open(path, 'w') as f:
				json.dump(dict(v, property=pid), f, indent=1)
			lines.append((path, v))
		cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'rule': '', 'laws': {}}
		for r in reports:
			c = r.get('coverage')
			if not c:
				continue
			cov['evaluations'] += c['evaluations']
			cov['distinct_nontrivial'] += c['distinct_nontrivial']
			cov['rule'] = cov['rule'] or c['rule']
			for k, l in c['laws'].items():
				cov['laws'][k if r['pass'] == 'plain' else k + ' (' + r['pass'] + ')'] = l
			if r['pass'] == 'plain':
				cov['samples'] = c['samples']
		ev = {'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed, 'level': 'exploration',
			'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
			'assumptions': reports[0].get('assumptions', []) if reports else []}
		if not a.law:
			os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
			with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
				json.dump(ev, f, indent=1, ensure_ascii=False)
		seen = set()
		for r in reports:
			for k in r.get('known', []):
				if k not in seen:
					seen.add(k)
					print('KNOWN-FINDING: property=%s %s' % (pid, k))
		for path, v in lines:
			print('VIOLATION property=%s replay=%s' % (pid, path))
			print('  law %s: %s' % (v['law'], v['message'][:3000]))
			print('  case: %s' % (v.get('repr', '')[:2000],))
		if viol:
			return 1
		if rc_all == 0:
			print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (pid, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
		return rc_all
	finally:
		# processes the worker left (server), by their session-independent owner and scratch path
		sweep(W)
		if a.keep:
			print('kept', W)
		else:
			shutil.rmtree(W, ignore_errors=True)

def sweep(W):
	"""End the processes this run started: those of the unprivileged user whose working directory or command line lies in W."""
	import pwd
	uid = pwd.getpwnam(USER).pw_uid
	for _ in range(3):
		found = False
		for d in os.listdir('/proc'):
			if not d.isdigit():
				continue
			try:
				if os.stat('/proc/' + d).st_uid != uid:
					continue
				with open('/proc/%s/cmdline' % d, 'rb') as f:
					c = f.read()
				if (W.encode() + b'/') in c:
					os.kill(int(d), signal.SIGKILL)
					found = True
			except OSError:
				pass
		if not found:
			break
		time.sleep(0.1)

if __name__ == '__main__':
	sys.exit(main())
