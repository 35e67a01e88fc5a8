"""A throw-away PostgreSQL server in a scratch directory, run as the unprivileged user pgtest."""
import os, subprocess, tempfile, shutil, time, contextlib
BIN = '/opt/pgtest/bin'
@contextlib.contextmanager
def server():
	d = tempfile.mkdtemp(prefix='demo.', dir='/tmp')
	shutil.chown(d, 'pgtest', 'pgtest')
	us = ['setpriv', '--reuid=pgtest', '--regid=pgtest', '--clear-groups', 'env', '-i', 'HOME=' + d, 'PATH=/usr/bin:/bin', 'LC_ALL=C']
	p = None
	try:
		subprocess.run(us + [BIN + '/initdb', '-D', d + '/data', '-U', 'test', '-E', 'utf8', '-A', 'trust', '--no-locale', '-N'], cwd=d, check=True, stdout=subprocess.DEVNULL)
		p = subprocess.Popen(us + [BIN + '/postgres', '-D', d + '/data', '-k', d, '-c', 'listen_addresses=', '-F'], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
		sock = d + '/.s.PGSQL.5432'
		from postgresql.driver import default
		for _ in range(200):
			try:
				default.fit(unix=sock, user='test', database='postgres')().connect()
				break
			except Exception:
				time.sleep(0.1)
		yield lambda **kw: connect(sock, **kw)
	finally:
		if p is not None:
			p.terminate()
			try: p.wait(20)
			except Exception: p.kill()
			# the child of setpriv/env is postgres itself (exec)
		shutil.rmtree(d, ignore_errors=True)
def connect(sock, **kw):
	from postgresql.driver import default
	db = default.fit(unix=sock, user='test', database='postgres', **kw)()
	db.connect()
	return db
