"""A PostgreSQL server for the worker, and an independent way of talking to it (psql / libpq via a raw protocol client)."""
import os, subprocess, time, shutil, signal, struct, socket
from . import core

BIN = '/opt/pgtest/bin'
_srv = None

class Server(object):
	def __init__(self, name = 's', extra = '', hba = None, listen = '', port = 5432, user = 'test', initopts = ()):
		self.dir = os.path.join(core.OUT, name)
		self.data = os.path.join(self.dir, 'd')
		os.makedirs(self.dir)
		self.port, self.user = port, user
		env = dict(os.environ)
		env.pop('PYTHONPATH', None)
		env.pop('LD_PRELOAD', None)
		env.pop('PYTHONMALLOC', None)
		self.env = env
		r = subprocess.run([BIN + '/initdb', '-D', self.data, '-U', user, '-E', 'utf8', '-A', 'trust', '--no-locale', *initopts],
			stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
		if r.returncode:
			raise RuntimeError('initdb failed: ' + r.stdout.decode(errors='replace'))
		with open(self.data + '/postgresql.conf', 'a') as f:
			f.write("listen_addresses='%s'\nunix_socket_directories='%s'\nport=%d\nshared_buffers=32MB\nmax_connections=40\n"
				"max_prepared_transactions=10\nlog_min_messages=fatal\nautovacuum=off\nsynchronous_commit=off\nfull_page_writes=off\n"
				"max_wal_senders=0\nwal_level=minimal\nmax_locks_per_transaction=256\ntimezone='UTC'\n%s\n" % (listen, self.dir, port, extra))
		if hba is not None:
			with open(self.data + '/pg_hba.conf', 'w') as f:
				f.write(hba)
		self.log = open(self.dir + '/log', 'wb')
		self.proc = subprocess.Popen([BIN + '/postgres', '-D', self.data], stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env)
		self.sock = os.path.join(self.dir, '.s.PGSQL.%d' % port)
		t0 = time.time()
		while True:
			if self.proc.poll() is not None:
				raise RuntimeError('server did not start: ' + open(self.dir + '/log').read())
			try:
				r = Raw(self.sock, user, 'template1')
				r.close()
				break
			except Exception:
				if time.time() - t0 > 60:
					raise
				time.sleep(0.05)
		with Raw(self.sock, user, 'template1') as r:
			r.query('CREATE DATABASE test')

	def stop(self):
		if self.proc.poll() is None:
			self.proc.send_signal(signal.SIGQUIT)
			try:
				self.proc.wait(10)
			except subprocess.TimeoutExpired:
				self.proc.kill()
				self.proc.wait()
		self.log.close()

	def raw(self, database = 'test', **kw):
		return Raw(self.sock, self.user, database, **kw)

	def connect(self, pkg = None, database = 'test', **kw):
		"""A connection of the library under test."""
		if pkg is None:
			import postgresql as pkg
		import importlib
		drv = importlib.import_module(pkg.__name__ + '.driver')
		c = drv.default.fit(unix = self.sock, user = kw.pop('user', self.user), database = database, **kw)()
		c.connect()
		return c

def server(**kw):
	global _srv
	if _srv is None:
		_srv = Server(**kw)
	return _srv

def shutdown():
	global _srv
	for s in ([_srv] if _srv else []) + EXTRA:
		try:
			s.stop()
		except Exception:
			pass
	_srv = None
EXTRA = []

class RawError(Exception):
	def __init__(self, fields):
		self.fields = fields
		Exception.__init__(self, '%s: %s' % (fields.get('C'), fields.get('M')))

class Raw(object):
	"""
	Minimal independent protocol-3.0 client (text format only, trust authentication): the oracle's
	own path to the server, sharing no code with the library under test.
	"""
	def __init__(self, path, user, database, encoding = 'utf-8', params = ()):
		self.encoding = encoding
		self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
		self.s.settimeout(60)
		self.s.connect(path)
		self.f = self.s.makefile('rb')
		body = b'\x00\x03\x00\x00'
		for k, v in [('user', user), ('database', database), ('client_encoding', encoding)] + list(params):
			body += k.encode() + b'\0' + v.encode() + b'\0'
		body += b'\0'
		self.s.sendall(struct.pack('!I', len(body) + 4) + body)
		self.notices = []
		self.notifies = []
		self._until_ready()
	def __enter__(self):
		return self
	def __exit__(self, *x):
		self.close()
	def close(self):
		try:
			self.s.sendall(b'X\0\0\0\4')
		except OSError:
			pass
		self.f.close()
		self.s.close()
	def _msg(self):
		h = self.f.read(5)
		if len(h) < 5:
			raise EOFError('server closed the connection')
		n, = struct.unpack('!I', h[1:])
		return h[:1], self.f.read(n - 4)
	def _fields(self, b):
		d = {}
		for x in b.split(b'\0'):
			if x:
				d[x[:1].decode()] = x[1:].decode(self.encoding, 'replace')
		return d
	tocopy = None
	def copy(self, sql, data=None):
		"""COPY: the messages copied out, or the tags after the data was copied in"""
		self.tocopy = data
		try: self.query(sql)
		finally: self.tocopy = None
		return self.copied if data is None else self.tags
	def _until_ready(self):
		rows, err, self.tags, self.cols = [], None, [], None
		self.copied = []
		while True:
			t, b = self._msg()
			if t == b'Z':
				self.status = b.decode()
				break
			elif t == b'E':
				err = err or self._fields(b)
				if err.get('S') == 'FATAL':
					raise RawError(err)
			elif t == b'N':
				self.notices.append(self._fields(b))
			elif t == b'A':
				pid, = struct.unpack('!I', b[:4])
				ch, pl, _ = b[4:].split(b'\0')
				self.notifies.append((ch.decode(self.encoding), pl.decode(self.encoding), pid))
			elif t == b'K':
				self.pid, = struct.unpack('!I', b[:4])
			elif t == b'D':
				n, = struct.unpack('!H', b[:2])
				p, r = 2, []
				for i in range(n):
					l, = struct.unpack('!i', b[p:p+4])
					p += 4
					if l < 0:
						r.append(None)
					else:
						r.append(b[p:p+l].decode(self.encoding))
						p += l
				rows.append(tuple(r))
			elif t == b'C':
				self.tags.append(b[:-1].decode())
			elif t == b'T':
				n, = struct.unpack('!H', b[:2])
				p, c = 2, []
				for i in range(n):
					e = b.index(b'\0', p)
					c.append(b[p:e].decode(self.encoding))
					p = e + 1 + 18
				self.cols = c
			elif t == b'R':
				if b != b'\0\0\0\0':
					raise RuntimeError('authentication requested')
			elif t == b'G':
				if self.tocopy is None: self.s.sendall(b'f\0\0\0\x05\0')
				else: self.s.sendall(b''.join(b'd' + struct.pack('!I', len(x) + 4) + x for x in self.tocopy) + b'c\0\0\0\4')
			elif t == b'd':
				self.copied.append(b)
			elif t in (b'H', b'c'):
				pass
		if err:
			raise RawError(err)
		return rows
	def query(self, sql):
		"""Simple query; returns the rows (text values) of all results."""
		if '\0' in sql:
			raise ValueError('NUL in SQL')
		b = sql.encode(self.encoding) + b'\0'
		self.s.sendall(b'Q' + struct.pack('!I', len(b) + 4) + b)
		return self._until_ready()
	def one(self, sql):
		r = self.query(sql)
		return r[0][0] if r else None
	def pquery(self, sql, params, oids = ()):
		"""Extended query with text parameters (str or None)."""
		e = self.encoding
		m = b'\0' + sql.encode(e) + b'\0' + struct.pack('!H', len(oids)) + b''.join(struct.pack('!I', o) for o in oids)
		out = b'P' + struct.pack('!I', len(m) + 4) + m
		m = b'\0\0' + struct.pack('!HH', 0, len(params))
		for p in params:
			if p is None:
				m += struct.pack('!i', -1)
			else:
				p = p.encode(e)
				m += struct.pack('!i', len(p)) + p
		m += struct.pack('!H', 0)
		out += b'B' + struct.pack('!I', len(m) + 4) + m
		m = b'\0' + struct.pack('!I', 0)
		out += b'E' + struct.pack('!I', len(m) + 4) + m
		out += b'S\0\0\0\4'
		self.s.sendall(out)
		return self._until_ready()
