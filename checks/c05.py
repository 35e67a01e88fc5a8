"""C05: connecting honours credentials, SSL mode and startup parameters."""
import os, ssl, socket, struct, threading, select, hashlib, warnings, tempfile, time
with warnings.catch_warnings():
	warnings.simplefilter('ignore')
	import crypt
from hypothesis import strategies as st
from vlib.core import law, check, eq, raised, must_raise, OUT
from vlib.fakepg import msg, fields, z, L, row, desc, oids
from postgresql.driver import pq3
import postgresql.exceptions as X
from postgresql.resolved.crypt import crypt as lib_crypt
import postgresql.driver as drv

RULE = ("Users, passwords, settings, SSL modes and up to two hosts, each answering its successive connection attempts by a script: answer to the SSL request, handshake good, untrusted or "
	"garbled, authentication request, verdict, startup messages, and refusal, disconnection or garbage at any step, over real sockets. Oracle: a model of the documented SSL modes, "
	"MD5 and crypt(3) of the C library, and what the scripted server received. Non-trivial: authentication asked, SSL asked, or a failure.")
ASSUME = ["a server certificate must be trusted through sslrootcrtfile for an SSL attempt to succeed (the library always verifies it)",
	"an attempt that would repeat one that could not even reach the host may be left out"]

TLS = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vlib', 'tls')
def ctx(n):
	c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
	c.load_cert_chain(os.path.join(TLS, n + '.crt'), os.path.join(TLS, n + '.key'))
	return c
GOOD, OTHER = ctx('a'), ctx('b')

class Eof(Exception): pass

class Server(object):
	"""listens on a unix path and on 127.0.0.1; serves attempts, each by the next script"""
	def __init__(self):
		self.dir = tempfile.mkdtemp(dir=OUT)
		self.path = os.path.join(self.dir, 's')
		u = socket.socket(socket.AF_UNIX); u.bind(self.path); u.listen(8)
		t = socket.socket(socket.AF_INET); t.bind(('127.0.0.1', 0)); t.listen(8)
		self.port = t.getsockname()[1]
		self.socks = [u, t]
		self.kind = {u: 'unix', t: '4'}
		try:
			v = socket.socket(socket.AF_INET6); v.bind(('::1', 0)); v.listen(8)
			self.port6 = v.getsockname()[1]
			self.socks.append(v); self.kind[v] = '6'
		except OSError: self.port6 = None
		self.scripts, self.logs, self.busy = [], [], threading.Lock()
		self.done = threading.Semaphore(0)
		self.local = threading.local()
		threading.Thread(target=self.run, daemon=True).start()

	def run(self):
		while True:
			r, _, _ = select.select(self.socks, [], [])
			c, _ = r[0].accept()
			c.settimeout(30)
			log = {'ssl': False, 'encrypted': False, 'params': None, 'passwords': [], 'end': None, 'cancel': None, 'queries': [], 'at': self.kind[r[0]]}
			self.logs.append(log)
			# a cancel request is served during its session
			threading.Thread(target=self.one, args=(c, self.scripts.pop(0) if self.scripts else None, log), daemon=True).start()

	def one(self, c, s, log):
		self.conn = c
		try:
			self.serve(c, s, log)
		except (Eof, OSError) as e:
			log['end'] = log['end'] or 'gone'
		except Exception as e:
			log['end'] = 'server failed: %r' % e
		finally:
			try: self.conn.close()
			except OSError: pass
			c.close()
			self.done.release()

	@property
	def conn(self): return self.local.conn
	@conn.setter
	def conn(self, c): self.local.conn = c

	def get(self, n):
		b = b''
		while len(b) < n:
			d = self.conn.recv(n - len(b))
			if not d: raise Eof()
			b += d
		return b
	def message(self):
		h = self.get(5)
		return h[:1], self.get(struct.unpack('!L', h[1:])[0] - 4)

	def serve(self, c, s, log):
		self.conn = c
		b = self.get(4)
		b = self.get(struct.unpack('!L', b)[0] - 4)
		if b[:4] == L(80877102):
			log['cancel'] = b[4:]
			return
		if s is None:
			log['end'] = 'unexpected attempt'
			return
		if b[:4] == L(80877103):
			log['ssl'] = True
			how = s['ssl']
			if how == 'reset':
				c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
				return
			if how == 'eof': return
			if how == 'E': c.sendall(msg(b'E', fields([(b'S', b'FATAL'), (b'C', b'0A000'), (b'M', b'unsupported frontend protocol')]))); return
			if how[0] in 'S':
				c.sendall(b'S')
				if how == 'S-eof': return
				if how == 'S-plain':
					c.sendall(msg(b'R', L(0)) + msg(b'K', L(1) + L(2)) + msg(b'Z', b'I') + b'x' * 200)
					try:
						while c.recv(4096): pass
					except OSError: pass
					return
				self.conn = (OTHER if how == 'S-other' else GOOD).wrap_socket(c, server_side=True)
				log['encrypted'] = True
				d = self.conn.getpeercert()
				log['peer'] = dict(x[0] for x in d['subject'])['commonName'] if d else None
			else:
				c.sendall(how.encode())
				if how != 'N': return
			b = self.get(4)
			b = self.get(struct.unpack('!L', b)[0] - 4)
		log['params'] = b
		conn = self.conn
		a = s['auth']
		if not self.answer(a, log): return
		if a[0] in ('clear', 'md5', 'crypt'):
			log['passwords'].append(self.message())
			if not self.answer(s['verdict'], log): return
		elif a[0] != 'ok': return
		for m in s['post']:
			if not self.answer(m, log): return
		# a session: reply to whatever the library asks
		out = b''
		np = 0
		while True:
			t, b = self.message()
			if t == b'X':
				log['end'] = 'closed'
				return
			if t == b'P':
				q = b[b.index(b'\0') + 1:]
				q = q[:q.index(b'\0')]
				log['queries'].append(q)
				np = max([0] + [i for i in range(1, 20) if b'$%d' % i in q])
			if t == b'B': log['bound'] = b
			# the first query is about the server and the session, others about a setting
			one = len(log['queries']) > 1 and b'version()' not in log['queries'][-1]
			out += {b'P': msg(b'1'), b'B': msg(b'2'), b'C': msg(b'3'), b'D': msg(b't', oids([25] * np)) + msg(b'T', desc([(b'a', 25, 0)] * (1 if one else 4))),
				b'E': msg(b'D', row([b'on'] if one else [b'PostgreSQL 16.1', b'now', None, None])) + msg(b'C', z(b'SELECT 1')), b'Q': msg(b'C', z(b'SET')) + msg(b'Z', b'I'), b'S': msg(b'Z', b'I')}[t]
			if t in b'SQ':
				conn.sendall(out)
				out = b''

	def answer(self, a, log):
		k = a[0]
		if k == 'ok': self.conn.sendall(msg(b'R', L(0)))
		elif k == 'clear': self.conn.sendall(msg(b'R', L(3)))
		elif k == 'md5': self.conn.sendall(msg(b'R', L(5) + a[1]))
		elif k == 'crypt': self.conn.sendall(msg(b'R', L(4) + a[1]))
		elif k == 'auth': self.conn.sendall(msg(b'R', L(a[1]) + a[2]))
		elif k == 'error':
			self.conn.sendall(msg(b'E', fields(a[1])))
			return False
		elif k == 'raw':
			self.conn.sendall(a[1])
			if a[1][:1] == b'H': return False
			try:
				while True: log.setdefault('after', []).append(self.message())
			except (Eof, OSError): pass
			return False
		elif k == 'send': self.conn.sendall(msg(a[1], a[2]))
		elif k == 'eof': return False
		return True

_server = None
def server():
	global _server
	if _server is None: _server = Server()
	return _server

user = st.one_of(st.sampled_from(['u', 'a b', 'é', 'user"\'=']), st.text(alphabet=st.characters(exclude_categories=('Cs',), exclude_characters='\0'), min_size=1, max_size=10))
pw = st.one_of(st.none(), st.just(''), st.text(alphabet=st.characters(exclude_categories=('Cs',), exclude_characters='\0'), max_size=12))
settings = st.one_of(st.none(), st.just({}), st.dictionaries(st.sampled_from(['application_name', 'client_min_messages', 'x.y', 'DateStyle', 'database', 'user', 'options']), st.one_of(user, st.integers(-5, 99), st.just('')), max_size=3),
	st.lists(st.sampled_from(['a', 'A"b', 'p,q', 'x y', 'é']), max_size=3).map(lambda l: {'search_path': l}), st.sampled_from([{'search_path': 'a,"B"'}, {'search_path': None}, {'search_path': None, 'x.y': 'v'}]))
err = st.tuples(st.sampled_from([(b'28P01', 'InvalidPasswordError'), (b'28000', 'AuthenticationSpecificationError'), (b'3D000', 'ObjectUndefined'), (b'57P03', ''), (b'53300', 'TooManyConnectionsError')]),
	st.sampled_from([b'refused', 'non accepté'.encode(), b'x' * 300, b'100% "no"'])).map(lambda x: ('error', [(b'S', b'FATAL'), (b'V', b'FATAL'), (b'C', x[0][0]), (b'M', x[1]), (b'F', b'auth.c')]))
salt = st.binary(min_size=4, max_size=4)
csalt = st.text(alphabet='abzAZ019./', min_size=2, max_size=2).map(str.encode)
garbage = st.sampled_from([b'HTTP/1.0 400 Bad\r\n\r\n', b'R\0\0\0\5\0', b'R\0\0\0\0', msg(b'R', b''), msg(b'R', b'\0\0'), msg(b'E', b''), msg(b'Z', b'I'), msg(b'K', L(1) + L(2)), msg(b'D', b'\0\0'),
	msg(b'1'), msg(b'N', b'Sx'), msg(b'S', b'x'), msg(b'?', b'x')]).map(lambda g: ('raw', g))
other = st.tuples(st.just('auth'), st.sampled_from([1, 2, 6, 7, 8, 9, 10, 11, 12, 99, 2**31]), st.sampled_from([b'', b'SCRAM-SHA-256\0\0', b'\1\2\3\4']))
fail = st.one_of(err, st.just(('eof',)), garbage)
def mostly(good, bad, n=4): return st.integers(0, n).flatmap(lambda i: bad if i == n else good)
asked = st.one_of(st.just(('clear',)), st.tuples(st.just('md5'), salt), st.tuples(st.just('crypt'), csalt))
auth = mostly(st.one_of(st.just(('ok',)), asked, asked), st.one_of(fail, other))
verdict = mostly(st.just(('ok',)), st.one_of(err, err, garbage, st.just(('eof',)), asked, other))
param = st.tuples(st.sampled_from([b'TimeZone', b'session_authorization', b'is_superuser', b'x']), st.sampled_from([b'', b'UTC', 'é'.encode(), b'on'])).map(lambda p: ('send', b'S', z(p[0]) + z(p[1])))
notice = st.sampled_from([b'one', b'two', 'déjà'.encode()]).map(lambda m: ('send', b'N', fields([(b'S', b'WARNING'), (b'V', b'WARNING'), (b'C', b'01000'), (b'M', m)])))
VER = ('send', b'S', z(b'server_version') + z(b'16.1'))
def post(x):
	pid, key, ver, scs, extra, pos, bad, at = x
	m = [('send', b'S', z(b'client_encoding') + z(b'UTF8'))]
	if ver: m.append(VER)
	if scs is not None: m.append(('send', b'S', z(b'standard_conforming_strings') + z(scs)))
	m += [('send', b'K', L(pid) + L(key)), ('send', b'Z', b'I')]
	for e, p in zip(extra, pos): m.insert(min(p, len(m) - 1), e)
	if bad is not None:
		if bad == 'dropK': m = [y for y in m if y[1] != b'K'] + [('eof',)]
		elif bad[:2] == ('send', b'Z'): m.insert(0, bad)
		else: m.insert(min(at, len(m) - 1), bad)
	return m
posts = st.tuples(st.integers(0, 2**32 - 1), st.integers(0, 2**32 - 1), st.sampled_from([True, True, False]), st.sampled_from([b'on', b'on', b'off', None]), st.lists(st.one_of(param, notice), max_size=4),
	st.lists(st.integers(0, 6), min_size=4, max_size=4), mostly(st.none(), st.one_of(fail, st.just('dropK'), st.just(('send', b'Z', b'I')), st.just(('send', b'R', L(3)))), 3), st.integers(0, 5)).map(post)
script = st.fixed_dictionaries({'ssl': st.sampled_from(['S', 'S', 'S', 'S', 'N', 'N', 'N', 'E', '?', 'eof', 'reset', 'S-eof', 'S-plain', 'S-other', 'n', '\x15']), 'auth': auth, 'verdict': verdict, 'post': posts})
host = st.one_of(st.none(), st.tuples(script, st.none()), *[st.tuples(script, script)] * 7)
def encodable(c):
	"""with a hint of latin1, mostly what it can encode"""
	if c['enc'] == 'latin1':
		f = lambda v: ''.join(chr(ord(x) % 256 or 233) for x in v) if isinstance(v, str) else v
		c = dict(c, user=f(c['user']), pw=f(c['pw']) and f(c['pw']) + 'é', db=f(c['db']), settings=c['settings'] and {k: f(v) for k, v in c['settings'].items()})
	return c
case_ = st.fixed_dictionaries({'user': user, 'pw': pw, 'db': st.one_of(st.none(), user), 'settings': settings, 'pairs': st.booleans(), 'mode': st.sampled_from([None, 'disable', 'allow', 'prefer', 'require', 'prefer', 'allow']),
	'hosts': st.lists(host, min_size=1, max_size=2), 'how': st.sampled_from(['unix', 'ip4', 'host', 'fit']), 'enc': st.sampled_from([None, None, 'utf-8', 'latin1']), 'cancel': st.booleans()}).map(encodable)

def good_startup(s):
	"""(reaches ready, expected error code, expected message)"""
	def bad(a):
		if a[0] == 'error':
			d = dict(a[1])
			return d[b'C'].decode(), d[b'M'].decode()
		if a[0] == 'eof': return '08006', None
		# (an incomplete message is an end of the stream)
		return '08006' if a[0] == 'raw' and a[1][:1] == b'H' else '08P01', None
	a = s['auth']
	if a[0] == 'auth': return '--AUT', None
	if a[0] not in ('ok', 'clear', 'md5', 'crypt'): return bad(a)
	if a[0] != 'ok':
		v = s['verdict']
		if v[0] != 'ok': return ('08P01', None) if v[0] in ('auth', 'clear', 'md5', 'crypt') else bad(v)
	want = [b'K', b'Z']
	for m in s['post']:
		if m[0] != 'send': 
			if m[0] == 'raw' and m[1][:1] == want[0] and m[1] in (msg(b'K', L(1) + L(2)), msg(b'Z', b'I')):
				return 'special', None
			return bad(m)
		if m[1] in b'SN': continue
		if m[1] != want[0]: return '08P01', None
		want.pop(0)
		if not want: return None
	return '08P01', None

def attempt(ssl_, s):
	"""expected: (startup sent encrypted?|None if not sent, error code|None, message)"""
	enc = False
	if ssl_ is not None:
		h = s['ssl']
		if h == 'N':
			if ssl_: return None, '--SEC', None
		elif h == 'S': enc = True
		elif h[0] == 'S': return None, '--SEC', None
		elif h == 'reset': return None, ('08P01', '08006'), None
		else: return None, '08P01', None
	r = good_startup(s)
	return (enc,) + (r or (None, None))

@law(case_, 600)
def connecting_follows_the_documented_negotiation(case, t):
	try: return inner(case, t)
	except BaseException:
		global _server
		_server = None		# what is left of it may disturb the next case
		raise
def inner(case, t):
	sv = server()
	enc = case['enc'] or 'utf-8'
	for v in (case['user'], case['pw'] or '', case['db'] or '') + tuple(v for v in (case['settings'] or {}).values() if isinstance(v, str)):
		try: v.encode(enc)
		except UnicodeEncodeError: return
	how = case['how']
	# the model
	mode = case['mode'] or 'prefer'
	order = {'disable': [None], 'allow': [None, True], 'prefer': [False, None], 'require': [True]}[mode]
	exp, scripts, optional = [], [], 0
	success = None
	for h in case['hosts']:
		if h is None:
			exp += [(None, None, '08004', None)] + [(None, None, '08004', '?')] * (len(order) - 1)
			continue
		skip = False
		for s_, sc in zip(order, h):
			if skip: continue
			if sc is None: exp.append((s_, None, '08004', None)); continue
			e = attempt(s_, sc)
			scripts.append(sc)
			exp.append((s_,) + e + (sc,))
			if e[0] is not None and e[1] is None:
				success = exp[-1]
				break
			if e[1] == 'special': t.ev('left out'); return
			if s_ is False and sc['ssl'] == 'N': skip = True
		if success: break
	del sv.logs[:]
	sv.scripts[:] = list(scripts)
	while sv.done.acquire(blocking=False): pass
	real = [e for e in exp if len(e) == 5]
	kw = dict(user=case['user'], password=case['pw'], settings=case['settings'] if not case['pairs'] or case['settings'] is None else list(case['settings'].items()), server_encoding=case['enc'], sslmode=case['mode'],
		sslrootcrtfile=os.path.join(TLS, 'a.crt'))
	if case['db'] is not None: kw['database'] = case['db']
	before = dict(case['settings']) if case['settings'] is not None else None
	if how == 'unix': c = drv.default.unix(unix=sv.path, **kw)
	elif how == 'ip4': c = drv.default.ip4(host='127.0.0.1', port=sv.port, **kw)
	elif how == 'host': c = drv.default.host(host='127.0.0.1', port=sv.port, ipv=4, **kw)
	else: c = drv.default.fit(host='127.0.0.1', port=str(sv.port), **kw)
	eq(case['settings'], before, "the caller's settings")
	if len(case['hosts']) > 1 or case['hosts'][0] is None or case['hosts'][0][1] is None:
		from postgresql.python.socket import SocketFactory
		real_, = c.socket_factory_sequence()
		dead = SocketFactory((socket.AF_UNIX, socket.SOCK_STREAM), sv.path + '-none')
		class Once(SocketFactory):
			n = 0
			def __call__(self, *a, **kw):
				self.n += 1
				return (dead if self.n == 2 else super()).__call__(*a, **kw)
		# gone when connecting for the second time
		c.socket_factory_sequence = lambda: [dead if h is None else Once(real_.socket_create, real_.socket_connect, real_.socket_secure) if h[1] is None and not (success and h[0] is success[4]) else real_ for h in case['hosts']]
	got = []
	c.msghook = lambda m: (got.append(m), True)[1]
	db = c()
	e, _ = raised(db.connect)
	if success: check(e is None, 'connect() failed: %r', e)
	else: check(e is not None, 'connect() succeeded')
	try:
		if success:
			check(not db.closed and db.state == 'idle', 'state after connecting: %r', db.state)
			p = success[4]['post']
			ms = []
			for m in p:
				ms.append(m)
				if m[:2] == ('send', b'Z'): break
			k = [m[2] for m in ms if m[1] == b'K'][0]
			eq(db.backend_id, struct.unpack('!L', k[:4])[0], 'backend_id')
			eq(db.security, 'ssl' if success[1] else None, 'security')
			seen = {}
			for m in ms:
				if m[1] == b'S':
					n, v = m[2].split(b'\0')[:2]
					seen[n.decode()] = v.decode()
			scs = seen.get('standard_conforming_strings')
			for n, v in seen.items():
				if n != 'standard_conforming_strings' or v == 'on': eq(db.settings[n], v, 'setting %s' % n)
			eq(db.version_info[:2], (16, 1) if 'server_version' in seen else (0, 0), 'version_info')
			eq([m.message for m in got], [m[2].split(b'\0')[3][1:].decode() for m in ms if m[1] == b'N'], 'notices during startup')
			if case['cancel']:
				db.interrupt()
			check(db.typio.encode('é') == 'é'.encode('utf-8'), 'client encoding')
			db.close()
			check(db.closed, 'closed')
		else:
			check(isinstance(e, X.ClientCannotConnectError) and e.code == '08001', 'connect() raised %r', e)
			check(db.closed and db.state == 'failed', 'state after failing: %r', db.state)
			fs = list(db.failures)
			must = [x for x in exp if x[3] != '?' or len(x) == 5]
			check(len(must) <= len(fs) <= len(exp), '%d attempts recorded, %d made', len(fs), len(must))
			if len(fs) == len(must): cmp_ = must
			elif len(fs) == len(exp): cmp_ = exp
			else: cmp_ = ()
			s = str(e)
			for f, x in zip(fs, cmp_):
				code = getattr(f.error, 'code', None)
				check(code in (x[2] if isinstance(x[2], tuple) else (x[2],)), 'attempt %r failed with %r (%s), not %s', x[:2], f.error, code, x[2])
				if x[2] == '--AUT': check(isinstance(f.error, X.AuthenticationMethodError), 'auth method error is a %s', type(f.error))
				if x[3] not in (None, '?'):
					# before the encoding is known, bytes beyond ASCII are shown escaped
					check(f.error.message in (x[3], repr(x[3].encode())[2:-1]), 'message of the refusal: %r, not %r', f.error.message, x[3])
				check(f.error.message in s, 'the error does not show the attempt: %s', s)
			e2, _ = raised(db.connect)
			check(e2 is not None, 'a failed connection object connected later')
	finally:
		db.close()
	for i in range(len(real) + (1 if success and case['cancel'] else 0)):
		check(sv.done.acquire(timeout=20), 'the library left attempt %d open', i)
	logs = sv.logs
	if success and case['cancel']:
		cl, = [l for l in logs if l['cancel'] is not None] or [None]
		check(cl is not None, 'no cancel request was sent')
		eq(cl['cancel'], k, 'cancel request')
		logs = [l for l in logs if l['cancel'] is None]
	eq(len(logs), len(real), 'attempts at the server')
	kwset = dict(before or {})
	if kwset.get('search_path', '') is None: del kwset['search_path']
	elif isinstance(kwset.get('search_path'), list): kwset['search_path'] = ','.join('"%s"' % x.replace('"', '""') if not (x.isidentifier() and x.islower() and x.isascii()) else x for x in kwset['search_path'])
	want = {'client_min_messages': 'WARNING'}
	want.update(kwset)
	want['user'] = case['user']
	if case['db'] is not None: want['database'] = case['db']
	want = {k.encode(): str(v).encode(enc) for k, v in want.items()}
	pwb = (case['pw'] or '').encode(enc)
	for l, x in zip(logs, real):
		s_, encd, code, text, sc = x
		check(not (l['end'] or '').startswith(('server', 'unexp')), 'server: %s', l['end'])
		eq(l['ssl'], s_ is not None, 'SSL requested (%s)' % mode)
		if encd is None:
			eq(l['params'], None, 'startup sent although SSL was refused')
			continue
		eq(l['encrypted'], encd, 'encrypted')
		check(l['params'] is not None, 'no startup message')
		eq(l['params'][:4], b'\0\3\0\0', 'protocol version')
		ps = l['params'][4:].split(b'\0')
		check(ps[-2:] == [b'', b''] and len(ps) % 2 == 0, 'startup message is malformed: %r', l['params'])
		pairs = list(zip(ps[:-2:2], ps[1:-2:2]))
		check(len(pairs) == len(dict(pairs)), 'repeated startup parameter: %r', pairs)
		if isinstance(kwset.get('search_path'), str) and before['search_path'] != kwset['search_path'] and dict(pairs).get(b'search_path') != want[b'search_path']:
			# identifiers may be quoted without need
			import postgresql.string as S
			eq(S.split_ident(dict(pairs)[b'search_path'].decode(enc), sep=',') if before['search_path'] else [], before['search_path'], 'search_path')
			want[b'search_path'] = dict(pairs)[b'search_path']
		eq(dict(pairs), want, 'startup parameters')
		a = sc['auth']
		if a[0] in ('clear', 'md5', 'crypt'):
			t.ev(a[0])
			if a[0] == 'clear': r = pwb
			elif a[0] == 'md5': r = b'md5' + hashlib.md5(hashlib.md5(pwb + case['user'].encode(enc)).hexdigest().encode() + a[1]).hexdigest().encode()
			else: r = crypt.crypt(os.fsdecode(pwb), a[1].decode()).encode() if not pwb or pwb.isascii() else lib_crypt(pwb, a[1])
			eq(l['passwords'], [(b'p', r + b'\0')], 'answer to %s' % a[0])
		else:
			eq(l['passwords'], [], 'password sent although not asked')
		check(not [m for m in l.get('after', ()) if m[0] == b'p'], 'a password was sent after garbage')
		if x is success:
			eq(l['end'], 'closed', 'end of the session')
			if scs == 'off': check([q for q in l['queries'] if b'set_config' in q] and b'standard_conforming_strings' in l['bound'], 'standard_conforming_strings was left off')
	check(not sv.done.acquire(blocking=False), 'extra attempt %r', sv.logs)
	t.nt(len(exp) > 1 or not success or exp[0][0] is not None or success[4]['auth'][0] != 'ok')
	t.ev('connected' if success else 'refused')
	for x in real: t.ev('ssl %s' % x[0])

@law(st.tuples(st.binary(max_size=12).map(lambda b: b.replace(b'\0', b'')), csalt), 400)
def crypt_is_the_c_librarys(case, t):
	p, s = case
	t.nt(p)
	p = bytes(x & 0x7f for x in p).replace(b'\0', b'x')
	eq(lib_crypt(p, s), crypt.crypt(p.decode(), s.decode()).encode(), 'crypt(%r, %r)' % (p, s))

@law(st.tuples(st.sampled_from(['user', 'password', 'database', 'k', 'v']), user, user), 60)
def parameters_cannot_be_smuggled(case, t):
	where, a, b = case
	s = a + '\0' + b + '\0'
	kw = dict(user='u', unix='/nonexistent', settings={})
	if where == 'k': kw['settings'] = {s: 'v'}
	elif where == 'v': kw['settings'] = {'k': s}
	else: kw[where] = s
	t.nt(True)
	if where == 'password':
		return
	must_raise(Exception, 'a NUL in %s' % where, drv.default.fit, **kw)

@law(st.sampled_from(['', 'x', 'PREFER', 'verify-full', 'require ', 1]), 12)
def unknown_modes_are_refused(m, t):
	sv = server()
	t.nt(True)
	del sv.logs[:]
	e, c = raised(drv.default.unix, user='u', unix=sv.path, sslmode=m)
	if e is None:
		db = c()
		if m == '': return
		e, _ = raised(db.connect)
		check(e is not None, 'sslmode %r was accepted', m)
		eq(sv.logs, [], 'attempts')
		db.close()

# where connections go: the connector made of the keywords, the addresses it tries, and what may be done with it
OKS = {'ssl': 'N', 'auth': ('ok',), 'verdict': ('ok',), 'post': [('send', b'S', z(b'client_encoding') + z(b'UTF8')), VER, ('send', b'S', z(b'standard_conforming_strings') + z(b'on')), ('send', b'K', L(7) + L(9)), ('send', b'Z', b'I')]}
BAD = {'ssl': 'N', 'auth': ('error', [(b'S', b'FATAL'), (b'C', b'53300'), (b'M', b'too many')]), 'verdict': ('ok',), 'post': []}
ABSENT = '-'
names = ['127.0.0.1', '::1', 'db.example', 'a-b', '127.1', 'fe80::zz', '1.2.3.4.5', 'x:1', '']
addr = st.sampled_from(['ok4', 'ok6', 'bad4', 'bad6', 'dead4', 'dead6', 'dead4', 'dead6'])
where = st.fixed_dictionaries({'via': st.sampled_from(['fit', 'fit', 'fit', 'connect', 'ip4', 'ip6', 'host', 'host', 'unix']), 'unix': st.sampled_from([ABSENT] * 9 + [None, 'path', 'path']), 'host': st.sampled_from([ABSENT, None] + names + names[:4] * 5 + ['db.example'] * 9),
	'port': st.sampled_from(['int'] * 8 + ['str', 'str', ABSENT, None]), 'ipv': st.sampled_from([ABSENT] * 5 + [None, 4, 6, 4, 6, 5]), 'af': st.sampled_from([ABSENT] * 6 + [None, 4, 6]),
	'addrs': st.one_of(st.lists(addr, min_size=1, max_size=4), st.lists(addr, min_size=1, max_size=4), st.just('gai'), st.just([])), 'mode': st.sampled_from(['disable', 'disable', 'disable', 'allow', 'prefer']), 'timeout': st.sampled_from([ABSENT, None, 5, '7']),
	'use': st.lists(st.sampled_from(['connect', 'with', 'raise', 'clone', 'trace', 'category', 'again']), max_size=3)})
class Boom(Exception): pass
import postgresql.api as api
class Cat(api.Category):
	def __init__(self): self.seen = []
	def __call__(self, db): self.seen.append((db, db.state))
	_e_factors = ()
	def _e_metas(self): yield ('seen', len(self.seen))

@law(where, 700)
def connections_go_where_the_keywords_say(case, t):
	try: return goes(case, t)
	except BaseException:
		global _server
		_server = None
		raise
def goes(c, t):
	sv = server()
	if sv.port6 is None: c = dict(c, addrs=[a.replace('6', '4') for a in c['addrs']] if c['addrs'] != 'gai' else 'gai', host='127.0.0.1' if c['host'] == '::1' else c['host'])
	via = c['via']
	port = {'int': sv.port, 'str': str(sv.port)}.get(c['port'], c['port'])
	host = c['host']
	v6 = host == '::1'
	if v6 and c['port'] in ('int', 'str'): port = type(port)(sv.port6)
	af = {4: socket.AF_INET, 6: socket.AF_INET6}.get(c['af'], c['af'])
	given = {'unix': sv.path if c['unix'] == 'path' else c['unix'], 'host': host, 'port': port, 'ipv': c['ipv'], 'address_family': af, 'connect_timeout': c['timeout']}
	if via in ('ip4', 'ip6', 'host'): given['unix'] = ABSENT
	if via == 'unix': given = {'unix': given['unix'], 'connect_timeout': c['timeout']}
	given = {k: v for k, v in given.items() if not (isinstance(v, str) and v == ABSENT)}
	kw = dict(given, user='u', sslmode=c['mode'])
	# the model: the kind of the connector, or None when the keywords are not acceptable
	g = lambda k: given.get(k)
	kind = via
	if via in ('fit', 'connect'):
		if g('unix') is not None: 
			kind = None if g('host') is not None or g('port') is not None else 'unix'
			if 'ipv' in given or 'address_family' in given: t.ev('left out'); return
		elif g('host') is None or g('port') is None: kind = None
		else:
			try: socket.inet_pton(socket.AF_INET6, host); kind = 'ip6'
			except OSError:
				try: socket.inet_aton(host); kind = 'ip4'
				except OSError: kind = 'host'
	if kind == 'unix' and g('unix') is None: kind = None
	if kind in ('ip4', 'ip6', 'host') and (g('host') is None or g('port') is None): kind = None
	if kind in ('ip4', 'ip6'):
		# the address family of a connector of one kind of address is not an option
		if 'address_family' in given or 'ipv' in given and given['ipv'] is None: t.ev('left out'); return
		if 'ipv' in given and given['ipv'] != int(kind[2]): kind = None
	if kind == 'host':
		if g('ipv') is not None and g('address_family') is not None: kind = None
		elif g('ipv') not in (None, 4, 6): kind = None
	asked = []
	real = socket.getaddrinfo
	free = {4: ('127.0.0.1', 1), 6: ('::1', 1, 0, 0)}
	def gai(h, p, family=0, type=0, *a, **k):
		asked.append((h, p, family, type))
		if c['addrs'] == 'gai': raise socket.gaierror(-2, 'Name or service not known')
		r = []
		for a_ in c['addrs']:
			f = int(a_[-1])
			if family and family != (socket.AF_INET if f == 4 else socket.AF_INET6): continue
			at = free[f] if a_.startswith('dead') else ('127.0.0.1', sv.port) if f == 4 else ('::1', sv.port6, 0, 0)
			r.append((socket.AF_INET if f == 4 else socket.AF_INET6, socket.SOCK_STREAM, 6, '', at))
		if not r: raise socket.gaierror(-2, 'Name or service not known')
		return r
	# what each attempt meets
	fam = socket.AF_INET if g('ipv') == 4 else socket.AF_INET6 if g('ipv') == 6 else g('address_family') or 0
	if kind == 'host':
		meets = [] if c['addrs'] == 'gai' else [a for a in c['addrs'] if not fam or fam == (socket.AF_INET if a[-1] == '4' else socket.AF_INET6)]
		# a literal may only be met by way of its own connector
		if via == 'host' and host == '': pass
	elif kind == 'unix': meets = ['ok']
	elif kind == 'ip4': meets = ['ok4' if host in ('127.0.0.1', '127.1') else None]
	elif kind == 'ip6': meets = ['ok6' if v6 else None]
	else: meets = []
	if None in meets or kind in ('ip4', 'ip6') and host not in ('127.0.0.1', '127.1', '::1'): return
	def expect():
		"""(scripts in order of the attempts, places, failure codes, connected)"""
		sc, at, fs = [], [], []
		for a in meets:
			for ssl_ in {'disable': [0], 'allow': [0, 1], 'prefer': [1, 0]}[c['mode']]:
				if a.startswith('dead'):
					fs.append('08004')
					break		# (unreachable whether with SSL or without it)
				sc.append(OKS if a[:2] == 'ok' else BAD); at.append(a[-1] if a != 'ok' else 'unix')
				if c['mode'] == 'allow' and ssl_: fs.append('--SEC'); continue
				if a[:2] == 'ok': return sc, at, fs, True
				fs.append('53300')
				if c['mode'] == 'prefer': break
		return sc, at, fs, False
	def arm(n=1):
		sc, at, fs, okk = expect()
		del sv.logs[:]
		sv.scripts[:] = sc * n
		while sv.done.acquire(blocking=False): pass
		del asked[:]
		return [x for x in at] * n, fs, okk
	def settle(at, what):
		for i in range(len(at)): check(sv.done.acquire(timeout=20), '%s: attempt %d was left open, or not made', what, i)
		eq([l['at'] for l in sv.logs], at, '%s: where the attempts went' % what)
		eq([l for l in sv.logs if (l['end'] or '').startswith(('unexp', 'server'))], [], '%s: the server' % what)
	patched = []
	import sys
	for m in list(sys.modules.values()):
		if m is not None and (m is socket or getattr(m, '__name__', '').startswith('postgresql')) and getattr(m, 'getaddrinfo', None) is real:
			m.getaddrinfo = gai; patched.append(m)
	try:
		at, fs, okk = arm()
		if via == 'connect':
			e, db = raised(drv.default.connect, **kw)
			if kind is None:
				check(isinstance(e, TypeError), 'connect(%s) raised %r', given, e)
				eq(sv.logs, [], 'attempts'); return
			if not okk:
				check(isinstance(e, X.ClientCannotConnectError), 'connect(%s) raised %r', given, e)
				settle(at, 'connect()')
				t.nt(True); return
			check(e is None and db.state == 'idle', 'connect(%s): %r', given, e)
			con = db.connector
			db.close()
			settle(at, 'connect()')
		else:
			e, con = raised(getattr(drv.default, via), **kw)
			if kind is None:
				check(isinstance(e, TypeError), '%s(%s) raised %r', via, given, e)
				t.ev('refused'); return
			check(e is None, '%s(%s) raised %r', via, given, e)
		eq(sv.logs if via != 'connect' else [], [], 'attempts before connect()')
		want = {'unix': pq3.Unix, 'ip4': pq3.IP4, 'ip6': pq3.IP6, 'host': pq3.Host}[kind]
		check(type(con) is want, '%s(%s) made a %s', via, given, type(con).__name__)
		if kind == 'unix': eq(con.unix, sv.path, 'unix')
		else: eq((con.host, int(con.port)), (host, int(port)), 'host and port')
		t.ev(kind); t.nt(len(meets) > 1 or kind != 'unix')
		lines = []
		for use in ['connect'] + c['use']:
			if use == 'again' : use = 'connect'
			at, fs, okk = arm()
			if use == 'category':
				cat = Cat()
				con2 = want(driver=con.driver, category=cat, **kw)
				db = con2()
			else: db = con()
			check(db.closed and db.state == 'initialized', 'a new connection: %r', db.state)
			if use == 'trace': db.tracer = lines.append
			if use in ('with', 'raise'):
				seen = []
				def block():
					with db as same:
						seen.append((same is db, db.closed, db.state))
						if use == 'raise': raise Boom()
				e, _ = raised(block)
				if okk:
					check(isinstance(e, Boom) if use == 'raise' else e is None, 'the block of the connection: %r', e)
					eq(seen, [(True, False, 'idle')], 'inside of the block')
					check(db.closed, 'the connection is open after its block')
					settle(at, 'with'); continue
			else: e, _ = raised(db.connect)
			if okk:
				check(e is None, 'connect(): %r', e)
				check(not db.closed and db.state == 'idle', 'state %r', db.state)
				if use == 'category': check(len(cat.seen) == 1 and cat.seen[0][0] is db and cat.seen[0][1] == 'idle', 'category called with the connection: %r', cat.seen)
				if use == 'clone':
					sv.scripts.extend(expect()[0])
					d2 = db.clone()
					check(d2 is not db and not d2.closed and d2.connector is db.connector and d2.state == 'idle', 'clone() is %r', d2.state)
					d2.close(); check(d2.closed and not db.closed, 'closing a clone')
					at = at + expect()[1]
				if use == 'trace':
					n = len(lines)
					check(n and any('R(' in l or "b'R'" in l for l in lines), 'the messages of connecting were not traced: %r', lines)
					del lines[:]
					db.execute('SELECT traced')
					check([l for l in lines if 'SELECT traced' in l] and [l for l in lines if 'C' in l.split('(')[0] and "SET" in l], 'the messages of a query were not traced: %r', lines)
				fd = db.fileno
				db.close(); db.close()
				settle(at, 'connect()')
			else:
				check(isinstance(e, X.ClientCannotConnectError) and db.closed and db.state == 'failed', 'connect() to nowhere: %r (%r)', e, db.state)
				got = [getattr(f.error, 'code', None) for f in db.failures]
				# an attempt may be repeated in the other mode although the place could not be reached
				ded = [x for i, x in enumerate(got) if not (x == '08004' and i and got[i - 1] == '08004' and c['mode'] != 'disable')] if len(got) != len(fs) else got
				fsd = [x for i, x in enumerate(fs) if not (x == '08004' and i and fs[i - 1] == '08004' and c['mode'] != 'disable')] if len(got) != len(fs) else fs
				eq(ded, fsd, 'failures of the attempts')
				if kind == 'host' and not meets: check(isinstance(e.__cause__, socket.gaierror) or isinstance(e.__context__, socket.gaierror), 'the reason is not given: %r', e.__cause__)
				if use == 'category': eq(cat.seen, [], 'category')
				settle(at, 'connect()')
			if kind == 'host':
				check(asked, 'the name was not looked up')
				for q in asked:
					eq((q[0], int(q[1]), q[3]), (host, int(port), socket.SOCK_STREAM), 'the name looked up')
					eq(q[2] or 0, fam, 'address family looked up')
			else: eq(asked, [], 'names looked up')
		check(not sv.done.acquire(blocking=False), 'extra attempt %r', sv.logs)
	finally:
		for m in patched: m.getaddrinfo = real

@law(st.tuples(st.sampled_from(['disable', 'prefer']), st.sampled_from([0.15, '0.2', 0.3]), st.integers(0, 1)), 3, 12)
def connecting_is_given_up_in_time(case, t):
	mode, timeout, clone = case
	# a full queue: nobody answers
	s = socket.socket(); s.bind(('127.0.0.1', 0)); s.listen(0)
	fill = []
	try:
		for i in range(4):
			x = socket.socket(); x.setblocking(False); x.connect_ex(s.getsockname()); fill.append(x)
		time.sleep(0.05)
		p = socket.socket(); p.settimeout(0.1)
		try:
			p.connect(s.getsockname())
			t.ev('left out'); return
		except socket.timeout: pass
		finally: p.close()
		con = drv.default.ip4(host='127.0.0.1', port=s.getsockname()[1], user='u', sslmode=mode, connect_timeout=timeout)
		t0 = time.time()
		db = con()
		e, _ = raised(db.connect)
		took = time.time() - t0
		t.nt(True)
		check(isinstance(e, X.ClientCannotConnectError), 'connect() raised %r', e)
		check(took > float(timeout) * 0.9, 'given up after %s seconds of %s', took, timeout)
		check(took < 20, 'given up after %s seconds, not %s', took, timeout)
		check(db.failures and all(isinstance(f.error, X.ConnectTimeoutError) for f in db.failures) if hasattr(X, 'ConnectTimeoutError') else [f.error.code for f in db.failures][:1] == ['--TOE'], 'the failure is %r', [f.error for f in db.failures])
	finally:
		for x in fill: x.close()
		s.close()

@law(st.tuples(st.sampled_from(['a', 'b', None]), st.sampled_from(['require', 'prefer', 'allow', None]), st.booleans(), st.sampled_from(['unix', 'ip4'])), 24, 60)
def client_certificates_are_presented(case, t):
	"""a server that asks for a client's certificate, and trusts that of a"""
	who, mode, bundle, how = case; sv = server(); t.nt(True)
	global GOOD
	c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); c.load_cert_chain(os.path.join(TLS, 'a.crt'), os.path.join(TLS, 'a.key'))
	c.verify_mode = ssl.CERT_OPTIONAL; c.load_verify_locations(os.path.join(TLS, 'a.crt')); c.load_verify_locations(os.path.join(TLS, 'b.crt'))
	old = GOOD; GOOD = c
	try:
		kw = dict(user='u', sslrootcrtfile=os.path.join(TLS, 'a.crt'), sslmode=mode)
		if who is not None:
			kw['sslcrtfile'] = os.path.join(TLS, who + '.crt'); kw['sslkeyfile'] = os.path.join(TLS, who + '.key')
			if bundle:
				# the key beside the certificate
				p = os.path.join(sv.dir, who + '.pem')
				with open(p, 'w') as f: f.write(open(kw['sslcrtfile']).read() + open(kw['sslkeyfile']).read())
				kw['sslcrtfile'] = p; del kw['sslkeyfile']
		while sv.done.acquire(blocking=False): pass
		del sv.logs[:]
		refused = dict(OKS, auth=('error', [(b'S', b'FATAL'), (b'C', b'28000'), (b'M', b'no')]), ssl='S'); sv.scripts[:] = [refused, dict(OKS, ssl='S')] if mode == 'allow' else [dict(OKS, ssl='S')]
		con = drv.default.unix(unix=sv.path, **kw) if how == 'unix' else drv.default.ip4(host='127.0.0.1', port=sv.port, **kw)
		db = con()
		e, _ = raised(db.connect)
		check(e is None, 'connect(): %r', e)
		eq(db.security, 'ssl', 'security')
		db.close()
		for i in range(1 + (mode == 'allow')): check(sv.done.acquire(timeout=20), 'attempt %d', i)
		got = sv.logs[-1].get('peer')
		eq(got, None if who is None else {'a': 'a.test', 'b': 'b.test'}[who], "the client's certificate")
	finally: GOOD = old; sv.scripts[:] = []
