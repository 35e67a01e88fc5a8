"""C35: any object of the library can be described at any time, without effect, and without telling the password."""
import os, re, shutil, socket, tempfile
from hypothesis import strategies as st
from vlib import live, pg
from vlib.core import law, check, eq, raised

RULE = ("Histories of a connection - statements good and bad, ways to run them, streams and cursors left part way, transactions and savepoints, failures, notifications, locks, procedures, copies, an end by close() or loss - after each operation of which every object made so far, and every exception and message, is described by repr(), str(), format_element() and prime_factors(), on one of two connections which run the same history; "
	"connections that fail in every way; erroneous statements over several lines; copies interrupted anywhere; clusters, installations, configuration files, libraries, and user-made elements in any arrangement. "
	"Oracle: what is known of each object has to be in its description, the server's view of the connection's state, the same history without descriptions. Non-trivial: two operations and an object that is not in its initial state.")
ASSUME = ["the repr() of a connector is its constructor's call, password and all", "the parameters and strings given can be described themselves", "representations of the wire protocol's messages and transactions, which hold the password while authenticating, are not descriptions"]
SECRET = 'sEkr3t-pä:w@d'

def lines(text): return [x.strip() for x in text.splitlines()]
def describe(F, o, what):
	"""the texts that describe an object"""
	el = F.sub('python.element'); out = []
	for f in (repr, str, el.format_element):
		e, s = raised(f, o)
		check(e is None, '%s: %s of a %s: %r', what, f.__name__, type(o).__name__, e)
		check(isinstance(s, str), '%s: %s of a %s is a %s', what, f.__name__, type(o).__name__, type(s).__name__)
		check('sEkr3t' not in s or f is not el.format_element and isinstance(o, F.sub('api').Connector), '%s: %s of a %s tells the password: %s', what, f.__name__, type(o).__name__, s)
		out.append(s)
	e, l = raised(lambda: list(el.prime_factors(o)))
	check(e is None, '%s: the prime factors of a %s: %r', what, type(o).__name__, e)
	x = o
	for name, y in l:
		eq(el.prime_factor(x), (name, y), '%s: prime factors of a %s' % (what, type(o).__name__)); x = y
	check(el.prime_factor(x) is None, '%s: the prime factors of a %s end with %r', what, type(o).__name__, x)
	if isinstance(o, el.Element):
		s = out[2]; at = 0
		check(s.startswith(o._e_label + ':'), '%s: the description of a %s: %s', what, type(o).__name__, s)
		# the chain of the prime factors, in order
		for name, y in l:
			if isinstance(y, el.Element):
				k = s.find('\n' + y._e_label + ':', at); check(k >= 0, '%s: %s is not in the description of a %s:\n%s', what, y._e_label, type(o).__name__, s); at = k + 1
	return out

def about(F, o, what, r=None):
	"""what must be in the description of an object"""
	rp, sp, fm = describe(F, o, what); L = lines(fm); el = F.sub('python.element'); api = F.sub('api')
	has = lambda x: check(x in L, '%s: no line %r in the description of a %s:\n%s', what, x, type(o).__name__, fm)
	if isinstance(o, F.exc.Error):
		eq(flat(o._e_label + ': ' + sp), flat(fm), 'str() of an error'); check(lines(str(o.message))[0] in L[0], '%s: the description of an error: %s', what, fm)
		has('CODE: ' + o.code)
		for k, v in o.details.items():
			if k in ('detail', 'hint', 'context'):
				for y in lines(v): check(any(y in x for x in L), '%s: %s is not in the description:\n%s', what, k, fm)
	elif isinstance(o, api.Connection):
		eq(L[0], 'CONNECTION: [%s]' % o.state, what); check(o.state in ('initialized', 'failed', 'closed', 'negotiating', 'idle', 'idle in block', 'failed block', 'busy'), '%s: the state is %r', what, o.state)
		check((o.state in ('initialized', 'failed', 'closed')) == bool(o.closed), '%s: %s, closed is %r', what, o.state, o.closed)
		if r is not None and o.state.startswith(('idle', 'failed b')): eq(r.query('SELECT state FROM pg_stat_activity WHERE pid = %d' % o.backend_id), [({'idle': 'idle', 'idle in block': 'idle in transaction', 'failed block': 'idle in transaction (aborted)'}[o.state],)], what + ': the state')
	elif isinstance(o, api.Statement):
		if o.string is not None:
			for y in lines(str(o.string)): check(any(y in x for x in L), '%s: the query is not in the description of a statement:\n%s', what, fm)
		check(any(str(o.statement_id) in x for x in L), '%s: the identifier of the statement is not described:\n%s', what, fm)
	elif isinstance(o, api.Result):
		if o.parameters:
			check(any('parameters:' in x for x in L), '%s: parameters are not described:\n%s', what, fm)
			for p in o.parameters: check(re.sub(r'\s', '', repr(p)) in re.sub(r'\s', '', fm), '%s: parameter %r is not described:\n%s', what, p, fm)
	elif isinstance(o, api.Transaction): eq(L[0], 'XACT: ' + o.state, what)
	elif isinstance(o, F.sub('copyman').CopyManager):
		for x in o.receivers: check(any(x._e_label + ':' in y for y in L), '%s: a receiver is not described:\n%s', what, fm)
	elif isinstance(o, F.sub('copyman').Producer) and o.total_messages:
		has('messages: %d' % o.total_messages); check(any(y.startswith('average size: ') and abs(float(y[14:]) - o.total_bytes / o.total_messages) < .001 for y in L), '%s: the average size is not described:\n%s', what, fm)

QUERIES = ["SELECT i, $1::text AS t FROM generate_series(1, 9) g(i)", "SELECT 1 AS a,\n\t$1::text AS \"b c\"\nFROM generate_series(1, 9)", "SELECT 10 / (5 - i), $1::text FROM generate_series(1, 9) g(i)", "SELECT $1::text[]", "SELECT $1::text WHERE false", "INSERT INTO vt35 VALUES ($1)", "COPY (SELECT * FROM generate_series(1, 50) g(i)) TO STDOUT", "COPY vt35 FROM STDIN", "SELECT $1::int4", "SELECT", "", "LISTEN vt35", "SELECT ROW(1, $1::text) FROM generate_series(1, 3)"]
BAD = ['SELEC', 'SELECT\n\n nope', "SELECT * FROM\r\n\tvt35z", "SELECT 'x", '))']
PARAMS = ['x', 'a\nb', '', 'ü' * 90, None, ['p', None], 7, b'x', 'nul\0', "it's", ('q',), {'k': 1}]
n9 = st.integers(0, 9)
op = st.one_of(st.tuples(st.just('prepare'), st.integers(0, len(QUERIES) - 1), n9), st.tuples(st.just('prepare'), st.integers(0, 4), n9), st.tuples(st.just('bad'), n9, n9), st.tuples(st.sampled_from(['call', 'rows', 'rows', 'chunks', 'declare', 'declare', 'first', 'column', 'load']), n9, st.integers(0, len(PARAMS) - 1)), st.tuples(st.sampled_from(['next', 'next', 'read', 'seek', 'end', 'clone', 'close', 'close']), n9, n9), st.tuples(st.sampled_from(['begin', 'begin', 'commit', 'rollback', 'exit', 'fail', 'fail', 'configured']), n9, n9),
	st.tuples(st.sampled_from(['proc', 'no proc', 'setting', 'bad setting', 'with', 'notify', 'lock', 'unlock', 'notice', 'named', 'by name', 'sql cursor', 'library', 'script', 'copy', 'copy', 'copy step', 'copy step', 'copy end']), n9, n9), st.tuples(st.sampled_from(['close connection', 'lose', 'terminate']), n9, n9))
def norm(x):
	"""an outcome, without what differs between two connections"""
	if isinstance(x, BaseException): return (type(x).__name__, re.sub(r'0x[0-9a-f]+|\d{3,}', 'N', str(x).split('\n')[0]))
	return re.sub(r'0x[0-9a-f]+', 'N', repr(x))
class W(object):
	def __init__(self, F, described, what):
		self.F = F; self.described = described; self.db = None; self.objs = []; self.log = []; self.what = what; self.heard = 0
		self.copying = []
	def add(self, *o): self.objs.extend(o); return o[-1]
	def pick(self, n, *kinds):
		l = [o for o in self.objs if isinstance(o, kinds)]
		return l[n % len(l)] if l else None
	def message(self, m):
		self.heard += 1
		if self.described: self.F.sub('python.element'); describe(self.F, m, 'a message'); self.all('while a message is received')
		return True
	def all(self, what, r=None):
		if self.described:
			for o in [self.db, self.db.connector, self.db.typio, self.db.settings] + self.objs[-14:]: about(self.F, o, what, r)
	def step(self, o):
		F = self.F; db = self.db; api = F.sub('api'); k, a, b = o
		S = lambda: self.pick(a, api.Statement)
		if k == 'prepare': return self.add(db.prepare(QUERIES[a])) and None
		if k == 'bad': return db.prepare(BAD[a % len(BAD)])
		if k in ('call', 'rows', 'chunks', 'declare', 'first', 'column', 'load'):
			s = S()
			if s is None: return None
			n = len(s.pg_parameter_types or ()) if s.closed is False else 1; p = (PARAMS[b],) * n
			if k == 'call': return s(*p)
			if k == 'first': return s.first(*p)
			if k == 'load': return s.load_rows([p, p] if n else [b'7\n'])
			if k == 'declare': return self.add(s.declare(*p)) and None
			self.add(s.chunks(*p)); return None
		if k in ('next', 'read', 'seek', 'end'):
			c = self.pick(a, api.Cursor) if k in ('read', 'seek') else self.pick(a, api.Result)
			if c is None: return None
			return next(c, 'no more') if k == 'next' else c.read(b) if k == 'read' else c.seek(b) if k == 'seek' else list(c)
		if k == 'clone':
			c = self.pick(a, api.Cursor, api.Statement)
			if c is not None: self.add(c.clone())
			return None
		if k == 'close':
			c = self.pick(a, api.Result, api.Statement); return c.close() if c is not None else None
		if k in ('begin', 'configured'):
			x = self.add(db.xact(**({'isolation': 'serializable', 'mode': 'read only'} if k != 'begin' else {}))); return x.start()
		if k in ('commit', 'rollback', 'exit'):
			l = [x for x in self.objs if isinstance(x, api.Transaction) and x.state in ('open', 'initialized')]; x = l[-1] if l else None
			if x is None: return None
			return x.commit() if k == 'commit' else x.rollback() if k == 'rollback' else x.__exit__(None, None, None)
		if k == 'fail': return db.execute(['SELECT 1/0', 'SELEC', "DO $$BEGIN RAISE 'x' USING hint = 'a hint', detail = E'several\\n lines'; END$$", 'ROLLBACK TO nope'][b % 4])
		if k == 'proc': p = self.add(db.proc(['pg_catalog.length(text)', 'pg_catalog.now()', 'generate_series(int4,int4)'][b % 3])); return p('x') if b % 3 == 0 else None
		if k == 'no proc': return db.proc('vt35nope(int4)')
		if k == 'setting': db.settings['application_name'] = 'x%d' % b; return db.settings['application_name']
		if k == 'bad setting': db.settings['work_mem'] = 'lots'
		if k == 'with': self.add(db.settings(application_name='y')); return None
		if k == 'notify': db.execute('LISTEN vt35; NOTIFY vt35'); return len(db._notifies)
		if k == 'lock': l = self.add(F.sub('alock').ExclusiveLock(db, 3500 + os.getpid(), b)); return l.acquire(blocking=False)
		if k == 'unlock': l = self.pick(a, F.sub('alock').ALock); return l.release() if l is not None else None
		if k == 'notice': return db.execute("SET client_min_messages = notice; DO $$BEGIN RAISE NOTICE 'hear %', repeat('n', 9); RAISE WARNING 'ye'; END$$")
		if k == 'named': self.add(db.prepare('SELECT 5', statement_id='vt35 "n"')); return None
		if k == 'by name': self.add(db.statement_from_id('vt35 "n"')); return None
		if k == 'sql cursor': db.execute('DECLARE vt35c CURSOR WITH HOLD FOR SELECT generate_series(1, 4)'); self.add(db.cursor_from_id('vt35c')); return None
		if k == 'library':
			L = F.sub('lib'); l = L.ILF.from_lines(x + '\n' for x in ['[one]', 'SELECT 1 AS a', '[two:first]', 'SELECT 2', '[bad]', 'SELECT x', 'FROM y']); bd = L.Binding(db, l)
			self.add(l, l.get_symbol('two'), L.Category(l), bd, bd.two); return [bd.one, bd.two, bd.bad][b % 3]()
		if k == 'script': return db.query('SELECT 10 / $1::int4', b % 2)
		if k == 'copy':
			M = F.sub('copyman'); s = self.pick(a, api.Statement)
			P = [M.NullProducer, lambda: M.IteratorProducer([[b'1\n', b'2\n'], [b'3\n'] * (b + 1)])][b % 2]() if b > 5 else M.StatementProducer(db.prepare(QUERIES[6]))
			C = M.CopyManager(P, M.CallReceiver(lambda x: None), M.NullReceiver()); self.add(P, C, *C.receivers); self.copying.append(C); return C.__enter__() is C
		if k == 'copy step': return next(self.copying[-1], 'no more') if self.copying else None
		if k == 'copy end': return self.copying.pop().__exit__(None, None, None) if self.copying else None
		if k == 'close connection': return db.close()
		if k == 'lose': db.pq.socket.shutdown(socket.SHUT_RDWR); return None
		if k == 'terminate': live.raw().query('SELECT pg_terminate_backend(%d, 5000)' % db.backend_id)
	def run(self, ops, t):
		F = self.F; r = live.raw() if self.described else None
		db = self.db = F.connect(password=SECRET); db.msghook = self.message
		try:
			db.execute('CREATE TEMP TABLE vt35 (t text)')
			if self.described: about(F, db.connector.driver, 'the driver'); self.all('at first', r)
			for i, o in enumerate(ops):
				e, x = raised(self.step, o)
				if o[0] in ('terminate', 'lose', 'close connection'): r = None
				self.log.append((o[0], norm(e if e is not None else x) if not db.closed or e is None else 'lost', db.closed, db.state if not db.closed else None))
				if e is not None and self.described:
					s = str(e); check('sEkr3t' not in s, 'an error tells the password')
					while isinstance(e, BaseException):
						if isinstance(e, F.exc.Error):
							about(F, e, 'the error of %r' % (o,))
							if e.creator is not None: about(F, e.creator, 'the creator of the error of %r' % (o,))
						else: check('sEkr3t' not in repr(e) + str(e), 'an error tells the password')
						e = e.__cause__ or e.__context__
				self.all('after %r' % (o,), r)
		finally:
			try: db.close()
			except Exception: pass
		if self.described: self.all('at last')
@law(st.tuples(st.lists(op, min_size=2, max_size=14), st.booleans()), 260, 6000)
def describing_changes_nothing(case, t):
	ops, form = case; F = live.form(int(form)); out = []
	for described in (False, True):
		w = W(F, described, ''); w.run(ops, t); out.append(w)
	t.nt(len(w.objs) > 1)
	eq(out[1].log, out[0].log, 'the outcomes, described and not'); eq(out[1].heard, out[0].heard, 'messages')

word = st.sampled_from(['1', "'a b'", '"q"', "'é\u2028ü'", "'x\ty'", '/* c */', "'\x0b\x0c'", '2.5', '$$z$$', "''"])
gap = st.sampled_from([' ', '\n', '\t', ' \n\t ', '\n\n', '  ', '\r\n', ' \r ', '/*\n*/ ', '-- x, y\n'])
@law(st.tuples(gap.map(lambda g: '' if g == ' ' else g), st.lists(st.tuples(word, gap, gap), max_size=5), gap, st.lists(st.tuples(gap, word, gap), max_size=3), st.sampled_from(['column', 'column', 'syntax', 'end', 'type']), st.sampled_from(['prepare', 'query', 'library'])), 500, 8000)
def errors_point_at_the_place(case, t):
	"""the description of the error of a statement marks the place the server told"""
	lead, before, g, after, kind, how = case
	vals = lambda l: ''.join(a + b + ',' + c if not a.startswith('/') else a + b for a, b, c in l)
	fix = lambda w: '1' if w == '"q"' else w
	before = [(fix(a), b, c) for a, b, c in before]; after = [(a, fix(b), c) for a, b, c in after]
	bad = {'column': 'zqx', 'syntax': ')', 'end': 'zqy', 'type': "'zq'::nope35"}[kind]
	sql = lead + 'SELECT ' + vals(before) + g; at = len(sql) + (6 if kind == 'type' else 0); sql += bad + ''.join(a + ',' + b + c for a, b, c in after if not b.startswith('/'))
	F = live.form(0); db = F.get()
	def go():
		if how == 'prepare': db.prepare(sql)
		elif how == 'query': db.query(sql)
		else:
			L = F.sub('lib'); l = L.ILF.from_lines(['[s]\n', 'SELECT 1\n']); l.get_symbol('s').source = sql
			L.Binding(db, l).s()
	e, _ = raised(go); check(isinstance(e, F.exc.Error), '%r: %r', sql, e)
	pos = e.details.get('position')
	t.nt('\n' in sql[:at].strip()); t.ev(kind)
	if pos is None: return
	eq(int(pos), at + 1, 'the position of the error of %r' % sql)
	fm = str(e); ls = fm.split('\n'); k = [i for i, x in enumerate(ls) if re.search(r'\^ \[line \d+, character \d+\]', x)]
	eq(len(k), 1, 'markers in\n%s' % fm); mark = ls[k[0]]; m = re.search(r'\^ \[line (\d+), character (\d+)\]', mark)
	view = ls[k[0] - 1]; c = mark.index('^'); bits = re.split(r'\r\n|[\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]', sql[:at])
	want = (sql[at:] + '\n').splitlines()[0].replace('\t', ' ')
	check(view[c:].rstrip() == want.rstrip(), 'the marker of %r is at %r, not %r:\n%s', sql, view[c:], want, fm)
	eq((int(m.group(1)), int(m.group(2))), (len(bits), len(bits[-1]) + 1), 'the line and character of the error of %r' % sql)

@law(st.tuples(st.sampled_from(['refused', 'no socket', 'no host', 'database', 'role', 'ssl', 'option', 'bad option', 'silent', 'garbage', 'hung up']), st.sampled_from(['prefer', 'allow', 'disable', 'require']), st.sampled_from([SECRET, SECRET, None]), st.booleans(), st.integers(1, 3)), 120, 2000)
def failed_connections_can_be_described(case, t):
	how, sslmode, pw, form, tries = case; F = live.form(int(form)); drv = F.get().connector.driver; t.nt(True); t.ev(how)
	path = F.get().connector.unix if hasattr(F.get().connector, 'unix') else None; srv = None; threads = []
	k = dict(user='test', database='test', sslmode=sslmode)
	if pw: k['password'] = pw
	if how in ('refused', 'ssl', 'silent', 'garbage', 'hung up'):
		srv = socket.socket(); srv.bind(('127.0.0.1', 0)); port = srv.getsockname()[1]; k.update(host='127.0.0.1', port=port)
		if how == 'refused': srv.close(); srv = None
		else:
			import threading
			srv.listen(9)
			def serve():
				while True:
					try: c, _ = srv.accept()
					except OSError: return
					c.settimeout(2)
					try:
						c.recv(8)
						if how == 'garbage': c.sendall(b'NR\0\0\0\x05x' * 3); c.recv(1000)
						elif how == 'ssl': c.sendall(b'X'); c.recv(1000)
						elif how == 'silent': k.get('x')
					except OSError: pass
					finally: c.close()
			th = threading.Thread(target=serve, daemon=True); th.start()
	elif how == 'no socket': k.update(unix='/nonexistent/\u00e9.s')
	elif how == 'no host': k.update(host='127.0.0.1', port=1)
	else:
		k.update(unix=path)
		if how == 'database': k['database'] = 'nope35'
		elif how == 'role': k['user'] = 'nope35'
		elif how == 'option': k['settings'] = {'application_name': 'a b', 'search_path': ['x', 'y z']}; k['connect_timeout'] = 5
		elif how == 'bad option': k['settings'] = {'work_mem': 'lots'}
	if 'unix' in k: k.pop('sslmode') if sslmode == 'require' else None
	try:
		ct = drv.fit(**k); about(F, ct, 'a connector'); db = ct(); about(F, db, 'a connection that was not made'); eq(db.state, 'initialized', 'the state')
		e, _ = raised(db.connect); about(F, db, 'after connecting (%s)' % how)
		if how == 'option': check(e is None, 'connecting: %r', e); eq(db.state, 'idle', 'the state'); db.close(); eq(db.state, 'closed', 'the state'); about(F, db, 'after close()')
		else:
			check(isinstance(e, F.exc.Error), '%s: %r', how, e); about(F, e, 'the failure'); eq(db.state, 'failed', 'the state')
			fm = F.sub('python.element').format_element(db)
			for i, x in enumerate(db.failures):
				check('failures[%d]' % i in fm and str(x.socket_factory) in fm, 'failure %d is not described:\n%s', i, fm)
				check(lines(str(x.error.message))[0] in fm, 'the error of failure %d is not described:\n%s', i, fm)
			check('failures[%d]' % len(db.failures) not in fm, 'failures:\n%s', fm)
			for _ in range(tries):
				f = raised([db.connect, db.close, lambda: db.execute('SELECT 1'), lambda: db.prepare('SELECT 1')][tries])[0]
				if isinstance(f, F.exc.Error): about(F, f, 'a later failure')
				about(F, db, 'a connection that failed')
	finally:
		if srv is not None: srv.shutdown(socket.SHUT_RDWR); srv.close()

text = st.text(st.sampled_from('ab \n\t=:é"%\u2028'), max_size=90)
tree = st.deferred(lambda: st.one_of(st.none(), text, st.integers(), st.lists(text, max_size=2), st.tuples(text, st.lists(st.tuples(st.one_of(st.none(), st.sampled_from(['k', 'some key'])), st.one_of(st.none(), text, st.integers())), max_size=3), tree, st.lists(tree, max_size=3))))
@law(st.tuples(tree, st.integers(0, 6)), 500, 8000)
def elements_of_any_shape(case, t):
	"""user-made elements: every meta and factor is in the text, at its depth; and what is composed of itself is refused"""
	shape, loop = case; F = live.form(0); el = F.sub('python.element')
	class E(el.Element):
		_e_label = 'E'; _e_factors = ()
		def __init__(self, label, metas, factors):
			self._e_label = 'L' + str(len(label)); self.m = metas; self._e_factors = tuple('f%d' % i for i in range(len(factors)))
			for i, f in enumerate(factors): setattr(self, 'f%d' % i, f)
		def _e_metas(self): return iter(self.m)
	made = []
	def build(x):
		if isinstance(x, tuple): e = E(x[0], x[1], [build(x[2])] + [build(y) for y in x[3]]); made.append(e); return e
		return x
	o = build(shape); describe(F, o, 'an element'); t.nt(len(made) > 1)
	flat = lambda s: ''.join(s.split())
	def inside(x, fm):
		if isinstance(x, E):
			check(x._e_label + ':' in fm, 'the label of a factor is missing:\n%s', fm)
			for k, v in x.m: check(flat(str(v)) in flat(fm), 'a meta is missing: %r in\n%s', v, fm)
			for n in x._e_factors: inside(getattr(x, n), fm)
			for n in x._e_factors[1:]: check(n + ':' in fm, 'the name of a factor is missing:\n%s', fm)
		else: check(flat(str(x)) in flat(fm), 'a factor is missing: %r in\n%s', x, fm)
	inside(o, el.format_element(o))
	s = el.ElementSet(made); fm = describe(F, s, 'a set of elements')[2]; check(fm.startswith('SET: %d' % len(made)), 'a set of %d: %s', len(made), fm)
	for x in made: inside(x, fm)
	if made:
		# composed of itself, by the prime factor or another
		a = made[loop % len(made)]; b = a
		while isinstance(b.f0, E): b = b.f0
		n = b._e_factors[-1] if loop % 2 else 'f0'; setattr(b, n, a)
		e, x = raised(el.format_element, a); check(type(e) is el.RecursiveFactor, 'an element composed of itself: %r, %r', e, x)
		if n == 'f0': e, x = raised(lambda: list(el.prime_factors(a))); check(type(e) is el.RecursiveFactor, 'the prime factors of an element composed of itself: %r, %r', e, x)

@law(st.tuples(st.sampled_from(['void', 'stopped', 'running', 'file']), st.sampled_from(['', 'a = 1\n', "a = 'x'\nb = 2\n#c = 3\n", None]), st.sampled_from(['plain', 'dir é', 'a\nb'])), 60, 500)
def files_and_servers_can_be_described(case, t):
	state, conf, name = case; F = live.form(0); I = F.sub('installation'); t.ev(state); t.nt(conf is not None)
	d = tempfile.mkdtemp(prefix='vt35'); p = d + '/' + name
	try:
		ins = I.Installation(I.pg_config_dictionary(pg.BIN + '/pg_config')); fm = about(F, ins, 'an installation') or F.sub('python.element').format_element(ins)
		check(ins.version in fm, 'the version of an installation:\n%s', fm)
		for k, v in ins.configure_options.items(): check((k if v is True else k + '=' + v) in lines(fm), 'the option %s:\n%s', k, fm)
		if state != 'void': os.mkdir(p)
		if state in ('stopped', 'running') and conf is not None: open(p + '/postgresql.conf', 'w').write(conf)
		if state == 'running': open(p + '/postmaster.pid', 'w').write('%d\n' % os.getpid())
		C = F.sub('cluster').Cluster(ins, p); describe(F, C, 'a cluster'); fm = F.sub('python.element').format_element(C); L = lines(fm)
		if state != 'file':
			eq(L[0], 'CLUSTER: [%s]' % C.state, 'a cluster')
			if C.state == 'running': check('pid: %d' % C.pid in L, 'the process of a cluster:\n%s', fm)
			check(flat(p) in flat(fm), 'the directory of a cluster:\n%s', fm); check(repr(C.data_directory) in repr(C), 'repr() of a cluster: %r', C)
		c = F.sub('configfile').ConfigFile(p + '/postgresql.conf')
		if state == 'file' and conf is not None: open(p + '/postgresql.conf', 'w').write(conf)
		fm = describe(F, c, 'a configuration file')[2]; check(flat(c.path) in flat(fm), 'the path:\n%s', fm)
		if os.path.exists(c.path): eq(lines(fm)[0], 'CONFIGFILE: %d' % len(c), 'a configuration file')
		describe(F, C.settings, 'the settings of a cluster')
	finally: shutil.rmtree(d)
flat = lambda s: ''.join(s.split())

@law(st.fixed_dictionaries({'user': st.sampled_from(['u', 'a b', 'é', 'x@y', '[z']), 'password': st.sampled_from([None, SECRET]), 'database': st.sampled_from([None, 'd', 'd/e', 'é']), 'where': st.sampled_from(['unix', 'ip4', 'ip6', 'host']), 'port': st.sampled_from([5432, '5433', 6543]),
	'settings': st.sampled_from([None, {}, {'work_mem': '1MB'}, {'search_path': ['a', 'B c']}, {'search_path': 'a,b', 'x.y': 5}, {'k': None}]), 'sslmode': st.sampled_from([None, 'disable', 'require']), 'connect_timeout': st.sampled_from([None, 5]), 'server_encoding': st.sampled_from([None, 'utf-8']), 'category': st.booleans(), 'form': st.booleans(), 'crl': st.booleans()}), 250, 3000)
def connectors_are_described_by_their_locator(c, t):
	"""the locator in the description tells the parameters, except for the password"""
	import io, contextlib
	F = live.form(int(c['form'])); drv = F.get().connector.driver; api = F.sub('api'); iri = F.sub('iri')
	k = {x: c[x] for x in ('user', 'password', 'database', 'settings', 'sslmode', 'connect_timeout', 'server_encoding') if c[x] is not None}
	k.update({'unix': {'unix': '/tmp/some dir/.s:1'}, 'ip4': {'host': '1.2.3.4', 'port': c['port']}, 'ip6': {'host': '::1', 'port': c['port']}, 'host': {'host': 'db.example.org', 'port': c['port']}}[c['where']])
	cat = None
	if c['category']:
		class Cat(api.Category):
			_e_factors = ()
			def _e_metas(self): yield ('made', 'here')
			def __call__(self, db): pass
		k['category'] = Cat()
	if c['crl']: k['sslrootcrlfile'] = '/tmp/x.crl'
	w = io.StringIO()
	with contextlib.redirect_stderr(w): ct = drv.fit(**k)
	check(('IgnoredClientParameterWarning' in w.getvalue()) == c['crl'] and 'sEkr3t' not in w.getvalue(), 'the warning of an ignored revocation list: %r', w.getvalue())
	t.nt(c['settings'] or c['password']); t.ev(c['where'])
	s = F.sub('python.element').format_element(ct); check('sEkr3t' not in s, 'the description tells the password:\n%s', s)
	m = re.search(r'CONNECTOR: \[(\w+)\] (\S.*)', s); check(m, 'the description is\n%s', s)
	eq(m.group(1), {'unix': 'Unix', 'ip4': 'IP4', 'ip6': 'IP6', 'host': 'Host'}[c['where']], 'the kind of the connector')
	check('made: here' in s or not c['category'], 'the category is not described:\n%s', s)
	got = iri.parse(m.group(2)); sets = got.pop('settings', {}); got.pop('password', None)
	for x in ('user', 'database', 'host', 'unix', 'sslmode', 'server_encoding', 'connect_timeout', 'port'):
		eq(str(got.pop(x, None)), str(k.get(x)), '%s in the locator %s' % (x, m.group(2)))
	eq({x: y for x, y in got.items() if x not in ('sslrootcrlfile',)}, {}, 'more parameters in the locator')
	want = {x: y for x, y in (c['settings'] or {}).items() if y is not None}
	eq(sorted(sets), sorted(want), 'settings in the locator')
	for x, y in want.items():
		if x != 'search_path': eq(sets[x], str(y), 'setting %s' % x)
		else: eq(sets[x] if not isinstance(sets[x], str) else sets[x].split(','), y if not isinstance(y, str) else y.split(','), 'search_path')
	db = ct(); check(m.group(2) in F.sub('python.element').format_element(db), 'the description of the connection'); check('sEkr3t' not in repr(db), 'repr() tells the password')
	rp = repr(ct)
	for x in ('user', 'host', 'unix'):
		if x in k: check('%s = %r' % (x, k[x]) in rp, '%s in %s', x, rp)
	eq(rp.split('(')[0], '%s.%s' % (type(ct).__module__, type(ct).__name__), 'repr()')
