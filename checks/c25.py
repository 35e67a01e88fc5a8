"""C25: Server-side statements and cursors live exactly as long as needed."""
import gc, sys, time
from hypothesis import strategies as st
from vlib import live
from vlib.core import law, check, eq, raised

RULE = ("Histories of one connection: statements prepared, named, cloned, made from identifiers, executed in every way, streams and cursors read part way, closed (twice), replaced, forgotten, destroyed by SQL, stored procedures, transactions and savepoints committed and rolled back around them, failures of every kind, and an end by close() or loss of the connection. "
	"Oracle: a model of the objects, compared to pg_prepared_statements and pg_cursors after every operation, and of the rows of what remains. Non-trivial: an object that is gone by the end, and a use afterwards.")
ASSUME = ["streams begun inside a transaction are not read after it ended", "statements and cursors with the same identifier are made one after the other only", "garbage is collected by CPython's reference counting and gc.collect()"]

class Obj(object):
	"""kind: statement, cursor, stream, proc; name: on the server; born: the transactions it depends on"""
	def __init__(self, kind, lib, k, n, name=None, mark=None, auto=True, born=()):
		self.kind, self.lib, self.k, self.n, self.name, self.mark, self.auto, self.born = kind, lib, k, n, name, mark, auto, list(born)
		self.closed = False; self.pos = 0; self.string = True
	def rows(self, m=None):
		m = self.n - self.pos if m is None else m
		r = [(i + self.k * 100000, 'é%d' % self.k) for i in range(self.pos + 1, min(self.n, self.pos + m) + 1)]; self.pos = min(self.n, self.pos + m); return r

op = st.one_of(
	st.tuples(st.just('prepare'), st.sampled_from([0, 1, 3, 3, 40, 40, 4100]), st.integers(0, 2)), st.tuples(st.just('prepare'), st.sampled_from([3, 5]), st.just(0)), st.tuples(st.just('named'), st.sampled_from([2, 2, 4, 4096]), st.integers(0, 3)), st.tuples(st.just('from id'), st.integers(0, 9), st.just(0)), st.tuples(st.just('clone'), st.integers(0, 9), st.just(0)), st.tuples(st.just('clone'), st.integers(0, 9), st.just(0)),
	st.tuples(st.just('call'), st.integers(0, 9), st.integers(0, 5)), st.tuples(st.just('call'), st.integers(0, 9), st.integers(0, 5)), st.tuples(st.just('stream'), st.integers(0, 9), st.integers(0, 3)), st.tuples(st.just('declare'), st.integers(0, 9), st.just(0)), st.tuples(st.just('declare'), st.integers(0, 9), st.just(0)), st.tuples(st.just('temporary'), st.sampled_from([0, 2, 2, 5, 4100]), st.integers(0, 5)),
	st.tuples(st.just('sql cursor'), st.sampled_from([0, 3]), st.integers(0, 2)), st.tuples(st.just('read'), st.integers(0, 9), st.sampled_from([1, 2, 5, 4096, None])), st.tuples(st.just('read'), st.integers(0, 9), st.sampled_from([1, 2, 4097, None])),
	st.tuples(st.just('close'), st.integers(0, 9), st.booleans()), st.tuples(st.just('close'), st.integers(0, 9), st.booleans()), st.tuples(st.just('drop'), st.integers(0, 9), st.booleans()), st.tuples(st.just('drop'), st.integers(0, 9), st.booleans()), st.tuples(st.just('drop'), st.integers(0, 9), st.booleans()), st.tuples(st.just('destroy'), st.integers(0, 9), st.just(0)),
	st.tuples(st.just('begin'), st.just(0), st.just(0)), st.tuples(st.just('commit'), st.just(0), st.just(0)), st.tuples(st.just('rollback'), st.just(0), st.just(0)), st.tuples(st.just('bad'), st.integers(0, 9), st.integers(0, 9)), st.tuples(st.just('proc'), st.integers(0, 1), st.just(0)), st.tuples(st.just('bulk'), st.integers(1, 40), st.integers(0, 7)), st.tuples(st.just('drop all'), st.integers(0, 3), st.booleans()))
more = st.tuples(st.sampled_from(['call', 'read', 'declare', 'stream', 'close', 'drop', 'clone', 'drop', 'close']), st.integers(0, 9), st.integers(0, 3)).map(lambda o: (o[0], o[1], o[2] or None) if o[0] == 'read' else o)
@law(st.tuples(st.lists(st.one_of(op, op, more), min_size=5, max_size=26).map(lambda l: l if l[0][0] == 'begin' else [('prepare', 3, 0)] + l), st.sampled_from(['', '', 'close', 'lost']), st.booleans()), 450, 6000)
def the_server_has_what_is_open(case, t):
	ops, end, quiet = case
	if not seq[0]: gc.collect(); gc.freeze()
	for form in (0, 1):
		F = live.form(form); odd = []
		old, sys.unraisablehook = sys.unraisablehook, odd.append
		try:
			db, = F.take(1); pid = db.backend_id; db.msghook = lambda m: True
			history(F, db, ops, end, quiet, t)
			gc.collect(); check(not odd, 'an exception while objects went: %r', odd and odd[0].exc_value)
			if not end: F.give([db])
			else: F.give([])
		finally: sys.unraisablehook = old

seq = [0]; lookers = {}
def history(F, db, ops, end, quiet, t):
	X = F.exc; objs = []; blocks = []; failed = False; alive = set(); curs = set(); fin = used = False
	def new(o): objs.append(o); return o
	def text(k, n, mark): return "SELECT i + %d::int4 AS v, 'é%d'::text AS w FROM generate_series(1, %d) i /*c25 %s*/" % (k * 100000, k, n, mark)
	def mark(): seq[0] += 1; return 'm%dx' % seq[0]
	def pick(n, kinds, f=lambda o: True):
		l = [o for o in objs if o.kind in kinds and f(o)]
		return l[n % len(l)] if l else None
	def there(o):
		"""whether the object can be used"""
		if o.kind == 'statement': return not o.closed and o.name in alive
		if o.kind == 'cursor': return not o.closed and o.name in curs
		return True
	def refused(o, e, how):
		nonlocal failed, used
		used = True
		want = X.Error if failed else X.StatementNameError if o.kind == 'statement' else X.CursorNameError
		check(isinstance(e, want), '%s of a %s that is %s: %r, not a %s', how, o.kind, 'closed' if o.closed else 'gone', e, want.__name__)
		if blocks and not failed: failed = db.state == 'failed block' or None
	def forget(o):
		nonlocal fin
		fin = True
		if o in objs: objs.remove(o)
		if o.auto:
			if o.kind == 'statement' and not any(x.kind in ('cursor', 'stream') and x.of is o for x in objs): alive.discard(o.name)
			elif o.kind == 'statement': zombies.append(o)
			elif o.kind == 'cursor': curs.discard(o.name)
		for z in list(zombies):
			if not any(x.kind in ('cursor', 'stream') and x.of is z for x in objs): zombies.remove(z); alive.discard(z.name); z.lib = None
		o.lib = None
	zombies = []
	def ended(ok):
		"""the innermost block ended"""
		b = blocks.pop()
		for o in list(objs):
			if b not in o.born: continue
			if o.kind == 'stream' and (not ok or not blocks): forget(o)
			elif not ok and o.kind == 'cursor': curs.discard(o.name)
			o.born = [] if not blocks and ok else [x if x is not b else blocks[-1] for x in o.born] if ok and blocks else o.born
	def looker(q):
		if lookers.get(id(db), (None,))[0] is not db: lookers[id(db)] = (db, db.prepare(q))
		return lookers[id(db)][1]
	def look(after):
		if failed: return
		for attempt in (0, 1, 2):
			got = [(a, b, c) for a, b, c in looker("SELECT 's', name, statement FROM pg_prepared_statements WHERE statement LIKE '%c25 m%' OR statement LIKE '%c25fn%' UNION ALL SELECT 'c', name, statement FROM pg_cursors WHERE name <> '' AND statement LIKE '%/*c25 m%' AND statement NOT LIKE '%pg_cursors%'")() if 'pg_prepared' not in c]
			st = {b for a, b, c in got if a == 's' and 'c25fn' not in c}; cu = {b for a, b, c in got if a == 'c'}; fn = sum('c25fn' in c for a, b, c in got if a == 's')
			live_streams = [o for o in objs if o.kind == 'stream']
			extra = [c for a, b, c in got if a == 'c' and b not in curs]
			# a stream that ended needs its statement no more
			maybe = {z.name for z in zombies if not any(x.kind == 'cursor' and x.of is z for x in objs)}
			if alive - maybe <= st <= alive and curs <= cu and all(sum(o.mark in c for o in live_streams) >= sum(c2 == c for c2 in extra) for c in extra) and fn == sum(o.kind == 'proc' for o in objs): return
			gc.collect()
		check(alive - maybe <= st, 'after %s, a statement in use is gone: %r', after, sorted(alive - maybe - st)); check(st <= alive, 'after %s, statements are left: %r', after, [c for a, b, c in got if a == 's' and b not in alive])
		check(curs <= cu, 'after %s, a cursor in use is gone: %r', after, sorted(curs - cu)); check(False, 'after %s, cursors or procedures are left: %r, %d procedures for %d', after, extra, fn, sum(o.kind == 'proc' for o in objs))
	def execute(o, how):
		"""the rows of statement o"""
		f = [o.lib, lambda: list(o.lib.rows()), lambda: [r for c in o.lib.chunks() for r in c], lambda: [o.lib.first()], lambda: list(zip(o.lib.column())), lambda: list(iter(o.lib))][how]
		e, got = raised(f)
		if e is not None: return e, None, None
		o.pos = 0; want = o.rows()
		if how == 3: want = want[:1] or [None]
		if how == 4: want = [x[:1] for x in want]
		return None, [None if x is None else tuple(x) for x in got], want
	for what, a, b in ops:
		if failed and what not in ('call', 'read', 'declare', 'close', 'drop', 'commit', 'rollback', 'stream'): continue
		t.ev(what); o = p = e = got = lib = f = None
		if what == 'prepare':
			m = mark(); o = new(Obj('statement', db.prepare(text(a % 7, a, m)), a % 7, a, mark=m)); o.name = o.lib.statement_id; alive.add(o.name)
		elif what == 'named':
			m = mark(); name = 'n%d "q\' é' % (b % 2); k = 8 + b
			for x in [x for x in objs if x.kind == 'statement' and x.name == name and not x.closed]: x.lib.close(); forget(x); alive.discard(name)		# so they close it no more
			if b < 2: lib = db.prepare(text(k, a, m), statement_id=name)
			else:
				if name in alive: db.execute('DEALLOCATE "%s"' % name.replace('"', '""'))
				elif db.query.first('SELECT 1 FROM pg_prepared_statements WHERE name = $1', name): db.execute('DEALLOCATE "%s"' % name.replace('"', '""'))
				db.execute('PREPARE "%s" AS %s' % (name.replace('"', '""'), text(k, a, m))); lib = db.statement_from_id(name)
			o = new(Obj('statement', lib, k, a, name, m, False)); o.string = b < 2; alive.add(name)
		elif what == 'from id':
			o = pick(a, ('statement',), lambda o: not o.auto)
			if o is None: continue
			e, lib = raised(db.statement_from_id, o.name)
			if o.name in alive:
				if e is not None: raise e
				p = new(Obj('statement', lib, o.k, o.n, o.name, o.mark, False)); p.string = False
			else: refused(Obj('statement', None, 0, 0), e, 'making one of an identifier')
		elif what == 'bulk':
			for i in range(a):
				m = mark(); o = new(Obj('statement', db.prepare(text(i % 7, i % 4, m)), i % 7, i % 4, mark=m)); o.name = o.lib.statement_id; alive.add(o.name)
				if (i + b) % 3 == 0:
					p = new(Obj('cursor', o.lib.declare(), o.k, o.n, mark=m, born=blocks[-1:])); p.of = o; p.name = p.lib.cursor_id; curs.add(p.name)
		elif what == 'drop all':
			for i, o in enumerate([o for o in objs if o.auto and (a == 0 or (o.k + len(o.mark or '')) % a == 0)]):
				if b and i % 2 and o.kind in ('statement', 'cursor') and not o.closed: o.lib.close(); o.closed = fin = True; (alive if o.kind == 'statement' else curs).discard(o.name)
				else: forget(o)
			o = None
		elif what == 'clone':
			o = pick(a, ('statement', 'cursor'), lambda o: o.string and (o.kind == 'statement' or not o.of.closed))
			if o is None: continue
			lib = o.lib.clone(); p = new(Obj(o.kind, lib, o.k, o.n, mark=o.mark))
			if o.kind == 'statement': p.name = lib.statement_id; alive.add(p.name)
			else: p.name = lib.cursor_id; curs.add(p.name); p.of = o.of; p.born = blocks[-1:]
			check(p.name != o.name, 'a clone of the same name')
		elif what == 'call':
			o = pick(a, ('statement', 'proc'))
			if o is None: continue
			if o.kind == 'proc':
				if failed: continue
				eq(list(o.lib(4)), [1, 2, 3, 4], 'the procedure'); continue
			if not failed and not o.closed and not there(o): b = b % 2 * 3		# its string can still be declared
			e, got, want = execute(o, b)
			if failed or not there(o): refused(o, e, ('a call', 'rows', 'chunks', 'first', 'column', 'iteration')[b])
			elif e is not None: raise e
			else: eq(got, want, 'the rows of a statement'); used = True
		elif what in ('stream', 'declare'):
			o = pick(a, ('statement',), lambda o: what == 'stream' or o.string)
			if o is None: continue
			if not failed and not o.closed and not there(o): continue
			if what == 'declare': e, lib = raised(o.lib.declare)
			else: e, lib = raised(lambda: [o.lib.rows, o.lib.rows, lambda: (r for c in o.lib.chunks() for r in c), lambda: zip(o.lib.column())][b]())
			if failed or not there(o):
				if e is None and what == 'stream': e, got = raised(next, lib, None); lib = None
				refused(o, e, what); continue
			if e is not None: raise e
			p = new(Obj('cursor' if what == 'declare' else 'stream', lib, o.k, o.n, mark=o.mark, born=blocks[-1:])); p.of = o; p.column = what == 'stream' and b == 3
			if what == 'declare': p.name = lib.cursor_id; curs.add(p.name)
			lib = None
		elif what == 'temporary':
			m = mark(); f = [lambda q: db.query(q), lambda q: list(db.query.rows(q)), lambda q: [r for c in db.query.chunks(q) for r in c], lambda q: db.query.declare(q).read(), lambda q: list(db.prepare(q)), lambda q: [next(iter(db.prepare(q).rows()), None)]][b]
			o = Obj('', None, 5, a); got = f(text(5, a, m)); want = o.rows(); eq([x and tuple(x) for x in got], want if b < 5 else want[:1] or [None], 'the rows of a temporary statement')
		elif what == 'sql cursor':
			m = mark(); name = 'cu%d "é' % b
			if name in curs or any(x.kind == 'cursor' and x.name == name and not x.closed for x in objs) or db.query.first('SELECT 1 FROM pg_cursors WHERE name = $1', name): continue
			db.execute('DECLARE "%s" SCROLL CURSOR WITH HOLD FOR %s' % (name.replace('"', '""'), text(b, a, m)))
			o = new(Obj('cursor', db.cursor_from_id(name), b, a, name, m, False, blocks[-1:])); o.string = False; o.of = None; curs.add(name)
			e, got = raised(db.cursor_from_id, 'nosuch cursor') if not blocks else (None, None)
			check(blocks or isinstance(e, X.CursorNameError), 'a cursor from an unknown identifier: %r, %r', e, got)
		elif what == 'read':
			o = pick(a, ('cursor', 'stream'))
			if o is None: continue
			if o.kind == 'stream':
				e, got = raised(lambda: [tuple(x) for x in (o.lib if b is None else (x for x, _ in zip(o.lib, range(b))))])
				if failed: forget(o); continue
				if e is not None: raise e
				keep = o.pos; want = o.rows(b)
				if b is not None and keep + b < o.n: o.pos += 1		# zip() took one more
				used = True
				if o.column: want = [x[:1] for x in want]
				eq(got, want, 'rows of a stream')
			else:
				e, got = raised(o.lib.read, b) if b != 1 else raised(lambda: [x for x in [next(o.lib, None)] if x is not None])
				if failed or not there(o): refused(o, e, 'read'); continue
				if e is not None: raise e
				eq([tuple(x) for x in got], o.rows(b), 'rows of a cursor'); used = True
		elif what == 'close':
			o = pick(a, ('statement', 'cursor'))
			if o is None: continue
			was = o.closed; o.lib.close(); check(o.lib.closed is True, 'closed is %r after close()', o.lib.closed); eq(o.lib.state, 'closed', 'the state of a closed %s' % o.kind)
			if b: o.lib.close()
			if not was: (alive if o.kind == 'statement' else curs).discard(o.name)
			o.closed = fin = True
			if o in zombies: zombies.remove(o)
		elif what == 'drop':
			o = pick(a, ('statement', 'cursor', 'stream', 'proc'))
			if o is None: continue
			lib = None; forget(o)
			if b: gc.collect()
		elif what == 'destroy':
			o = pick(a, ('statement', 'cursor'), lambda o: o.name in (alive if o.kind == 'statement' else curs))
			if o is None: continue
			db.execute(('DEALLOCATE "%s"' if o.kind == 'statement' else 'CLOSE "%s"') % o.name.replace('"', '""')); (alive if o.kind == 'statement' else curs).discard(o.name); o.string = False if o.kind == 'cursor' else o.string
		elif what == 'begin':
			x = db.xact(); x.start(); blocks.append(x)
		elif what in ('commit', 'rollback'):
			if not blocks or failed and what == 'commit': continue
			(blocks[-1].commit if what == 'commit' else blocks[-1].rollback)(); ended(what == 'commit'); failed = False
		elif what == 'proc':
			if not db.query.first("SELECT 1 FROM pg_proc WHERE proname = 'c25fn'"):
				if blocks: continue
				db.execute('CREATE FUNCTION pg_temp.c25fn(int4) RETURNS SETOF int4 LANGUAGE sql AS $$ SELECT generate_series(1, $1) $$')
			if not db.query.first("SELECT 1 FROM pg_proc WHERE proname = 'c25fn' AND pronamespace = pg_my_temp_schema()"): continue
			new(Obj('proc', db.proc('pg_temp.c25fn(int4)'), 0, 0))
		elif what == 'bad':
			q = mark(); o = pick(b, ('statement',), lambda o: there(o))
			f, cls, server = [(lambda: db.prepare('SELEKT /*c25 %s*/' % q), X.SyntaxError, 1), (lambda: db.prepare('SELECT * FROM nosuch25 /*c25 %s*/' % q), X.UndefinedTableError, 1), (lambda: db.query('SELECT 1 / (i - 2) FROM generate_series(1, 3) i /*c25 %s*/' % q), X.ZeroDivisionError, 1), (lambda: db.query.declare('SELECT 1 / (i - 2) FROM generate_series(1, 3) i /*c25 %s*/' % q).read(), X.ZeroDivisionError, 1),
				(lambda: list(db.query.rows('SELECT 1 / (i - 2) FROM generate_series(1, 3) i /*c25 %s*/' % q)), X.ZeroDivisionError, 1), (lambda: o.lib(1), TypeError, 0), (lambda: db.prepare('SELECT $1::int4 /*c25 %s*/' % q)('x'), (X.ParameterError, X.Error), 0), (lambda: db.statement_from_id('nosuch'), X.StatementNameError, 1), (lambda: db.execute('SELECT 1; SELECT 1/0'), X.ZeroDivisionError, 1),
				(lambda: db.prepare('SELECT $1::int4 /*c25 %s*/' % q).declare('x'), (X.ParameterError, X.Error), 0)][a]
			if a == 5 and o is None: continue
			e, got = raised(f); check(isinstance(e, cls), 'the failure %d: %r, %r', a, e, got)
			e = got = None
			if blocks and server: failed = True
		o = p = e = got = lib = f = None
		if failed is None: failed = False
		if db.state != 'busy': eq(db.state, 'failed block' if failed else 'idle in block' if blocks else 'idle', 'the state of the connection after %s' % what)
		for x in objs:
			if x.kind in ('statement', 'cursor'): check(bool(x.lib.closed) == x.closed, 'closed is %r', x.lib.closed)
		x = None
		if not quiet: look(what)
	look('all')
	t.nt(fin and used)
	if end:
		lookers.pop(id(db), None)
		if end == 'close': db.close()
		else:
			live.raw('c25').query('SELECT pg_terminate_backend(%d)' % db.backend_id)
			e, got = raised(lambda: db.query('SELECT 1')); check(isinstance(e, X.Error), 'on a lost connection: %r, %r', e, got); e = None
		check(db.closed, 'the connection is not closed')
		for o in list(objs):
			if o.kind == 'stream': forget(o); continue
			fs = {'statement': [lambda: o.lib(), lambda: o.lib.first(), lambda: list(o.lib.rows()), lambda: list(o.lib.chunks()), lambda: list(o.lib.column())] + [lambda: o.lib.declare(), lambda: o.lib.clone()] * o.string, 'cursor': [lambda: o.lib.read(), lambda: next(o.lib), lambda: o.lib.seek(0)] + [lambda: o.lib.clone()] * o.string, 'proc': [lambda: list(o.lib(1))]}[o.kind]
			for i, f in enumerate(fs):
				e, got = raised(f); check(isinstance(e, (X.ConnectionDoesNotExistError, X.ConnectionFailureError) if end == 'lost' or 1 else ()), 'use %d of a %s of a connection that was closed: %r, %r', i, o.kind, e, got)
			if o.kind != 'proc': o.lib.close(); check(o.lib.closed is True, 'not closed'); o.lib.close()
		for n, f in dict(prepare=lambda: db.prepare('SELECT 1'), execute=lambda: db.execute('SELECT 1'), query=lambda: db.query('SELECT 1'), proc=lambda: db.proc('version()'), statement=lambda: db.statement_from_id('x'), cursor=lambda: db.cursor_from_id('x'), xact=lambda: db.xact().start(), settings=lambda: db.settings['work_mem'], reset=db.reset, notify=lambda: db.notify('x'), listen=lambda: db.listen('x')).items():
			e, got = raised(f); check(isinstance(e, (X.ConnectionDoesNotExistError, X.ConnectionFailureError)), '%s on a closed connection: %r, %r', n, e, got)
		db.close(); check(db.closed, 'not closed'); e = got = o = f = fs = None
		objs.clear(); zombies.clear(); gc.collect()
	else:
		if blocks: blocks[0].rollback() if len(blocks) == 1 else [b.rollback() for b in reversed(blocks)]
		for o in list(objs):
			if not o.auto and not o.closed: o.lib.close()
		objs.clear(); zombies.clear(); o = x = p = e = got = lib = f = None; gc.collect()
		for n, in db.query("SELECT name FROM pg_prepared_statements WHERE name LIKE 'n_ \"q%'"): db.execute('DEALLOCATE "%s"' % n.replace('"', '""'))
		for n, in db.query("SELECT name FROM pg_cursors WHERE name LIKE 'cu_ %'"): db.execute('CLOSE "%s"' % n.replace('"', '""'))
		alive.clear(); curs.clear(); failed = False; blocks.clear()
		look('the end')
