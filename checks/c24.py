"""C24: The DB-API interface follows PEP 249 over any history."""
import datetime, decimal, os, time
from hypothesis import strategies as st
from vlib import live, pg
from vlib.core import law, check, eq, raised

RULE = ("Statements composed of placeholders of either style (repeated and odd keys), quotes of every kind holding percent signs, operators with doubled percent signs, with values of many types; histories of connections with two cursors: statements of every kind, fetches in any mixture and sizes, "
	"commits, rollbacks, autocommit, failures (at commit, too), closes. Oracle: the row computed while composing the statement; a model of the connection, its cursors and of what another session sees. Non-trivial: two placeholders with quoted percent signs; histories that fetch and end transactions.")
ASSUME = ["comments and keys holding quotes or parentheses are not covered", "fetching what was selected before a failure on the same cursor is not covered"]

cons = {}
def connection(form, fresh=False):
	F = live.form(form); DB = F.sub('driver.dbapi20')
	db = cons.get(form)
	if db is None or db.closed or fresh:
		db = DB.connect(user='test', unix=pg.server().sock, database='test', host=None, port=None); db.msghook = lambda m: True
		cons[form] = db
	return DB, db
def clean(form):
	db = cons.pop(form, None)
	if db is not None: live.form(form).drop(db)

D = decimal.Decimal
VALUES = [('int4', 7), ('int4', -3), ('int4', None), ('text', ''), ('text', "it's %s %(a)s %% $1"), ('text', 'é\\\n"'), ('text', None), ('bytea', b'\x00%s\xff'), ('bool', True), ('bool', False), ('numeric', D('1.50')), ('date', datetime.date(2020, 2, 29)), ('timestamp', datetime.datetime(2020, 2, 3, 4, 5, 6, 7)), ('int8', 2 ** 40), ('varchar', 'v'), ('float8', 0.5), ('oid', 12)]
KEYS = ['a', 'b c', 'ключ', '', 's', 'a%', '%s', '%%', 'x-y', '1', ' .2f', '$1']
piece = st.sampled_from(['%', '%s', '%(a)s', '%%', '%%s', '%(b', ')s', '$1', '$2', ' ', 'x', 'é', '--', '/*', '%d', ';'])
junk = st.lists(piece, max_size=4).map(''.join)
frag = st.one_of(
	st.tuples(st.just('param'), st.integers(0, 11), st.integers(0, 16)), st.tuples(st.just('param'), st.integers(0, 2), st.integers(0, 16)), st.tuples(st.sampled_from(['lit', 'elit', 'dollar', 'tag', 'dbl', 'uni']), junk, junk), st.tuples(st.just('ident'), junk, st.integers(0, 50)),
	st.tuples(st.just('mod'), st.integers(0, 50), st.integers(1, 9)), st.tuples(st.just('mods'), st.integers(0, 50), st.integers(1, 9)), st.tuples(st.just('modp'), st.integers(0, 11), st.integers(1, 9)), st.tuples(st.just('pmod'), st.integers(0, 11), st.integers(1, 9)), st.tuples(st.just('cat'), st.integers(0, 11), junk), st.tuples(st.just('op'), st.integers(0, 11), st.integers(1, 9)))
PARAMS = ('param', 'modp', 'pmod', 'cat', 'op')
def compose(frags, style):
	"""the statement, its parameters, the row and the columns' names that it gives"""
	sql, vals, keyed, row, names = [], [], {}, [], []
	have = any(f[0] in PARAMS for f in frags)
	pc = '%%' if have else '%'
	def param(k, ty, v):
		if style == 'format':
			vals.append(v); return '%s', v
		key = KEYS[k % len(KEYS)] + {'int4': '', 'text': 't'}.get(ty, ty)
		v = keyed.setdefault(key, v)
		return '%(' + key + ')s', v
	for i, f in enumerate(frags):
		what, a, b = f; name = None
		if what == 'param':
			ty, v = VALUES[b]; s, v = param(a, ty, v); s += '::' + ty
		elif what == 'lit': s, v = "'%s'" % (a + "''" + b), a + "'" + b
		elif what == 'elit': s, v = "E'%s\\'%s'" % (a, b), a + "'" + b
		elif what == 'dollar': s, v = "$$%s$$" % (a + "'" + b).replace('$', '.'), (a + "'" + b).replace('$', '.')
		elif what == 'tag': s, v = "$t_1$%s$$%s$t_1$" % (a.replace('$', '.'), b.replace('$', '.')), a.replace('$', '.') + '$$' + b.replace('$', '.')
		elif what == 'dbl': s, v = "'%s' '%s'" % (a, b), None
		elif what == 'uni': s, v = "U&'%s''%s'" % (a, b), a + "'" + b
		elif what == 'ident': name = a + '"' + str(i); s, v = str(b), b
		elif what == 'mod': s, v = '%d%s%d' % (a, pc, b), a % b
		elif what == 'mods': s, v = ('(SELECT %d %ss FROM (VALUES (%d)) v(s))' if have else '(SELECT %d %s s FROM (VALUES (%d)) v(s))') % (a, pc, b), a % b
		elif what == 'modp': p, x = param(a, 'int4', 17 + b); s, v = '%d %s%s::int4' % (50, pc, p), x and int(50 - int(50 / x) * x)
		elif what == 'pmod': p, x = param(a, 'int4', 17 + b); s, v = '%s::int4%s%d' % (p, pc, b), x if x is None else x - int(x / b) * b
		elif what == 'cat': p, x = param(a, 'text', 'x%sy'); s, v = "'%s' || %s::text || '%s'" % (b, p, b), x if x is None else b + x + b
		elif what == 'op': p, x = param(a, 'int4', b); s, v = "(%s::int4 + '1')" % p, x if x is None else x + 1
		if what == 'dbl': s, v = "('%s'||'%s')" % (a, b), a + b
		if what in ('lit', 'elit', 'dollar', 'tag', 'uni'): s = '(' + s + ')::text'
		if name is None: name = 'c%d' % i
		sql.append(s + ' AS "' + name.replace('"', '""') + '"'); row.append(v); names.append(name)
	return sql, (vals if style == 'format' else keyed), tuple(row), names, have

def short(names): return all(len(n.encode()) < 64 for n in names)
@law(st.tuples(st.lists(frag, min_size=1, max_size=7), st.sampled_from(['format', 'pyformat']), st.integers(0, 3)), 1500, 20000)
def statements_are_executed_with_the_parameters_given(case, t):
	frags, style, n = case
	sql, params, row, names, have = compose(frags, style)
	q = 'SELECT ' + ', '.join(sql)
	for form in (0, 1):
		DB, db = connection(form); cur = db.cursor()
		try:
			if have: cur.execute(q, params if style == 'pyformat' or n % 2 else tuple(params))
			elif n % 2: cur.execute(q)
			else: cur.execute(q, params)
			got = cur.fetchall(); eq([tuple(x) for x in got], [row], 'the row of %r with %r' % (q, params))
			eq([type(x) for x in got[0]], [type(x) for x in row], 'types of the row of %r' % q)
			if short(names): eq([d[0] for d in cur.description], names, 'names in the description')
			for d, f in zip(cur.description, frags):
				check(len(d) == 7, 'a description of %d items', len(d))
				ty = VALUES[f[2]][0] if f[0] == 'param' else 'text' if f[0] in ('lit', 'elit', 'dollar', 'tag', 'uni', 'cat', 'dbl') else 'int4'
				want = {'int4': DB.NUMBER, 'int8': DB.NUMBER, 'text': DB.STRING, 'varchar': DB.STRING, 'bytea': DB.BINARY, 'timestamp': DB.DATETIME, 'oid': DB.ROWID}.get(ty)
				check(want is None or d[1] == want, 'the type of a %s column is %r', ty, d[1])
			eq(cur.rowcount, -1, 'the row count of a query')
			# wrong parameters
			if have:
				if style == 'format':
					wrong = [list(params) + [1], list(params)[:-1], ()]
				else:
					some = dict(params); gone = sorted(some)[n % len(some)]; x = some.pop(gone); wrong = [some, dict(some, nosuch=x), {}]
				for w in wrong:
					e, g = raised(lambda: cur.execute(q, w)); check(isinstance(e, (TypeError, LookupError, DB.Error)), 'parameters %r accepted for %r: %r, %r', w, q, e, g)
				both = q + (', %s::int4' if style == 'pyformat' else ', %(b)s::int4')
				for w in ((1, 2), {'a': 1, 'b': 2}, dict(params, b=1) if style == 'pyformat' else params):
					e, g = raised(lambda: cur.execute(both, w)); check(isinstance(e, (TypeError, LookupError, DB.Error, ValueError)), 'both styles in %r: %r, %r', both, e, g)
			else:
				e, g = raised(lambda: cur.execute(q, (1,))); check(isinstance(e, (TypeError, DB.Error)), 'a parameter accepted for %r: %r, %r', q, e, g)
			# the same when loaded
			if have:
				db.rollback(); cur.execute('CREATE TEMP TABLE load24 (i serial, x text[])')
				many = 'INSERT INTO load24 (x) SELECT ARRAY[' + ', '.join('(' + s.rsplit(' AS "', 1)[0] + ')::text' if f[0] != 'ident' else str(f[2]) + "::text" for s, f in zip(sql, frags)) + ']'
				rows = [params] * n; cur.executemany(many, rows if n % 2 else iter(rows))
				eq(cur.description, None, 'the description after a load'); eq(cur.rowcount, -1, 'the row count of a load')
				cur.execute('SELECT x FROM load24 ORDER BY i'); loaded = cur.fetchall()
				text = [None if v is None else {True: 'true', False: 'false'}[v] if isinstance(v, bool) else '\\x' + v.hex() if isinstance(v, bytes) else v.isoformat(' ') if isinstance(v, datetime.datetime) else str(v) for v in row]
				eq([list(x[0]) for x in loaded], [text] * n, 'what %r loaded' % many)
		finally: db.rollback()
	t.nt(have and len(params) > 1 and any(f[0] not in PARAMS for f in frags)); t.ev(style)

@law(st.tuples(st.integers(0, 2 ** 31), st.floats(0, 0.999), st.sampled_from(['UTC0', 'EST5', 'XXX-5:45', 'AAA-12', 'BBB+11', 'CET-1CEST,M3.5.0,M10.5.0/3'])), 300, 2000)
def times_are_made_of_ticks(case, t):
	# in local time, as the specification says
	n, f, zone = case
	old = os.environ.get('TZ'); os.environ['TZ'] = zone; time.tzset()
	try: ticks(n, f)
	finally:
		if old is None: del os.environ['TZ']
		else: os.environ['TZ'] = old
		time.tzset()
	t.nt(zone != 'UTC0')
def ticks(n, f):
	for form in (0, 1):
		DB = live.form(form).sub('driver.dbapi20'); lt = time.localtime(n + f)
		eq(DB.DateFromTicks(n + f), datetime.date(lt[0], lt[1], lt[2]), 'the date'); eq(DB.TimeFromTicks(n + f), datetime.time(lt[3], lt[4], lt[5]), 'the time')
		eq(DB.TimestampFromTicks(n + f), datetime.datetime(*lt[:6]), 'the timestamp')
		eq(DB.Date(2020, 2, 3), datetime.date(2020, 2, 3), 'a date'); eq(DB.Binary(b'ab'), b'ab', 'binary')

BAD = {'syntax': ('SELEKT 1', 'ProgrammingError'), 'table': ('SELECT * FROM nosuch24', 'ProgrammingError'), 'column': ('SELECT nosuch FROM d24', 'ProgrammingError'), 'zero': ('INSERT INTO d24 SELECT 1 / (k - k) FROM d24 UNION ALL SELECT 1 / 0', 'DataError'), 'text': ("INSERT INTO d24 (k) VALUES (('x' || %s::text)::int4)", 'DataError'), 'range': ('UPDATE d24 SET k = 32768::int2 UNION', 'ProgrammingError'), 'null': ('INSERT INTO d24 (k) VALUES (NULL)', 'IntegrityError'), 'check': ('INSERT INTO d24 (k) VALUES (-1)', 'IntegrityError')}
op = st.one_of(
	st.tuples(st.just('insert'), st.integers(0, 6), st.integers(0, 3)), st.tuples(st.just('load'), st.integers(0, 6), st.integers(0, 3)), st.tuples(st.just('update'), st.integers(0, 6), st.integers(0, 3)), st.tuples(st.just('delete'), st.integers(0, 8), st.just(0)),
	st.tuples(st.just('table'), st.just(0), st.just(0)), st.tuples(st.just('series'), st.sampled_from([0, 1, 2, 5, 100, 255, 256, 257, 600]), st.just(0)), st.tuples(st.just('callproc'), st.sampled_from([0, 1, 3, 300]), st.just(0)), st.tuples(st.just('returning'), st.integers(0, 6), st.integers(0, 3)), st.tuples(st.just('ddl'), st.just(0), st.just(0)),
	st.tuples(st.just('one'), st.integers(1, 4), st.just(0)), st.tuples(st.just('many'), st.sampled_from([None, 1, 2, 3, 10, 256, 300, 1000]), st.just(0)), st.tuples(st.just('all'), st.just(0), st.just(0)), st.tuples(st.just('iter'), st.sampled_from([1, 2, 50, 257, 5000]), st.just(0)), st.tuples(st.just('arraysize'), st.sampled_from([1, 2, 7, 300]), st.just(0)), st.tuples(st.just('nextset'), st.just(0), st.just(0)),
	st.tuples(st.just('commit'), st.just(0), st.just(0)), st.tuples(st.just('commit'), st.just(0), st.just(0)), st.tuples(st.just('rollback'), st.just(0), st.just(0)), st.tuples(st.just('auto'), st.booleans(), st.just(0)), st.tuples(st.just('bad'), st.sampled_from(sorted(BAD)), st.just(0)), st.tuples(st.just('close'), st.just(0), st.just(0)), st.tuples(st.just('closedb'), st.just(0), st.just(0)))
class Cur(object):
	def __init__(self, cur): self.cur, self.stack, self.description, self.count, self.size, self.touched = cur, [], None, -1, 1, False
@law(st.tuples(st.lists(st.tuples(st.integers(0, 1), op), min_size=1, max_size=18), st.booleans()), 700, 9000)
def a_history_is_that_of_the_model(case, t):
	ops, fresh = case; r = live.raw('c24')
	if not r.query("SELECT 1 FROM pg_class WHERE relname = 'd24'"): r.query('CREATE TABLE d24 (k int4 PRIMARY KEY CHECK (k >= 0), u int4 UNIQUE DEFERRABLE INITIALLY DEFERRED); CREATE FUNCTION s24(n int4) RETURNS SETOF int4 LANGUAGE sql AS $$ SELECT generate_series(1, n) $$')
	for form in (0, 1):
		r.query('TRUNCATE d24') if not cons.get(form) else None
		DB, db = connection(form, fresh and len(ops) > 10)
		if not db.autocommit: db.rollback()
		r.query('TRUNCATE d24')
		try: history(DB, db, r, ops, t)
		except BaseException: clean(form); raise
		if not db.closed:
			db.autocommit = True; db.autocommit = False
	t.nt(any(o[0] in ('one', 'many', 'all', 'iter') for _, o in ops) and any(o[0] in ('commit', 'rollback', 'auto') for _, o in ops))

def chunked(F, size):
	M = getattr(F.sub('driver.pq3'), 'MultiXactStream', None)
	if M is not None and isinstance(getattr(M, 'chunksize', None), int): M.chunksize = size
fetch = st.one_of(st.tuples(st.just('one'), st.one_of(st.integers(1, 4), st.integers(1, 20)), st.just(0)), st.tuples(st.just('many'), st.sampled_from([None, 1, 2, 3, 10, 255, 256, 300, 4096]), st.just(0)), st.tuples(st.just('iter'), st.sampled_from([1, 2, 5, 50, 257]), st.just(0)), st.tuples(st.just('arraysize'), st.sampled_from([1, 2, 7, 300]), st.just(0)), st.tuples(st.just('all'), st.just(0), st.just(0)), st.tuples(st.just('nextset'), st.just(0), st.just(0)))
result = st.one_of(st.tuples(st.just('series'), st.sampled_from([3, 5, 12, 12, 20, 100, 255, 256, 257, 513, 600, 4095, 4096, 4097, 8193]), st.just(0)), st.tuples(st.just('callproc'), st.sampled_from([3, 9, 300, 4098]), st.just(0)))
@law(st.tuples(st.lists(st.tuples(st.integers(0, 1), result), min_size=1, max_size=3), st.lists(st.tuples(st.sampled_from([0, 0, 0, 1]), fetch), min_size=2, max_size=12), st.sampled_from([2, 3, 7, 7, 256, 4096])), 400, 5000)
def every_row_is_fetched_once(case, t):
	results, fetches, size = case
	ops = [(0, results[0][1])] + results[1:] + fetches
	r = live.raw('c24')
	for form in (0, 1):
		DB, db = connection(form)
		if not db.autocommit: db.rollback()
		chunked(live.form(form), size)
		try: history(DB, db, r, ops, t, False)
		except BaseException: clean(form); raise
		finally: chunked(live.form(form), 4096)
		db.autocommit = True; db.autocommit = False
	t.nt(len({x[0] for _, x in fetches if x[0] in ('one', 'many', 'iter')}) > 1)

def history(DB, db, r, ops, t, table=True):
	committed = {}; work = {}; failed = False; auto = False
	curs = [Cur(db.cursor()), Cur(db.cursor())]
	def seen(after):
		if table: eq({int(k): None if u is None else int(u) for k, u in r.query('SELECT k, u FROM d24 ORDER BY k')}, committed, 'what others see after %s' % after)
	def violated(rows):
		u = [x for x in rows.values() if x is not None]; return len(u) != len(set(u))
	for which, (what, a, b) in ops:
		c = curs[which]; cur = c.cur
		def run(stmt, params, fails=None):
			"""False if it failed, as it must; fails is the class of the error expected"""
			want = 'Error' if failed else fails
			many = what == 'load'
			e, got = raised(lambda: cur.executemany(stmt, params) if many else cur.execute(stmt, *params))
			if want and e is None and 'RETURNING' in stmt: e, got = raised(cur.fetchone)	# its rows are read when they are fetched
			if want:
				check(isinstance(e, getattr(DB, want)) and isinstance(e, DB.Error) and isinstance(e, DB.DatabaseError), '%r %r: %r, not a %s', stmt, params, e, want); check(isinstance(e, getattr(db, want)), 'not an error of the connection')
				# what this cursor has is not known
				c.stack = [None]; c.touched = True; c.description = c.count = 'unknown'
				return False
			if e is not None: raise e
			return True
		def dml(stmt, params, new, count, fails=None, returning=None):
			nonlocal work, failed, committed
			if auto and not fails and violated(new): fails = 'IntegrityError'
			if not run(stmt, params, fails):
				if not auto: failed = True
			else:
				work = new
				if auto: committed = dict(new)
				if returning is None: c.stack = []; c.description = None; c.count = count
				else: c.stack.insert(0, list(returning)); c.description = ['k', 'u']; c.count = -1
		if what == 'insert': dml('INSERT INTO d24 VALUES (%s, %s)', ((a, b or None),), {**work, a: b or None}, 1, 'IntegrityError' if a in work else None)
		elif what == 'returning':
			if violated({**work, a: b or None}) and auto: continue		# when it fails
			dml('INSERT INTO d24 VALUES (%(k)s, %(u)s) RETURNING k, u', ({'u': b or None, 'k': a},), {**work, a: b or None}, None, 'IntegrityError' if a in work else None, [(a, b or None)])
		elif what == 'load':
			new = {a: b or None, a + 10: None, a + 20: None}; fails = 'IntegrityError' if set(new) & set(work) else None
			if auto and (fails or violated({**work, **new})): continue
			dml('INSERT INTO d24 VALUES (%(k)s, %(u)s)', [dict(k=k, u=u) for k, u in new.items()], {**work, **new}, -1, fails)
		elif what == 'update': n = {k: (b or None) if k >= a else u for k, u in work.items()}; dml('UPDATE d24 SET u = %s WHERE k >= %s', ((b or None, a),), n, sum(k >= a for k in work))
		elif what == 'delete': dml('DELETE FROM d24 WHERE k >= ' + str(a), (), {k: u for k, u in work.items() if k < a}, sum(k >= a for k in work))
		elif what == 'ddl':
			if run('CREATE TEMP TABLE IF NOT EXISTS t24 ()', ()): c.stack = []; c.description = None; c.count = -1
		elif what == 'table':
			if run('SELECT k, u FROM d24 ORDER BY k', ()): c.stack.insert(0, sorted(work.items())); c.description = ['k', 'u']; c.count = -1
		elif what == 'series':
			if run('SELECT i AS "a %%s", %(x)s::text AS x, %(x)s::text FROM generate_series(1, %(n)s::int4) i' if a % 2 else "SELECT i AS \"a %%s\", 'y%s'::text AS x, 'y%s' AS text FROM generate_series(1, %s) i", ({'n': a, 'x': 'y%s'},) if a % 2 else ((a,),)): c.stack.insert(0, [(i, 'y%s', 'y%s') for i in range(1, a + 1)]); c.description = ['a %%s', 'x', 'text']; c.count = -1
		elif what == 'callproc':
			args = (a,); e, got = raised(cur.callproc, 's24', args)
			if failed: check(isinstance(e, DB.Error), 'callproc in a failed transaction: %r', e); c.stack = [None]; c.description = c.count = 'unknown'
			else:
				if e is not None: raise e
				eq(tuple(got), args, 'the arguments'); c.stack.insert(0, [(i,) for i in range(1, a + 1)]); c.description = ['s24']; c.count = -1
		elif what == 'bad':
			stmt, cls = BAD[a]; run(stmt, (('y',),) if '%s' in stmt else (), cls)
			if not auto: failed = True
		elif what in ('one', 'many', 'all', 'iter', 'nextset'):
			if c.stack and c.stack[0] is None: continue
			f = {'one': cur.fetchone, 'many': cur.fetchmany, 'all': cur.fetchall, 'iter': cur.__next__, 'nextset': cur.nextset}[what]
			if not c.stack:
				e, got = raised(f); check(isinstance(e, DB.Error), '%s without a result: %r, %r', what, e, got); continue
			rows = c.stack[0]; t.ev(what)
			if what == 'one':
				for _ in range(a):
					got = f(); eq(None if got is None else tuple(got), rows.pop(0) if rows else None, 'fetchone')
			elif what == 'many': n = a or c.size; got = f(a) if a else f(); eq([tuple(x) for x in got], rows[:n], 'fetchmany of %r' % a); del rows[:n]
			elif what == 'all': eq([tuple(x) for x in f()], rows, 'fetchall'); del rows[:]
			elif what == 'iter':
				got = []
				for x in cur:
					got.append(tuple(x))
					if len(got) == a: break
				eq(got, rows[:a], '%d rows iterated over' % a); del rows[:a]
			else:
				del c.stack[0]; got = f()
				if c.stack and c.stack[0] is None: continue
				check(bool(got) == bool(c.stack) and (got is None) == (not c.stack), 'nextset gives %r with %d sets left', got, len(c.stack))
		elif what == 'arraysize': cur.arraysize = c.size = a
		elif what == 'commit':
			e, got = raised(db.commit)
			if auto: check(isinstance(e, DB.InterfaceError), 'commit in autocommit mode: %r', e)
			elif not failed and violated(work): check(isinstance(e, DB.IntegrityError), 'the commit of a violated constraint: %r', e); work = dict(committed); t.ev('commit failed')
			else:
				if failed: work = dict(committed); check(e is None or isinstance(e, DB.Error), 'the commit of a failed transaction: %r', e)
				elif e is not None: raise e
				else: committed = dict(work)
			failed = False
		elif what == 'rollback':
			e, got = raised(db.rollback)
			if auto: check(isinstance(e, DB.InterfaceError), 'rollback in autocommit mode: %r', e)
			elif e is not None: raise e
			work = dict(committed); failed = False
		elif what == 'auto':
			db.autocommit = a
			if a: work = dict(committed); failed = False
			auto = a
		elif what == 'close':
			cur.close()
			for n, f in {'execute': lambda: cur.execute('SELECT 1'), 'executemany': lambda: cur.executemany('SELECT %s::int4', [(1,)]), 'fetchone': cur.fetchone, 'fetchmany': cur.fetchmany, 'fetchall': cur.fetchall, 'next': cur.__next__, 'close': cur.close, 'callproc': lambda: cur.callproc('version', ()), 'nextset': cur.nextset, 'setinputsizes': lambda: cur.setinputsizes(()), 'setoutputsize': lambda: cur.setoutputsize(1)}.items():
				e, got = raised(f); check(isinstance(e, DB.Error), '%s of a closed cursor: %r, %r', n, e, got)
			curs[which] = c = Cur(db.cursor()); cur = c.cur; t.ev('closed cursor')
		elif what == 'closedb':
			db.close(); check(db.closed, 'not closed')
			for n, f in {'commit': db.commit, 'rollback': db.rollback, 'close': db.close, 'execute': lambda: cur.execute('SELECT 1'), 'executemany': lambda: cur.executemany('INSERT INTO d24 VALUES (%s, NULL)', [(1,)]), 'callproc': lambda: cur.callproc('version', ())}.items():
				if auto and n in ('commit', 'rollback'): continue
				e, got = raised(f); check(isinstance(e, DB.Error), '%s of a closed connection: %r, %r', n, e, got)
			check(db.closed, 'not closed'); t.ev('closed connection')
			for _ in range(200):
				if not r.query("SELECT 1 FROM pg_locks WHERE relation = 'd24'::regclass AND pid <> pg_backend_pid()"): break
				time.sleep(0.01)
			seen('close'); return
		if c.description != 'unknown':
			d = cur.description; eq(None if d is None else [x[0] for x in d], c.description, 'the description after %s' % what); eq(cur.rowcount, c.count, 'the row count after %s' % what)
		eq(db.autocommit, auto, 'autocommit')
		if what in ('insert', 'load', 'commit', 'rollback', 'auto', 'bad', 'update', 'delete', 'returning'): seen(what)
	if not auto: db.rollback()
	seen('the end')
