"""C14: All ways of running a statement give the same result."""
from hypothesis import strategies as st
from vlib import live, gen
from vlib.core import law, check, eq, raised

RULE = ("Queries of many kinds and result sizes around the chunk boundaries run by every execution method; histories of up to five open iterators and cursors interleaved with other statements, loads and transactions; sequences of commands and batch loads; and result and parameter types. "
	"Oracle: the rows, tags and oids an independent client gets for the same text. Non-trivial: at least two rows or two interleaved iterators.")

def chunked(F, size):
	"""use small chunks, when there is such a setting, to have many boundaries"""
	M = getattr(F.sub('driver.pq3'), 'MultiXactStream', None)
	if M is not None and isinstance(getattr(M, 'chunksize', None), int): M.chunksize = size or 4096
def text(v): return None if v is None else 't' if v is True else 'f' if v is False else str(v)
def plain(rows): return [tuple(map(text, r)) for r in rows]
class Bag(list):
	"""rows whose order is the server's choice"""
	def __eq__(self, other): return sorted(self, key=repr) == sorted(other, key=repr)
	__ne__ = lambda self, other: not self == other
	__hash__ = None

KIND = {
	'series': lambda n, k: "SELECT i, CASE WHEN i %% %d = 0 THEN NULL ELSE 'r' || i END AS t, i %% 2 = 0 AS b FROM generate_series(1, %d) g(i)" % (k + 2, n),
	'null first': lambda n, k: "SELECT CASE WHEN i %% %d = 0 THEN NULL ELSE i END AS i FROM generate_series(1, %d) g(i)" % (k + 1, n),
	'text nulls': lambda n, k: "SELECT CASE WHEN i %% %d = 0 THEN NULL ELSE i::text END FROM generate_series(1, %d) g(i)" % (k + 2, n),
	'values': lambda n, k: 'VALUES ' + ', '.join("(%d, '%%')" % i for i in range(min(n, 300) + 1)),
	'with': lambda n, k: 'WITH RECURSIVE x(i) AS (SELECT 1 UNION ALL SELECT i + 1 FROM x WHERE i < %d) SELECT i, -i FROM x' % max(1, min(n, 500)),
	'table': lambda n, k: 'TABLE vt14', 'parenthesized': lambda n, k: '(SELECT i FROM generate_series(1, %d) g(i)) UNION ALL (SELECT 0)' % n,
	'commented': lambda n, k: '/* a; comment */ SELECT i -- the number\nFROM generate_series(1, %d) g(i) -- end' % n, 'terminated': lambda n, k: ' select i from generate_series(1, %d) g(i); ' % n,
	'no columns': lambda n, k: 'SELECT FROM generate_series(1, %d)' % n, 'quoted': lambda n, k: """SELECT 'it''s; $1' AS "a ""b""; $2", i FROM generate_series(1, %d) g(i)""" % n,
	'show': lambda n, k: 'SHOW search_path', 'explain': lambda n, k: 'EXPLAIN (COSTS OFF) SELECT * FROM vt14', 'returning': lambda n, k: 'INSERT INTO vt14r SELECT i FROM generate_series(1, %d) g(i) RETURNING i, i * 2' % n,
	'commented returning': lambda n, k: '-- one; two\n/* three */ INSERT INTO vt14r SELECT i FROM generate_series(1, %d) g(i) RETURNING i' % n,
	'for update': lambda n, k: 'SELECT i FROM vt14u WHERE i <= %d ORDER BY i FOR UPDATE' % n, 'for share': lambda n, k: '-- x\nselect i from vt14u where i <= %d order by i for share' % n,
	'with insert': lambda n, k: 'WITH x AS (INSERT INTO vt14r SELECT i FROM generate_series(1, %d) g(i) RETURNING i) SELECT i, -i FROM x' % n, 'mentions': lambda n, k: "SELECT i, 'insert; update delete for share' FROM generate_series(1, %d) g(i)" % n,
	'updated': lambda n, k: 'update vt14u SET j = j WHERE i <= %d RETURNING i' % n, 'wide': lambda n, k: 'SELECT %s FROM generate_series(1, %d) g(i)' % (', '.join('i AS c%d' % j for j in range(60)), min(n, 200)),
	'empty texts': lambda n, k: "SELECT CASE WHEN i %% %d = 0 THEN NULL WHEN i %% 2 = 1 THEN '' ELSE i::text END, '' FROM generate_series(1, %d) g(i)" % (k + 2, n), 'lines of comment': lambda n, k: "/* one\n two;\n*/ -- three\n/**/INSERT INTO vt14r SELECT i FROM generate_series(1, %d) g(i) RETURNING i" % n,
	'lines of comment, show': lambda n, k: '/*\n*\n*/(SHOW search_path)'.replace('(', '').replace(')', ''),
	'big': lambda n, k: "SELECT i, repeat('x', i * 100 %% 3000) FROM generate_series(1, %d) g(i)" % min(n, 600),
}
DECLARABLE = {k for k in KIND if k not in ('show', 'explain', 'returning', 'commented returning', 'updated', 'for update', 'for share', 'with insert', 'lines of comment', 'lines of comment, show')}
size = st.one_of(st.integers(0, 20), st.sampled_from([0, 1, 255, 256, 257]), st.sampled_from([4095, 4096, 4097, 8191, 8192, 8193]))
def setup(r):
	r.query("SET client_min_messages = error; DROP TABLE IF EXISTS vt14, vt14r, vt14u, vt14l, vt14d; CREATE TABLE vt14 AS SELECT i, 'v' || i AS v FROM generate_series(1, 7) g(i); CREATE TABLE vt14r (i int4); CREATE TABLE vt14l (n serial, i int4, t text); CREATE TABLE vt14u AS SELECT i, 0 AS j FROM generate_series(1, 300) g(i); CREATE TABLE vt14d (i int4, t text)")
ready = set()
def prepare():
	r = live.raw()
	if r not in ready: setup(r); ready.clear(); ready.add(r)
	return r

@law(st.tuples(st.sampled_from(sorted(KIND)), size, st.integers(0, 4), st.sampled_from([0, 0, 1, 2, 3, 7, 256]), st.booleans()), 250)
def every_method_gives_the_servers_rows(case, t):
	kind, n, k, cs, inx = case
	if cs in (1, 2, 3) and n > 300: n %= 50
	sql = KIND[kind](n, k); r = prepare()
	res = r.query(sql); want = [tuple(x) for x in res]; names = list(r.cols); width = len(names)
	if kind == 'updated': want = Bag(want)
	for form in (0, 1):
		F = live.form(form); db = F.get(); chunked(F, cs)
		t.nt(len(want) > 1); t.ev(kind)
		def run():
			ps = db.prepare(sql)
			eq(list(ps.column_names), names, 'column names')
			def flat(c):
				c = list(c); check(all(isinstance(x, (list, tuple)) for x in c), 'chunks: %r', c); return [y for x in c for y in x]
			def pieces(c, q):
				out = []
				while True:
					x = c.read(q); out.extend(x)
					if len(x) < q: return out
			ways = [('call', lambda: ps()), ('rows', lambda: list(ps.rows())), ('chunks', lambda: flat(ps.chunks())), ('iter', lambda: list(ps)), ('query', lambda: db.query(sql)), ('query.rows', lambda: list(db.query.rows(sql))), ('query.chunks', lambda: flat(db.query.chunks(sql)))]
			if kind in DECLARABLE:
				ways += [('declare', lambda: ps.declare().read()), ('query.declare', lambda: db.query.declare(sql).read()), ('read in pieces', lambda: pieces(ps.declare(), k * 50 + 7))]
				if len(want) <= 300: ways.append(('cursor iteration', lambda: list(ps.declare())))
			if not inx or True:
				def byid():
					raised(db.execute, 'DEALLOCATE vt14s') if db.pq.state == b'I' else None
					nm = 'vt14s' if db.pq.state == b'I' else 'vt14x%d' % id(ps)
					db.execute('PREPARE %s AS %s' % (nm, sql)); p2 = db.statement_from_id(nm)
					try:
						eq(list(p2.column_names), names, 'column names by id')
						a = p2(); b = plain(flat(p2.chunks())); check((Bag(b) if kind == 'updated' else b) == plain(a), 'chunks by id of %s: %r, %r', sql, b[:20], plain(a)[:20]); return a
					finally: p2.close(); db.query.first('SELECT 1')
				if kind in DECLARABLE or kind in ('returning', 'commented returning', 'lines of comment', 'updated', 'for update', 'for share', 'with insert'): ways.append(('by id', byid))
			for how, f in ways:
				rows = f()
				check(want == plain(rows), '%s of %s: %r, the server has %r', how, sql, plain(rows)[:20], want[:20])
			if width and kind != 'updated':
				for how, f in [('column', lambda: list(ps.column())), ('query.column', lambda: list(db.query.column(sql)))]:
					eq([text(x) for x in f()], [x[0] for x in want], '%s of %s' % (how, sql))
				for how, f in [('first', ps.first), ('query.first', lambda: db.query.first(sql))]:
					got = f()
					if not want: eq(got, None, '%s of %s' % (how, sql))
					elif width == 1: eq(text(got), want[0][0], '%s of %s' % (how, sql))
					else: eq(tuple(map(text, got)), want[0], '%s of %s' % (how, sql))
			ps.close()
		if inx:
			x = db.xact(); x.start()
			try: run()
			except BaseException:
				x.rollback(); raise
			x.rollback()
		else: run()
		chunked(F, 0)
	if 'returning' in kind or kind in ('with insert', 'lines of comment'): r.query('TRUNCATE vt14r')

@law(st.tuples(st.sampled_from(['call', 'rows', 'chunks', 'column', 'iter', 'first', 'query', 'query.rows', 'query.first', 'declare', 'pieces', 'load', 'by id']), st.one_of(st.integers(0, 30), st.sampled_from([4096, 4097])), st.sampled_from([0, 1, 2, 3, 7, 256]), st.sampled_from([0, 0, 1, 2]), st.booleans()), 250)
def a_query_with_effects_executes_once(case, t):
	how, n, cs, stop, inx = case
	if cs in (1, 2, 3): n %= 40
	t.nt(n > 1); t.ev(how); sql = "SELECT nextval('vt14q'), pg_temp.vt14e(i) FROM generate_series(1, %d) g(i)" % n
	for form in (0, 1):
		F = live.form(form); db = F.get(); chunked(F, cs)
		db.execute("DISCARD TEMP; CREATE TEMP SEQUENCE vt14q; CREATE TEMP TABLE vt14fx (n serial, i int4); CREATE FUNCTION pg_temp.vt14e(i int4) RETURNS int4 LANGUAGE sql AS 'INSERT INTO vt14fx (i) VALUES (i) RETURNING i'")
		x = db.xact() if inx else None
		if x: x.start()
		ps = None
		if how == 'by id': db.execute('PREPARE vt14z AS ' + sql); ps = db.statement_from_id('vt14z')
		elif 'query' not in how: ps = db.prepare(sql) if how != 'load' else db.prepare("SELECT nextval('vt14q'), pg_temp.vt14e($1::int4)")
		def cut(it):
			out = []; it = iter(it)
			for y in it:
				out.append(y)
				if stop and len(out) >= stop: break
			return out
		def pieces():
			c = ps.declare(); out = []
			while True:
				y = c.read(7); out.extend(y)
				if len(y) < 7: c.close(); return out
		done = n
		if how in ('call', 'by id'): rows = ps()
		elif how in ('rows', 'iter'): rows = cut(ps.rows() if how == 'rows' else ps)
		elif how == 'query.rows': rows = cut(db.query.rows(sql))
		elif how == 'chunks': rows = [r for c in cut(ps.chunks()) for r in c]
		elif how == 'column': rows = [(v, None) for v in cut(ps.column())]
		elif how == 'query': rows = db.query(sql)
		elif how in ('first', 'query.first'):
			v = ps.first() if how == 'first' else db.query.first(sql); rows = [v] if v is not None else []; done = None
		elif how == 'declare':
			c = ps.declare(); rows = c.read(); c.close()
		elif how == 'pieces': rows = pieces()
		else: ps.load_rows([(i,) for i in range(1, n + 1)]); rows = None
		if rows is not None:
			if how in ('first', 'query.first'): check(len(rows) == min(n, 1), '%s: %r', how, rows)
			elif not stop or how not in ('rows', 'iter', 'query.rows', 'chunks', 'column'): eq(len(rows), n, 'rows of ' + how)
			eq([a for a, _ in rows], list(range(1, len(rows) + 1)), '%s: the values of a sequence' % how)
			if how != 'column': eq([b for _, b in rows], list(range(1, len(rows) + 1)), '%s: the second column' % how)
		made = [tuple(r) for r in db.prepare('SELECT i FROM vt14fx ORDER BY n')()]
		if x: x.commit()
		if done is not None and (not stop or not inx or how not in ('rows', 'iter', 'query.rows', 'chunks', 'column')): eq(made, [(i,) for i in range(1, n + 1)], '%s of %d rows: the effects' % (how, n))
		else: eq(made, [(i,) for i in range(1, len(made) + 1)], '%s: the effects' % how); check(len(made) >= len(rows) and len(made) <= n, '%s: %d effects, %d rows', how, len(made), len(rows))
		eq(db.prepare('SELECT count(*) FROM vt14fx').first(), len(made), 'effects after the end of the block')
		if how == 'by id': ps.close()
		chunked(F, 0)

opened = st.tuples(st.just('open'), st.sampled_from(['rows', 'chunks', 'column', 'declare', 'named']), st.integers(0, 30), st.booleans())
op = st.one_of(
	opened, opened, st.tuples(st.just('next'), st.integers(0, 9), st.integers(1, 12)), st.tuples(st.just('next'), st.integers(0, 9), st.integers(1, 3)),
	st.tuples(st.just('drain'), st.integers(0, 9)), st.tuples(st.just('drop'), st.integers(0, 9)), st.tuples(st.just('query'), st.integers(0, 5)), st.tuples(st.just('fail')), st.tuples(st.just('load'), st.integers(0, 5)), st.tuples(st.just('xact'), st.booleans()), st.tuples(st.just('reprepare')))
@law(st.tuples(st.tuples(st.lists(opened, min_size=1, max_size=4), st.lists(op, min_size=3, max_size=25)).map(lambda x: x[0] + x[1]), st.sampled_from([1, 2, 3, 5, 4096]), st.booleans()), 400)
def open_iterators_do_not_disturb_each_other(case, t):
	ops, cs, inx = case
	prepare()
	for form in (0, 1):
		F = live.form(form); db = F.get(); chunked(F, cs)
		def run():
			its = []; base = 0; ps = db.prepare('SELECT i, i::text FROM generate_series($1::int4 + 1, $1 + $2::int4) g(i)'); big = 0
			def take(it, m):
				nonlocal big
				kind, i, pos, end = it
				for _ in range(m):
					if kind == 'declare':
						got = i.read(2); want = list(range(pos + 1, min(pos + 2, end) + 1))
						eq([(a, b) for a, b in got], [(x, str(x)) for x in want], 'read of a cursor'); pos += len(want)
						if not want: break
						continue
					e, v = raised(next, i)
					if kind == 'chunks':
						if e is None and pos == end: eq(list(v), [], 'a chunk past the end'); continue
						if pos == end: check(isinstance(e, StopIteration), 'after the last chunk: %r', e); break
						check(e is None, 'chunk at %d of %d: %r', pos, end, e)
						want = [(x, str(x)) for x in range(pos + 1, pos + len(v) + 1)]
						eq(list(v), want, 'a chunk'); check(pos + len(v) <= end, 'more than the rows'); pos += len(v)
					elif pos == end: check(isinstance(e, StopIteration), 'after the last: %r', e if e is not None else v); break
					else:
						check(e is None, 'row %d of %d: %r', pos, end, e); pos += 1
						eq(tuple(v) if kind == 'rows' else v, (pos, str(pos)) if kind == 'rows' else pos, kind)
				it[2] = pos
			depth = 0
			try:
				for o in ops:
					if o[0] == 'open':
						if len(its) > 4: continue
						kind, n, reuse = o[1:]
						s = ps if reuse else db.prepare(ps.string)
						if kind == 'declare': i = s.declare(base, n)
						elif kind == 'named': kind = 'rows'; i = db.query.rows(ps.string, base, n)
						else: i = iter(getattr(s, kind)(base, n))
						its.append([kind, i, base, base + n]); base += 100
						if len(its) > 1: t.nt(True)
						t.ev(kind)
					elif o[0] == 'next' and its: take(its[o[1] % len(its)], o[2])
					elif o[0] == 'drain' and its: it = its[o[1] % len(its)]; take(it, 60); eq(it[2], it[3], 'drained')
					elif o[0] == 'drop' and its: del its[o[1] % len(its)]
					elif o[0] == 'query': eq(db.query.first('SELECT $1::int4 * 2', o[1]), o[1] * 2, 'another statement')
					elif o[0] == 'fail' and not inx:
						e, _ = raised(db.query, 'SELECT 1 / 0'); check(isinstance(e, F.exc.ZeroDivisionError), 'failing: %r', e)
					elif o[0] == 'load': db.query.load_rows('INSERT INTO vt14l (i, t) VALUES ($1, $2)', [(i, 'x') for i in range(o[1])])
					elif o[0] == 'xact':
						x = db.xact(); x.start(); eq(db.query.first('SELECT 7'), 7, 'in a transaction')
						x.commit() if o[1] or inx else x.rollback()
					elif o[0] == 'reprepare': ps = db.prepare(ps.string)
				for it in its: take(it, 60); eq(it[2], it[3], 'drained at the end')
			finally: del its
		if inx:
			with db.xact(): run()
		else: run()
		chunked(F, 0)

cmds = st.one_of(
	st.integers(0, 5).map(lambda n: 'INSERT INTO vt14d SELECT i, i::text FROM generate_series(1, %d) g(i)' % n), st.integers(0, 6).map(lambda n: 'UPDATE vt14d SET t = t || 1 WHERE i = %d' % n), st.integers(0, 6).map(lambda n: 'DELETE FROM vt14d WHERE i > %d' % n),
	st.sampled_from(['CREATE TEMP TABLE vt14t (i int4)', 'DROP TABLE IF EXISTS vt14t', '', ' ', ';', '-- nothing', 'CREATE TEMP TABLE IF NOT EXISTS vt14x AS SELECT i FROM vt14d', 'DROP TABLE IF EXISTS vt14x', 'SET extra_float_digits = 1', 'LOCK TABLE vt14d', 'ANALYZE vt14d', 'TRUNCATE vt14d', 'DO $$BEGIN END$$', 'CREATE OR REPLACE VIEW vt14v AS SELECT 1 AS a', 'DROP VIEW IF EXISTS vt14v', 'SELECT * INTO TEMP vt14i FROM vt14d', 'DROP TABLE IF EXISTS vt14i', 'DISCARD PLANS', 'MERGE INTO vt14d d USING (VALUES (1), (99)) x(i) ON x.i = d.i WHEN MATCHED THEN UPDATE SET t = $$m$$ WHEN NOT MATCHED THEN INSERT VALUES (x.i)', 'COMMENT ON TABLE vt14d IS NULL', 'NOTIFY vt14n', 'DECLARE vt14cur CURSOR FOR SELECT 1', 'SAVEPOINT a', 'WITH x AS (DELETE FROM vt14d WHERE i = 1) UPDATE vt14d SET t = t']))
@law(st.lists(st.tuples(cmds, st.sampled_from(['call', 'first', 'query', 'query.first', 'rows', 'chunks'])), min_size=1, max_size=10), 250)
def commands_report_their_tags(case, t):
	prepare()
	raw = live.raw(); db = None
	for form in (0, 1):
		F = live.form(form); db = F.get()
		for sql in ('BEGIN', 'TRUNCATE vt14d'): raw.query(sql)
		tags = []
		for sql, _ in case:
			raw.query('SAVEPOINT s')
			e, rows = raised(raw.query, sql)
			tags.append(None if e is not None else (raw.tags[-1] if raw.tags else ''))
			if e is not None: raw.query('ROLLBACK TO s')
		raw.query('ROLLBACK')
		x = db.xact(); x.start()
		try:
			db.execute('TRUNCATE vt14d')
			for (sql, how), tag in zip(case, tags):
				db.execute('SAVEPOINT s')
				def go():
					if how.startswith('query'): return db.query(sql) if how == 'query' else db.query.first(sql)
					ps = db.prepare(sql)
					return ps() if how == 'call' else ps.first() if how == 'first' else list(getattr(ps, how)())
				e, got = raised(go); what = '%s of %r' % (how, sql)
				if tag is None:
					check(isinstance(e, F.exc.Error), '%s: %r; the server refused it', what, e if e is not None else got)
					db.execute('ROLLBACK TO s'); continue
				check(e is None, '%s: %r', what, e)
				t.nt(True)
				w = tag.split(); count = int(w[-1]) if w and w[-1].isdigit() else None
				cmd = ' '.join(x for x in w if not x.isdigit())
				if how in ('rows', 'chunks'): eq([y for y in got if y], [], what)
				elif tag == '': check(got in (None, [], ''), '%s: %r', what, got)
				elif 'first' in how: eq(got, count if count is not None else cmd, what)
				else: eq(tuple(got), (cmd, count), what)
		finally: x.rollback()

loadrow = st.tuples(st.one_of(st.none(), st.integers(-99, 99)), st.one_of(st.none(), gen.pgtext(4)))
@law(st.tuples(st.one_of(st.lists(loadrow, max_size=30), st.tuples(st.lists(loadrow, min_size=1, max_size=8), st.sampled_from([33, 65, 130])).map(lambda x: x[0] * x[1])), st.one_of(st.integers(1, 9), st.integers(1, 9), st.sampled_from([255, 256, 257, 600, 2000])), st.sampled_from(['load_rows', 'load_rows, chunks', 'load_chunks', 'query.load_rows', 'query.load_chunks', 'generator', 'from another']), st.booleans(), st.booleans()), 300)
def batches_execute_once_per_row_in_order(case, t):
	rows, cs, how, inx, select = case
	r = prepare()
	for form in (0, 1):
		F = live.form(form); db = F.get()
		r.query('TRUNCATE vt14l RESTART IDENTITY')
		sql = 'INSERT INTO vt14l (i, t) VALUES ($1, $2)' + (' RETURNING n' if select else '')
		def run():
			ps = db.prepare(sql); chunks = [rows[i:i + cs] for i in range(0, len(rows), cs)]
			if how == 'load_rows': got = ps.load_rows(rows)
			elif how == 'load_rows, chunks': got = ps.load_rows(iter(rows), chunksize=cs)
			elif how == 'load_chunks': got = ps.load_chunks(chunks)
			elif how == 'query.load_rows': got = db.query.load_rows(sql, rows)
			elif how == 'query.load_chunks': got = db.query.load_chunks(sql, iter(chunks))
			elif how == 'generator': got = ps.load_chunks((list(x) for x in c) for c in chunks)
			else:
				other = live.form(form, search_path='pg_catalog').get()
				vals = ', '.join('(%d, %s::int4, %s)' % (j, 'NULL' if i is None else i, 'NULL::text' if x is None else "'%s'::text" % x.replace("'", "''")) for j, (i, x) in enumerate(rows)) or '(0, NULL::int4, NULL::text)'
				src = other.prepare('SELECT i, t FROM (VALUES %s) v(n, i, t) %s ORDER BY n' % (vals, '' if rows else 'WHERE false'))
				chunked(F, cs); got = ps.load_chunks(src.chunks()); chunked(F, 0)
			eq(got, None, how)
			ps.close()
		if inx:
			with db.xact(): run()
		else: run()
		t.nt(len(rows) > 1); t.ev(how)
		have = [tuple(x) for x in r.query('SELECT i, t FROM vt14l ORDER BY n')]
		eq(have, [(text(a), b) for a, b in rows], how)

TYPES = 'bool bytea "char" name int8 int2 int4 text oid tid xid cid json xml point lseg path box polygon line float4 float8 unknown circle money macaddr inet cidr bpchar varchar date time timestamp timestamptz interval timetz bit varbit numeric refcursor regprocedure regoper regoperator regclass regtype uuid tsvector tsquery jsonb int4range txid_snapshot pg_lsn macaddr8 regrole regnamespace regconfig regdictionary aclitem xid8 int4multirange jsonpath regproc record int2vector oidvector pg_type cstring void'.split()
SAMPLE = {'bool': 'true', 'bytea': 'a', '"char"': 'a', 'name': 'a', 'int8': '1', 'int2': '1', 'int4': '1', 'text': 'a', 'oid': '1', 'tid': '(0,1)', 'xid': '1', 'cid': '1', 'json': '1', 'point': '(1,2)', 'lseg': '[(1,2),(3,4)]', 'box': '(1,2),(3,4)', 'circle': '<(1,2),3>', 'float4': '1', 'float8': '1', 'macaddr': '08:00:2b:01:02:03', 'bpchar': 'a', 'varchar': 'a',
	'date': '2020-01-01', 'time': '1:00', 'timestamp': '2020-01-01', 'timestamptz': '2020-01-01', 'interval': '1 day', 'timetz': '1:00+1', 'numeric': '1', 'regclass': 'pg_class', 'regtype': 'int4', 'uuid': '00000000-0000-0000-0000-000000000000', 'jsonb': '1', 'int4range': '[1,2)', 'money': '1', 'path': '((1,2))', 'polygon': '((1,2))', 'tsvector': 'a', 'pg_lsn': '0/0', 'xid8': '1', 'varbit': '101'}
@law(st.lists(st.tuples(st.sampled_from(TYPES), st.booleans(), gen.pgtext(5).filter(bool)), min_size=1, max_size=8), 300)
def types_are_the_servers(case, t):
	r = prepare()
	case = [(ty, arr and ty not in ('unknown', 'cstring', 'void', 'pg_type', 'record', 'int2vector', 'oidvector'), n.encode('utf-8')[:60].decode('utf-8', 'ignore') or 'x') for ty, arr, n in case]
	case = [c for c in case if c[0] not in ('unknown', 'cstring', 'void', 'record')] or [('int4', False, 'x')]
	names = [ty + '[]' * arr for ty, arr, _ in case]
	oids = [int(r.pquery('SELECT $1::text::regtype::oid', [n])[0][0]) for n in names]
	sql = 'SELECT ' + ', '.join('$%d::%s AS "%s"' % (i + 1, n, c[2].replace('"', '""')) for i, (n, c) in enumerate(zip(names, case)))
	for form in (0, 1):
		F = live.form(form); db = F.get(); ps = db.prepare(sql); t.nt(True)
		eq(list(ps.pg_parameter_types), oids, 'parameter oids'); eq(list(ps.pg_column_types), oids, 'column oids'); eq(list(ps.column_names), [c[2] for c in case], 'column names')
		for what, l in (('parameter', ps.sql_parameter_types), ('column', ps.sql_column_types)):
			eq(len(l), len(oids), '%s types' % what)
			for n, o, s in zip(names, oids, l):
				if s is None: continue
				e, got = raised(r.pquery, 'SELECT $1::text::regtype::oid', [s])
				check(e is None and int(got[0][0]) == o, 'the SQL type of a %s %s: %r is %r', n, what, s, e or got)
				check(s is not None, 'no SQL type for a %s %s', n, what)
		for what, l in (('parameter', ps.parameter_types), ('column', ps.column_types)):
			eq(len(l), len(oids), 'Python %s types' % what)
			for (ty, arr, _), py in zip(case, l):
				if arr: check(py is F.types.Array, 'the Python type of a %s[] %s: %r', ty, what, py)
				elif ty in SAMPLE:
					v = F.prepare('SELECT $1::text::%s' % ty).first(SAMPLE[ty]) if ty != 'json' else '1'
					check(isinstance(v, py), 'the Python type of a %s %s: %r, its value is %r', ty, what, py, v)
		if case[0][0] != 'pg_type':
			c = ps.declare(*[None] * len(case))
			eq((list(c.pg_column_types), list(c.column_names), list(c.sql_column_types), list(c.column_types)), (list(ps.pg_column_types), list(ps.column_names), list(ps.sql_column_types), list(ps.column_types)), 'of its cursor'); c.close()
		ps.close()
