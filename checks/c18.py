"""C18: COPY through statements moves every row exactly once."""
import struct
from hypothesis import strategies as st
from vlib import live, gen
from vlib.copydata import table, fmt, expand, fill, content, same
from vlib.core import law, check, eq, raised

RULE = ("COPY statements of the text, CSV and binary formats over generated rows (NULLs, delimiters, line ends, any Unicode, long values, sizes around the buffers) run by every method of retrieval while other operations interrupt them or they are abandoned; data cut into rows, chunks and messages in any way and loaded from sequences and generators; and loads that fail at a generated place by the data, the constraints, the caller's iterator or an interrupting operation. "
	"Oracle: the messages and table contents an independent client sees. Non-trivial: at least two rows.")


ops = st.lists(st.tuples(st.integers(0, 6), st.sampled_from(['query', 'execute', 'prepare', 'copy', 'load', 'copyin', 'rows', 'xact', 'error', 'gc', 'drop', 'first', 'settings'])), max_size=4)
def interrupt(F, db, r, what, keep, inx):
	"""another operation on the connection of a COPY in progress"""
	if what == 'query': eq([tuple(x) for x in db.query('SELECT i FROM generate_series(1, 3) g(i)')], [(1,), (2,), (3,)], 'an interrupting query')
	elif what == 'execute': db.execute('CREATE TEMP TABLE IF NOT EXISTS vt18x (i int4)')
	elif what == 'prepare': eq(db.prepare('SELECT $1::int4 + 1').first(4), 5, 'an interrupting statement')
	elif what == 'copy': eq(db.prepare("COPY (SELECT i FROM generate_series(1, 4) g(i)) TO STDOUT")(), [b'1\n', b'2\n', b'3\n', b'4\n'], 'an interrupting COPY')
	elif what == 'load':
		db.execute('CREATE TEMP TABLE IF NOT EXISTS vt18x (i int4); DELETE FROM vt18x'); db.prepare('INSERT INTO vt18x VALUES ($1)').load_rows([(i,) for i in range(7)]); eq(db.query.first('SELECT sum(i) FROM vt18x'), 21, 'an interrupting load')
	elif what == 'copyin':
		db.execute('CREATE TEMP TABLE IF NOT EXISTS vt18x (i int4); DELETE FROM vt18x'); db.prepare('COPY vt18x FROM STDIN').load_rows([b'%d\n' % i for i in range(7)]); eq(db.query.first('SELECT sum(i) FROM vt18x'), 21, 'an interrupting load')
	elif what == 'rows':
		it = iter(db.query.rows('SELECT i FROM generate_series(1, 9) g(i)')); eq(next(it)[0], 1, 'interrupting rows'); keep.append((it, 2))
	elif what == 'xact':
		with db.xact(): eq(db.query.first('SELECT 3'), 3, 'in a block')
	elif what == 'error':
		if not inx:
			e, _ = raised(db.execute, 'SELECT 1/0'); check(isinstance(e, F.exc.ZeroDivisionError), 'an interrupting error: %r', e)
			eq(db.query.first('SELECT 3'), 3, 'after it')
	elif what == 'gc':
		import gc; ps = db.prepare('SELECT 7'); ps(); del ps; gc.collect()
	elif what == 'drop':
		it = iter(db.query.rows('COPY (SELECT i FROM generate_series(1, 9000) g(i)) TO STDOUT')); eq(next(it), b'1\n', 'the first row of another COPY'); del it
	elif what == 'first': eq(db.query.first('SELECT 11'), 11, 'an interrupting first()')
	elif what == 'settings': db.settings['work_mem'] = '64kB'

@law(st.tuples(table, fmt, st.sampled_from(['call', 'query', 'rows', 'chunks', 'iter', 'query.rows', 'query.chunks', 'rows', 'chunks', 'rows']), ops, st.booleans(), st.integers(-1, 40), st.booleans()), 500, 8000)
def data_copied_out_is_complete(case, t):
	rows, f, way, interruptions, inx, stop, query = case; rows = expand(rows)
	r = live.raw(); fill(r, rows)
	sql = ('COPY (SELECT i, t FROM vt18 ORDER BY n) TO STDOUT' if query else 'COPY vt18 (i, t) TO STDOUT') + f
	want = list(r.copy(sql)); t.nt(len(rows) > 1); t.ev(way)
	for form in (0, 1):
		F = live.form(form); db = F.get(); x = db.xact() if inx else None
		if x: x.start()
		keep = []; todo = list(interruptions); got = []
		ps = db.prepare(sql)
		if way in ('call', 'query'): got = ps() if way == 'call' else db.query(sql)
		else:
			it = iter(ps.rows() if way == 'rows' else ps.chunks() if way == 'chunks' else ps if way == 'iter' else db.query.rows(sql) if way == 'query.rows' else db.query.chunks(sql))
			for y in it:
				if 'chunks' in way: y = list(y); got.extend(y)
				else: got.append(y)
				if len(got) > stop >= 0: break
				while todo and todo[0][0] <= len(got): interrupt(F, db, r, todo.pop(0)[1], keep, inx)
			else: stop = -1
		check(all(type(y) is bytes for y in got), 'items: %r', [type(y) for y in got][:5])
		if way in ('call', 'query') or stop < 0: same(got, want, way)
		else:
			eq(got, want[:len(got)], 'the beginning of %s' % way); del it
		eq(db.query.first('SELECT 5'), 5, 'afterwards')
		for k, n in keep: eq([y[0] for y in k], list(range(n, 10)), 'rows interrupted by a COPY')
		if x: x.commit()
		eq(r.query('SELECT state FROM pg_stat_activity WHERE pid = %d' % db.backend_id), [('idle',)], 'the state afterwards')

def cut(data, sizes):
	"""data cut into messages of the given sizes, repeating"""
	out = []; p = k = 0
	while p < len(data):
		n = sizes[k % len(sizes)]; out.append(data[p:p + n]); p += n; k += 1
		if n == 0 and not any(sizes): out.append(data[p:]); break
	return out
def group(l, sizes):
	out = []; p = k = 0
	while p < len(l):
		n = sizes[k % len(sizes)]; out.append(l[p:p + n]); p += n; k += 1
		if not any(sizes): out.append(l[p:]); break
	return out
KINDS = [list, tuple, iter, lambda l: (x for x in l)]
@law(st.tuples(table, fmt, st.one_of(st.none(), st.lists(st.sampled_from([0, 1, 2, 3, 7, 100, 4096, 8192, 20000]), min_size=1, max_size=4)), st.one_of(st.none(), st.integers(1, 300)), st.lists(st.sampled_from([0, 1, 2, 5, 256, 1000]), min_size=1, max_size=3), st.integers(0, 3), st.integers(0, 3), st.booleans(), st.sampled_from(['', '', 'notice', 'connection'])), 500, 8000)
def data_copied_in_is_loaded_once(case, t):
	rows, f, sizes, cs, groups, k1, k2, inx, extra = case; rows = expand(rows); fin = f.replace(', FORCE_QUOTE *', '')
	if sizes and max(sizes) < 20 and len(rows) > 300: rows = rows[:40]
	r = live.raw(); fill(r, rows); t.nt(len(rows) > 1)
	msgs = list(r.copy('COPY vt18 (i, t) TO STDOUT' + f))
	if sizes: msgs = cut(b''.join(msgs), sizes)
	r.query('DROP TABLE IF EXISTS vt18w; CREATE TABLE vt18w (n serial, i int4, t text)'); r.copy('COPY vt18w (i, t) FROM STDIN' + fin, msgs)
	want = content(r, 'vt18w'); eq(len(want), len(rows), 'rows an independent client loads')
	for form in (0, 1):
		r.query("DROP TABLE IF EXISTS vt18i; CREATE TABLE vt18i (n serial, i int4, t text)")
		F = live.form(form); db = F.get(); seen = []
		if extra == 'notice':
			r.query("CREATE OR REPLACE FUNCTION vt18n() RETURNS trigger LANGUAGE plpgsql AS $$BEGIN RAISE NOTICE 'row %', repeat('x', 150); RETURN NEW; END$$; CREATE TRIGGER x BEFORE INSERT ON vt18i FOR EACH ROW EXECUTE FUNCTION vt18n()")
			db.execute('SET client_min_messages = notice'); db.msghook = lambda m: seen.append(m) or True
		x = db.xact() if inx else None
		if x: x.start()
		ps = db.prepare('COPY vt18i (i, t) FROM STDIN' + fin)
		if extra == 'connection' and not sizes:
			src = F.connect(); out = src.prepare('COPY vt18 (i, t) TO STDOUT' + f); ps.load_chunks(out.chunks()) if k1 % 2 else ps.load_rows(out.rows()); src.close()
		elif cs is not None: ps.load_rows(KINDS[k1](msgs), cs) if cs % 3 else ps.load_rows(KINDS[k1](msgs))
		else: (ps.load_chunks if k1 % 2 else lambda c: db.query.load_chunks('COPY vt18i (i, t) FROM STDIN' + fin, c))(KINDS[k2]([KINDS[k1](g) for g in group(msgs, groups)]))
		eq(db.query.first('SELECT count(*) FROM vt18i'), len(rows), 'rows loaded')
		if extra == 'notice': eq(len(seen), len(rows), 'notices'); del db.msghook; db.execute('RESET client_min_messages')
		if x: x.commit()
		same(content(r), want, 'the table')

class Stop(Exception): pass
class Base(BaseException): pass
FAIL = ['raise', 'raise base', 'bad data', 'constraint', 'str', 'none', 'int', 'tuple', 'interrupt', 'interrupt caught', 'interrupt last', 'bytearray', 'chunk', 'truncated', 'trigger']
@law(st.tuples(st.sampled_from([0, 1, 3, 20, 255, 256, 257, 700]), st.integers(0, 699), st.sampled_from(FAIL), st.sampled_from(['load_rows', 'load_rows', 'load_chunks', 'query.load_rows']), st.sampled_from(['none', 'block', 'with', 'savepoint']), st.sampled_from(['query', 'execute', 'prepare', 'copy', 'copyin', 'rows', 'xact', 'first']), st.integers(1, 300)), 600, 8000)
def a_failed_load_loads_nothing(case, t):
	n, pos, fail, how, block, op, cs = case; pos %= n + 1; t.nt(n > 1); t.ev(fail)
	r = live.raw()
	for form in (0, 1):
		r.query("SET client_min_messages = error; DROP TABLE IF EXISTS vt18f; CREATE TABLE vt18f (i int4 UNIQUE, t text CHECK (t <> 'bad'))")
		if fail == 'trigger': r.query("CREATE OR REPLACE FUNCTION vt18g() RETURNS trigger LANGUAGE plpgsql AS $$BEGIN IF NEW.i = -1 THEN RAISE EXCEPTION 'refused'; END IF; RETURN NEW; END$$; CREATE TRIGGER x BEFORE INSERT ON vt18f FOR EACH ROW EXECUTE FUNCTION vt18g()")
		F = live.form(form); db = F.get(); caught = []
		lines = [b'%d\tx\n' % i for i in range(n)]
		item = {'bad data': b'no number\tx\n', 'constraint': b'900\tbad\n', 'str': '1\n', 'none': None, 'int': 7, 'tuple': (b'1', b'x'), 'bytearray': [b'1\n'], 'truncated': b'1000\n', 'trigger': b'-1\tx\n'}.get(fail)
		def source():
			for i in range(n + 1):
				if i == pos:
					if fail == 'raise': raise Stop()
					if fail == 'raise base': raise Base()
					if fail == 'interrupt': interrupt(F, db, r, op, [], block != 'none')
					if fail == 'interrupt caught':
						e, _ = raised(interrupt, F, db, r, op, [], False); caught.append(e)
					if item is not None or fail == 'none': yield item
				if i < n: yield lines[i]
			if fail == 'interrupt last': interrupt(F, db, r, op, [], block != 'none')
		def chunks():
			l = []
			it = source()
			while True:
				l = []
				for y in it:
					l.append(y)
					if len(l) == cs: break
				if fail == 'chunk': yield iter(l[:1]); raise Stop()
				yield l
				if len(l) < cs: return
		def load():
			ps = db.prepare('COPY vt18f FROM STDIN')
			if how == 'load_rows' and fail != 'chunk': ps.load_rows(source(), cs)
			elif how == 'query.load_rows' and fail != 'chunk': db.query.load_rows('COPY vt18f FROM STDIN', source())
			else: ps.load_chunks(chunks())
		def run():
			e, _ = raised(load)
			if fail in ('raise', 'chunk'): check(type(e) is Stop, 'the error of the iterator: %r', e)
			elif fail in ('str', 'none', 'int', 'tuple', 'bytearray'): check(isinstance(e, Exception), 'an item %r: %r', item, e)
			elif fail in ('interrupt', 'interrupt last', 'interrupt caught'): check(isinstance(e, F.exc.QueryCanceledError), 'the error of an interrupted COPY: %r', e)
			elif fail == 'bad data': check(isinstance(e, F.exc.TextRepresentationError), 'bad data: %r', e)
			elif fail == 'truncated': check(isinstance(e, F.exc.BadCopyError), 'a truncated line: %r', e)
			elif fail == 'constraint': check(isinstance(e, F.exc.CheckError), 'a bad row: %r', e)
			elif fail == 'trigger': check(isinstance(e, F.exc.PLPGSQLRaiseError), 'a refused row: %r', e)
			check(not db.closed, 'the connection is closed after %r', e)
			return e
		_load = load
		if fail == 'raise base':
			def load():
				try: _load()
				except Base: raise Stop()
				return
			fails = Stop
		if fail in ('interrupt', 'interrupt caught', 'interrupt last') and op == 'xact' and block == 'none': pass
		if block == 'none':
			run()
			if fail == 'raise base': raised(db.execute, 'SELECT 1')		# an interrupt may leave the COPY to the next operation
		elif block == 'with':
			e = None
			try:
				with db.xact():
					db.execute('CREATE TEMP TABLE vt18y (i int4)')
					raise run()
			except Exception as y: e = y
			eq(db.query.first("SELECT count(*) FROM pg_class WHERE relname = 'vt18y'"), 0, 'the block was not rolled back')
		else:
			x = db.xact(); x.start()
			if block == 'savepoint': db.execute("INSERT INTO vt18f VALUES (5000, 'kept')"); y = db.xact(); y.start()
			run()
			if block == 'savepoint': y.rollback(); eq(db.query.first('SELECT i FROM vt18f'), 5000, 'after the savepoint'); x.commit()
			else: x.rollback()
		eq(db.query.first('SELECT 5'), 5, 'the next query')
		eq(r.query('SELECT i FROM vt18f'), [('5000',)] if block == 'savepoint' else [], 'loaded by a failed COPY')
		db.query.load_rows('COPY vt18f FROM STDIN', lines); eq(int(r.one('SELECT count(*) FROM vt18f')), n + (block == 'savepoint'), 'loaded next')
		eq(r.query('SELECT state FROM pg_stat_activity WHERE pid = %d' % db.backend_id), [('idle',)], 'the state afterwards')

@law(st.tuples(st.sampled_from(['select', 'insert', 'copy to', 'create', 'empty', 'update', 'values']), st.sampled_from(['load_rows', 'load_chunks']), st.integers(0, 600), st.booleans()), 40, 400)
def only_copy_from_takes_copy_data(case, t):
	what, how, n, inx = case; t.nt(n > 1)
	sql = {'select': 'SELECT 1', 'insert': 'INSERT INTO vt18z VALUES (1)', 'copy to': 'COPY vt18z TO STDOUT', 'create': 'CREATE TEMP TABLE vt18zz (i int4)', 'empty': '', 'update': 'UPDATE vt18z SET i = 2', 'values': 'VALUES (1), (2)'}[what]
	r = live.raw(); r.query('SET client_min_messages = error; DROP TABLE IF EXISTS vt18z; CREATE TABLE vt18z (i int4); INSERT INTO vt18z SELECT generate_series(1, 3000)')
	for form in (0, 1):
		F = live.form(form); db = F.get(); x = db.xact() if inx else None
		if x: x.start()
		ps = db.prepare(sql); data = [b'1\n'] * n
		e, _ = raised(lambda: ps.load_rows(data) if how == 'load_rows' else ps.load_chunks([data]))
		check(isinstance(e, F.exc.OperationError), '%s of %r: %r', how, sql, e); str(e)
		if x: x.rollback()
		eq(db.query.first('SELECT 5'), 5, 'the next query')
		if what == 'create': db.execute('DROP TABLE IF EXISTS vt18zz')

@law(st.tuples(st.sampled_from([2000, 20000, 40000]), st.sampled_from(['insert', 'copy', 'insert chunks']), st.booleans()), 6, 60)
def large_loads_with_answers_end(case, t):
	"""the server answers while it's being sent to: neither side is to wait for the other forever"""
	n, how, noisy = case; t.nt(True); r = live.raw()
	for form in (0, 1):
		F = live.form(form); db = F.connect(); seen = []
		db.execute("SET client_min_messages = notice; CREATE TEMP TABLE vt18b (i int4)")
		if noisy:
			db.execute("CREATE FUNCTION pg_temp.n() RETURNS trigger LANGUAGE plpgsql AS $$BEGIN RAISE NOTICE 'row %', repeat('x', 200); RETURN NEW; END$$; CREATE TRIGGER x BEFORE INSERT ON vt18b FOR EACH ROW EXECUTE FUNCTION pg_temp.n()"); db.msghook = lambda m: seen.append(m) or True
		if how == 'copy': db.prepare('COPY vt18b FROM STDIN').load_rows(b'%d\n' % i for i in range(n))
		else: db.prepare('INSERT INTO vt18b VALUES ($1)').load_chunks([[(i,) for i in range(n)]] if how == 'insert' else [[(i,) for i in range(n // 2)], [(i,) for i in range(n // 2, n)]])
		eq(db.query.first('SELECT count(*) FROM vt18b'), n, 'loaded'); eq(db.query.first('SELECT sum(i) FROM vt18b'), n * (n - 1) // 2, 'loaded')
		if noisy: eq(len(seen), n, 'notices')
		db.close()
