"""C37: an interrupted operation leaves the connection in step."""
import itertools
from hypothesis import strategies as st
from vlib import live
from vlib.core import law, check, eq, raised

RULE = ("Programs of operations on one connection (queries, inserts, loads of rows, COPY in both directions, cursors, transactions, settings, procedures, preparing, notifications), whose socket takes and gives "
	"only so many bytes at a time, and whose calls are broken off by a KeyboardInterrupt, or by 'try again', at any point. Oracle: a model of the program, and the server's own account through another connection: what was "
	"broken off happened once or not at all, nothing else is affected. Non-trivial: something was broken off.")

class Wire(object):
	"""The connection's socket; the calls may be broken off before they do anything."""
	def __init__(self, sock, cap):
		self.sock = sock; self.cap = cap; self.armed = []; self.fired = 0; self.again = 0
	def __getattr__(self, k): return getattr(self.sock, k)
	def call(self):
		if self.armed:
			n, what = self.armed[0]
			if n <= 0:
				self.armed.pop(0)
				if what: self.fired += 1; raise KeyboardInterrupt
				self.again += 1; raise BlockingIOError(11, 'Resource temporarily unavailable')
			self.armed[0] = (n - 1, what)
	def send(self, data, *a):
		self.call(); return self.sock.send(data[:self.cap], *a)
	def recv(self, n, *a):
		self.call(); return self.sock.recv(min(n, self.cap), *a)

small = st.integers(0, 12)
ops = st.one_of(
	st.tuples(st.sampled_from(['one', 'prep', 'ins', 'err', 'set', 'proc', 'note', 'many', 'sql', 'drop', 'void', 'block']), small),
	st.tuples(st.sampled_from(['rows', 'chunks', 'column', 'out', 'outrows', 'cursor']), st.integers(0, 700)),
	st.tuples(st.sampled_from(['load', 'copy']), st.integers(0, 60)),
	st.tuples(st.sampled_from(['xact', 'undo', 'inner']), st.integers(0, 3)),
	st.tuples(st.just('big'), st.integers(0, 90000)))
breaks = st.lists(st.tuples(st.one_of(st.integers(0, 4), st.integers(0, 25)), st.sampled_from([1, 1, 1, 0])), max_size=3)
serial = itertools.count(1)

class Undo(Exception): pass

def again(f, tries=6):
	"""the chunks; an interruption between them loses none"""
	out = []; it = f()
	for i in range(100000):
		try: out.append(next(it))
		except StopIteration: return out
		except KeyboardInterrupt:
			tries -= 1
			if tries < 0: raise
	raise AssertionError

def whole(it, want, what):
	"""what comes before an interruption is the beginning of it"""
	out = []
	try:
		for x in it: out.append(x)
	except KeyboardInterrupt:
		eq(out, want[:len(out)], what + ', as far as it got')
		raise
	eq(out, want, what)

@law(st.tuples(st.sampled_from([1, 3, 50, 8192, 100000]), st.lists(st.tuples(ops, st.one_of(st.just([]), breaks, breaks)), min_size=2, max_size=9)), 350)
def operations_are_broken_off_anywhere(case, t):
	cap, prog = case
	if cap < 50: prog = [((o, min(n, 40)), [(k * 9 + j, w) for j, (k, w) in enumerate(b)]) for (o, n), b in prog]
	r = live.raw()
	if not r.query("SELECT 1 FROM pg_class WHERE relname = 'vi37'"):
		r.query('CREATE TABLE vi37 (a int, b text)')
		r.query("CREATE FUNCTION vp37(a int) RETURNS int LANGUAGE sql AS 'SELECT $1 + 1'")
	for form in (0, 1):
		F = live.form(form)
		r.query('TRUNCATE vi37')
		db, = F.take(1); db.msghook = lambda m: True
		wire = Wire(db.pq.socket, cap)
		one = db.prepare('SELECT $1::int * 2'); ins = db.prepare("INSERT INTO vi37 VALUES ($1, 'x')"); rows = db.prepare('SELECT i, i::text FROM generate_series(1, $1::int) i')
		copy = db.prepare('COPY vi37 FROM STDIN'); out = db.prepare("COPY (SELECT i FROM generate_series(1, 700) i) TO STDOUT"); big = db.prepare('SELECT length($1::text), md5($1::text)')
		col = db.prepare('SELECT i FROM generate_series(1, $1::int) i'); proc = db.proc('vp37(int)'); spare = {}
		db.listen('c37'); notes = []; app = db.settings['application_name']; apps = {app}
		db.pq.socket = wire
		seq = itertools.count(1)
		sure = []		# what must be in the table
		maybe = []		# lists that are there wholly or not at all
		loads = []		# (rows, chunk): chunks there or not
		owed = set()	# errors of broken off operations that the next one may report
		def body(o, n):
			"""-> the rows to be found in the table afterwards"""
			if o == 'one': eq(one.first(n), n * 2, 'a value')
			elif o == 'prep':
				s = db.prepare('SELECT $1::int + %d' % n)
				eq(s.first(1), n + 1, 'a new statement'); spare[n] = s
			elif o == 'drop': spare.clear()
			elif o == 'ins': eq(ins.first(rowsin[0]), 1, 'inserted')
			elif o == 'many':
				for a in rowsin: eq(ins(a), ('INSERT', 1), 'inserted')
			elif o == 'err': one_over.first(n)
			elif o == 'void': eq(db.execute('SELECT 1/1; SELECT 2'), None, 'execute')
			elif o == 'set': db.settings['application_name'] = 'app%d' % n
			elif o == 'proc': eq(proc(n), n + 1, 'a procedure')
			elif o == 'note': pass
			elif o == 'sql': eq(db.query.first('SELECT %d' % n), n, 'a query')
			elif o == 'rows': whole((tuple(x) for x in rows.rows(n)), [(i, str(i)) for i in range(1, n + 1)], 'rows')
			elif o == 'chunks': eq([tuple(x) for c in again(lambda: rows.chunks(n)) for x in c], [(i, str(i)) for i in range(1, n + 1)], 'chunks')
			elif o == 'column': whole(col.column(n), list(range(1, n + 1)), 'a column')
			elif o == 'out': eq([x for c in again(lambda: out.chunks()) for x in c], [b'%d\n' % i for i in range(1, 701)], 'COPY TO STDOUT')
			elif o == 'outrows': whole(out.rows(), [b'%d\n' % i for i in range(1, 701)], 'COPY TO STDOUT')
			elif o == 'cursor':
				c = rows.declare(700); c.seek(n)
				eq([x[0] for x in c.read(3)], list(range(n + 1, min(n + 4, 701))), 'a cursor')
				c.seek(0); eq([x[0] for x in c.read(2)], [1, 2], 'a cursor, from the start'); c.close()
			elif o == 'block':
				with db.settings(application_name='block'): eq(db.query.first("SELECT current_setting('application_name')"), 'block', 'settings of a block')
			elif o == 'load': ins.load_chunks([[(a,) for a in rowsin[i:i+7]] for i in range(0, len(rowsin), 7)])
			elif o == 'copy': copy.load_chunks([[b'%d\tx\n' % a for a in rowsin[i:i+7]] for i in range(0, len(rowsin), 7)])
			elif o == 'big': eq(tuple(big.first('y' * n)), (n, __import__('hashlib').md5(b'y' * n).hexdigest()), 'a large parameter')
			elif o == 'xact':
				with db.xact():
					for a in rowsin: ins(a)
			elif o == 'undo':
				try:
					with db.xact():
						for a in rowsin: ins(a)
						raise Undo
				except Undo: pass
			elif o == 'inner':
				with db.xact():
					ins(rowsin[0])
					try:
						with db.xact():
							for a in rowsin[1:]: ins(a)
							raise Undo
					except Undo: pass
		one_over = db.prepare('SELECT 1 / ($1::int * 0)')
		for (o, n), br in prog:
			rowsin = [next(seq) for i in range({'ins': 1, 'inner': n + 1}.get(o, n))] if o in ('ins', 'many', 'load', 'copy', 'xact', 'undo', 'inner') else []
			if o == 'note': notes.append('n%d' % len(notes)); r.query("NOTIFY c37, '%s'" % notes[-1])
			for attempt in range(5):
				wire.armed = list(br) if attempt == 0 else []; wire.fired = 0; before = list(br)
				try: e = None; body(o, n)
				except KeyboardInterrupt: e = 'broken off'
				except F.exc.Error as x: e = x
				fired = wire.fired; wire.armed = []
				if fired: t.nt(True); t.ev(o)
				check(fired or e != 'broken off', 'interrupted by nothing')
				code = getattr(e, 'code', None)
				if code in owed and not (o == 'err' and code == '22012'):
					# the report on what was broken off before; this one was not done
					owed.discard(code); t.ev('reported later')
					if db.pq.state != b'I': break
					continue
				break
			check(not db.closed, 'closed after %s', o)
			owed = set() if not fired else {'err': {'22012'}, 'copy': {'57014'}}.get(o, set())
			if o in ('set', 'block'):
				apps = {'app%d' % n} if o == 'set' and not fired else (apps if o == 'block' and not fired else apps | {'app%d' % n if o == 'set' else 'block'})
			if fired:
				if o in ('many', 'load'): loads.append((rowsin, 1 if o == 'many' else 7))
				elif o in ('undo',): pass
				elif o == 'inner': maybe.append(rowsin[:1])
				elif rowsin: maybe.append(rowsin)
				if e == 'broken off' or e is None: pass
				elif o == 'err': eq(code, '22012', 'the error')
				elif code in ('57014', '22012'): pass
				elif o in ('undo', 'inner', 'xact', 'cursor'): pass		# leaving the block failed for what was broken off in it
				else: raise e
			else:
				if o == 'err': eq(code, '22012', 'the error')
				elif e is not None: check(False, '%s fails: %r', o, e)
				else: sure += rowsin[:1] if o == 'inner' else [] if o == 'undo' else rowsin
			if fired and db.pq.xact is not None or db.pq.state != b'I':
				# what a program does that was interrupted: leave the transaction that may be open
				ee, v = raised(db.execute, 'ROLLBACK')
				if ee is not None:
					check(getattr(ee, 'code', None) in ('57014', '22012'), 'ROLLBACK after %s: %r', o, ee)
					owed = set()
					db.execute('ROLLBACK')
				eq(db.pq.state, b'I', 'state')
		wire.armed = []
		ee, v = raised(one.first, 4)
		if ee is not None: check(getattr(ee, 'code', None) in owed, 'at the end: %r', ee)
		eq(one.first(4), 8, 'a value at the end')
		shown = db.query.first("SELECT current_setting('application_name')")
		check(shown in apps, 'application_name is %r, not one of %r', shown, apps)
		eq(db.settings['application_name'], shown, 'the setting')
		db.execute(''); eq([n[1] for n in db.iternotifies(0)], notes, 'notifications')
		got = sorted(int(x[0]) for x in r.query('SELECT a FROM vi37'))
		left = set(got)
		eq(len(left), len(got), 'rows twice: %r' % got)
		for a in sure: check(a in left, 'row %d is missing', a)
		left -= set(sure)
		for m in maybe:
			k = [a for a in m if a in left]
			check(k == [] or k == m, 'of %r, only %r are there', m, k)
			left -= set(k)
		for m, c in loads:
			gap = False
			for i in range(0, len(m), c):
				part = m[i:i+c]; k = [a for a in part if a in left]
				check(k == [] or k == part and not gap, 'of %r, loaded by %d, only %r are there', m, c, [a for a in m if a in left])
				gap = gap or not k
			left -= set(m)
		check(not left, 'rows of no operation: %r', left)
		db.unlisten('c37')
		db.settings['application_name'] = app
		db.pq.socket = wire.sock; del db.msghook
		del one, ins, rows, copy, out, big, col, proc, spare, one_over
		F.give([db])

# interrupt(): the server is asked to cancel
sleep = 'pg_sleep(60)'
cops = st.lists(st.tuples(st.sampled_from(['first', 'call', 'rows', 'chunks', 'execute', 'sql', 'do', 'proc', 'insert', 'many', 'copyout', 'copyin', 'cursor', 'commit', 'load', 'prepare']), st.integers(0, 6), st.sampled_from(['idle', 'busy', 'busy', 'after', 'twice', 'none']), st.sampled_from(['', '', 'xact', 'savepoint'])), min_size=1, max_size=5)
@law(cops, 120)
def cancelling_ends_the_operation_in_progress(prog, t):
	import threading, time
	r = live.raw()
	if not r.query("SELECT 1 FROM pg_class WHERE relname = 'vc37'"):
		r.query('CREATE TABLE vc37 (a int); CREATE TABLE vc37d (a int)')
		# sleeps at the given number
		r.query("CREATE FUNCTION vs37(a int, at int) RETURNS int LANGUAGE plpgsql VOLATILE AS 'BEGIN IF a = at THEN PERFORM pg_sleep(60); END IF; RETURN a; END'")
		r.query("CREATE FUNCTION vg37() RETURNS trigger LANGUAGE plpgsql AS 'BEGIN IF new.a < 0 THEN PERFORM pg_sleep(60); END IF; RETURN new; END'")
		r.query('CREATE TRIGGER vg37 BEFORE INSERT ON vc37 FOR EACH ROW EXECUTE FUNCTION vg37()')
		r.query('CREATE CONSTRAINT TRIGGER vg37d AFTER INSERT ON vc37d DEFERRABLE INITIALLY DEFERRED FOR EACH ROW EXECUTE FUNCTION vg37()')
	for form in (0, 1):
		F = live.form(form); r.query('TRUNCATE vc37; TRUNCATE vc37d')
		db, = F.take(1); pid = db.backend_id; exp = []
		fn = db.prepare('SELECT vs37(i, $1::int) FROM generate_series(1, 9) i'); ins = db.prepare('INSERT INTO vc37 VALUES ($1)'); proc = db.proc('vs37(int,int)'); seq = itertools.count(1)
		for what, n, when, where in prog:
			busy = when in ('busy', 'twice'); at = (n + 1) if busy else 100; kept = []; part = None
			if when == 'idle': db.interrupt()
			def wait():
				for i in range(3000):
					if r2.query("SELECT 1 FROM pg_stat_activity WHERE pid = %d AND wait_event = 'PgSleep'" % pid): break
					time.sleep(.002)
				else: return
				db.interrupt()
				if when == 'twice': db.interrupt()
			def body():
				nonlocal part
				if what == 'first': eq(fn.first(at), 1, 'first')
				elif what == 'call': eq([x[0] for x in fn(at)], list(range(1, 10)), 'call')
				elif what == 'rows':
					part = []
					for x in fn.rows(at): part.append(x[0])
					eq(part, list(range(1, 10)), 'rows')
				elif what == 'chunks': eq([x[0] for c in fn.chunks(at) for x in c], list(range(1, 10)), 'chunks')
				elif what == 'cursor':
					c = fn.declare(at)
					eq([x[0] for x in c.read(20)], list(range(1, 10)), 'cursor'); c.close()
				elif what == 'execute': db.execute('SELECT 1; SELECT vs37(1, %d); SELECT 2' % (1 if busy else 0))
				elif what == 'sql': eq(db.query.first('SELECT vs37(3, %d)' % (3 if busy else 0)), 3, 'sql')
				elif what == 'do': db.do('plpgsql', 'BEGIN PERFORM vs37(1, %d); END' % (1 if busy else 0))
				elif what == 'proc': eq(proc(n, n if busy else n + 1), n, 'proc')
				elif what == 'prepare': eq(db.prepare('SELECT vs37(4, %d)' % (4 if busy else 0))(), [(4,)], 'a new statement')
				elif what == 'insert':
					a = next(seq); db.prepare('INSERT INTO vc37 SELECT vs37(i, %d) + %d FROM generate_series(1, 9) i' % (at, 1000 * a))()
					kept.extend(1000 * a + i for i in range(1, 10))
				elif what == 'many':
					for i in range(n): ins(10**6 + (x := next(seq))); kept.append(10**6 + x)
					ins(-next(seq)) if busy else None
				elif what == 'load':
					ins.load_rows(rowsof(n, kept) + ([(-1,)] if busy else []))
				elif what == 'copyin':
					db.prepare('COPY vc37 FROM STDIN').load_rows([b'%d\n' % x[0] for x in rowsof(n, kept) + ([(-1,)] if busy else [])])
				elif what == 'copyout': eq(list(db.prepare('COPY (SELECT vs37(i, %d) FROM generate_series(1, 9) i) TO STDOUT' % at).rows()), [b'%d\n' % i for i in range(1, 10)], 'COPY out')
				elif what == 'commit':
					with db.xact(): db.execute('INSERT INTO vc37d VALUES (%d)' % (-1 if busy else 1))
			def rowsof(n, kept):
				l = [10**6 + next(seq) for i in range(n)]; kept.extend(l)
				return [(x,) for x in l]
			# (a deferred constraint is not checked before the outermost transaction ends)
			blocks = 0 if what == 'commit' else {'': 0, 'xact': 1, 'savepoint': 2}[where]
			r2 = live.raw('c37'); th = threading.Thread(target=wait)
			if busy: th.start()
			try:
				e = None
				if blocks == 0: body()
				elif blocks == 1:
					with db.xact(): body()
				else:
					with db.xact():
						first = next(seq) + 2 * 10**6; ins(first); exp.append(first)
						try:
							with db.xact(): body()
						except F.exc.QueryCanceledError as x: e = x
						eq(db.query.first('SELECT 1'), 1, 'in the outer block')
			except F.exc.Error as x: e = x
			finally:
				if busy: th.join()
			t.ev(what + ' ' + when)
			if busy:
				t.nt(True)
				check(isinstance(e, F.exc.QueryCanceledError) and e.code == '57014', '%s: not cancelled: %r', what, e)
				if part is not None: eq(part, list(range(1, len(part) + 1)), 'rows before the cancellation'); check(len(part) <= n, '%r came', part)
				# row by row outside of a block, what was done remains
				if what == 'many' and blocks == 0: exp += kept
			else:
				check(e is None, '%s (%s) failed: %r', what, when, e)
				exp += kept
			check(not db.closed and db.pq.state == b'I', 'state after %s: %r', what, db.pq.state)
			if when == 'after': db.interrupt()
			eq(db.query.first('SELECT %d' % n), n, 'the next operation')
		eq(sorted(int(x[0]) for x in r.query('SELECT a FROM vc37')), sorted(exp), 'the rows')
		eq(db.backend_id, pid, 'the server process')
		del fn, ins, proc
		F.give([db])
