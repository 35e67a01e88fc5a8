"""C16: Transactions and savepoints are atomic and correctly nested."""
from hypothesis import strategies as st
from vlib import live
from vlib.core import law, check, eq, raised

RULE = ("Programs of nested transaction blocks with inserts, queries, server errors (also ones that are pending in an open iterator, and deferred constraints failing at commit), exceptions of several kinds, and handlers at any level; histories of explicit start, commit and rollback calls on several transaction objects in any order; isolation levels and modes; and connections closed or lost inside blocks. "
	"Oracle: a model of savepoint stacks, another client's view of the committed data, and the server's transaction state. Non-trivial: a nested block, an error or an out-of-order call.")

class Mine(Exception): pass
class Deep(BaseException): pass
class Odd(StopIteration): pass
EXC = {'Mine': Mine, 'Deep': Deep, 'KeyError': KeyError, 'Odd': Odd, 'KeyboardInterrupt': KeyboardInterrupt, 'GeneratorExit': GeneratorExit}

class Model:
	"""data seen by the session; outcome of operations"""
	def __init__(self): self.data = []; self.depth = 0; self.failed = False; self.pending = False
	def op(self):
		if self.pending: self.pending = False; self.failed = True; return 'Error'
		if self.failed: return 'InFailedTransactionError'
	def run(self, node):
		"""name of the exception leaving the node, or None"""
		k = node[0]
		if k == 'insert':
			e = self.op()
			if e: return e
			if not self.depth and node[1] in self.data: return 'UniqueError'
			self.data.append(node[1])
		elif k == 'error':
			if node[1] == 'SyntaxError' and not self.pending: e = None
			else: e = self.op()
			if e: return e
			self.failed = self.failed or self.depth > 0; return node[1]
		elif k == 'query': return self.op()
		elif k == 'pending':
			if not self.depth: return None
			e = self.op()
			if e: return e
			self.pending = True
		elif k == 'raise': return node[1]
		elif k == 'try':
			for n in node[1]:
				e = self.run(n)
				if e: return None if e not in ('Deep', 'KeyboardInterrupt', 'GeneratorExit') else e
		elif k == 'block':
			if self.depth and node[2]: return 'OperationError'
			e = self.op() if self.depth else None
			if e: return e
			snap = list(self.data); self.depth += 1; e = None
			for n in node[1]:
				e = self.run(n)
				if e: break
			self.depth -= 1
			if e is None:
				if self.pending: e = 'Error'
				elif self.failed: e = 'InFailedTransactionError'
				elif self.depth == 0 and len(set(self.data)) < len(self.data): e = 'UniqueError'
				else: return None
			self.failed = self.pending = False; self.data = snap
			return e

class Real:
	def __init__(self, F): self.F = F; self.db = F.get(); self.keep = []; self.depth = 0
	def run(self, node):
		db = self.db; k = node[0]
		if k == 'insert':
			if node[2] == 'execute': db.execute('INSERT INTO vt16 VALUES (%d)' % node[1])
			elif node[2] == 'query': db.query('INSERT INTO vt16 VALUES ($1)', node[1])
			elif node[2] == 'load': db.query.load_rows('INSERT INTO vt16 VALUES ($1)', [(node[1],)])
			else: self.F.prepare('INSERT INTO vt16 VALUES ($1)')(node[1])
		elif k == 'error':
			if node[1] == 'ZeroDivisionError': db.query('SELECT 1/0')
			elif node[1] == 'SyntaxError': db.execute('SELEKT')
			elif node[1] == 'UndefinedTableError': db.prepare('SELECT * FROM no_such_table')
			elif node[1] == 'NotNullError': db.query.load_rows('INSERT INTO vt16n VALUES ($1)', [(1,), (None,)])
			else: list(db.query.rows('SELECT 1/(50 - i) FROM generate_series(1, 100) g(i)'))
		elif k == 'query': db.query.first('SELECT count(*) FROM vt16') if node[1] else db.execute('SELECT 1')
		elif k == 'pending':
			if self.depth:
				it = iter(db.query.chunks('SELECT 1/(4 - i) FROM generate_series(1, 9) g(i)')); next(it)
				if node[1]: self.keep.append(it)
		elif k == 'raise': raise EXC[node[1]]('x')
		elif k == 'try':
			try:
				for n in node[1]: self.run(n)
			except Exception: pass
		elif k == 'block':
			kw = {} if not node[2] else {'isolation': 'READ COMMITTED'} if node[2] == 1 else {'mode': 'READ WRITE'}
			try:
				with db.xact(**kw):
					self.depth += 1
					try:
						for n in node[1]: self.run(n)
					finally: self.depth -= 1
			except BaseException: raise

leaf = st.one_of(
	st.tuples(st.just('insert'), st.integers(0, 9), st.sampled_from(['execute', 'query', 'load', 'prepared'])), st.tuples(st.just('insert'), st.integers(0, 200), st.sampled_from(['execute', 'query', 'load', 'prepared'])),
	st.tuples(st.just('error'), st.sampled_from(['ZeroDivisionError', 'SyntaxError', 'UndefinedTableError', 'NotNullError', 'Error'])), st.tuples(st.just('query'), st.booleans()), st.tuples(st.just('pending'), st.booleans()), st.tuples(st.just('raise'), st.sampled_from(sorted(EXC))))
tree = st.recursive(leaf, lambda ch: st.one_of(
	st.tuples(st.just('block'), st.lists(ch, max_size=4), st.sampled_from([0, 0, 0, 0, 0, 0, 0, 1, 2])), st.tuples(st.just('block'), st.lists(ch, max_size=4), st.just(0)), st.tuples(st.just('try'), st.lists(ch, min_size=1, max_size=3))), max_leaves=14)
block = st.tuples(st.just('block'), st.lists(tree, min_size=1, max_size=5), st.sampled_from([0, 0, 0, 1, 2]))

def chunked(F, size):
	M = getattr(F.sub('driver.pq3'), 'MultiXactStream', None)
	if M is not None and isinstance(getattr(M, 'chunksize', None), int): M.chunksize = size
def setup(r): r.query('SET client_min_messages = error; CREATE TABLE IF NOT EXISTS vt16 (i int4 UNIQUE DEFERRABLE INITIALLY DEFERRED); CREATE TABLE IF NOT EXISTS vt16n (i int4 NOT NULL); TRUNCATE vt16; TRUNCATE vt16n')
def committed(r): return sorted(int(x[0]) for x in r.query('SELECT i FROM vt16'))
def isa(F, e, name):
	cls = EXC.get(name) or getattr(F.exc, name)
	return isinstance(e, cls)
def flat(n):
	yield n
	if n[0] in ('block', 'try'):
		for x in n[1]: yield from flat(x)

@law(st.lists(st.one_of(block, block, tree), min_size=1, max_size=4), 1000, 15000)
def blocks_are_atomic_and_nest(case, t):
	kinds = [x[0] for n in case for x in flat(n)]
	t.nt(kinds.count('block') > 1 and any(k in kinds for k in ('error', 'raise', 'pending')))
	for k in set(kinds): t.ev(k)
	r = live.raw(); setup(r)
	for form in (0, 1):
		r.query('TRUNCATE vt16'); F = live.form(form); R = Real(F); M = Model(); chunked(F, 2)
		for n in case:
			want = M.run(n)
			try: R.run(n); e = None
			except BaseException as x: e = x
			if want is None: check(e is None, '%r of %r', e, n)
			else: check(e is not None and isa(F, e, want), 'from %r: %r, want %s', n, e, want)
			R.keep.clear()
			eq(R.db.query.first('SELECT count(*) FROM vt16'), len(M.data), 'rows seen by the session')
			eq(committed(r), sorted(M.data), 'the committed data after %r' % (n,))
			eq(r.query("SELECT count(*) FROM pg_stat_activity WHERE pid = %d AND state LIKE 'idle in%%'" % R.db.backend_id)[0][0], '0', 'open transactions')
		chunked(F, 4096)

act = st.one_of(st.tuples(st.sampled_from(['start', 'begin', 'start', 'commit', 'rollback', 'abort', 'enter', 'exit', 'exit error']), st.integers(0, 5)), st.tuples(st.sampled_from(['new', 'new', 'start', 'start', 'start', 'commit', 'rollback']), st.integers(0, 5)), st.tuples(st.just('insert'), st.integers(0, 999)), st.tuples(st.just('insert'), st.integers(0, 999)), st.tuples(st.just('fail'), st.just(0)), st.tuples(st.just('configured'), st.just(0)))
@law(st.lists(act, min_size=3, max_size=30).map(lambda l: [('new', 0), ('start', 0), ('new', 0)] + l), 1200, 15000)
def explicit_calls_follow_savepoints(case, t):
	r = live.raw(); setup(r); t.nt(sum(o[0] in ('commit', 'rollback', 'abort', 'exit', 'exit error') for o in case) > 1)
	for form in (0, 1):
		r.query('TRUNCATE vt16'); F = live.form(form); db = F.get(); X = F.exc
		xs = []; state = []; typ = []; conf = []; data = []; stack = []; failed = False
		def fail(): nonlocal failed; failed = failed or bool(stack)
		for o, n in case:
			if o in ('new', 'configured'):
				xs.append(db.xact() if o == 'new' else db.xact(isolation='SERIALIZABLE')); state.append('new'); typ.append(None); conf.append(o != 'new'); continue
			if o == 'insert':
				e, _ = raised(db.execute, 'INSERT INTO vt16 VALUES (%d)' % (len(data) * 1000 + n))
				if failed: check(isinstance(e, X.InFailedTransactionError), 'insert after an error: %r', e)
				else: check(e is None, 'insert: %r', e); data.append(len(data) * 1000 + n)
				continue
			if o == 'fail':
				e, _ = raised(db.execute, 'SELECT 1/0'); check(isinstance(e, X.Error), 'an error: %r', e); fail(); continue
			i = n % len(xs); x = xs[i]; want = None; names = [a for a, _ in stack]
			if o in ('start', 'begin', 'enter'):
				if state[i] == 'open': pass
				elif state[i] != 'new': want = X.OperationError
				elif not stack: state[i] = 'open'; typ[i] = 'block'; stack.append((i, list(data)))
				elif conf[i]: want = X.OperationError
				elif failed: want = X.InFailedTransactionError
				else: state[i] = 'open'; typ[i] = 'save'; stack.append((i, list(data)))
				e, v = raised(x.start if o == 'start' else x.begin if o == 'begin' else x.__enter__)
				if o == 'enter' and e is None: check(v is x, 'the value of a with statement')
			else:
				op = 'commit' if o == 'commit' or o == 'exit' and not failed else 'rollback'
				def go(op):
					nonlocal failed, data, stack
					if state[i] == {'commit': 'committed', 'rollback': 'aborted'}[op]: return None
					if state[i] != 'open': return X.OperationError
					if typ[i] == 'block':
						if not stack or stack[0][0] != i: return 'skip'
						if op == 'rollback' or failed: data = stack[0][1]
						stack = []; failed = False
					elif op == 'commit':
						if not stack: return X.Error
						if failed: return X.InFailedTransactionError
						if i not in names: fail(); return X.Error
						stack = stack[:names.index(i)]
					else:
						if not stack: return X.Error
						if i not in names: fail(); return X.Error
						data = stack[names.index(i)][1]; stack = stack[:names.index(i)]; failed = False
					state[i] = {'commit': 'committed', 'rollback': 'aborted'}[op]
				if o.startswith('exit') and state[i] != 'open': continue
				wasfailed = failed; want = go(op)
				if want == 'skip': continue
				if o == 'exit' and wasfailed and want is None: want = X.InFailedTransactionError
				if o == 'exit': e, _ = raised(x.__exit__, None, None, None)
				elif o == 'exit error':
					err = Mine('x'); e, v = raised(x.__exit__, Mine, err, None)
					if e is None: check(not v, 'the exception is suppressed')
				else: e, _ = raised(getattr(x, o))
				if o.startswith('exit') and want is X.Error and not stack: pass
			t.ev(o)
			if want is None: check(e is None, '%s of %d (%s): %r', o, i, state[i], e)
			else: check(isinstance(e, want), '%s of %d (%s): %r, want %s', o, i, state[i], e, want.__name__)
			eq(committed(r), sorted(stack[0][1] if stack else data), 'committed data after %s of %d' % (o, i))
			if not failed: eq(db.query.first('SELECT array_agg(i ORDER BY i) FROM vt16 HAVING count(*) > 0') and sorted(db.query.column('SELECT i FROM vt16')), sorted(data) or None, 'data seen after %s of %d' % (o, i))
		if stack: db.execute('ABORT'); data = stack[0][1]
		eq(committed(r), sorted(data), 'committed data at the end')
		F.reset() if db.query.first("SELECT txid_current_if_assigned() IS NULL") is not True else None

ISO = ['SERIALIZABLE', 'REPEATABLE READ', 'READ COMMITTED', 'READ UNCOMMITTED', 'serializable', 'Repeatable Read']
MODE = ['READ ONLY', 'READ WRITE', 'read only', 'READ ONLY, DEFERRABLE']
@law(st.lists(st.tuples(st.one_of(st.none(), st.sampled_from(ISO)), st.one_of(st.none(), st.sampled_from(MODE)), st.booleans(), st.sampled_from(['none', 'none', 'bogus isolation', 'bogus mode', 'semicolon', 'semicolon mode']), st.integers(0, 3)), min_size=1, max_size=4), 250, 6000)
def isolation_and_mode_are_in_effect(case, t):
	r = live.raw(); setup(r); t.nt(any(i or m for i, m, *_ in case)); r.query('INSERT INTO vt16 VALUES (-1)')
	for form in (0, 1):
		F = live.form(form); db = F.get(); n = 0
		for iso, mode, explicit, bad, nest in case:
			def inside():
				nonlocal n
				i = db.query.first('SHOW transaction_isolation'); m = db.query.first('SHOW transaction_read_only'); d = db.query.first('SHOW transaction_deferrable')
				eq((i, m, d), ((iso or 'read committed').lower(), 'on' if mode and 'ONLY' in mode.upper() else 'off', 'on' if mode and 'DEF' in mode else 'off'), 'isolation, mode and deferrability in the block')
				before = db.query.first('SELECT count(*) FROM vt16'); n += 1; r.query('INSERT INTO vt16 VALUES (%d)' % (n + form * 1000)); after = db.query.first('SELECT count(*) FROM vt16')
				eq(after, before + ((iso or 'READ C').upper().startswith('READ')), "another client's commit in the block")
				if nest:
					with db.xact():
						eq(db.query.first('SHOW transaction_isolation'), (iso or 'read committed').lower(), 'isolation in a nested block')
						if nest == 1:
							e, _ = raised(db.xact(isolation=iso or 'SERIALIZABLE').start); check(isinstance(e, F.exc.OperationError), 'a nested block with isolation: %r', e)
							e, _ = raised(db.xact(mode='READ ONLY').__enter__); check(isinstance(e, F.exc.OperationError), 'a nested block with a mode: %r', e)
				if m == 'on':
					with db.xact() as x:
						e, _ = raised(db.execute, 'INSERT INTO vt16 VALUES (77)'); check(isinstance(e, F.exc.ReadOnlyTransactionError), 'writing in a read only block: %r', e); x.rollback(); x.start = lambda: None; x.state = 'committed'
			if bad != 'none':
				kw = {'bogus isolation': {'isolation': 'SOMETIMES'}, 'bogus mode': {'mode': 'WRITE ONLY'}, 'semicolon': {'isolation': 'SERIALIZABLE; DROP TABLE vt16'}, 'semicolon mode': {'mode': 'READ ONLY; DROP TABLE vt16'}}[bad]
				x = db.xact(**kw); e, _ = raised(x.start)
				check(isinstance(e, ValueError if 'semi' in bad else F.exc.SyntaxError), '%s: %r', bad, e)
				check(isinstance(raised(x.commit)[0], F.exc.OperationError), 'committing a transaction that failed to start')
			a = {k: v for k, v in (('isolation', iso), ('mode', mode)) if v is not None}
			if explicit: x = db.xact(**a); x.start(); inside(); x.commit()
			elif iso and not mode:
				with db.xact(iso): inside()
			else:
				with db.xact(**a): inside()
			eq((db.query.first('SHOW transaction_isolation'), db.query.first('SHOW transaction_read_only')), ('read committed', 'off'), 'after the block')
		r.query('DELETE FROM vt16 WHERE i > 0')

@law(st.tuples(st.sampled_from(['skew', 'skew reversed', 'update']), st.booleans(), st.integers(0, 2)), 30, 300)
def a_commit_that_fails_raises_and_cleans_up(case, t):
	how, nested, extra = case; r = live.raw(); t.nt(True)
	for form in (0, 1):
		setup(r); r.query('INSERT INTO vt16 VALUES (1), (2)'); F = live.form(form); a, b = F.get(), live.form(form, application_name='vt16').get()
		def work(db, v):
			if how == 'update': db.execute('UPDATE vt16 SET i = i + %d WHERE i < 3' % v)
			else: n = db.query.first('SELECT sum(i) FROM vt16'); db.execute('INSERT INTO vt16 VALUES (%d)' % (n * 10 + v))
		level = 'REPEATABLE READ' if how == 'update' else 'SERIALIZABLE'
		x, y = a.xact(isolation=level), b.xact(isolation=level)
		x.__enter__(); y.__enter__(); a.query('SELECT 1 FROM vt16'); b.query('SELECT 1 FROM vt16')
		if how == 'skew reversed': x, y, a, b = y, x, b, a
		work(a, 100)
		if how != 'update': work(b, 200)
		x.__exit__(None, None, None)
		def second():
			if how == 'update': work(b, 200)
			y.__exit__(None, None, None)
		e, _ = raised(second)
		check(isinstance(e, F.exc.SerializationError), 'the second of two conflicting transactions: %r', e)
		if how == 'update': y.__exit__(type(e), e, None)
		eq(committed(r), [101, 102] if how == 'update' else [1, 2, 130], 'committed data')
		for db in (a, b):
			with db.xact(): eq(db.query.first('SELECT 6'), 6, 'afterwards')

@law(st.tuples(st.sampled_from(['close', 'kill', 'kill unnoticed']), st.integers(1, 3), st.sampled_from(['normal', 'raise', 'use'])), 40, 400)
def a_lost_connection_does_not_pass_for_a_commit(case, t):
	how, depth, leave = case; r = live.raw(); t.nt(True)
	for form in (0, 1):
		setup(r); F = live.form(form); db = F.connect()
		def go(d):
			with db.xact():
				db.execute('INSERT INTO vt16 VALUES (%d)' % d)
				if d < depth: return go(d + 1)
				if how == 'close': db.close()
				else:
					pid = db.backend_id; r.query('SELECT pg_terminate_backend(%d, 5000)' % pid)
					if how == 'kill': raised(db.execute, 'SELECT 1')
				if leave == 'raise': raise Mine('x')
				if leave == 'use': db.execute('SELECT 1')
		try: go(1); e = None
		except Exception as x: e = x
		if leave == 'raise' and how != 'kill unnoticed': check(isinstance(e, Mine), 'leaving by an exception: %r', e)
		else: check(isinstance(e, F.exc.Error) or leave == 'raise' and isinstance(e, Mine), 'leaving after the connection was lost (%s): %r', leave, e)
		eq(committed(r), [], 'committed data')
		raised(db.close)
