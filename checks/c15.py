"""C15: Scrollable cursors follow the list-of-rows model."""
from hypothesis import strategies as st
from vlib import live
from vlib.core import law, check, eq, raised

RULE = ("Histories of reads, nexts, partial and full iterations, seeks of every kind with every way of naming whence, direction changes, clones, table changes and other statements on up to four cursors (declared by statements or opened by name, inside and outside transactions) over results of 0 to 40 rows; and pairs of a backward cursor and a forward one over the reversed rows given the same operations. "
	"Oracle: a position in a list. Non-trivial: at least one read after a seek, or reads in both directions.")

class Model:
	"""position 0 is before the first row, n + 1 after the last"""
	def __init__(self, rows): self.rows = rows; self.n = len(rows); self.p = 0; self.fwd = True
	def fetch(self, fwd, q):
		if q is None: q = self.n + 1
		if fwd:
			r = self.rows[self.p:self.p + q]; self.p = min(self.p + q, self.n + 1)
		else:
			lo = max(self.p - q, 0); r = self.rows[max(lo - 1, 0):max(self.p - 1, 0)][::-1] if lo else self.rows[:max(self.p - 1, 0)][::-1]; self.p = lo
		return r
	def read(self, q, d):
		if q == 0: return []
		return self.fetch(self.fwd if d is None else self.fwd == d, q)
	def move(self, fwd, k): return len(self.fetch(fwd, k)) if k != 0 else 0
	def seek(self, off, whence):
		"""the number of rows passed, where that is defined"""
		f = self.fwd
		if off == 'ALL':
			if whence in ('FORWARD', 'BACKWARD') and whence == 'BACKWARD': f = not f
			return self.move(f, None)
		if whence in ('ABSOLUTE', 'FROM_END'):
			if (whence == 'ABSOLUTE') == self.fwd: self.p = min(off, self.n + 1)
			else: self.p = max(self.n + 1 - off, 0)
			return None
		if whence == 'BACKWARD': off = -off
		if not self.fwd: off = -off
		r = self.move(off >= 0, abs(off))
		return r if whence != 'RELATIVE' and off else None

W = {'ABSOLUTE': ['ABSOLUTE', 0, 'absolute', None], 'RELATIVE': ['RELATIVE', 1, 'Relative'], 'FROM_END': ['FROM_END', 2, 'from_end'], 'FORWARD': ['FORWARD', 3], 'BACKWARD': ['BACKWARD', 4]}
D = {True: [True, 'FORWARD', 'forward'], False: [False, 'BACKWARD', 'backward'], None: [None]}
off = st.one_of(st.integers(0, 6), st.integers(0, 45))
op = st.one_of(
	st.tuples(st.just('read'), st.one_of(st.none(), st.integers(0, 6), st.integers(0, 50)), st.sampled_from([None, True, False, None]), st.integers(0, 2)),
	st.tuples(st.just('read'), st.integers(0, 5), st.sampled_from([None, True, False]), st.integers(0, 2)),
	st.tuples(st.just('seek'), off, st.sampled_from(['ABSOLUTE', 'FROM_END']), st.integers(0, 3)),
	st.tuples(st.just('seek'), st.one_of(off, off.map(lambda x: -x)), st.sampled_from(['RELATIVE', 'FORWARD', 'BACKWARD', 'RELATIVE']), st.integers(0, 3)),
	st.tuples(st.just('seek'), st.just('ALL'), st.sampled_from(['ABSOLUTE', 'FORWARD', 'BACKWARD']), st.integers(0, 3)),
	st.tuples(st.just('next')), st.tuples(st.just('direction'), st.booleans(), st.integers(0, 2)), st.tuples(st.just('direction'), st.booleans(), st.integers(0, 2)), st.tuples(st.just('iterate'), st.integers(1, 5)), st.tuples(st.just('drain')))
meta = st.one_of(st.tuples(st.just('clone')), st.tuples(st.just('query')), st.tuples(st.just('xact'), st.booleans()), st.tuples(st.just('bad'), st.sampled_from(['whence', 'direction', 'property', 'number'])), st.tuples(st.just('fail')))

def apply(F, c, m, o, t, row=lambda x: tuple(x)):
	if o[0] == 'read':
		q, d, i = o[1:]; dd = D[d][i % len(D[d])]
		got = c.read(q, dd) if i else c.read(quantity=q, direction=dd) if dd is not None else c.read(q) if q is not None else c.read()
		want = m.read(q, d)
		eq([row(x) for x in got], want, 'read(%r, %r)' % (q, dd))
	elif o[0] == 'seek':
		k, w, i = o[1:]; ww = W[w][i % len(W[w])]
		got = c.seek(k) if ww is None else c.seek(k, ww) if i else c.seek(k, whence=ww)
		want = m.seek(k, w)
		if want is not None: eq(got, want, 'the count of seek(%r, %r)' % (k, ww))
	elif o[0] == 'next':
		e, got = raised(next, c); want = m.read(1, None)
		if want: check(e is None and row(got) == want[0], 'next: %r, want %r', e or got, want[0])
		else: check(isinstance(e, StopIteration), 'next past the end: %r', e or got)
	elif o[0] == 'direction':
		c.direction = D[o[1]][o[2] % 3]; m.fwd = o[1]
		eq(c.direction, o[1], 'the direction property')
	elif o[0] == 'iterate':
		for _ in range(o[1]):
			e, got = raised(next, iter(c)); want = m.read(1, None)
			if want: check(e is None and row(got) == want[0], 'iteration: %r, want %r', e or got, want[0])
			else: check(isinstance(e, StopIteration), 'iteration past the end: %r', e or got); break
	elif o[0] == 'drain':
		got = list(c); want = m.read(None, None)
		eq([row(x) for x in got], want, 'list of the cursor')

def opened(F, db, lo, n, how, rev=False):
	sql = 'SELECT i, i::text AS t, CASE WHEN i %% 3 = 0 THEN i / 2.0 END::numeric AS x FROM vt15 WHERE i > %s AND i <= %s ORDER BY i' + (' DESC' if rev else '')
	if how == 'named' or how == 'quoted':
		name = 'vt15c%d' % opened.n if how == 'named' else 'vt15 "C%d"; é' % opened.n; opened.n += 1
		db.execute('DECLARE "%s" SCROLL CURSOR WITH HOLD FOR ' % name.replace('"', '""') + sql % (lo, lo + n))
		return db.cursor_from_id(name)
	if how == 'query': return db.query.declare(sql % ('$1::int4', '$1 + $2::int4'), lo, n)
	return db.prepare(sql % ('$1::int4', '$1 + $2::int4')).declare(lo, n)
opened.n = 0
def rows(lo, n): return [(i, str(i), i / 2 if i % 3 == 0 else None) for i in range(lo + 1, min(lo + n, 60) + 1)]
def setup(db): db.execute('CREATE TEMP TABLE IF NOT EXISTS vt15 (i int4); TRUNCATE vt15; INSERT INTO vt15 SELECT i FROM generate_series(1, 60) g(i)')

start = st.tuples(st.integers(0, 60), st.one_of(st.integers(0, 4), st.integers(0, 40)), st.sampled_from(['declare', 'query', 'named', 'declare', 'quoted']), st.booleans())
@law(st.tuples(st.lists(start, min_size=1, max_size=3), st.lists(st.tuples(st.integers(0, 5), st.one_of(op, op, op, op, meta)), min_size=2, max_size=30), st.booleans()), 1500, 30000)
def cursors_are_positions_in_the_rows(case, t):
	starts, ops, inx = case
	kinds = [o[0] for _, o in ops]
	t.nt(('seek' in kinds or 'direction' in kinds) and any(k in ('read', 'next', 'iterate', 'drain') for k in kinds))
	for form in (0, 1):
		F = live.form(form); db = F.get(); setup(db)
		def run():
			cs = []
			for lo, n, how, rev in starts:
				r = rows(lo, n); cs.append((opened(F, db, lo, n, how, rev), Model(r[::-1] if rev else r), how)); t.ev(how)
			for who, o in ops:
				c, m, how = cs[who % len(cs)]; t.ev(o[0])
				if o[0] == 'clone':
					if how in ('declare', 'query') and len(cs) < 5:
						cs.append((c.clone(), Model(m.rows), how))
				elif o[0] == 'query': eq(db.query.first('SELECT 5'), 5, 'another statement')
				elif o[0] == 'fail':
					if not inx: check(isinstance(raised(db.query, 'SELECT 1/0')[0], F.exc.ZeroDivisionError), 'a failing statement')
				elif o[0] == 'xact':
					x = db.xact(); x.start(); db.query('SELECT 1')
					c.read(0); x.commit() if o[1] else x.rollback()
				elif o[0] == 'bad':
					if o[1] == 'whence': e, v = raised(c.seek, 1, 'SOMEWHERE'); check(isinstance(e, TypeError), 'an unknown whence: %r', e or v)
					elif o[1] == 'number': e, v = raised(c.seek, 1, 7); check(isinstance(e, TypeError), 'an unknown whence: %r', e or v)
					elif o[1] == 'direction': e, v = raised(c.read, 1, 'SIDEWAYS'); check(isinstance(e, (TypeError, ValueError)), 'an unknown direction: %r', e or v)
					else: e, v = raised(setattr, c, 'direction', 2); check(isinstance(e, (TypeError, ValueError)), 'an unknown direction: %r', e or v)
				else: apply(F, c, m, o, t)
			for c, m, how in cs:
				if how in ('named', 'quoted'): c.close()
		if inx:
			with db.xact(): run()
		else: run()

@law(st.tuples(st.integers(0, 12), st.lists(op.filter(lambda o: o[0] != 'direction'), min_size=1, max_size=20), st.booleans()), 700, 12000)
def a_backward_cursor_is_a_forward_one_over_reversed_rows(case, t):
	n, ops, named = case
	t.nt(n > 1 and any(o[0] == 'seek' for o in ops) and any(o[0] == 'read' for o in ops))
	for form in (0, 1):
		F = live.form(form); db = F.get(); setup(db)
		a = opened(F, db, 0, n, 'declare'); b = opened(F, db, 0, n, 'named' if named else 'declare', True)
		b.direction = 'BACKWARD'; b.seek(0)
		def do(c, o):
			if o[0] == 'read': return [tuple(x) for x in c.read(o[1], D[o[2]][o[3] % len(D[o[2]])])]
			if o[0] == 'seek': r = c.seek(o[1], o[2]); return None
			if o[0] == 'next': return [tuple(x) for x in [next(c, ())]]
			if o[0] == 'iterate': return [tuple(next(c, ())) for _ in range(o[1])]
			return [tuple(x) for x in c]
		for o in ops:
			x, y = do(a, o), do(b, o)
			eq(y, x, '%r of the backward cursor' % (o,))
		if named: b.close()

@law(st.tuples(st.lists(st.tuples(st.integers(0, 1), st.one_of(op, st.tuples(st.just('change'), st.integers(1, 60)))), min_size=2, max_size=20), st.integers(1, 40), st.booleans()), 300, 6000)
def open_cursors_keep_their_rows(case, t):
	ops, n, inx = case
	t.nt(any(o[0] == 'change' for _, o in ops))
	for form in (0, 1):
		F = live.form(form); db = F.get(); setup(db); have = set(range(1, 61))
		def run():
			cs = [(opened(F, db, 0, n, h), Model(rows(0, n))) for h in ('declare', 'named')]
			for who, o in ops:
				c, m = cs[who]
				if o[0] == 'change':
					db.prepare('DELETE FROM vt15 WHERE i % 7 = $1::int4 % 7')(o[1]); have.difference_update([x for x in have if x % 7 == o[1] % 7])
					d = db.prepare('SELECT i FROM vt15 ORDER BY 1').declare(); eq([x for x, in d.read()], sorted(have), 'a new cursor')
					k = c.clone() if who == 0 else None
					if k is not None: eq([x for x, *_ in k.read()], [x for x in sorted(have) if x <= n], 'a clone'); k.close()
				else: apply(F, c, m, o, t)
			cs[1][0].close()
		if inx:
			with db.xact(): run()
		else: run()
