"""C10: Arrays, composites and domains carry their elements faithfully."""
import datetime, uuid
from decimal import Decimal
from hypothesis import strategies as st
from vlib import live, gen
from vlib.core import law, check, eq, raised

RULE = ("Random types built from base types by arrays, composites (with dropped and altered attributes, also of tables), domains and anonymous records, nested in each other, with random values of any shape, bounds and NULLs, sent as parameters in every accepted form and read back by both forms; and values whose shape does not fit. "
	"Oracle: the server's account of the value's literal to an independent client, and the value itself. Non-trivial: a value with at least two elements or attributes, or an ill-shaped one.")

# base type: SQL name, values, their text
BASE = {
	'int4': (st.integers(-2**31, 2**31 - 1), str), 'int8': (st.integers(-2**63, 2**63 - 1), str), 'int2': (st.integers(-9, 9), str),
	'text': (gen.pgtext(5), str), 'varchar': (gen.pgtext(5), str), 'bool': (st.booleans(), lambda v: 'tf'[not v]),
	'numeric': (st.decimals(-10**6, 10**6, places=3), str), 'float8': (st.floats(-1e6, 1e6).map(lambda f: f + 0.0), repr),
	'bytea': (st.binary(max_size=5), lambda v: '\\x' + v.hex()), 'uuid': (st.uuids(), str), 'date': (st.dates(datetime.date(1, 1, 2), datetime.date(9999, 1, 1)), str),
	'timestamp': (st.datetimes(datetime.datetime(100, 1, 1), datetime.datetime(9998, 1, 1)), str), 'point': (st.tuples(st.integers(-9, 9).map(float), st.integers(-9, 9).map(float)), lambda v: '(%r,%r)' % v),
}
base = st.sampled_from(sorted(BASE)).map(lambda b: ('b', b))
aname = st.one_of(st.sampled_from(['a', 'b', 'c', 'A b', 'é', '"', 'select', 'keymap']), gen.pgtext(5).filter(bool)).map(lambda s: s.encode('utf-8')[:50].decode('utf-8', 'ignore')).filter(bool)
def nonarray(T): return T[0] != 'a'
def ext(kids):
	return st.one_of(kids.filter(nonarray).map(lambda T: ('a', T)), kids.map(lambda T: ('d', T)),
		st.tuples(st.lists(st.tuples(aname, kids), min_size=1, max_size=4, unique_by=lambda x: x[0]), st.lists(st.integers(0, 4), max_size=2), st.booleans()).map(lambda x: ('c', tuple(x[0]), tuple(x[1]), x[2])))
types = st.recursive(base, ext, max_leaves=5).filter(lambda T: T[0] != 'b')

def prod(d):
	n = 1
	for x in d: n *= x
	return n
shapes = st.one_of(st.just(()), st.integers(1, 5).map(lambda n: (n,)), st.lists(st.integers(1, 3), min_size=2, max_size=6).map(tuple).filter(lambda d: prod(d) <= 12))
def value(T):
	if T[0] == 'b': return BASE[T[1]][0]
	if T[0] == 'd': return value(T[1])
	if T[0] == 'a':
		e = st.one_of(value(T[1]), st.none())
		return shapes.flatmap(lambda d: st.tuples(st.just(d), st.one_of(st.just((1,) * len(d)), st.tuples(*[st.integers(-3, 4)] * len(d))), st.lists(e, min_size=prod(d) if d else 0, max_size=prod(d) if d else 0).map(tuple)))
	return st.tuples(*[st.one_of(value(x), value(x), st.none()) for _, x in T[1]])
typed = types.flatmap(lambda T: st.tuples(st.just(T), st.lists(value(T), min_size=1, max_size=3)))

class Schema(object):
	"""creates the types of a case on the server"""
	def __init__(self, r):
		self.r, self.n, self.names = r, 0, {}
		r.query('DROP SCHEMA IF EXISTS vt10 CASCADE; CREATE SCHEMA vt10')
	def name(self, T):
		if T[0] == 'b': return T[1]
		if T[0] == 'a': return self.name(T[1]) + '[]'
		if T not in self.names:
			self.n += 1
			nm = 'vt10."T %d"' % self.n
			if T[0] == 'd': self.r.query('CREATE DOMAIN %s AS %s' % (nm, self.name(T[1])))
			else:
				atts = [(q(k), self.name(x)) for k, x in T[1]]
				drops = ['dropped_%d' % i for i in range(len(T[2]))]
				for d, p in zip(drops, T[2]): atts.insert(p % (len(atts) + 1), (d, 'int4'))
				what = 'TABLE' if T[3] else 'TYPE'
				self.r.query('CREATE %s %s %s(%s)' % (what, nm, '' if T[3] else 'AS ', ', '.join(' '.join(a) for a in atts)))
				for d in drops: self.r.query('ALTER %s %s DROP %s %s' % (what, nm, 'COLUMN' if T[3] else 'ATTRIBUTE', d))
			self.names[T] = nm
		return self.names[T]
def q(s): return '"' + s.replace('"', '""') + '"'
def aq(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
def text(T, v):
	if T[0] == 'b': return BASE[T[1]][1](v)
	if T[0] == 'd': return text(T[1], v)
	if T[0] == 'c': return '(' + ','.join('' if x is None else aq(text(X, x)) for (_, X), x in zip(T[1], v)) + ')'
	d, lb, els = v
	def nest(els, d):
		if not d: return '{}'
		if len(d) == 1: return '{' + ','.join('NULL' if x is None else aq(text(T[1], x)) for x in els) + '}'
		w = len(els) // d[0]
		return '{' + ','.join(nest(els[i * w:(i + 1) * w], d[1:]) for i in range(d[0])) + '}'
	return ''.join('[%d:%d]' % (b, b + n - 1) for b, n in zip(lb, d)) + '=' * bool(d) + nest(els, d)
def nested(els, d):
	if len(d) < 2: return list(els)
	w = len(els) // d[0]
	return [nested(els[i * w:(i + 1) * w], d[1:]) for i in range(d[0])]
def obj(T, v, F, how, inarray=False):
	"""the object given for the value; how selects among the accepted forms"""
	if v is None: return None
	if T[0] == 'b': return v
	if T[0] == 'd': return obj(T[1], v, F, how, inarray)
	A, R = F.types.Array, F.types.Row
	if T[0] == 'c':
		xs = [obj(X, x, F, how) for (_, X), x in zip(T[1], v)]
		if how == 1: return {k: x for (k, _), x in zip(T[1], xs) if x is not None}
		if how == 2: return R.from_sequence({k: i for i, (k, _) in enumerate(T[1])}, xs)
		if how == 3 and not inarray: return xs
		return tuple(xs)
	d, lb, els = v
	xs = [obj(T[1], x, F, how, True) for x in els]
	if lb == (1,) * len(d) and not inarray:
		if how == 1: return nested(xs, d)
		if how == 2 and len(d) < 2: return iter(xs)		# any iterable
		if how == 3: return A(nested(xs, d))
	return A.from_elements(xs, lowerbounds=lb, upperbounds=[b + n - 1 for b, n in zip(lb, d)])
def same(T, got, v, F, what, anon=False):
	if v is None: return eq(got, None, what)
	if T[0] == 'b':
		if T[1] == 'point': return eq(tuple(got), v, what)
		return eq((type(got), got), (type(v), v), what)
	if T[0] == 'd': return same(T[1], got, v, F, what)
	if T[0] == 'c':
		names = [k for k, _ in T[1]]
		check(type(got) is F.types.Row, '%s: %r', what, type(got))
		eq((len(got), list(got.column_names)), (len(v), names), '%s: attributes' % what)
		for i, ((k, X), x) in enumerate(zip(T[1], v)):
			same(X, got[k], x, F, '%s.%s' % (what, k))
			check(got[i] is got[k], '%s: attribute %d is not %s', what, i, k)
	else:
		d, lb, els = v
		check(type(got) is F.types.Array, '%s: %r', what, type(got))
		eq((tuple(got.dimensions), tuple(got.lowerbounds)), (d, lb), '%s: shape' % what)
		l = list(got.elements()); eq(len(l), len(els), what)
		for i, (g, x) in enumerate(zip(l, els)): same(T[1], g, x, F, '%s[%d]' % (what, i))
def size(v): return sum(map(size, v)) if isinstance(v, tuple) else 1

@law(st.tuples(typed, st.integers(0, 3)), 600, 9000)
def values_survive_the_trip(case, t):
	(T, vs), how = case
	r = live.raw()
	s = Schema(r); ty = s.name(T)
	for form in (0, 1):
		F = live.form(form); db = F.get()
		ps = db.prepare('SELECT ($1::%s)::text, $1::%s AS v' % (ty, ty))
		back = db.prepare('SELECT $1::text::%s AS v' % ty)
		for v in vs:
			t.nt(size(v) > 1); t.ev(T[0])
			lit = text(T, v)
			want = r.pquery('SELECT ($1::%s)::text' % ty, [lit])[0][0]
			same(T, back.first(lit), v, F, 'read %s %s' % (ty, lit))
			row = ps.first(obj(T, v, F, how))
			eq(row[0], want, '%s at the server' % ty)
			same(T, row['v'], v, F, 'returned %s %s' % (ty, lit))
			again = ps.first(row['v'])		# as returned
			eq(again[0], want, '%s given as it was returned' % ty)
			rec = F.prepare('SELECT ROW(1, $1::text, NULL, $1::text::%s)' % ty).first(lit) if form == 0 or T[0] != 'c' else db.prepare('SELECT ROW(1, $1::text, NULL, $1::text::%s)' % ty).first(lit)
			check(isinstance(rec, tuple) and len(rec) == 4, 'record: %r', rec)
			eq(tuple(rec[:3]), (1, lit, None), 'record'); same(T, rec[3], v, F, 'in a record')
		if T[0] != 'a':
			a = obj(('a', T), ((len(vs) + 1,), (1,), tuple(vs) + (None,)), F, how)
			same(('a', T), db.prepare('SELECT $1::%s[]' % ty).first(a), ((len(vs) + 1,), (1,), tuple(vs) + (None,)), F, 'an array of %s' % ty)
		rows = db.prepare('SELECT * FROM unnest($1::text[]) WITH ORDINALITY x(t, n), LATERAL (SELECT t::%s AS v) y ORDER BY n' % ty)([text(T, v) for v in vs])
		for row, v in zip(rows, vs): same(T, row['v'], v, F, 'in rows')
		ps.close(); back.close()
	F.typed = getattr(F, 'typed', 0) + 1
	if F.typed % 300 == 0:
		for f in (0, 1): live.form(f).reset()

def spoil(T, v, F, act, k):
	"""a value with an ill shape somewhere on the way down, None when there is no place for it"""
	if v is None or T[0] == 'b': return None
	if T[0] == 'd': return spoil(T[1], v, F, act, k)
	if T[0] == 'c':
		xs = [obj(X, x, F, 0) for (_, X), x in zip(T[1], v)]
		if act == 'few': return tuple(xs[:-1])
		if act == 'many': return tuple(xs) + (None,)
		for i in range(len(v)):
			j = (i + k) % len(v); b = spoil(T[1][j][1], v[j], F, act, k)
			if b is not None: xs[j] = b; return tuple(xs)
		return None
	d, lb, els = v
	xs = [obj(T[1], x, F, 0, True) for x in els]
	if act in ('few', 'many'):
		for i in range(len(els)):
			b = spoil(T[1], els[i], F, act, k)
			if b is not None: xs[i] = b; return nested(xs, d)
		return None
	l = nested(xs, d)
	if act == 'notseq': return 5
	if act == 'axis': return [[], []]
	if act == 'deeper' and xs: m = l; [m := m[0] for _ in d[1:]]; m[-1] = [m[-1]]; return l if len(xs) > 1 else None
	if len(d) < 2 or act not in ('short', 'long', 'none'): return None
	m = l
	for _ in d[2:]: m = m[k % len(m)]
	i = k % len(m)
	if len(m) < 2: return None
	if act == 'none': m[i] = None
	elif act == 'long': m[i] = m[i] + [None]
	elif len(m[i]) > 1: m[i] = m[i][:-1]
	else: return None
	return l
@law(st.tuples(typed, st.sampled_from(['few', 'many', 'short', 'long', 'none', 'deeper', 'notseq', 'axis']), st.integers(0, 5)), 500)
def ill_shaped_values_are_refused(case, t):
	(T, vs), act, k = case
	r = live.raw(); s = Schema(r); ty = s.name(T)
	made = False
	for form in (0, 1):
		F = live.form(form); db = F.get()
		for v in vs:
			bad = spoil(T, v, F, act, k)
			if bad is None: continue
			t.nt(True); t.ev(act)
			if not made: r.query('CREATE TABLE vt10.seen (i int4)'); made = True
			ps = db.prepare('INSERT INTO vt10.seen SELECT 1 WHERE $1::%s IS NULL OR true' % ty)
			for run in (ps, ps.first, lambda x: ps.load_rows([(x,)])):
				e, got = raised(run, bad)
				check(isinstance(e, F.exc.ParameterError), '%r as %s: %r', bad, ty, e if e is not None else got)
			eq(r.one('SELECT count(*) FROM vt10.seen'), '0', 'executions')
			ps.first(obj(T, v, F, 0))
			eq(r.one('SELECT count(*) FROM vt10.seen'), '1', 'executions after a good one')
			r.query('DELETE FROM vt10.seen'); ps.close()
