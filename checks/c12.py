"""C12: Row objects are consistent sequences and mappings."""
import copy, keyword, pickle
from hypothesis import strategies as st
from vlib import live, gen
from vlib.core import law, check, eq, raised

RULE = ("Rows built from mappings and sequences and rows returned by every row-giving method of both forms, with arbitrary and duplicated column names. Oracle: the plain list of (name, value) pairs. "
	"Non-trivial: at least two columns.")

name = st.one_of(gen.pgtext(8).filter(bool), st.sampled_from(['a', 'b', 'A', 'a b', 'a_b', 'class', '_1', '__class__', 'count', 'index', 'keymap', 'self', '1', '?column?', '0', 'é', 'None', 'i', 'default']))
val = st.one_of(st.none(), st.integers(-9, 9), st.text(max_size=4), st.tuples(), st.booleans())
cols = st.one_of(st.lists(st.tuples(name, val), max_size=7, unique_by=lambda c: c[0]), st.lists(st.tuples(name, val), max_size=7))
extra = st.lists(st.one_of(name, st.integers(-9, 9)), max_size=5)

def agree(r, names, vals, what, extra=()):
	n = len(vals)
	last = {k: i for i, k in enumerate(names)}
	uniq = len(last) == n
	check(isinstance(r, tuple), '%s: %r', what, type(r))
	eq((tuple(r), list(r), len(r)), (tuple(vals), list(vals), n), what)
	check(r == tuple(vals), '%s: not equal to its values', what)
	eq(list(r.values()), list(vals), '%s: values()' % what)
	ks = list(r.keys()); cn = list(r.column_names)
	eq((sorted(ks), sorted(cn)), (sorted(last), sorted(last)), '%s: keys()' % what)
	eq(cn, sorted(last, key=last.get), '%s: column_names' % what)
	if uniq: eq(cn, list(names), '%s: column_names' % what)
	eq([(k, r[k]) for k in cn], list(r.items()), '%s: items()' % what)
	for i in range(-n - 3, n + 3):
		e, v = raised(r.__getitem__, i); g, d = r.get(i), r.get(i, 'dflt')
		if -n <= i < n:
			check(e is None, '%s[%d]: %r', what, i, e)
			check(v is vals[i] or v == vals[i], '%s[%d]: %r', what, i, v)
			eq((g, d), (v, v), '%s: get(%d)' % (what, i))
		else:
			check(isinstance(e, IndexError), '%s[%d]: %r', what, i, e if e is not None else v)
			eq((g, d), (None, 'dflt'), '%s: get(%d)' % (what, i))
		if 0 <= i < n:
			k = r.key_from_index(i)
			eq(k, names[i] if last[names[i]] == i else None, '%s: key_from_index(%d)' % (what, i))
		elif i >= n: eq(r.key_from_index(i), None, '%s: key_from_index(%d)' % (what, i))
	for k in set(names) | {x for x in extra if isinstance(x, str)}:
		e, v = raised(r.__getitem__, k)
		if k in last:
			check(e is None, '%s[%r]: %r', what, k, e)
			eq(v, vals[last[k]], '%s[%r]' % (what, k)); eq((r.get(k), r.get(k, 'dflt')), (v, v), '%s: get(%r)' % (what, k))
			eq(r.index_from_key(k), last[k], '%s: index_from_key(%r)' % (what, k))
		else:
			check(isinstance(e, KeyError), '%s[%r]: %r', what, k, e if e is not None else v)
			eq((r.get(k), r.get(k, 'dflt')), (None, 'dflt'), '%s: get(%r)' % (what, k))
			eq(r.index_from_key(k), None, '%s: index_from_key(%r)' % (what, k))
	for v in list(vals) + list(extra) + list(names): eq(v in r, v in list(vals), '%s: %r in' % (what, v))
	eq(tuple(r[1:]), tuple(vals)[1:], '%s[1:]' % what); eq(tuple(r[::-1]), tuple(vals)[::-1], '%s[::-1]' % what)

def tag(s):
	def f(x): return (s, x)
	return f
@law(st.tuples(cols, extra, st.lists(st.booleans(), max_size=8), st.lists(st.tuples(st.one_of(st.integers(0, 7), name), st.booleans()), max_size=4), st.permutations(range(7))), 1500)
def rows_are_their_columns(case, t):
	cs, more, pos, kw, perm = case
	names = [c[0] for c in cs]; vals = [c[1] for c in cs]; n = len(cs)
	last = {k: i for i, k in enumerate(names)}
	for form in (0, 1):
		Row = live.form(form).types.Row
		t.nt(n > 1)
		if len(last) < n: t.ev('duplicate names')
		km = dict(zip(names, range(n)))
		shuffled = {names[i]: last[names[i]] for i in perm if i < n}
		rows = [('from_sequence', Row.from_sequence(km, iter(vals))), ('from_sequence, shuffled keys', Row.from_sequence(shuffled, list(vals)))]
		if len(last) == n:
			m = {k: v for k, v in cs}
			rows.append(('from_mapping', Row.from_mapping(km, m))); rows.append(('from_mapping, shuffled keys', Row.from_mapping(shuffled, dict(reversed(list(m.items())), unused=1) if 'unused' not in m else m)))
			if n:
				part = dict(m); del part[names[0]]
				agree(Row.from_mapping(km, part), names, [None] + vals[1:], 'from_mapping of a part')
		for how, r in rows: agree(r, names, vals, how, more)
		r = rows[0][1]
		agree(pickle.loads(pickle.dumps(r)), names, vals, 'pickled'); agree(copy.deepcopy(r), names, vals, 'copied')
		# transformations: positional, then named
		args = [tag(i) if p else None for i, p in enumerate(pos[:n])]
		kws = {}
		for k, use in kw:
			k = names[k % n] if isinstance(k, int) and n else k
			if not isinstance(k, str) or k == 'self' : continue
			kws[k] = tag(k) if use else None
		bad = next((k for k, f in kws.items() if f and k not in last), None)
		want = [(i, v) if i < len(args) and args[i] else v for i, v in enumerate(vals)]
		for k, f in kws.items():
			if f and k in last: want[last[k]] = (k, vals[last[k]])
		e, x = raised(r.transform, *args, **kws)
		what = '%r.transform(%r, %r)' % (cs, [bool(a) for a in args], {k: bool(v) for k, v in kws.items()})
		if bad is not None: check(isinstance(e, KeyError), '%s: %r', what, e if e is not None else x)
		else:
			check(e is None, '%s: %r', what, e)
			agree(x, names, want, what); check(type(x) is Row, what)
		agree(r, names, vals, 'after a transformation')
		f = live.form(form).sub('types.namedtuple')
		nt = f.NamedTupleFactory(km)(list(vals))
		named(nt, names, vals, 'named tuple')

def named(nt, names, vals, what):
	eq((tuple(nt), len(nt)), (tuple(vals), len(vals)), what)
	norm = [x.replace(' ', '_') for x in names]
	for i, k in enumerate(norm):
		if norm.count(k) == 1 and k.isidentifier() and not keyword.iskeyword(k) and not k.startswith('_'):
			eq(k in nt._fields, True, '%s: field %r of %r' % (what, k, nt._fields)); eq(nt._fields.index(k), i, '%s: field %r' % (what, k)); eq(getattr(nt, k), vals[i], '%s.%s' % (what, k))

sname = name.map(lambda s: s.encode('utf-8')[:60].decode('utf-8', 'ignore')).filter(bool)
scols = st.lists(st.tuples(sname, st.one_of(st.none(), st.integers(-9, 9), gen.pgtext(3), st.booleans())), min_size=1, max_size=6)
nts = {}
@law(st.tuples(scols, st.integers(0, 3), st.booleans()), 250)
def returned_rows_carry_the_servers_columns(case, t):
	cs, count, inx = case
	names = [c[0] for c in cs]; vals = [c[1] for c in cs]
	def q(s): return '"' + s.replace('"', '""') + '"'
	def ty(v): return 'int4' if type(v) is int else 'bool' if type(v) is bool else 'text'
	sql = 'SELECT %s FROM generate_series(1, %d)' % (', '.join('$%d::%s AS %s' % (i + 1, ty(v), q(k)) for i, (k, v) in enumerate(cs)), count)
	for form in (0, 1):
		F = live.form(form); db = F.get()
		t.nt(len(cs) > 1); t.ev('%d rows' % count)
		def run():
			ps = db.prepare(sql)
			eq(list(ps.column_names), names, 'column names of the statement')
			ways = {'call': lambda: ps(*vals), 'rows': lambda: list(ps.rows(*vals)), 'query': lambda: db.query(sql, *vals), 'declare': lambda: ps.declare(*vals).read(), 'iterating a cursor': lambda: list(ps.declare(*vals)), 'query.rows': lambda: list(db.query.rows(sql, *vals))}
			for how, f in ways.items():
				rows = f()
				eq(len(rows), count, how)
				for r in rows: agree(r, names, vals, how)
			chunks = [r for c in ps.chunks(*vals) for r in c]
			eq(chunks, [tuple(vals)] * count, 'chunks')
			if len(cs) > 1 and count: agree(ps.first(*vals), names, vals, 'first')
			c = ps.declare(*vals); eq(list(c.column_names), names, 'column names of the cursor'); c.close()
			lits = ', '.join('%s::%s AS %s' % ('NULL' if v is None else "'%s'" % str(v).replace("'", "''"), ty(v), q(k)) for k, v in cs)
			if inx:
				# a cursor of the server's, known by its name only
				db.execute('DECLARE vt_c SCROLL CURSOR FOR SELECT %s FROM generate_series(1, %d)' % (lits, count))
				c = db.cursor_from_id('vt_c')
				eq(list(c.column_names), names, 'column names of a named cursor')
				rows = c.read()
				eq(len(rows), count, 'a named cursor')
				for r in rows: agree(r, names, vals, 'a named cursor')
				c.close()
			nt = F.sub('types.namedtuple').namedtuples(ps)
			for r in nt(*vals): named(r, names, vals, 'namedtuples()')
			ps.close()
			if form not in nts or nts[form].closed:
				nts[form] = F.connect(); nts[form].typio.RowTypeFactory = F.sub('types.namedtuple').NamedTupleFactory
			p2 = nts[form].prepare(sql)
			for r in p2(*vals): named(r, names, vals, 'named tuple rows')
			p2.close()
		if inx:
			with db.xact(): run()
		else: run()

counts = st.one_of(st.sampled_from([100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 513, 1000, 1023, 1025, 1600]), st.integers(8, 700))
@law(st.tuples(counts, st.integers(0, 2 ** 30), st.integers(0, 2), st.booleans()), 40)
def rows_may_have_many_columns(case, t):
	n, salt, count, inx = case
	names = ['c%d' % ((i * 7919 + salt) % 100003) for i in range(n)]; vals = [None if (i + salt) % 11 == 0 else (i * 31 + salt) % 1000 for i in range(n)]
	pick = sorted({0, 1, n // 2, n - 2, n - 1, min(n - 1, 256), min(n - 1, 257), salt % n})
	for form in (0, 1):
		F = live.form(form); db = F.get(); Row = F.types.Row; t.nt(n > 100)
		km = dict(zip(names, range(n)))
		agree(Row.from_sequence(km, iter(vals)), names, vals, '%d columns' % n); agree(Row.from_mapping(km, dict(reversed(list(zip(names, vals))))), names, vals, '%d columns of a mapping' % n)
		ps = db.prepare('SELECT %s FROM generate_series(1, %d)' % (', '.join('%s::int2 AS %s' % ('NULL' if v is None else v, k) for k, v in zip(names, vals)), count))
		def run():
			eq(list(ps.column_names), names, 'column names of %d columns' % n)
			for how, f in (('call', ps), ('rows', ps.rows), ('declare', lambda: ps.declare().read())):
				l = list(f()); eq(len(l), count, how)
				for r in l: agree(r, names, vals, how)
		if inx:
			with db.xact(): run()
		else: run()
		if count:
			r = ps.first(); want = [('t', v) if i in pick else v for i, v in enumerate(vals)]
			agree(r.transform(**{names[i]: tag('t') for i in pick}), names, want, 'transformed by name'); agree(r.transform(*[tag('t') if i in pick else None for i in range(n)]), names, want, 'transformed by position')
		named(F.sub('types.namedtuple').NamedTupleFactory(km)(list(vals)), names, vals, 'named tuple of %d columns' % n)
		ps.close()
