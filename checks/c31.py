"""C31: SQL libraries define and bind exactly the written symbols."""
import os, io, shutil, tempfile
from hypothesis import strategies as st
from vlib.core import law, check, eq, OUT, must_raise
from vlib import pg
from vlib.gen import pgtext
import postgresql.lib as L
import postgresql.sys as S
import postgresql.exceptions as E

RULE = ("Library files made of a preface, headers of every type and method, comments, references and SQL bodies with awkward text; bound to a real "
	"server. Oracle: the generated structure the file was written from, and the results expected of each method. "
	"Non-trivial: two or more symbols of which one has a comment, a reference or a declared type or method.")
ASSUME = ["a line of SQL that itself begins with '[' and ends with ']' is a header by the format's definition and is not generated",
	"constants and procedures are resolved no later than their first use (the driver resolves them lazily)"]

NAMES = ['a', 'b', 'get_x', 'Sym', 'x1', 'list_all', 'aa', 'q_é']
TYPES = ['', 'static', 'preload', 'const', 'proc', 'transient']
METHODS = ['', 'all', 'first', 'rows', 'chunks', 'declare', 'load_chunks', 'load_rows', 'column']

def lines_ok(s):
	return not (s.strip().startswith('[') and s.strip().endswith(']')) and not s.startswith('*[')
bodyline = st.one_of(
	st.sampled_from(['SELECT 1', '', '   ', "SELECT '[x]' ", 'FROM t -- trailing', '-- a comment', '--bare', '--', 'arr[1]', ' [1:2] x', 'x *[a] y', '\tindented', "'-- no'", '[ open', 'close ]', '&a', 'a::int', "SELECT '%s' %% %(x)s", ';', '/* [a] */', '\\']),
	st.text(alphabet="ab[]*&:-% '\"\t$é", max_size=10)).filter(lines_ok)
@st.composite
def symbols(draw):
	"""list of (name, isref, type, method, fill, doc lines, body items, last newline)"""
	out = []
	for i in range(draw(st.integers(0, 5))):
		name = draw(st.sampled_from(NAMES))
		ty = draw(st.sampled_from(TYPES))
		if any(x[0] == name for x in out):
			if ty == 'preload' or any(x[0] == name and x[2] == 'preload' for x in out):
				continue
		me = draw(st.sampled_from(METHODS))
		form = draw(st.integers(0, 3))
		doc = draw(st.lists(st.text(alphabet='ab []*-:é', max_size=8), max_size=2))
		body = draw(st.lists(bodyline, max_size=4))
		if body and draw(st.integers(0, 2)) == 0 and out:
			body.insert(draw(st.integers(0, len(body))), (draw(st.sampled_from([x[0] for x in out])), draw(st.sampled_from(['', ' AS z', ']', '[x]', ' -- t']))))
		out.append((name, draw(st.integers(0, 4)) == 0, ty, me, form, doc, body, draw(st.sampled_from(['', ' ', '\t']))))
	return out

preface = st.lists(st.one_of(bodyline, st.sampled_from(['*[item] one', '*[x', ' * [y]', '-- This library'])), max_size=3)

def header(s):
	name, ref, ty, me, form, doc, body, pad = s
	parts = [('&' if ref else '') + name, ty, me]
	if form == 3:
		parts.append('extra')
	while form != 1 and len(parts) > 1 and parts[-1] == '':
		parts.pop()
	return pad + '[' + ':'.join(parts) + ']'

def write(pre, syms):
	"""(text, [(name, isref, type, method, doc, query)])"""
	txt = ''.join(x + '\n' for x in pre)
	defs = []
	for s in syms:
		txt += header(s) + '\n'
		for d in s[5]:
			txt += '-- ' + d + '\n'
		q = ''
		body = list(s[6])
		d = ''.join(x + '\n' for x in s[5])
		started = False
		for b in body:
			if isinstance(b, tuple):
				txt += '*[' + b[0] + ']' + b[1] + '\n'
				l = [x for x in reversed(defs) if x[0] == b[0]][0][5] + b[1] + '\n'
			else:
				txt += b + '\n'
				l = b + '\n'
			if not started and l.startswith('-- '):
				d += l[3:]
			else:
				started = True
				q += l
		if s[2] == 'proc':
			q = q.strip()
		defs.append((s[0], s[1], s[2], s[3], d, q))
	return txt, defs

@law(st.tuples(preface, symbols(), st.booleans(), st.booleans()), 500)
def parsing_yields_what_was_written(case, t):
	pre, syms, final, cr = case
	txt, defs = write(pre, syms)
	t.nt(len(defs) > 1 and any(s[2] or s[3] or s[5] or any(isinstance(x, tuple) for x in s[6]) for s in syms))
	if not final and txt.endswith('\n') and defs:
		txt = txt[:-1]
		d = list(defs[-1])
		if syms[-1][6]:
			if d[5].endswith('\n'):
				d[5] = d[5][:-1]
			elif not d[5] and d[4].endswith('\n'):
				d[4] = d[4][:-1]
		elif syms[-1][5]:
			d[4] = d[4][:-1]
		defs[-1] = tuple(d)
	lines = txt.splitlines(True) if not any(ord(c) in (0x1c, 0x1d, 0x1e, 0x85, 11, 12) for c in txt) else io.StringIO(txt).readlines()
	lib = L.ILF.from_lines(iter(lines) if cr else lines)
	eq(lib.preface, ''.join(x + '\n' for x in pre), 'preface of %r' % txt)
	want = {}
	for d in defs:
		want[d[0]] = d
	eq(sorted(lib.symbols()), sorted(want), 'symbols of %r' % txt)
	for n, d in want.items():
		s = lib.get_symbol(n)
		eq(s.name, n, 'name')
		eq(str(s), d[5], 'source of %s in %r' % (n, txt))
		eq(bool(s.reference), d[1], 'reference %s of %r' % (n, txt))
		eq(s.method, d[3] if d[3] not in ('', 'all') else None, 'method of %s in %r' % (n, txt))
		eq(s.type or None, (d[2] if d[2] != 'preload' else '') or None, 'type of %s in %r' % (n, txt))
		check(s.library is lib, 'the symbol belongs to another library')
	eq(sorted(lib.preload), sorted(n for n, d in want.items() if d[2] == 'preload'), 'preload of %r' % txt)
	eq(lib.get_symbol('nosuch'), None, 'an unknown symbol')

@law(st.tuples(symbols().filter(lambda s: len(s) > 0), st.sampled_from(['Static', 'foo', 'CONST', 'const ', 'prelod']), st.booleans()), 150)
def unknown_types_methods_and_references_are_refused(case, t):
	syms, bad, which = case
	t.nt()
	txt, defs = write([], syms)
	h = '[zz:%s]\nSELECT 1\n' % bad if which else '[zz::%s]\nSELECT 1\n' % bad
	must_raise(ValueError, 'a library with %r' % h, L.ILF.from_lines, (txt + h).splitlines(True))
	must_raise(Exception, 'a reference to an undefined symbol', L.ILF.from_lines, ('[zz]\n*[nosuch] x\n' + txt).splitlines(True))

@law(st.tuples(st.sampled_from(['x', 'my', 'a_b', 'é', 'sql', 'a.b', '1.0', 'x.sql', 'lib', 'libx', '.', 'a b']), symbols(), st.integers(0, 5), st.sampled_from(['utf-8', None])), 150)
def files_are_found_and_named(case, t):
	name, syms, where, enc = case
	t.nt(where > 0)
	txt, defs = write(['-- pre'], syms)
	d = tempfile.mkdtemp(dir=OUT)
	saved = list(S.libpath)
	try:
		dirs = [os.path.join(d, 'd%d' % i) for i in range(3)]
		for x in dirs:
			os.mkdir(x)
		fn = 'lib' + name + '.sql'
		path = os.path.join(dirs[where % 3], fn)
		with open(path, 'w', encoding='utf-8') as f:
			f.write(txt)
		if where == 4:
			with open(os.path.join(dirs[2], fn), 'w') as f:
				f.write('[other]\nSELECT 2\n')
		S.libpath[:] = dirs + saved
		lib = L.load(name)
		eq(lib.address, path, 'address')
		eq(lib.name, name, 'name')
		eq({n: str(lib.get_symbol(n)) for n in lib.symbols()}, {x[0]: x[5] for x in defs}, 'symbols by name')
		eq(list(L.find_libsql(name, dirs)), [path] + ([os.path.join(dirs[2], fn)] if where == 4 else []), 'find_libsql')
		lib = L.load(path)
		eq((lib.address, lib.name), (path, name), 'loaded by path')
		lib = L.ILF.open(path, encoding='utf-8')
		eq((lib.address, lib.name, lib.preface), (path, name, '-- pre\n'), 'opened by path')
		other = os.path.join(d, 'plain.txt')
		shutil.copy(path, other)
		eq(L.ILF.open(other, encoding='utf-8').name, None, 'name of a file not named lib*.sql')
		must_raise(E.LoadError, 'a library which is not there', L.load, 'nosuch_lib')
		must_raise(E.LoadError, 'a path which is not there', L.load, os.path.join(d, 'libz.sql'))
		must_raise(TypeError, 'load of a number', L.load, 5)
	finally:
		S.libpath[:] = saved
		shutil.rmtree(d)

# ---- bound
db = None
def conn():
	global db
	if db is None:
		db = pg.server().connect()
		db.execute('CREATE SEQUENCE runs')
		db.execute('CREATE TABLE sink(i int, t text)')
		db.execute("CREATE FUNCTION addup(a int, b int) RETURNS int LANGUAGE sql AS 'SELECT a + b'")
		db.execute("CREATE FUNCTION nums(n int) RETURNS SETOF int LANGUAGE sql AS 'SELECT generate_series(1, n)'")
	return db

kinds = st.sampled_from(['', 'static', 'preload', 'const', 'transient'])
meths = st.sampled_from(['', 'all', 'first', 'rows', 'chunks', 'declare', 'column'])
@st.composite
def bound(draw):
	out = []
	for i in range(draw(st.integers(1, 5))):
		ty = draw(kinds)
		me = draw(meths)
		ref = draw(st.integers(0, 3)) == 0
		if ty == 'const' and not ref and me == 'declare':
			me = ''
		ncol = draw(st.integers(1, 3))
		nrow = draw(st.integers(0, 5))
		out.append(('s%d' % i, ref, ty, me, ncol, nrow, draw(st.text(alphabet="a'%[]é-", max_size=4))))
	return out

serial = 0
def expected(me, ncol, nrow, txt, extra = 0):
	rows = [tuple([i + extra] + [txt] * (ncol - 1)) for i in range(1, nrow + 1)]
	if me in ('', 'all', 'rows', 'declare', 'chunks'):
		return rows
	if me == 'column':
		return [r[0] for r in rows]
	if not rows:
		return None
	return rows[0] if ncol > 1 else rows[0][0]

def plain(me, r):
	if me == 'chunks':
		return [tuple(x) for c in r for x in c]
	if me == 'declare':
		return [tuple(x) for x in r.read()]
	if me == 'rows':
		check(not isinstance(r, list), 'rows gave a list')
		return [tuple(x) for x in r]
	if me == 'column':
		return list(r)
	if me == 'first':
		return tuple(r) if isinstance(r, tuple) else r
	check(isinstance(r, list), 'the default method gave %r', r)
	return [tuple(x) for x in r]

def sqlq(s):
	return "'" + s.replace("'", "''") + "'"
@law(st.tuples(bound(), st.lists(st.tuples(st.integers(0, 4), st.integers(0, 3)), min_size=1, max_size=8), st.booleans()), 120, hang=120)
def bound_symbols_run_as_declared(case, t):
	syms, uses, cat = case
	c = conn()
	global serial
	serial += 1
	txt = ''
	for n, ref, ty, me, ncol, nrow, s in syms:
		par = '' if ty == 'const' and not ref else ' + $1::int'
		# every run advances the sequence: executions are counted
		q = 'SELECT /*n%d.*/ i%s%s FROM generate_series(1, %d) AS g(i)' % (serial, par, ', %s' % sqlq(s) * (1) if ncol == 2 else (', %s, %s' % (sqlq(s), sqlq(s)) if ncol == 3 else ''), nrow)
		if ref:
			mid = q.find(' FROM')
			txt += "[&%s:%s:%s]\nSELECT %s::text, %s::text UNION ALL SELECT '-- end', 'of it'\n" % (n, ty, me, sqlq(q[:mid]), sqlq(q[mid+1:]))
		else:
			txt += '[%s:%s:%s]\n%s\n' % (n, ty, me, q)
	lib = L.ILF.from_lines(txt.splitlines(True))
	lib._name = 'vlib'
	t.nt(len(syms) > 1 and any(x[3] or x[2] for x in syms))
	if cat:
		try:
			L.Category(lib, alias1=lib)(c)
			B = c.vlib
			B2 = c.alias1
			eq(set(x[0] for x in syms) - set(dir(B2)), set(), 'symbols missing from the alias')
		finally:
			for x in ('vlib', 'alias1'):
				c.__dict__.pop(x, None)
	else:
		B = L.Binding(c, lib)
	pre = sum(1 for x in syms if x[2] == 'preload' and not x[1])
	check(c.query.first("SELECT count(*) FROM pg_prepared_statements WHERE statement LIKE 'SELECT /*n' || $1::int || '.%'", serial) >= pre, 'preloaded symbols were not prepared when bound')
	must_raise(AttributeError, 'an unknown symbol', getattr, B, 'nosuch')
	must_raise(AttributeError, 'the name of another symbol in other case', getattr, B, 'S0')
	with c.xact():
		for i, p in uses:
			n, ref, ty, me, ncol, nrow, s = syms[i % len(syms)]
			x = getattr(B, n)
			if ref:
				if ty != 'const':
					x = x()
				eq(plain(me, x(p)), expected(me, ncol, nrow, s, p), 'reference %s of %r' % (n, txt))
			elif ty == 'const':
				eq([tuple(r) for c_ in x for r in c_] if me == 'chunks' else ([tuple(r) for r in x] if me in ('', 'all', 'rows') else (tuple(x) if isinstance(x, tuple) else x)),
					expected(me, ncol, nrow, s), 'constant %s of %r' % (n, txt))
				check(getattr(B, n) is x, 'a constant changed its identity')
			else:
				eq(plain(me, x(p)), expected(me, ncol, nrow, s, p), 'symbol %s of %r' % (n, txt))
				y = getattr(B, n)
				if ty == 'transient':
					check(y is not x, 'a transient symbol was retained')
				else:
					check(y is x, 'the symbol was prepared again')
	check(set(x[0] for x in syms) <= set(dir(B)), 'dir() does not list the symbols')


@law(st.tuples(st.integers(1, 4), st.integers(-5, 50), st.integers(0, 6), st.sampled_from(['first', '', 'rows', 'column'])), 60)
def types_decide_when_sql_runs(case, t):
	k, a, n, me = case
	t.nt()
	c = conn()
	txt = ("[once:const:first]\nSELECT nextval('runs')\n[each::first]\nSELECT nextval('runs')\n[tr:transient:first]\nSELECT nextval('runs')\n"
		"[add:proc]\n\n addup(int, int) \n\n[nums:proc]\nnums(int)\n[put::load_rows]\nINSERT INTO sink VALUES ($1, $2)\n[putc::load_chunks]\nINSERT INTO sink VALUES ($1, $2)\n"
		"[del::first]\nDELETE FROM sink\n[dela]\nDELETE FROM sink\n[copy::load_rows]\nCOPY sink FROM STDIN\n")
	lib = L.ILF.from_lines(txt.splitlines(True))
	B = L.Binding(c, lib)
	v = B.once
	for i in range(k):
		eq(B.once, v, 'a constant changed')
	base = c.query.first('SELECT last_value FROM runs')
	for i in range(1, k + 1):
		eq(B.each(), base + i, 'executions of a symbol')
	for i in range(1, k + 1):
		eq(B.tr(), base + k + i, 'executions of a transient symbol')
	eq(B.add(a, k), a + k, 'a procedure')
	eq([x for x in B.nums(n)], list(range(1, n + 1)), 'a set-returning procedure')
	rows = [(i, 'r%d' % i) for i in range(n)]
	eq(B.put(rows), None, 'load_rows')
	eq([tuple(x) for x in c.prepare('SELECT * FROM sink ORDER BY i')()], rows, 'the rows loaded by row')
	eq(getattr(B, 'del')(), n, 'first of a DELETE')
	eq(B.putc([rows[:2], rows[2:]]), None, 'load_chunks')
	eq([tuple(x) for x in c.prepare('SELECT * FROM sink ORDER BY i')()], rows, 'the rows loaded in chunks')
	eq(B.dela(), ('DELETE', n), 'the default method of a DELETE')
	B.copy([b'%d\tr%d\n' % (i, i) for i in range(n)])
	eq([tuple(x) for x in c.prepare('SELECT * FROM sink ORDER BY i')()], rows, 'the rows copied')
	c.execute('DELETE FROM sink')

@law(st.tuples(st.sets(st.sampled_from(['l1', 'l2', 'l3'])), st.lists(st.tuples(st.sampled_from(['m', 'n', 'o', 'l1', 'execute', 'prepare']), st.integers(0, 2)), max_size=4)), 120)
def categories_bind_every_name_or_refuse(case, t):
	direct, named = case
	c = conn()
	libs = []
	for i in range(3):
		lib = L.ILF.from_lines(['[v::first]\n', 'SELECT %d\n' % i])
		lib._name = 'l%d' % (i + 1)
		libs.append(lib)
	named = {k: libs[i] for k, i in named}
	dl = [l for l in libs if l.name in direct]
	names = {l.name: l for l in dl}
	clash = bool(set(names) & set(named)) or bool(set(named) & {'execute', 'prepare'})
	t.nt(len(named) > 1)
	cat = L.Category(*dl, **named)
	had = set(c.__dict__)
	try:
		if clash:
			must_raise(AttributeError, 'a category taking a name already there', cat, c)
			check('execute' not in c.__dict__ and 'prepare' not in c.__dict__, 'a method of the connection was replaced')
		else:
			cat(c)
			names.update(named)
			eq(set(c.__dict__) - had, set(names), 'names bound by the category')
			for n, l in names.items():
				eq(getattr(c, n).v(), libs.index(l), 'the library at %s' % n)
	finally:
		for k in set(c.__dict__) - had:
			del c.__dict__[k]

@law(st.tuples(st.lists(st.tuples(st.sampled_from(['', '-- a comment', "-- it's one", 'SELECT 1 --', '/* x', '']), st.integers(1, 3)), max_size=4), st.sampled_from(['', 'const', 'transient', 'static', 'preload']), st.sampled_from(['', 'first', 'column', 'chunks', 'rows']), st.integers(1, 9)), 60)
def references_yield_lines_of_words(case, t):
	lines, ty, me, k = case; c = conn(); t.nt(len(lines) > 1)
	# each row a line, each column a word of it
	words = []
	for l, n in lines:
		if l.startswith('--'): words.append(['--'] * (n - 1) + [l])
	src = [['SELECT'], ['/*a', '--x*/', '%d' % k, '-- the number'], ['AS', 'n', '--']] + words + [['UNION', 'ALL', 'SELECT'], ['%d' % (k + 1), '-- the end']]
	w = max(map(len, src)); q = 'VALUES ' + ', '.join('(%d, %s)' % (i, ', '.join(sqlq(x) for x in r + [''] * (w - len(r)))) for i, r in enumerate(src))
	txt = '[&r:%s:%s]\nSELECT %s FROM (%s) AS v(i, %s) ORDER BY i\n' % (ty, me, ', '.join('w%d' % i for i in range(w)), q, ', '.join('w%d' % i for i in range(w)))
	B = L.Binding(c, L.ILF.from_lines(txt.splitlines(True)))
	x = B.r
	for _ in range(2):
		b = x if ty == 'const' else x()
		got = b(); want = [k, k + 1]
		if me == 'first': eq(got, k, 'first of a reference to %r' % (src,))
		elif me == 'column': eq(list(got), want, 'column of a reference')
		else: eq([r[0] for r in (got if me != 'chunks' else [r for ch in got for r in ch])], want, 'a reference to %r' % (src,))
	y = B.r
	if ty == 'transient': check(y is not x, 'a transient reference was retained')
	else: check(y is x, 'the reference was prepared again')
	# discarded with the symbol
	n = "SELECT count(*) FROM pg_prepared_statements WHERE statement LIKE 'SELECT w0%'"
	del x, y, b, got, B
	eq(c.query.first(n), 0, 'statements of a discarded binding')

@law(st.tuples(st.one_of(st.sampled_from([1, 100, 101, 128, 255, 256, 257, 500]), st.integers(1, 300)), st.integers(0, 400), st.sampled_from([0, 1, 255, 256, 257, 1000, 1024, 1025, 3000, 5000]), st.sampled_from(['', 'rows', 'chunks', 'column'])), 30)
def libraries_may_be_large(case, t):
	n, long, k, me = case; c = conn(); t.nt(n > 50 or long > 100)
	txt = ''.join('[s%d%s]\n%s%sSELECT %d\n' % (i, '::first' if i % 2 else '', '-- doc %d\n' % i if i % 3 == 0 else '', '  -- line\n' * (long if i == n // 2 else i % 3), i) + ('*[s%d]\n' % (i - 1) if i % 5 == 4 and 0 else '') for i in range(n))
	txt += '[many:const:%s]\nSELECT i FROM generate_series(1, %d) AS g(i)\n[last]\n' % (me, k) + ''.join('*[s%d] UNION ALL\n' % i if i % 2 and 0 else '' for i in range(n)) + 'SELECT -1\n'
	lib = L.ILF.from_lines(txt.splitlines(True)); eq(len(list(lib.symbols())), n + 2, 'number of symbols')
	B = L.Binding(c, lib)
	for i in sorted({0, n // 2, n - 1, n // 3}):
		x = getattr(B, 's%d' % i)(); eq(x if i % 2 else x[0][0], i, 'symbol s%d of %d' % (i, n))
	x = B.many; eq([r[0] for ch in x for r in ch] if me == 'chunks' else list(x) if me == 'column' else [r[0] for r in x], list(range(1, k + 1)), 'a constant of %d rows (%s)' % (k, me))
	eq(B.last()[0][0], -1, 'the last symbol'); eq(B.many is x, True, 'the constant again')
