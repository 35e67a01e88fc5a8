"""C23: Stored procedures return what the function returns."""
import warnings
from hypothesis import strategies as st
from vlib import live
from vlib.core import law, check, eq, raised

RULE = ("Functions made with any signature (types, modes, names, overloads, schemas, every kind of result) and those of the server, referred to in every way, called with any arguments, by position and by name, the search_path changed meanwhile. "
	"Oracle: the result of the same call written in SQL; an argument model for what is refused. Non-trivial: an argument and a result other than one value.")
ASSUME = ["functions with arguments of pseudo-types and those returning undescribed records are not covered"]

TYPES = {'int4': ['0', '7', '-3'], 'int8': ['5', '-9000000000'], 'text': ['', 'abc', "it''s", 'é'], 'bool': ['t', 'f'], 'numeric': ['1.50', '-2'], 'bpchar': ['abc', 'a', 'long  text '], 'bit': ['10110', '0'], 'varbit': ['101', ''], '"char"': ['c'],
	'varchar': ['xyz'], 'name': ['nm'], 'int4[]': ['{1,NULL,3}', '{}'], 'text[]': ['{a,"b c"}', '{}'], 'date': ['2020-02-03'], 'bytea': ['\\x0041'], 'float8': ['1.5'], 'interval': ['1 day 02:00'], 'vp23."Comp T"': ['(abc,5)', '(,)'], 'vp23.dom': ['dd'], 'vp23.mood': ['sad'],
	'vp23.numeric': ['shadow'], 'vp23.mood[]': ['{sad,ok}'], 'timestamp': ['2020-01-02 03:04:05'], 'oid': ['10']}
SETUP = """CREATE SCHEMA vp23; CREATE SCHEMA "V p""23"; CREATE TYPE vp23."Comp T" AS (c1 text, "C 2" int4); CREATE DOMAIN vp23.dom AS text; CREATE TYPE vp23.mood AS ENUM ('sad', 'ok');
CREATE DOMAIN vp23.numeric AS pg_catalog.text; CREATE DOMAIN vp23.dcomp AS vp23."Comp T"; CREATE DOMAIN vp23.ddcomp AS vp23.dcomp; CREATE DOMAIN vp23.ddom AS vp23.dom; CREATE TABLE vp23.one (only_ text); CREATE FUNCTION vp23.length(text) RETURNS text LANGUAGE sql AS $$ SELECT 'not the one'::pg_catalog.text $$"""
# name: (declaration of OUT parameters, RETURNS, body, is a set, has rows)
KINDS = {'scalar': ('', 'pg_catalog.text', 'SELECT %k', 0, 0), 'null': ('', 'pg_catalog.text', 'SELECT NULL::pg_catalog.text', 0, 0), 'none': ('', 'int4', 'SELECT 1 WHERE false', 0, 0), 'array': ('', 'pg_catalog.text[]', "SELECT ARRAY[%k, NULL, 'x']", 0, 0), 'domain': ('', 'vp23.ddom', 'SELECT (%k)::vp23.dom', 0, 0),
	'set': ('', 'SETOF pg_catalog.text', "SELECT %k || i FROM generate_series(1, %n) i", 1, 0), 'set of nulls': ('', 'SETOF int4', 'SELECT nullif(i, 2) FROM generate_series(1, %n) i', 1, 0),
	'out': ('OUT o pg_catalog.text', '', 'SELECT %k', 0, 0), 'outs': ('OUT "A b" pg_catalog.text, OUT j int4', '', 'SELECT %k, 5', 0, 1), 'set of outs': ('OUT "A b" pg_catalog.text, OUT j int4', 'SETOF record', 'SELECT %k, i FROM generate_series(1, %n) i', 1, 1), 'set of out': ('OUT o pg_catalog.text', 'SETOF pg_catalog.text', 'SELECT %k || i FROM generate_series(1, %n) i', 1, 0),
	'table': ('', 'TABLE(x pg_catalog.text)', 'SELECT %k || i FROM generate_series(1, %n) i', 1, 0), 'table 2': ('', 'TABLE(x pg_catalog.text, y int4)', 'SELECT %k, i FROM generate_series(1, %n) i', 1, 1),
	'composite': ('', 'vp23."Comp T"', 'SELECT ROW(%k, 5)::vp23."Comp T"', 0, 1), 'null composite': ('', 'vp23."Comp T"', 'SELECT NULL::vp23."Comp T"', 0, 1), 'set of composites': ('', 'SETOF vp23."Comp T"', 'SELECT ROW(%k, i)::vp23."Comp T" FROM generate_series(1, %n) i', 1, 1),
	'domain of composite': ('', 'vp23.dcomp', 'SELECT ROW(%k, 5)::vp23.dcomp', 0, 1), 'domain of domain of composite': ('', 'vp23.ddcomp', 'SELECT ROW(%k, 5)::vp23.ddcomp', 0, 1), 'set of domain composites': ('', 'SETOF vp23.dcomp', 'SELECT ROW(%k, i)::vp23.dcomp FROM generate_series(1, %n) i', 1, 1),
	'table row': ('', 'vp23.one', 'SELECT ROW(%k)::vp23.one', 0, 1), 'set of table rows': ('', 'SETOF vp23.one', 'SELECT ROW(%k)::vp23.one FROM generate_series(1, %n) i', 1, 1), 'array of composites': ('', 'vp23."Comp T"[]', 'SELECT ARRAY[ROW(%k, 1)::vp23."Comp T"]', 0, 0), 'void': ('', 'void', 'SELECT', 0, 0), 'set of void': ('', 'SETOF void', 'SELECT', 1, 0)}
def ql(ty):
	if ty.startswith('vp23'): return ty
	n = ty.strip('"').replace('[]', '')
	return 'pg_catalog."%s"' % ('_' + n if ty.endswith('[]') else n)
def q(x): return '"' + x.replace('"', '""') + '"'
SCHEMAS = ['public', 'vp23', 'V p"23', 'pg_temp']
arg = st.tuples(st.one_of(st.none(), st.sampled_from(['a', 'b', 'A b', 'self', 'x"y', 'args', 'o2'])), st.sampled_from(sorted(TYPES)), st.integers(0, 9), st.booleans())
@law(st.fixed_dictionaries(dict(kind=st.sampled_from(list(KINDS)), schema=st.sampled_from(SCHEMAS), name=st.sampled_from(['f', 'F x', 'length', 'select', 'a"b', "q'q", 'version']), args=st.lists(arg, max_size=5), variadic=st.booleans(), strict=st.booleans(), n=st.sampled_from([0, 1, 3, 300]),
	others=st.lists(st.tuples(st.sampled_from(SCHEMAS), st.sampled_from(['same', 'text', 'fewer', 'none', 'domains'])), max_size=3), inout=st.booleans(), how=st.sampled_from(['oid', 'text', 'server', 'quoted']), path=st.lists(st.sampled_from(['public', 'vp23', '"V p""23"', 'pg_catalog', 'pg_temp']), max_size=3, unique=True), later=st.lists(st.sampled_from(['public', 'vp23', '"V p""23"', 'pg_catalog']), max_size=3, unique=True), words=st.lists(st.booleans(), max_size=5))), 700, 8000)
def results_are_those_of_the_call_in_sql(case, t):
	c = case; r = live.raw('c23')
	if not r.query("SELECT 1 FROM pg_namespace WHERE nspname = 'vp23'"): r.query(SETUP)
	outs, returns, body, srf, rows = KINDS[c['kind']]
	args = list(c['args'])
	names = set()
	for i, (n, ty, v, null) in enumerate(args):
		if n in names: args[i] = (None, ty, v, null)
		names.add(n)
	variadic = bool(c['variadic'] and args and args[-1][1].endswith(']'))
	inout = bool(c['inout'] and args and c['kind'] in ('outs', 'set of outs') and not (variadic and len(args) == 1))
	key = ' || '.join(["'k'"] + ["coalesce($%d::pg_catalog.text, 'N') || '|'" % (i + 1) for i in range(len(args))])
	if inout: body = body.replace('SELECT ', 'SELECT $1, ', 1)
	def create(schema, types, res):
		decl = []
		for i, ty in enumerate(types):
			n = args[i][0] if i < len(args) else None
			mode = 'INOUT ' if res is None and inout and i == 0 else 'VARIADIC ' if res is None and variadic and i == len(types) - 1 else ''
			decl.append(mode + (q(n) + ' ' if n else '') + ql(ty))
		if res is None:
			ret = returns
			if outs: decl.append(outs)
			db.execute('CREATE FUNCTION %s.%s(%s) %s LANGUAGE sql %s AS $b$ %s $b$' % (q(schema), q(c['name']), ', '.join(decl), 'RETURNS ' + ret if ret else '', 'STRICT' if c['strict'] else '', body.replace('%k', '(%s)' % key).replace('%n', str(c['n']))))
		else: db.execute("CREATE FUNCTION %s.%s(%s) RETURNS pg_catalog.text LANGUAGE sql AS $b$ SELECT 'another'::pg_catalog.text $b$" % (q(schema), q(c['name']), ', '.join(decl)))
	for form in (0, 1):
		F = live.form(form); db = F.get(); db.msghook = lambda m: True; top = db.xact(); top.start()
		try:
			types = [a[1] for a in args]
			if c['name'] == 'length' and c['schema'] == 'vp23' and types == ['text']: db.execute('DROP FUNCTION vp23.length(text)')
			create(c['schema'], types, None); schema = c['schema']
			done = {(schema, tuple(types))}
			if c['name'] == 'length': done.add(('vp23', ('text',)))
			for s, what in c['others']:
				o = {'same': types, 'text': ['text'] * len(types), 'fewer': types[:-1], 'none': [], 'domains': [{'text': 'vp23.dom', 'int4': 'int8', 'vp23.dom': 'text', 'varchar': 'text'}.get(x, x) for x in types]}[what]
				if (s, tuple(o)) in done: continue
				done.add((s, tuple(o)))
				create(s, o, 'another')
			where = "proname = '%s' AND pronamespace = %s" % (c['name'].replace("'", "''"), "pg_my_temp_schema()" if schema == 'pg_temp' else "'%s'::regnamespace" % q(schema).replace("'", "''"))
			first, = db.query("SELECT oid::int8, 0 FROM pg_proc WHERE %s AND proargtypes::text = array_to_string(ARRAY[%s]::oid[], ' ')" % (where, ','.join("'%s'::regtype" % ql(x) for x in types)))
			db.execute('SET LOCAL search_path = %s' % (','.join(c['path']) or "''"))
			ref = q(schema) + '.' + q(c['name']) + '(' + ','.join(map(ql, types)) + ')'
			if c['how'] == 'oid': ident = first[0]
			elif c['how'] == 'server': ident = db.query.first('SELECT $1::int8::oid::regprocedure::text', first[0])
			else: ident = ref
			p = db.proc(ident)
			# a call is of that function whatever the path has become
			sql, vals = [], []
			for i, (n, ty, v, null) in enumerate(args):
				lit = 'NULL' if null and v % 2 else "'%s'" % TYPES[ty][v % len(TYPES[ty])]
				sql.append(('VARIADIC ' if variadic and i == len(args) - 1 else '') + lit + '::' + ql(ty)); vals.append(None if lit == 'NULL' else db.query.first('SELECT %s::%s' % (lit, ql(ty))))
			call = 'SELECT * FROM %s.%s(%s)' % (q(schema), q(c['name']), ', '.join(sql)); st_ = db.prepare(call); want = [tuple(x) for x in st_()]; cols = list(st_.column_names)
			if c['later']: db.execute('SET LOCAL search_path = %s' % ','.join(c['later']))
			def judge(got, how):
				if srf:
					check(not isinstance(got, (list, tuple, str)) or True, ''); got = list(got)
					if rows or inout:
						eq([tuple(x) for x in got], want, 'rows by %s' % how)
						for x in got[:3]: eq(list(x.keys()), cols, 'names of the columns')
					else: eq(got, [x[0] for x in want], 'values by %s' % how)
				elif rows: eq(tuple(got), want[0], 'the row by %s' % how); eq(list(got.keys()), cols, 'names of the columns'); eq([got[k] for k in cols], list(want[0]), 'columns by name')
				else: eq(got, want[0][0], 'the value by %s' % how)
			judge(p(*vals), 'position')
			judge(p(*vals), 'position again')
			# by name
			words = {}; pos = []
			for i, (n, *_) in enumerate(args):
				if n and n in [a[0] for a in args] and (c['words'] + [True] * 5)[i]: words[n] = vals[i]
				else: pos.append(vals[i])
			if words: judge(p(*pos, **words), 'name %r' % (sorted(words),))
			# refused
			for a, k in [(vals + [None], {}), (vals[:-1] if vals else [1], {}), (pos, dict(words, nosuch=1)), (pos + [None], words), (pos[:-1] if pos else [1], words), (pos, dict(words, **{'A b' if outs and 'A b' not in names else 'o': None})), (pos, {**words, '': 1})]:
				if len(a) + len(k) == len(vals) and not (set(k) - names): continue
				if len(k) and len(a) + len(k) == len(vals) and all(x in names for x in k): continue
				e, got = raised(lambda: p(*a, **k)); check(isinstance(e, TypeError), 'called with %d arguments and %r: %r, %r', len(a), sorted(k), e, got)
			for i, (n, ty, v, null) in enumerate(args):
				e, got = raised(lambda: p(*vals[:i], object(), *vals[i + 1:]))
				if e is None and srf: e, got = raised(list, got)
				# text of anything is str(), perhaps
				check(isinstance(e, (F.exc.Error, TypeError, ValueError, AttributeError)) or ty.rstrip('[]') in ('text', 'bpchar', 'varchar', 'name', 'vp23.dom', 'vp23.numeric', '"char"', 'vp23.mood', 'bool'), 'an object() given for %s: %r, %r', ty, e, got)
				if db.pq.state == b'E': return
			judge(p(*vals), 'position finally')
		finally: top.rollback()
		for x in ('%s.nosuch()' % q(schema), q(c['name']) + '(int4, int4, int4, int4, int4, int4)', 1, 4000000000):
			e, got = raised(db.proc, x); check(e is not None and (isinstance(e, LookupError) or isinstance(e, F.exc.Error)), 'a procedure %r: %r, %r', x, e, got)
	t.nt(bool(args) and (srf or rows or len(args) > 1)); t.ev(c['kind'])

_procs = None
LITS = {'int4': ['0', '1', '3', '-2', '10'], 'int8': ['0', '5', '-7'], 'int2': ['2'], 'text': ['', 'abc', 'a b', '12', '%', 'é'], 'bool': ['t', 'f'], 'numeric': ['0', '1.5', '-2.25', 'NaN'], 'float8': ['0', '1.5', '-0.5'], 'float4': ['0.5'], 'bpchar': ['ab '], 'varbit': ['101'], 'bit': ['110'], 'date': ['2020-01-31', '1999-12-31'],
	'timestamp': ['2020-01-31 10:20:30.5'], 'interval': ['2 days 01:02', '-03:00'], 'bytea': ['\\x00ff', ''], 'time': ['10:11:12'], 'name': ['abc'], 'inet': ['10.1.2.3/8', '::1'], 'cidr': ['10.0.0.0/8'], 'macaddr': ['08:00:2b:01:02:03'], 'uuid': ['00000000-0000-0000-0000-00000000000a'], 'point': ['(1,2)'], 'box': ['((1,2),(0,0))'], 'circle': ['<(0,0),2>'],
	'lseg': ['[(0,0),(1,1)]'], 'path': ['((0,0),(1,1))'], 'polygon': ['((0,0),(1,0),(1,1))'], 'text[]': ['{a,NULL}', '{}'], 'jsonb': ['{"a": [1, 2]}', '[]', '3'], 'json': ['{"a": {"b": 2}}', '[1,2]'], 'int4range': ['[1,5)', 'empty'], 'tsvector': ["a:1 b:2"], 'tsquery': ["a & b"], 'oid': ['23'], 'regtype': ['int4'], 'char': ['x']}
@law(st.tuples(st.integers(0, 10 ** 6), st.lists(st.integers(0, 60), min_size=8, max_size=8), st.booleans()), 1400, 14000)
def functions_of_the_server_give_the_same(case, t):
	global _procs
	n, lits, bytext = case; r = live.raw('c23')
	if _procs is None:
		_procs = [(int(o), sig, ts.split(';') if ts else [], s == 't', rec == 't') for o, sig, ts, s, rec in r.query("""SELECT p.oid, p.oid::regprocedure, (SELECT string_agg(a::regtype::text, ';' ORDER BY i) FROM unnest(proargtypes) WITH ORDINALITY x(a, i)), proretset, t.typtype = 'c' OR t.typname = 'record'
			FROM pg_proc p JOIN pg_type t ON t.oid = prorettype WHERE prokind = 'f' AND provolatile = 'i' AND pronamespace = 'pg_catalog'::regnamespace AND (t.typtype <> 'p' OR t.typname = 'record' AND proargmodes IS NOT NULL) AND NOT EXISTS (SELECT 1 FROM unnest(proargtypes) a JOIN pg_type t ON t.oid = a WHERE typtype = 'p') AND proname <> 'set_config' ORDER BY p.oid""")]
		alias = {'integer': 'int4', 'bigint': 'int8', 'smallint': 'int2', 'boolean': 'bool', 'double precision': 'float8', 'real': 'float4', 'character': 'bpchar', 'bit varying': 'varbit', 'timestamp without time zone': 'timestamp', 'time without time zone': 'time', '"char"': 'char'}
		_procs = [(o, s, [alias.get(x, x) for x in ts], a, b) for o, s, ts, a, b in _procs]
		_procs = [x for x in _procs if all(y in LITS for y in x[2])]
	oid, sig, types, srf, rec = _procs[n % len(_procs)]
	args = [None if k % 10 == 9 else LITS[ty][k % len(LITS[ty])] for ty, k in zip(types, lits)]
	sql = ', '.join(('NULL' if a is None else "'%s'" % a) + '::pg_catalog.' + (ty if ty.endswith(']') else '"%s"' % ty) for a, ty in zip(args, types))
	name = r.query("SELECT 'pg_catalog.' || quote_ident(proname) || CASE WHEN provariadic <> 0 THEN ' ' ELSE '' END FROM pg_proc WHERE oid = %d" % oid)[0][0]
	warnings.simplefilter('ignore')		# intervals of months
	for form in (0, 1):
		F = live.form(form); db = F.get(); db.msghook = lambda m: True
		vals = []
		for a, ty in zip(args, types):
			vals.append(None if a is None else db.query.first("SELECT '%s'::pg_catalog.%s" % (a, ty if ty.endswith(']') else '"%s"' % ty)))
		if name.endswith(' '):
			i = sql.rindex(', ') + 2 if ', ' in sql else 0; sql_ = sql[:i] + 'VARIADIC ' + sql[i:]
		else: sql_ = sql
		e1, want = raised(lambda: [tuple(x) for x in db.query('SELECT * FROM %s(%s)' % (name, sql_))])
		def go():
			x = db.proc(sig if bytext else oid)(*vals)
			return list(x) if srf else x
		e2, got = raised(go)
		if e1 is not None or e2 is not None:
			check(e1 is not None and e2 is not None and type(e1) is type(e2), '%s(%s): %r in SQL, %r', sig, sql, e1, e2); t.ev('error'); continue
		if srf: x = [tuple(y) for y in got] if rec else [(y,) for y in got]
		else: x = [tuple(got)] if rec else [(got,)]
		eq(repr(x), repr(want), '%s(%s)' % (sig, sql))
	t.nt(bool(types)); t.ev('set' if srf else 'row' if rec else 'value')
