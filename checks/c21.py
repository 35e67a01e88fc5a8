"""C21: The settings mapping mirrors the server's settings."""
from hypothesis import strategies as st
from vlib import live, gen
from vlib.core import law, check, eq, raised

RULE = ("Histories of assignments, updates, deletions, SQL SET, SET LOCAL, RESET and set_config(), transactions, savepoints and nested settings blocks left in any way, over settings that the server reports, ones that it doesn't and custom ones, with any values, spelled in any case. "
	"Oracle: what SHOW gives after every step, what an independent session makes of the assigned texts, and the values before the blocks. Non-trivial: at least two changes.")

text = st.one_of(st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=126), max_size=10), st.sampled_from(['', "it's", '"', '\\', 'a, b', ' x ', '%s']))
SETTINGS = {
	'application_name': text, 'TimeZone': st.sampled_from(['UTC', 'America/New_York', 'GMT', '+3', 'europe/paris']), 'DateStyle': st.sampled_from(['ISO, DMY', 'SQL, MDY', 'iso, ymd', 'German, MDY']),
	'IntervalStyle': st.sampled_from(['iso_8601', 'postgres']), 'work_mem': st.sampled_from(['64kB', '4MB', '5000', '1GB', '4096kB']), 'statement_timeout': st.sampled_from(['0', '100s', '5min', '1h', '90000']),
	'client_min_messages': st.sampled_from(['error', 'WARNING', 'notice']), 'extra_float_digits': st.sampled_from(['0', '1', '-3', '3']), 'enable_seqscan': st.sampled_from(['on', 'off', 'true', 'no']),
	'search_path': st.sampled_from(['public', '"$user", public', '', 'pg_catalog', '"A b","c,d"', 'public,pg_temp']), 'default_transaction_isolation': st.sampled_from(['read committed', 'serializable', 'repeatable read']),
	'vt.x': text, 'vt.other': text, 'vt.select': text, 'bytea_output': st.sampled_from(['hex', 'escape']), 'lock_timeout': st.sampled_from(['0', '10s']), 'client_encoding': st.sampled_from(['UTF8', 'LATIN1', 'utf-8', 'SQL_ASCII']),
	'default_statistics_target': st.sampled_from(['100', '1', '1000']), 'default_transaction_read_only': st.just('off'), 'temp_tablespaces': st.just(''), 'vt.never': st.nothing()}
BAD = [('work_mem', 'much'), ('nosuch_setting', 'x'), ('TimeZone', 'Nowhere/At all'), ('server_version', '1'), ('enable_seqscan', 'maybe'), ('statement_timeout', '-5')]
ASSIGN = [k for k in SETTINGS if k != 'vt.never']
pair = st.sampled_from(ASSIGN).flatmap(lambda k: st.tuples(st.just(k), SETTINGS[k]))
pairs = st.lists(pair, max_size=4, unique_by=lambda x: x[0])
read = st.lists(st.sampled_from(list(SETTINGS) + ['nosuch_setting', 'a b', '']), min_size=1, max_size=4)
leaf = st.one_of(
	st.tuples(st.sampled_from(['set', 'set', 'SET', 'SET LOCAL', 'set_config', 'set_config local']), pair),
	st.tuples(st.just('update'), pairs, st.booleans()), st.tuples(st.sampled_from(['del', 'RESET']), st.sampled_from(ASSIGN)),
	st.tuples(st.just('RESET ALL')), st.tuples(st.just('DISCARD')), st.tuples(st.just('bad'), st.sampled_from(BAD), st.booleans()), st.tuples(st.just('error')),
	st.tuples(st.sampled_from(['read', 'read', 'get', 'getset']), read), st.tuples(st.just('getset bad'), read), st.tuples(st.just('path'), st.lists(gen.ident() if hasattr(gen, 'ident') else st.sampled_from(['public', 'A b', 'x"y', 'c,d', 'pg_temp', '$user']), max_size=3)))
ends = st.sampled_from(['', '', 'raise', 'error', 'error inside'])
step = st.recursive(leaf, lambda s: st.one_of(st.tuples(st.sampled_from(['block', 'block', 'xact', 'rollback']), pairs, st.lists(s, max_size=4), ends)), max_leaves=8)
class Stop(Exception): pass
def variant(k, n): return (k, k, k.lower(), k.upper())[n % 4]
def quote(k): return '.'.join('"%s"' % x for x in k.split('.'))
@law(st.tuples(pairs, st.lists(step, min_size=1, max_size=6), st.integers(0, 100)), 300, 6000)
def the_mapping_is_what_the_server_has(case, t):
	first, steps, n = case; r = live.raw('c21'); canon = {}
	def canonical(k, v):
		# what another session makes of the text
		if (k, v) not in canon:
			r.query('BEGIN'); canon[k, v] = r.query("SELECT set_config('%s', '%s', true)" % (k, v.replace("'", "''")))[0][0]; r.query('ROLLBACK')
		return canon[k, v]
	for form in (0, 1):
		F = live.form(form); db, = F.take(1); S = db.settings; changes = count = 0; events = []
		show = db.prepare('SELECT k, current_setting(k, true) FROM unnest($1::text[]) k')
		def watch(c, k, v): check(c is db, 'the connection is %r', c); events.append((k, v))
		def actual(ks): return dict(tuple(x) for x in show(list(ks)))
		def compare(ks, how):
			nonlocal count
			if db.pq.state == b'E': return
			count += 1; now = actual(ks)
			for j, k in enumerate(ks):
				name = variant(k, count + j) if k in SETTINGS else k
				v = now[k]
				if how == 'get':
					eq(S.get(name), v, 'get(%r)' % name); eq(S.get(name, 'alt'), 'alt' if v is None else v, 'get(%r, alt)' % name)
				else:
					e, got = raised(S.__getitem__, name)
					if v is None: check(isinstance(e, KeyError), '%r does not exist: %r, %r', name, e, got)
					else: check(e is None, '%r exists: %r', name, e); eq(got, v, 'settings[%r]' % name)
			if how == 'getset':
				ks = list(dict.fromkeys(ks)); e, got = raised(S.getset, ks)
				missing = {k for k in ks if now[k] is None}
				if missing: check(isinstance(e, KeyError) and e.args == (missing,), 'getset() of %r: %r', missing, e)
				else: check(e is None, 'getset: %r', e); eq(dict(got), {k: now[k] for k in ks}, 'getset()')
		def assigned(k, v):
			if db.pq.state != b'E': eq(actual([k])[k], canonical(k, v), 'the server has %r set to %r' % (k, v))
		def run(o):
			nonlocal changes
			failed = db.pq.state == b'E'
			if failed and o[0] != 'read': return
			if o[0] in ('set', 'SET', 'SET LOCAL', 'set_config', 'set_config local'):
				k, v = o[1]; changes += 1
				if o[0] == 'set': S[variant(k, n + changes)] = v; assigned(k, v)
				elif o[0] in ('SET', 'SET LOCAL'):
					# lists are not quoted in SET
					if k in ('search_path', 'DateStyle', 'temp_tablespaces'): db.execute("SELECT set_config('%s', '%s', %s)" % (k, v, 'true' if o[0] == 'SET LOCAL' else 'false'))
					elif o[0] == 'SET' or db.pq.state == b'T': db.execute('%s %s = %s' % (o[0], quote(k), "'%s'" % v.replace("'", "''")))
				else: db.query("SELECT set_config($1, $2, $3)", k, v, o[0] != 'set_config')
				compare([k], 'read')
			elif o[0] == 'update':
				changes += len(o[1]); S.update(o[1] if o[2] else dict(o[1]))
				for k, v in o[1]: assigned(k, v)
				compare([k for k, _ in o[1]], 'read')
			elif o[0] == 'del':
				if actual([o[1]])[o[1]] is None: return
				before = actual(SETTINGS); del S[o[1]]; compare([o[1]], 'read'); now = actual([o[1]])[o[1]]; db.execute('RESET ' + quote(o[1])); eq(actual([o[1]])[o[1]], now, 'a deleted setting'); del before[o[1]]; eq(actual(before), before, 'other settings')
			elif o[0] == 'RESET':
				if actual([o[1]])[o[1]] is not None: db.execute('RESET ' + quote(o[1])); compare([o[1]], 'read')
			elif o[0] == 'RESET ALL': db.execute('RESET ALL'); compare(list(SETTINGS), 'read')
			elif o[0] == 'DISCARD':
				if db.pq.state == b'I': db.execute('SET SESSION AUTHORIZATION DEFAULT; RESET ALL')
			elif o[0] in ('read', 'get', 'getset'): compare(o[1], o[0])
			elif o[0] == 'getset bad': compare(o[1] + ['nosuch_setting'], 'getset')
			elif o[0] == 'path':
				before = S.path; S.path = o[1]; eq(list(S.path), o[1], 'settings.path'); compare(['search_path'], 'read')
				eq(S['search_path'].replace(' ', ''), ','.join('"%s"' % x.replace('"', '""') for x in o[1]).replace(' ', ''), 'search_path')
				S.path = before; eq(S.path, before, 'settings.path')
				if len(o[1]) == 2: del S.path; compare(['search_path'], 'read'); changes += 1
			elif o[0] == 'error': raised(db.query, 'SELECT 1/0')
			elif o[0] == 'bad':
				(k, v), block = o[1:]; before = actual(SETTINGS)
				def go():
					if block:
						with db.settings(**{'application_name': 'bad', k: v}): check(False, 'a block is entered with %r set to %r', k, v)
					elif n % 2: S[k] = v
					else: S.update({'application_name': 'bad', k: v})
				e, _ = raised(go); check(isinstance(e, F.exc.Error) or block and k == 'nosuch_setting' and isinstance(e, KeyError), '%r set to %r: %r', k, v, e)
				if db.pq.state == b'E': return
				eq(actual(SETTINGS), before, 'settings after an error')
				if db.pq.state == b'I':
					for name in ('work_mem; SET work_mem = 70', 'work_mem"; SET work_mem = 70; --', k + '"'):
						e, _ = raised(S.__delitem__, name); check(isinstance(e, (F.exc.Error, KeyError)), 'deleting %r: %r', name, e); eq(actual(SETTINGS), before, 'settings after deleting %r' % name)
			elif o[0] == 'block':
				_, ps, body, end = o; before = actual(SETTINGS)
				# unknown to the server so far; there is no value to restore
				ps = [(k, v) for k, v in ps if before[k] is not None]; state = db.pq.state; changes += len(ps)
				cm = db.settings(**dict(ps)) if n % 2 else db.settings(**{k: v for k, v in ps})
				def go():
					with cm:
						for k, v in ps: assigned(k, v)
						compare([k for k, _ in ps], 'read')
						for x in body: run(x)
						if end == 'raise': raise Stop
						if end.startswith('error') and db.pq.state != b'E':
							if end == 'error': db.query('SELECT 1/0')
							else: raised(db.query, 'SELECT 1/0')
				e, _ = raised(go)
				if state == b'T' and db.pq.state == b'E':
					# the transaction's rollback restores them
					if end == 'raise': check(isinstance(e, Stop), 'the exception of the body: %r', e)
					elif end == 'error': check(isinstance(e, (F.exc.ZeroDivisionError, F.exc.InFailedTransactionError)), 'the exception of the body: %r', e)
					elif e is not None: check(isinstance(e, F.exc.InFailedTransactionError), 'in a failed transaction: %r', e)
				else:
					if end == 'raise': check(isinstance(e, Stop), 'the exception of the body: %r', e)
					elif end == 'error': check(isinstance(e, F.exc.ZeroDivisionError), 'the exception of the body: %r', e)
					else: check(e is None, 'the block: %r', e)
					eq(actual([k for k, _ in ps]), {k: before[k] for k, _ in ps}, 'after a block'); compare(list(SETTINGS), 'read')
				e, _ = raised(cm.__enter__); check(e is not None, 'a block is reused')
			else:
				_, ps, body, end = o; before = actual(SETTINGS)
				def go():
					with db.xact():
						S.update(ps)
						for x in body: run(x)
						if end == 'raise' or o[0] == 'rollback': raise Stop
						if end.startswith('error') and db.pq.state != b'E':
							if end == 'error': db.query('SELECT 1/0')
							else: raised(db.query, 'SELECT 1/0')
				changes += len(ps); e, _ = raised(go)
				check(e is None or isinstance(e, (Stop, F.exc.ZeroDivisionError, F.exc.InFailedTransactionError)), 'the transaction: %r', e)
				if e is not None and db.pq.state == b'I': eq({k: v for k, v in actual(SETTINGS).items() if before[k] is not None}, {k: v for k, v in before.items() if v is not None}, 'after a rollback')
				compare(list(SETTINGS), 'read')
		db.execute('RESET ALL'); S.update(first)
		S.subscribe('TimeZone', watch); S.subscribe('TimeZone', watch)
		allev = []; alln = lambda c, k, v: allev.append((k, v)); S.subscribe(None, alln)
		tz = S['TimeZone']
		for o in steps:
			events.clear(); allev.clear(); run(o)
			if db.pq.state == b'E': db.execute('ABORT')
			now = S['TimeZone']
			if now != tz: check(events and events[-1] == ('TimeZone', now), 'the change of TimeZone from %r to %r: %r', tz, now, events)
			eq([x for x in allev if x[0] == 'TimeZone'], events, 'the changes that subscriptions are told of')
			tz = now
		S.unsubscribe('TimeZone', watch); S.unsubscribe(None, alln); events.clear()
		compare(list(SETTINGS), 'getset' if n % 3 == 0 else 'get')
		db.execute('RESET ALL'); S['TimeZone'] = 'Asia/Tokyo'; S['TimeZone'] = 'UTC'; eq(events, [], 'after unsubscribing')
		if n % 5 == 0:
			rows = [tuple(x) for x in db.query('SELECT name, current_setting(name) FROM pg_settings ORDER BY name')]
			eq([tuple(x) for x in S.items()], rows, 'items()'); eq(list(S.keys()), [x[0] for x in rows], 'keys()'); eq(list(S), [x[0] for x in rows], 'the keys'); eq(list(S.values()), [x[1] for x in rows], 'values()'); eq(len(S), len(rows), 'len()')
		db.execute('RESET ALL'); F.give([db])
	t.nt(changes > 1); t.ev('%d changes' % min(changes, 8))

@law(pairs, 40, 500)
def connections_begin_with_their_settings(ps, t):
	# in the startup packet
	d = {k: v for k, v in ps if k not in ('client_encoding', 'temp_tablespaces') and v}
	t.nt(len(d) > 1)
	r = live.raw('c21')
	for form in (0, 1):
		F = live.form(form); db = F.connect(settings=d)
		try:
			for k, v in d.items():
				r.query('BEGIN'); c = r.query("SELECT set_config('%s', '%s', true)" % (k, v.replace("'", "''")))[0][0]; r.query('ROLLBACK')
				eq(db.settings[k], c, 'settings[%r] of a new connection' % k); eq(db.query.first('SELECT current_setting($1)', k), c, 'the setting')
			with db.settings(**{k: v for k, v in d.items() if k != 'application_name'}, application_name='in block'): eq(db.settings['application_name'], 'in block', 'in a block')
			for k in d: db.settings[k] = d[k]; del db.settings[k]; eq(db.settings[k], db.query.first('SELECT current_setting($1)', k), 'settings[%r]' % k)
		finally: db.close()
