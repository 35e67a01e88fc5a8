"""C08: dates, times, timestamps and intervals keep their exact meaning."""
import datetime as D, struct
from hypothesis import strategies as st
from vlib import live
from vlib.core import law, check, eq, raised, SITE

RULE = ("Dates, times, timestamps and intervals over the whole range Python represents, with zones of any offset to the second, under different session time zones, sent as parameters and read back, and the "
	"server's own values read through the library; float and integer wire forms of servers old and new packed and unpacked. Oracle: the text and the epoch arithmetic of the server, and integer arithmetic. "
	"Non-trivial: with microseconds, a zone, or outside 1970-2038.")

U = D.timezone.utc
def fmt(x, base='%s'):
	s = '%02d:%02d:%02d' % (x.hour, x.minute, x.second)
	if x.microsecond: s += ('.%06d' % x.microsecond).rstrip('0')
	return s
def fdt(x): return '%04d-%02d-%02d %s' % (x.year, x.month, x.day, fmt(x))
def foff(s):
	g = '-' if s < 0 else '+'; s = abs(s)
	return g + '%02d' % (s // 3600) + (':%02d' % (s // 60 % 60) if s % 3600 else '') + (':%02d' % (s % 60) if s % 60 else '')
INF = {D.datetime.max, D.datetime.min}
dates = st.one_of(st.dates(), st.dates(D.date(1999, 12, 30), D.date(2000, 3, 2)), st.sampled_from([D.date(1, 1, 2), D.date(9999, 12, 30), D.date(2000, 1, 1), D.date(1999, 12, 31), D.date(1970, 1, 1), D.date(1900, 2, 28)])).filter(lambda d: d not in (D.date.max, D.date.min))
micro = st.one_of(st.just(0), st.integers(0, 999999), st.sampled_from([1, 999999, 500000]))
times = st.builds(lambda s, u: (D.datetime(2000, 1, 1) + D.timedelta(seconds=s, microseconds=u)).time(), st.one_of(st.integers(0, 86399), st.sampled_from([0, 86399, 43200])), micro)
dts = st.builds(D.datetime.combine, st.one_of(st.dates(D.date(1, 1, 3), D.date(9999, 12, 29)), dates), times).filter(lambda d: d not in INF)
offs = st.one_of(st.integers(-15 * 60, 15 * 60).map(lambda m: m * 60), st.integers(-57599, 57599), st.sampled_from([0, 0, 19800, -12600, 50400, -43200, 45900, 1, -1, 57599, -57599]))
ivs = st.one_of(st.timedeltas(), st.timedeltas(D.timedelta(-3), D.timedelta(3)), st.sampled_from([D.timedelta(0), D.timedelta(microseconds=-1), D.timedelta(microseconds=1), D.timedelta(-1), D.timedelta(days=-1, seconds=86399, microseconds=999999), D.timedelta.max, D.timedelta.min, D.timedelta(days=30), D.timedelta(hours=24)]))
zones = st.sampled_from(['UTC', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', '-3:30', 'Europe/Dublin'])
item = st.one_of(st.tuples(st.just('date'), dates), st.tuples(st.just('time'), times), st.tuples(st.just('timestamp'), dts), st.tuples(st.just('interval'), ivs),
	st.tuples(st.just('timetz'), st.tuples(times, offs, st.booleans())), st.tuples(st.just('timestamptz'), st.tuples(dts, offs, st.booleans())))
def us(td): return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds

def value(F, ty, v):
	"""the Python object, made with the standard library's zones or the library's"""
	if ty not in ('timetz', 'timestamptz'): return v
	x, o, own = v
	z = F.sub('python.datetime').FixedOffset(o) if own else D.timezone(D.timedelta(seconds=o))
	return x.replace(tzinfo=z)
def interesting(ty, v):
	if ty == 'interval': return bool(v.microseconds or v.days < 0)
	if ty in ('timetz', 'timestamptz'): return v[1] != 0 or v[0].microsecond != 0
	if ty == 'date': return not 1970 <= v.year < 2038
	return v.microsecond != 0 or ty == 'timestamp' and not 1970 <= v.year < 2038
def same(ty, got, v, what):
	if ty in ('timetz', 'timestamptz'):
		x, o, _ = v
		if ty == 'timetz':
			check(type(got) is D.time, '%s: %r', what, got)
			eq((got.replace(tzinfo=None), got.utcoffset()), (x, D.timedelta(seconds=o)), what)
		else:
			check(type(got) is D.datetime and got.tzinfo is not None, '%s: %r', what, got)
			eq(us(got.replace(tzinfo=None) - got.utcoffset() - D.datetime(2000, 1, 1)), us(x - D.datetime(2000, 1, 1)) - o * 10**6, what)
	else:
		check(type(got) is type(v), '%s: %r is no %r', what, got, type(v))
		eq(got, v, what)
def text(ty, v):
	if ty == 'date': return '%04d-%02d-%02d' % (v.year, v.month, v.day)
	if ty == 'time': return fmt(v)
	if ty == 'timestamp': return fdt(v)
	if ty == 'timetz': return fmt(v[0]) + foff(v[1])
	if ty == 'timestamptz': return fdt(v[0]) + foff(v[1])
	return '%d days %s%d.%06d seconds' % (v.days, '', v.seconds, v.microseconds)
def utc_ok(v):
	n = us(v[0] - D.datetime(2000, 1, 1)) - v[1] * 10**6
	return us(D.datetime.min - D.datetime(2000, 1, 1)) < n < us(D.datetime.max - D.datetime(2000, 1, 1))
SEEN = {'date': '$1::date::text', 'time': '$1::time::text', 'timestamp': '$1::timestamp::text', 'timetz': '$1::timetz::text', 'timestamptz': "(extract(epoch from $1::timestamptz) * 1000000)::numeric(40)::text", 'interval': "(extract(epoch from $1::interval) * 1000000)::numeric(40)::text"}
def server(ty, v):
	if ty == 'interval': return str(us(v))
	if ty == 'timestamptz': return str(us(v[0] - D.datetime(1970, 1, 1)) - v[1] * 10**6)
	return text(ty, v)

@law(st.tuples(zones, st.lists(item, min_size=1, max_size=10)), 500)
def moments_and_durations_are_exact(case, t):
	zone, l = case
	for form in (0, 1):
		F = live.form(form)
		F.get().execute("SET TimeZone TO '%s'" % zone)
		for ty, v in l:
			if interesting(ty, v): t.nt(True)
			t.ev(ty)
			ps = F.prepare('SELECT %s, $1::%s' % (SEEN[ty], ty))
			x = value(F, ty, v)
			if ty == 'timestamptz' and not utc_ok(v):
				t.ev('beyond the calendar in UTC')
				if v[0] > D.datetime(5000, 1, 1): eq(F.prepare('SELECT ' + SEEN[ty]).first(x), server(ty, v), '%s %r at the server' % (ty, x))
				continue
			seen, back = ps.first(x)
			eq(seen, server(ty, v), '%s %r at the server' % (ty, x))
			same(ty, back, v, '%s %r returned' % (ty, x))
			# the server's value
			back = F.prepare('SELECT $1::text::%s' % ty).first(text(ty, v))
			same(ty, back, v, '%s %s read' % (ty, text(ty, v)))
			arr = F.prepare('SELECT $1::%s[]' % ty).first([x, None, x])
			same(ty, arr[0], v, 'in an array'); same(ty, arr[2], v, 'in an array')

LOCAL = st.sampled_from(['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'XXX-13:45', 'YYY11'])
@law(st.tuples(LOCAL, zones, st.lists(st.tuples(st.datetimes(D.datetime(1971, 1, 2), D.datetime(2037, 12, 30)), st.booleans()), min_size=1, max_size=6)), 60)
def datetimes_without_a_zone_are_in_the_clients(case, t):
	import os, time
	local, zone, l = case
	if local != 'UTC0': t.nt(True)
	before = os.environ.get('TZ')
	try:
		os.environ['TZ'] = local; time.tzset()
		for form in (0, 1):
			F = live.form(form)
			F.get().execute("SET TimeZone TO '%s'" % zone)
			ps = F.prepare('SELECT %s, $1::timestamptz' % SEEN['timestamptz'])
			for x, fold in l:
				x = x.replace(fold=int(fold))
				utc = x.astimezone(U)
				seen, back = ps.first(x)
				eq(seen, str(us(utc - D.datetime(1970, 1, 1, tzinfo=U))), '%r in %s at the server' % (x, local))
				eq(back, utc, '%r in %s returned' % (x, local))
	finally:
		if before is None: os.environ.pop('TZ', None)
		else: os.environ['TZ'] = before
		time.tzset()

DAYS = st.tuples(st.integers(-400, 400), st.integers(-10**9, 10**9), st.integers(-10**15, 10**15))
@law(st.tuples(st.lists(DAYS, min_size=1, max_size=6), st.lists(st.sampled_from(['24:00:00', '10000-01-01', '294000-01-01 00:00', '0001-01-01 BC', '4700-01-01 BC']), max_size=2)), 120)
def the_servers_intervals_and_unrepresentable_values(case, t):
	l, odd = case
	for form in (0, 1):
		F = live.form(form)
		db = F.get()
		for m, d, u in l:
			# an interval of days and microseconds which do not share a sign
			if not -999999990 < d < 999999990: continue
			t.nt(True)
			want = D.timedelta(days=d, microseconds=u)
			got = F.prepare("SELECT make_interval(days => $1::int) + ($2::bigint || ' microseconds')::interval").first(d, u)
			eq(got, want, 'interval of %d days and %d microseconds' % (d, u))
			if m:
				import warnings
				with warnings.catch_warnings(record=True) as w:
					warnings.simplefilter('always')
					got = F.prepare("SELECT make_interval(months => $1::int)").first(m)
				check(len(w) > 0, 'an interval of %d months was returned as %r without a warning', m, got)
				# as the server's own arithmetic (justify_days)
				eq(got, D.timedelta(days=30 * m), 'an interval of %d months' % m)
		for o in odd:
			ty = 'time' if o.startswith('24') else 'date' if ' 0' not in o else 'timestamp'
			ps = F.prepare('SELECT $1::text::%s' % ty)
			e, v = raised(ps.first, o)
			check(e is not None, '%s %s was returned as %r', ty, o, v)
			e, v = raised(ps, o)
			check(isinstance(e, F.exc.ColumnError), '%s %s: %r %r', ty, o, e, v)
			eq(db.query.first('SELECT 1'), 1, 'connection unusable')

@law(st.lists(st.tuples(st.sampled_from(['date', 'timestamp', 'timestamptz']), st.booleans(), st.booleans()), min_size=1, max_size=6), 60)
def infinities_are_the_documented_constants(case, t):
	for form in (0, 1):
		F = live.form(form)
		P = F.sub('python.datetime')
		for ty, pos, asstr in case:
			t.nt(True)
			lit = 'infinity' if pos else '-infinity'
			const = getattr(P, ('infinity_' if pos else 'negative_infinity_') + ('date' if ty == 'date' else 'datetime'))
			ps = F.prepare('SELECT $1::%s::text, $1::%s, isfinite($1::%s)' % (ty, ty, ty))
			row = ps.first(lit if asstr else const)
			eq((row[0], row[2]), (lit, False), '%s at the server' % ty)
			eq(row[1], const, '%s %s returned' % (ty, lit))
			eq(F.prepare('SELECT $1::text::%s' % ty).first(lit), const, '%s %s read' % (ty, lit))

secs = st.one_of(st.integers(0, 86399), st.integers(-10**9, 10**9))
@law(st.lists(st.tuples(st.integers(-1000, 1000), st.integers(-10**4, 10**4), secs, micro, offs), min_size=1, max_size=8), 300)
def wire_forms_of_old_and_new_servers(case, t):
	for form in (0, 1):
		lib = live.form(form).sub('types.io.lib')
		for m, d, s, u, z in case:
			if u: t.nt(True)
			n = s * 10**6 + u
			eq((lib.time64_pack((s, u)), lib.time64_unpack(struct.pack('!q', n))), (struct.pack('!q', n), (s, u)), 'time64')
			eq((lib.time_pack((s, u)), lib.time_unpack(struct.pack('!d', n / 10**6))), (struct.pack('!d', s + u / 1000000.0), (s, u)), 'time')
			eq((lib.interval64_pack((m, d, (s, u))), lib.interval64_unpack(struct.pack('!qll', n, d, m))), (struct.pack('!qll', n, d, m), (m, d, (s, u))), 'interval64')
			eq((lib.interval_pack((m, d, (s, u))), lib.interval_unpack(struct.pack('!dll', n / 10**6, d, m))), (struct.pack('!dll', s + u / 1000000.0, d, m), (m, d, (s, u))), 'interval')
			n2 = n + d * 86400 * 10**6
			eq((lib.interval64_noday_pack((m, d, (s, u))), lib.interval64_noday_unpack(struct.pack('!ql', n2, m))), (struct.pack('!ql', n2, m), (m, 0, divmod(n2, 10**6))), 'interval64 without days')
			s2 = s + d * 86400
			eq((lib.interval_noday_pack((m, d, (s, u))), lib.interval_noday_unpack(struct.pack('!dl', n2 / 10**6, m))), (struct.pack('!dl', s2 + u / 1000000.0, m), (m, 0, divmod(n2, 10**6))), 'interval without days')
			eq((lib.timetz64_pack(((s, u), z)), lib.timetz64_unpack(struct.pack('!ql', n, z))), (struct.pack('!ql', n, z), ((s, u), z)), 'timetz64')
			eq((lib.timetz_pack(((s, u), z)), lib.timetz_unpack(struct.pack('!dl', n / 10**6, z))), (struct.pack('!dl', s + u / 1000000.0, z), ((s, u), z)), 'timetz')
