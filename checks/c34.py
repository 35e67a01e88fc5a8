"""C34: values have exactly PostgreSQL's binary image, whatever format the server uses, and damaged images are refused."""
import struct, uuid, ipaddress, datetime as D, math
from decimal import Decimal
from fractions import Fraction
from hypothesis import strategies as st
from vlib.core import law, check, eq, raised, must_raise, Violation
from vlib.gen import pgtext
from vlib.typed import session
import postgresql.types.io.lib as TL
import postgresql_pure.types.io.lib as PL
import postgresql.types.io.contrib_hstore as TH
import postgresql_pure.types.io.contrib_hstore as PH
import postgresql.types as T_
import postgresql.exceptions as X
from postgresql.types.bitwise import Varbit

RULE = ("Values of every type with binary support, bound as parameters of and returned by a scripted server reporting a version (7.4 to 17) and integer_datetimes on, off or not at all; images cut "
	"short; and the record, array, hstore and time codecs of types.io.lib with generated structures. Oracle: images built from PostgreSQL's send functions with struct. "
	"Non-trivial: a value other than NULL in a structure, or a value that is not zero.")

pack = struct.pack
DAY = 86400
# -- values and their images; F: floating-point times, N: intervals without days
def secs(td): return td.days * DAY + td.seconds, td.microseconds
def ticks(s, us, F): return pack('!d', float(Fraction(s) + Fraction(us, 10**6))) if F else pack('!q', s * 10**6 + us)
def tod(t): return t.hour * 3600 + t.minute * 60 + t.second, t.microsecond
E0 = D.datetime(2000, 1, 1)
EZ = D.datetime(2000, 1, 1, tzinfo=D.timezone.utc)
def i_interval(v, F, N):
	if N: return ticks(*secs(v), F) + pack('!l', 0)
	return ticks(v.seconds, v.microseconds, F) + pack('!ll', v.days, 0)
def i_timetz(v, F, N): return ticks(*tod(v), F) + pack('!l', -int(v.utcoffset().total_seconds()))
def groups(v):
	sign, digits, exp = v.as_tuple()
	s = -exp if exp < 0 else 0
	n = abs(int(v.scaleb(s))) if digits != (0,) else 0
	whole, frac = divmod(n, 10**s)
	fr = str(frac).rjust(s, '0') if s else ''
	fr += '0' * (-len(fr) % 4)
	w = str(whole) if whole else ''
	w = w.rjust(-(-len(w) // 4) * 4, '0')
	g = [int((w + fr)[i:i + 4]) for i in range(0, len(w + fr), 4)]
	weight = len(w) // 4 - 1
	while g and g[0] == 0: g.pop(0); weight -= 1
	while g and g[-1] == 0: g.pop()
	return s, g, weight if g else 0, sign and bool(g)
def i_numeric(v, F, N):
	if v.is_nan(): return pack('!hhHh', 0, 0, 0xc000, 0)
	s, g, weight, sign = groups(v)
	return pack('!hhHh', len(g), weight, 0x4000 if sign else 0, s) + b''.join(pack('!h', x) for x in g)
def i_net(cidr):
	def f(v, F, N):
		if cidr: a, m = v.network_address, v.prefixlen
		elif isinstance(v, (ipaddress.IPv4Interface, ipaddress.IPv6Interface)): a, m = v.ip, v.network.prefixlen
		else: a, m = v, v.max_prefixlen
		return bytes((2 if v.version == 4 else 3, m, cidr, len(a.packed))) + a.packed
	return f
def i_bits(v, F, N):
	s = str(v)
	return pack('!l', len(s)) + bytes(int(s[i:i + 8].ljust(8, '0'), 2) for i in range(0, len(s), 8))

def ints(bits, signed=True):
	lo, hi = (-2**(bits - 1), 2**(bits - 1) - 1) if signed else (0, 2**bits - 1)
	return st.one_of(st.sampled_from([0, 1, lo, hi, hi // 3, 258]), st.integers(lo, hi))
def S(f): return lambda v, F, N: pack('!' + f, *(v if isinstance(v, tuple) else (v,)))
fl = st.floats(allow_nan=False)
us = st.one_of(st.sampled_from([0, 1, 999999, 500000, 123456]), st.integers(0, 999999))
sec = st.one_of(st.sampled_from([0, 1, 59, 60, 3599, 3600, 86399]), st.integers(0, 86399))
atime = st.tuples(sec, us).map(lambda x: (D.datetime(2000, 1, 1) + D.timedelta(0, *x)).time())
far = 2**32 - 90000		# beyond, microseconds are not exact in a double
days = st.one_of(st.sampled_from([0, 1, -1, far // DAY, -(far // DAY)]), st.integers(-(far // DAY), far // DAY))
td = st.tuples(days, sec, us).map(lambda x: D.timedelta(*x))
stamp = td.filter(lambda d: abs(d.days) < 1990 * 365).map(lambda d: E0 + d)
off = st.sampled_from([0, 3600, -3600, 19800, -12600, 50400, -43200, 20640])
date = st.integers(-1999 * 365, 7999 * 365).map(lambda d: D.date(2000, 1, 1) + D.timedelta(d))
ip = st.one_of(st.integers(0, 2**32 - 1).map(ipaddress.IPv4Address), st.integers(0, 2**128 - 1).map(ipaddress.IPv6Address))
iface = st.tuples(ip, st.integers(0, 128)).map(lambda x: ipaddress.ip_interface('%s/%d' % (x[0], x[1] % (x[0].max_prefixlen + 1)))).map(
	lambda i: i if i.network.prefixlen != i.max_prefixlen else i.ip)
net = st.tuples(ip, st.integers(0, 128)).map(lambda x: ipaddress.ip_network('%s/%d' % (x[0], x[1] % (x[0].max_prefixlen + 1)), strict=False))
pt = st.tuples(fl, fl)
dec = st.one_of(st.tuples(st.integers(-10**30, 10**30), st.integers(0, 30)).map(lambda x: Decimal(x[0]).scaleb(-x[1]) if abs(x[0]) < 10**27 else Decimal(x[0])),
	st.sampled_from(['0', '0.00', '10000', '0.0001', '100000000', '-0.00001', '9999.9999', 'NaN', '1.10', '0.00010000']).map(Decimal))
bits = st.text(alphabet='01', min_size=2, max_size=40)
class FO(D.tzinfo):
	def __init__(self, s): self.s = s
	def utcoffset(self, dt): return D.timedelta(0, self.s)
	def dst(self, dt): return None
	def __repr__(self): return 'FO(%d)' % self.s
	def __reduce__(self): return (FO, (self.s,))

# name: (oid, strategy, image, fixed length)
TYPES = {
	'bool': (16, st.booleans(), lambda v, F, N: b'\1' if v else b'\0', True),
	'"char"': (18, st.integers(0, 255).map(lambda i: bytes((i,))), lambda v, F, N: v, False),
	'bytea': (17, st.binary(max_size=20), lambda v, F, N: v, False),
	'text': (25, pgtext(), lambda v, F, N: v.encode(), False),
	'varchar': (1043, pgtext(), lambda v, F, N: v.encode(), False),
	'name': (19, pgtext(), lambda v, F, N: v.encode(), False),
	'int2': (21, ints(16), S('h'), True), 'int4': (23, ints(32), S('l'), True), 'int8': (20, ints(64), S('q'), True),
	'oid': (26, ints(32, False), S('L'), True), 'xid': (28, ints(32, False), S('L'), True), 'cid': (29, ints(32, False), S('L'), True),
	'tid': (27, st.tuples(ints(32, False), ints(16, False)), S('LH'), True), 'abstime': (702, ints(32), S('l'), True),
	'float4': (700, st.floats(width=32, allow_nan=False), S('f'), True), 'float8': (701, fl, S('d'), True),
	'numeric': (1700, dec, i_numeric, False),
	'uuid': (2950, st.integers(0, 2**128 - 1).map(lambda i: uuid.UUID(int=i)), lambda v, F, N: v.bytes, True),
	'bit': (1560, bits, i_bits, False), 'varbit': (1562, bits, i_bits, False),
	'macaddr': (829, st.binary(min_size=6, max_size=6).map(lambda b: ':'.join('%02x' % x for x in b)), lambda v, F, N: bytes(int(x, 16) for x in v.split(':')), True),
	'inet': (869, iface, i_net(0), False), 'cidr': (650, net, i_net(1), False),
	'point': (600, pt, S('dd'), True), 'lseg': (601, st.tuples(pt, pt), lambda v, F, N: pack('!dddd', *v[0], *v[1]), True),
	'circle': (718, st.tuples(pt, fl.map(abs)), lambda v, F, N: pack('!ddd', *v[0], v[1]), True),
	'jsonb': (3802, st.sampled_from(['{}', '[1, "é"]', '"x"', 'null']), lambda v, F, N: b'\1' + v.encode(), False),
	'date': (1082, date, lambda v, F, N: pack('!l', (v - D.date(2000, 1, 1)).days), True),
	'time': (1083, atime, lambda v, F, N: ticks(*tod(v), F), True),
	'timetz': (1266, st.tuples(atime, off).map(lambda x: x[0].replace(tzinfo=FO(x[1]))), i_timetz, True),
	'timestamp': (1114, stamp, lambda v, F, N: ticks(*secs(v - E0), F), True),
	'timestamptz': (1184, st.tuples(stamp, off).map(lambda x: x[0].replace(tzinfo=FO(x[1]))), lambda v, F, N: ticks(*secs(v - EZ), F), True),
	'interval': (1186, td, i_interval, True),
}
TIMES = ['time', 'timetz', 'timestamp', 'timestamptz', 'interval']
tv = st.one_of(st.sampled_from(sorted(TYPES)), st.sampled_from(TIMES)).flatmap(lambda n: st.tuples(st.just(n), st.one_of(TYPES[n][1], TYPES[n][1], TYPES[n][1], st.none())))
versions = st.sampled_from(['7.4.30', '8.0.26', '8.0.0', '8.1.23', '8.3.1', '8.4.22', '9.0.23', '9.6.24', '10.1', '16.3', '17beta1', '18devel'])
server = st.tuples(versions, st.sampled_from([None, 'on', 'off', 'on', 'off']))
def variant(case):
	v, i = case
	major = tuple(int(''.join(c for c in p if c.isdigit())) for p in v.replace('beta', '.').replace('devel', '').split('.')[:2])
	ps = [('client_encoding', 'UTF8'), ('server_version', v), ('standard_conforming_strings', 'on')]
	if i is not None: ps.append(('integer_datetimes', i))
	# servers before 9.0 that do not tell are assumed to use floating point
	F = i == 'off' if i is not None else major < (9, 0)
	return tuple(ps), F, major <= (8, 0)

def as_text(n, v): return n in ('text', 'varchar', 'name')
def near(a, b):
	"two images equal, but for the last place of a leading double"
	if a == b: return True
	if len(a) != len(b) or a[8:] != b[8:]: return False
	x, y = struct.unpack('!d', a[:8])[0], struct.unpack('!d', b[:8])[0]
	return abs(x - y) <= math.ulp(max(abs(x), abs(y)))

@law(st.tuples(server, st.lists(tv, min_size=1, max_size=6)), 1200, 16000)
def images_are_the_servers(case, t):
	ps, F, N = variant(case[0])
	sv, db = session(ps)
	vals = case[1]
	images = [None if v is None else TYPES[n][2](v, F, N) for n, v in vals]
	sv.ptypes = sv.ctypes = [TYPES[n][0] for n, _ in vals]
	sv.rows = [images, images]
	t.nt(any(v for _, v in vals))
	for n, v in vals: t.ev(n)
	if F: t.ev('floating-point times')
	if N: t.ev('intervals without days')
	s = db.prepare('SCRIPT')
	try:
		del sv.bound[:]
		rows = s(*[Varbit(v) if n in ('bit', 'varbit') and v is not None else v for n, v in vals])
		check(sv.failure is None, 'server: %r', sv.failure)
		eq(len(sv.bound), 1, 'executions')
		pf, args, rf = sv.bound[0]
		eq(len(rows), 2, 'rows')
		for i, ((n, v), want) in enumerate(zip(vals, images)):
			if v is None: eq(args[i], None, '%s NULL' % n)
			else:
				if not as_text(n, v): eq(pf[i], 1, 'format of %s' % n)
				if n == 'numeric':
					check(args[i] == want or args[i][:8] and number(args[i]) == number(want), '%s %r was sent as %r, not %r', n, v, args[i], want)
				elif n == 'inet':
					# servers ignore the octet telling cidr from inet
					check(args[i] is not None and args[i][:2] + b'\0' + args[i][3:] == want, 'inet %r was sent as %r, not %r', v, args[i], want)
				else:
					check(args[i] == want or F and n in TIMES and near(args[i], want), '%s %r was sent as %r, not %r (%s)', n, v, args[i], want, case[0])
			for r in rows:
				got = r[i]
				if v is None or got is None:
					check(got is None and v is None, '%s: got %r, want %r', n, got, v)
					continue
				if n in ('bit', 'varbit'): got = str(got)
				elif n in ('point', 'lseg', 'circle'): eq(flat(got), flat(v), n); continue
				elif n == 'numeric':
					check(isinstance(got, Decimal) and (got.is_nan() and v.is_nan() or got == v and -got.as_tuple()[2] == max(0, -v.as_tuple()[2])), 'numeric: got %r, want %r', got, v)
					continue
				elif n in ('timetz', 'timestamptz'): check(got.utcoffset() is not None and (n == 'timestamptz' or got.utcoffset() == v.utcoffset()), '%s: zone of %r', n, got)
				if n in TIMES or n == 'date':
					check(type(got) is type(v) and got == v, '%s: got %r, want %r (%s)', n, got, v, case[0])
				elif n in ('inet', 'cidr'): check(got == v and type(got) is type(v), '%s: got %r, want %r', n, got, v)
				else: eq(got, v, n)
	finally:
		s.close()
def flat(x): return [y for z in x for y in flat(z)] if isinstance(x, tuple) else [float(x)]
def number(b):
	n, w, s, d = struct.unpack('!hhHh', b[:8])
	if s == 0xc000: return 'NaN'
	g = struct.unpack('!%dh' % ((len(b) - 8) // 2), b[8:])
	return (len(g) == n, d, -1 if s else 1, sum(Fraction(x) * Fraction(10000) ** (w - i) for i, x in enumerate(g)))

FIXED = sorted(n for n in TYPES if TYPES[n][3])
@law(st.tuples(server, st.sampled_from(FIXED).flatmap(lambda n: st.tuples(st.just(n), TYPES[n][1])), st.integers(0, 20), st.booleans()), 400, 6000)
def short_images_are_refused(case, t):
	srv, (n, v), cut, second = case
	ps, F, N = variant(srv)
	sv, db = session(ps)
	im = TYPES[n][2](v, F, N)
	k = cut % len(im)
	t.nt(k); t.ev(n)
	sv.ptypes, sv.ctypes = [], [TYPES[n][0]]
	sv.rows = [[im], [im[:k]]] if second else [[im[:k]]]
	s = db.prepare('SCRIPT')
	try:
		e, r = raised(s)
		check(e is not None, '%s with %d of %d octets was read as %r', n, k, len(im), r)
		check(isinstance(e, X.Error), '%s cut short raised %r', n, e)
		sv.rows[:] = [[im]]
		e, r = raised(s)
		check(e is None and len(r) == 1, 'the connection did not go on: %r', e)
	finally:
		s.close()

# -- structures
blob = st.one_of(st.none(), st.sampled_from([b'', b'\0', b'\xff\xff\xff\xff', b'x' * 300]), st.binary(max_size=6))
oid = ints(32, False)
def sized(b): return b'\xff\xff\xff\xff' if b is None else pack('!l', len(b)) + b
LIBS = {'c': TL, 'pure': PL}
def trim(f, im, k, whole, what, law_t):
	e, got = raised(f, im[:k])
	check(e is not None, '%s cut to %d of %d octets was read as %r', what, k, len(im), got)

@law(st.tuples(st.sampled_from(['c', 'pure']), st.lists(st.tuples(oid, blob), max_size=5), st.integers(0, 400), st.binary(min_size=1, max_size=5)), 500, 8000)
def records(case, t):
	lib, atts, cut, extra = case
	L = LIBS[lib]
	im = pack('!l', len(atts)) + b''.join(pack('!L', o) + sized(b) for o, b in atts)
	t.nt(any(b for _, b in atts))
	eq(L.record_pack(atts), im, 'record_pack')
	eq(list(L.record_unpack(im)), atts, 'record_unpack')
	read = lambda b: list(L.record_unpack(b))
	trim(read, im, cut % len(im), atts, 'a record', t)
	e, got = raised(read, im + extra)
	check(e is not None, 'a record with extra octets was read as %r', got)

@law(st.tuples(st.sampled_from(['c', 'pure']), st.integers(0, 1), oid, st.lists(st.tuples(st.integers(1, 3), ints(16)), max_size=4).flatmap(lambda d: st.tuples(st.just(d), st.lists(blob, min_size=math.prod(x for x, _ in d) if d else 0,
	max_size=math.prod(x for x, _ in d) if d else 0))), st.integers(0, 400)), 500, 8000)
def arrays(case, t):
	lib, flags, o, (dims, els), cut = case
	L = LIBS[lib]
	im = pack('!llL', len(dims), flags, o) + b''.join(pack('!ll', *d) for d in dims) + b''.join(map(sized, els))
	t.nt(any(els))
	d, l = [x for x, _ in dims], [x for _, x in dims]
	eq(L.array_pack((flags, o, d, l, iter(els))), im, 'array_pack')
	def read(b):
		f, y, dd, ll, e = L.array_unpack(b)
		e = list(e)
		# as the driver does: binds the elements to the dimensions
		T_.Array.from_elements(iter(e), lowerbounds=ll, upperbounds=[x + y - 1 for x, y in zip(dd, ll)])
		return [f, y, list(dd), list(ll), e]
	eq(read(im), [flags, o, d, l, els], 'array_unpack')
	trim(read, im, cut % len(im), els, 'an array', t)

class codec(object):
	encode = staticmethod(lambda s: s.encode('utf-8'))
	decode = staticmethod(lambda b: b.decode('utf-8'))
key = st.one_of(st.sampled_from(['', 'a', 'é']), pgtext(5))
@law(st.tuples(st.sampled_from([TH, PH]).map(lambda m: m.__name__), st.dictionaries(key, st.one_of(st.none(), pgtext(6)), max_size=5), st.integers(0, 400), st.booleans()), 500, 8000)
def hstores(case, t):
	m, d, cut, pairs = case
	P, U = (TH if m == TH.__name__ else PH).hstore_factory(0, codec)[:2]
	im = pack('!l', len(d)) + b''.join(sized(k.encode()) + sized(None if v is None else v.encode()) for k, v in d.items())
	t.nt(d)
	eq(P(list(d.items()) if pairs else d), im, 'hstore image')
	eq(U(im), d, 'hstore')
	trim(U, im, cut % len(im), d, 'an hstore', t)

# -- the time codecs of types.io.lib
stime = st.tuples(st.one_of(st.sampled_from([0, 1, -1, 86399, -86400, 2**31, far]), st.integers(-far, far)), us)
i4 = ints(32)
ROOM = 24000
CODECS = {
	'time_pack': (stime, lambda v: ticks(*v, True)), 'time64_pack': (stime, lambda v: ticks(*v, False)),
	'interval_pack': (st.tuples(i4, i4, stime), lambda v: ticks(*v[2], True) + pack('!ll', v[1], v[0])),
	'interval64_pack': (st.tuples(i4, i4, stime), lambda v: ticks(*v[2], False) + pack('!ll', v[1], v[0])),
	'interval_noday_pack': (st.tuples(i4, st.integers(-ROOM, ROOM), stime.map(lambda s: (s[0] // 2, s[1]))), lambda v: ticks(v[2][0] + v[1] * DAY, v[2][1], True) + pack('!l', v[0])),
	'interval64_noday_pack': (st.tuples(i4, st.integers(-ROOM, ROOM), stime.map(lambda s: (s[0] // 2, s[1]))), lambda v: ticks(v[2][0] + v[1] * DAY, v[2][1], False) + pack('!l', v[0])),
	'timetz_pack': (st.tuples(stime, i4), lambda v: ticks(*v[0], True) + pack('!l', v[1])),
	'timetz64_pack': (st.tuples(stime, i4), lambda v: ticks(*v[0], False) + pack('!l', v[1])),
	'date_pack': (i4, lambda v: pack('!l', v)),
	'path_pack': (st.lists(fl, max_size=6).filter(lambda l: len(l) % 2 == 0).map(tuple), lambda v: pack('!l%dd' % len(v), len(v), *v)),
	'varbit_pack': (bits.map(lambda s: (len(s), i_bits(s, 0, 0)[4:])), lambda v: pack('!l', v[0]) + v[1]),
	'numeric_pack': (st.tuples(st.tuples(*[ints(16)] * 4), st.lists(ints(16), max_size=5).map(tuple)), lambda v: pack('!hhhh', *v[0]) + b''.join(pack('!h', x) for x in v[1])),
	'tid_pack': (st.tuples(oid, ints(16, False)), lambda v: pack('!LH', *v)),
}
def tupled(x): return tuple(map(tupled, x)) if isinstance(x, (tuple, list)) else x
@law(st.tuples(st.sampled_from(['c', 'pure']), st.sampled_from(sorted(CODECS)).flatmap(lambda n: st.tuples(st.just(n), CODECS[n][0])), st.integers(0, 40)), 900, 12000)
def codecs(case, t):
	lib, (n, v), cut = case
	L = LIBS[lib]
	im = CODECS[n][1](v)
	got = getattr(L, n)(v)
	t.nt(v); t.ev(n)
	check(got == im or '64' not in n and n[:4] in ('time', 'inte') and near(got, im), '%s(%r): got %r, want %r', n, v, got, im)
	want = v
	if 'noday' in n: want = (v[0], 0, (v[2][0] + v[1] * DAY, v[2][1]))
	f = getattr(L, n.replace('pack', 'unpack'))
	eq(tupled(f(im)), tupled(want), n.replace('pack', 'unpack'))
	if n not in ('varbit_pack', 'numeric_pack'): trim(f, im, cut % len(im), v, n[:-5], t)

whole = st.one_of(st.sampled_from([0, 1, -1, 59, 60, 86399, 86400, -86400, 2 ** 31, -2 ** 31]), st.integers(-far, far))
doubles = st.one_of(st.builds(lambda w, d: w + d, whole, st.sampled_from([1e-7, -1e-7, 4e-7, -4e-7, 6e-7, -6e-7, 1e-9, -1e-9, .9999994, .9999996, .99999951, .5, 1.5e-6, 1e-6, -1e-6])), st.builds(lambda w, d: w + d, whole, st.floats(-1, 1)), whole.flatmap(lambda w: st.sampled_from([math.nextafter(w, -1e300), math.nextafter(w, 1e300), float(w)])), st.floats(-float(far), float(far)))
@law(st.tuples(st.sampled_from(['c', 'pure']), st.lists(doubles, min_size=1, max_size=6), i4, i4), 400, 6000)
def floating_point_times_are_read_to_the_nearest_microsecond(case, t):
	lib, ds, a, b = case; L = LIBS[lib]
	for d in ds:
		im = pack('!d', d); got = {'time_unpack': L.time_unpack(im)}
		m, day, got['interval_unpack'] = L.interval_unpack(im + pack('!ll', a, b)); eq((m, day), (b, a), 'months and days')
		m, day, got['interval_noday_unpack'] = L.interval_noday_unpack(im + pack('!l', a)); eq((m, day), (a, 0), 'months')
		got['timetz_unpack'], z = L.timetz_unpack(im + pack('!l', a)); eq(z, a, 'the zone')
		for n, (s, us) in got.items():
			check(type(s) is int and type(us) is int and 0 <= us < 10 ** 6, '%s of %r: %r', n, d, (s, us))
			check(abs(s * 10 ** 6 + us - Fraction(d) * 10 ** 6) <= Fraction(1, 2) + Fraction(1, 10 ** 6), '%s of %r: %r', n, d, (s, us))
		t.nt(d != int(d))
