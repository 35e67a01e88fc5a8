"""C09: UUID, bit, network, geometric, jsonb and hstore values are faithful."""
import ipaddress as IP, json, math, uuid, cmath
from hypothesis import strategies as st
from vlib import live, gen
from vlib.core import law, check, eq, raised

RULE = ("Random and extreme values of each type sent as parameters and read back by both forms, the server's own values read through the library, MAC address texts compared with the server's reading, and "
	"the bit-string and geometric objects driven against string, complex-number and server models. Oracle: the server's account of the literal to an independent client, and those models. "
	"Non-trivial: a value with more than one bit, byte, or member.")

f8 = st.one_of(st.integers(-1000, 1000).map(float), st.floats(allow_nan=False), st.sampled_from([0.0, -0.0, 1e-300, 1e308, 0.1]))
small = st.integers(-50, 50).map(float)
point = st.tuples(f8, f8)
zpoint = st.tuples(f8, f8).map(lambda p: (p[0] + 0.0, p[1] + 0.0))		# no negative zeros: a box does not order them
bits = st.one_of(st.text('01', max_size=40), st.text('01', min_size=1, max_size=3), st.integers(0, 300).map(lambda n: '0' * n), st.text('01', min_size=60, max_size=200))
v4 = st.integers(0, 2**32 - 1).map(IP.IPv4Address); v6 = st.one_of(st.integers(0, 2**128 - 1), st.sampled_from([0, 1, 0xffff << 32 | 5, 2**128 - 1, 0xfe80 << 112 | 1])).map(IP.IPv6Address)
addr = st.one_of(v4, v6)
def iface(a): return st.integers(0, a.max_prefixlen).map(lambda m: IP.ip_interface((a, m)))
mac = st.binary(min_size=6, max_size=6)
jval = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10**20, 10**20), gen.pgtext(6)), lambda k: st.one_of(st.lists(k, max_size=3), st.dictionaries(gen.pgtext(4), k, max_size=3)), max_leaves=6)
hs = st.dictionaries(gen.pgtext(8), st.one_of(st.none(), gen.pgtext(8)), max_size=6)
item = st.one_of(
	st.tuples(st.just('uuid'), st.one_of(st.uuids(), st.sampled_from([uuid.UUID(int=0), uuid.UUID(int=2**128 - 1)]))),
	st.tuples(st.just('varbit'), bits), st.tuples(st.just('bit'), bits.filter(bool)), st.tuples(st.just('inet'), st.one_of(addr, addr.flatmap(iface))), st.tuples(st.just('cidr'), addr.flatmap(iface).map(lambda i: i.network)), st.tuples(st.just('macaddr'), mac),
	st.tuples(st.just('point'), point), st.tuples(st.just('lseg'), st.tuples(point, point)), st.tuples(st.just('box'), st.tuples(zpoint, zpoint)), st.tuples(st.just('circle'), st.tuples(point, f8.map(abs))),
	st.tuples(st.just('path'), st.tuples(st.booleans(), st.lists(point, min_size=1, max_size=5))), st.tuples(st.just('polygon'), st.lists(point, min_size=1, max_size=5)), st.tuples(st.just('jsonb'), jval), st.tuples(st.just('hstore'), hs))
def pt(p): return '(%r,%r)' % p
def box(v): (a, b), (c, d) = v; return (max(a, c), max(b, d)), (min(a, c), min(b, d))
def literal(ty, v):
	if ty == 'macaddr': return v.hex()
	if ty == 'point': return pt(v)
	if ty == 'lseg': return '[%s,%s]' % (pt(v[0]), pt(v[1]))
	if ty == 'box': return '%s,%s' % (pt(v[0]), pt(v[1]))
	if ty == 'circle': return '<%s,%r>' % (pt(v[0]), v[1])
	if ty == 'path': return ('[%s]' if v[0] else '(%s)') % ','.join(map(pt, v[1]))
	if ty == 'polygon': return '(%s)' % ','.join(map(pt, v))
	if ty == 'jsonb': return json.dumps(v, ensure_ascii=False)
	if ty == 'hstore': return ','.join('%s=>%s' % (hq(k), 'NULL' if x is None else hq(x)) for k, x in v.items())
	return str(v)
def hq(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
def exact(a, b): return repr(a) == repr(b)		# tells 0.0 from -0.0
def same(F, ty, got, v, text, what):
	B, G = F.sub('types.bitwise'), F.sub('types.geometry')
	if ty in ('varbit', 'bit'):
		check(isinstance(got, B.Varbit), '%s: %r', what, got)
		eq((str(got), len(got)), (v, len(v)), what)
		check(got == B.Varbit(v), '%s: not equal', what)
	elif ty in ('point', 'lseg', 'box', 'circle'):
		check(type(got) is getattr(G, ty.capitalize()), '%s: %r', what, got)
		want = box(v) if ty == 'box' else v
		eq(eval_plain(got), eval_plain(want), what)
	elif ty == 'inet':
		want = v.ip if isinstance(v, (IP.IPv4Interface, IP.IPv6Interface)) and v.network.prefixlen == v.max_prefixlen else v
		eq((type(got), got), (type(want), want), what)
	elif ty in ('path', 'polygon'): eq(got, text, what)
	elif ty == 'macaddr': eq(got, ':'.join('%02x' % x for x in v), what)
	elif ty == 'jsonb':
		check(type(got) is str, '%s: %r', what, got)
		eq(json.loads(got), v, what)
	else: eq((type(got), got), (type(v), v), what)
def eval_plain(x): return tuple(map(eval_plain, x)) if isinstance(x, tuple) else repr(x + 0.0 if x else x)
def hstore(F):
	db = F.get()
	if not db.query("SELECT 1 FROM pg_extension WHERE extname = 'hstore'"):
		raised(db.execute, 'CREATE EXTENSION hstore')
	if getattr(F, 'hstored', None) is not db:
		db.typio.identify(contrib_hstore='hstore')
		F.hstored = db

@law(st.lists(item, min_size=1, max_size=10), 500)
def values_are_the_servers_and_back(case, t):
	r = live.raw()
	for form in (0, 1):
		F = live.form(form)
		hstore(F)
		B, G = F.sub('types.bitwise'), F.sub('types.geometry')
		for ty, v in case:
			t.nt(True); t.ev(ty)
			sty = {'bit': 'bit(%d)' % len(v)}.get(ty, ty) if ty == 'bit' else ty
			lit = literal(ty, v)
			text = '%s::text'
			want = r.pquery('SELECT $1::%s::text' % sty, [lit])[0][0]
			if ty in ('varbit', 'bit'): xs = [B.Varbit(v)]
			elif ty == 'uuid': xs = [v, str(v), v.hex]
			elif ty == 'inet': xs = [v, str(v)]
			elif ty == 'cidr': xs = [v, str(v)]
			elif ty == 'macaddr':
				h = v.hex(); c = [h[i:i + 2] for i in range(0, 12, 2)]
				xs = [':'.join(c), '-'.join(c).upper(), h[:6] + ':' + h[6:], h[:6] + '-' + h[6:], h[:4] + '.' + h[4:8] + '.' + h[8:], h[:4] + '-' + h[4:8] + '-' + h[8:], h]
			elif ty in ('point', 'lseg', 'box', 'circle'):
				xs = [getattr(G, ty.capitalize())(v), v]
				lit2 = str(xs[0])
				eq(r.pquery('SELECT $1::%s::text' % sty, [lit2])[0][0], want, 'the text of %r' % (xs[0],))
				check(eval(repr(xs[0]), {F.pkg.__name__: F.pkg, 'inf': math.inf}) == xs[0], 'repr %r', xs[0])
			elif ty == 'jsonb' or ty in ('path', 'polygon'): xs = [lit]
			elif ty == 'hstore': xs = [v, list(v.items())]
			else: xs = [v]
			ps = F.prepare('SELECT $1::%s::text, $1::%s' % (sty, sty))
			for x in xs:
				row = ps.first(x)
				if ty == 'hstore': eq(r.pquery('SELECT $1::hstore = $2::hstore', [row[0], want])[0][0], 't', 'hstore %r at the server: %r' % (x, row[0]))
				else: eq(row[0], want, '%s %r at the server' % (ty, x))
				same(F, ty, row[1], v, want, '%s %r returned' % (ty, x))
			back = F.prepare('SELECT $1::text::%s' % sty).first(lit)
			same(F, ty, back, v, want, '%s %s read' % (ty, lit))
			if ty not in ('path', 'polygon'):
				arr = F.prepare('SELECT $1::%s[]' % sty).first([xs[0], None, back])
				same(F, ty, arr[0], v, want, 'in an array'); same(F, ty, arr[2], v, want, 'in an array'); eq(arr[1], None, 'in an array')

mactext = st.one_of(
	st.lists(st.text('0123456789abcdefABCDEF', min_size=0, max_size=3), min_size=4, max_size=7).flatmap(lambda l: st.sampled_from([':', '-', '.', '']).map(lambda s: s.join(l))),
	st.text('0123456789abcdef:-._ +xg', max_size=18), st.builds(lambda b, i, c: (lambda s: s[:i % 18] + c + s[i % 18:])(':'.join('%02x' % x for x in b)), mac, st.integers(0, 17), st.sampled_from([' ', '_', ':', '-', 'g', '0', '+', '\n', 'é'])))
@law(st.lists(mactext, min_size=1, max_size=10), 300)
def mac_texts_are_read_as_the_server_reads_them(case, t):
	r = live.raw()
	for form in (0, 1):
		F = live.form(form)
		ps = F.prepare('SELECT $1::macaddr::text')
		for s in case:
			e, got = raised(ps.first, s)
			e2, want = raised(r.pquery, 'SELECT $1::macaddr::text', [s])
			if e is None:
				t.nt(True)
				check(e2 is None and want[0][0] == got, '%r was taken as %r; the server says %r', s, got, e2 or want)
			else: check(isinstance(e, F.exc.Error), '%r: %r', s, e)

op = st.one_of(st.tuples(st.just('get'), st.integers(-45, 45)), st.tuples(st.just('slice'), st.one_of(st.none(), st.integers(-45, 45)), st.one_of(st.none(), st.integers(-45, 45)), st.sampled_from([None, 1, 2, -1])),
	st.tuples(st.just('add'), bits), st.tuples(st.just('mul'), st.integers(0, 4)), st.tuples(st.just('eq'), bits))
@law(st.tuples(bits, st.lists(op, min_size=1, max_size=10)), 1500)
def bit_strings_follow_the_string_model(case, t):
	s, ops = case
	for form in (0, 1):
		B = live.form(form).sub('types.bitwise')
		x, m = B.Varbit(s), s
		if len(m) > 1: t.nt(True)
		for o in ops:
			what = '%r %r' % (m, o)
			eq((str(x), len(x), bool(x)), (m, len(m), '1' in m), what)
			eq(B.Varbit(str(x)) == x, True, 'from its text')
			eq(str(eval(repr(x), {B.__name__.split('.')[0]: __import__(B.__name__.split('.')[0])})), m, 'repr')
			eq([str(b) for b in x] if m else [], list(m), 'iteration')
			if o[0] == 'get':
				e, b = raised(x.__getitem__, o[1]); e2, b2 = raised(x.getbit, o[1])
				if -len(m) <= o[1] < len(m):
					w = B.OneBit if m[o[1]] == '1' else B.ZeroBit
					check(e is None and b is w and b2 is w, '%s: %r %r', what, e, b)
					eq(bool(b), m[o[1]] == '1', what)
				else: check(isinstance(e, IndexError) and isinstance(e2, IndexError), '%s: %r %r', what, e, b)
			elif o[0] == 'slice':
				sl = slice(*o[1:])
				x, m = x[sl], m[sl]
				eq(str(x), m, what)
			elif o[0] == 'add':
				if len(m) < 3000: x, m = x + (B.Varbit(o[1]) if len(o[1]) % 2 else o[1]), m + o[1]
			elif o[0] == 'mul':
				if len(m) < 3000: x, m = x * o[1], m * o[1]
			else:
				y = B.Varbit(o[1])
				eq((x == y, x != y, x == o[1], y == x), (m == o[1], m != o[1], m == o[1], m == o[1]), what)
				eq((x == None, x == 'x', x != 3.5), (False, False, True), 'compared with other things')
			if len(m) % 8 == 0 and m and len(m) > 1:
				eq(str(B.Varbit(bytes(int(m[i:i + 8], 2) for i in range(0, len(m), 8)))), m, 'from bytes')
		for bad in ('2', '0b1', '10 1', '1_0', '+1', 'x'):
			e, v = raised(B.Varbit, bad)
			check(e is not None, '%r was taken as %s', bad, v)
			e, v = raised(B.Bit, bad)
			check(isinstance(e, ValueError), '%r was taken as the bit %s', bad, v)
		for bit, given in ((B.OneBit, ('1', True, B.OneBit)), (B.ZeroBit, ('0', False, B.ZeroBit))):
			for g in given: check(B.Bit(g) is bit, 'Bit(%r) is %r', g, B.Bit(g))

sp = st.tuples(small, small)
@law(st.lists(st.tuples(sp, sp, sp, sp), min_size=1, max_size=6), 300)
def geometric_objects_agree_with_the_server(case, t):
	r = live.raw()
	for form in (0, 1):
		G = live.form(form).sub('types.geometry')
		for a, b, c, d in case:
			t.nt(True)
			P = G.Point
			eq((P(a).x, P(a).y), a, 'coordinates')
			q = lambda o: tuple(float(x) for x in r.query("SELECT ('%s'::point %s '%s'::point)[0], ('%s'::point %s '%s'::point)[1]" % (pt(a), o, pt(b), pt(a), o, pt(b)))[0])
			near = lambda x, y: all(abs(i - j) <= 1e-9 * max(1, abs(j)) for i, j in zip(x, y))
			check(near(P(a) + b, q('+')) and near(P(a) - b, q('-')) and near(P(a) * b, q('*')), '%r %r: sums and products %r %r %r', a, b, P(a) + b, P(a) - b, P(a) * b)
			if b != (0, 0): check(near(P(a) / b, q('/')), '%r / %r: %r, the server has %r', a, b, P(a) / b, q('/'))
			dist = float(r.query("SELECT '%s'::point <-> '%s'::point" % (pt(a), pt(b)))[0][0])
			check(near([P(a).distance(b)], [dist]), 'distance of %r and %r: %r, the server has %r', a, b, P(a).distance(b), dist)
			L, M = G.Lseg((a, b)), G.Lseg((c, d))
			s1, s2 = literal('lseg', (a, b)), literal('lseg', (c, d))
			eq((L.one, L.two), (a, b), 'end points')
			row = r.query("SELECT length('%s'::lseg), (@@ '%s'::lseg)[0], (@@ '%s'::lseg)[1], ?| '%s'::lseg, ?- '%s'::lseg, '%s'::lseg ?|| '%s'::lseg, '%s'::lseg ?-| '%s'::lseg" % (s1, s1, s1, s1, s1, s1, s2, s1, s2))[0]
			check(near([L.length], [float(row[0])]), 'length of %s: %r, the server has %s', s1, L.length, row[0])
			check(near(L.center, [float(row[1]), float(row[2])]), 'centre of %s: %r', s1, L.center)
			eq((L.vertical, L.horizontal), (row[3] == 't', row[4] == 't'), 'direction of %s' % s1)
			if a != b and c != d:
				eq((L.parallel(M), L.perpendicular(((c), (d)))), (row[5] == 't', row[6] == 't'), 'parallel and perpendicular, %s and %s' % (s1, s2))
			if a[0] != b[0]: check(near([L.slope], [float(r.query("SELECT slope('%s'::point, '%s'::point)" % (pt(a), pt(b)))[0][0])]), 'slope of %s: %r', s1, L.slope)
			X = G.Box((a, b))
			eq((tuple(X.high), tuple(X.low)), box((a, b)), 'corners')
			check(near(X.center, [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2]), 'centre of %r: %r', X, X.center)
			C = G.Circle((a, abs(b[0])))
			eq((C.center, C.radius), (a, abs(b[0])), 'circle')
			if b[0] < 0: check(raised(G.Circle, (a, b[0]))[0] is not None, 'a circle of negative radius')
