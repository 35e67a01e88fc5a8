"""C06: numeric and boolean values survive the trip to the server and back."""
import struct, math
from decimal import Decimal, getcontext
from hypothesis import strategies as st
from vlib import live
from vlib.core import law, check, eq, raised

RULE = ("Values of each type at and around the range limits, powers, random digits and exponents, and all special values, sent as parameters and read back; and the server's own values (literals "
	"given to an independent client) read through the library, accelerated and pure. Oracle: the text the server gives an independent client for the value, and its literal's meaning. "
	"Non-trivial: neither zero nor a small integer.")

RANGE = {'int2': 2**15, 'int4': 2**31, 'int8': 2**63}
def near(*c): return st.builds(lambda a, b: a + b, st.sampled_from(c), st.integers(-3, 3))
def ints(lim): return st.one_of(near(0, lim, -lim, 10000, -10000, 2**15, 2**16, 2**31, -2**31, 2**32), st.integers(-lim, lim - 1), st.integers(-2 * lim, 2 * lim))
floats8 = st.one_of(st.floats(), st.sampled_from([0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1/3, 1e22, 1e23, 123456789012345678.0]), st.integers(-2**60, 2**60).map(float))
floats4 = st.one_of(st.floats(width=32), floats8.filter(lambda x: x != x or abs(x) in (0.0, math.inf) or 1e-30 < abs(x) < 1e38))
digits = st.one_of(st.text('0123456789', min_size=1, max_size=12), st.text('09', min_size=1, max_size=25), st.text('0123456789', min_size=1, max_size=60))
dec = st.one_of(st.builds(lambda s, d, e: Decimal(s + d + 'E%d' % e), st.sampled_from(['', '-']), digits, st.one_of(st.integers(-30, 30), st.integers(-10, 6), st.sampled_from([-16383, -16300, 131000, 100, -100, 4000, 70000]))),
	st.sampled_from([Decimal(x) for x in ('0', '-0', '0.0', '0.00000000', '10000', '1000000000000', '9999', '99990000', '0.0001', '0.00001', '0.9999', '1E+5', '1E+4', '1.0000', '100.10', '12345678.8765', 'NaN', '-NaN', 'sNaN', 'Infinity', '-Infinity', '1E-16383', '0E+10')]))
bools = st.booleans()
VAL = {'int2': ints(2**15), 'int4': ints(2**31), 'int8': ints(2**63), 'oid': st.one_of(near(0, 2**31, 2**32), st.integers(0, 2**32 - 1)), 'float4': floats4, 'float8': floats8, 'numeric': dec, 'bool': bools}
typed = st.sampled_from(sorted(VAL)).flatmap(lambda t: st.tuples(st.just(t), VAL[t]))
def fits(t, v):
	if t in RANGE: return -RANGE[t] <= v < RANGE[t]
	if t == 'oid': return 0 <= v < 2**32
	if t == 'numeric' and v.is_finite():
		d = v.as_tuple()
		return d.exponent >= -16383 and (v == 0 or v.adjusted() < 131072) and len(d.digits) + d.exponent <= 131072
	if t == 'float4': return v != v or math.isinf(v) or raised(struct.pack, 'f', v)[0] is None
	return True
def literal(t, v):
	if t == 'bool': return 'true' if v else 'false'
	if t == 'numeric':
		if v.is_nan(): return 'NaN'
		if v.is_infinite(): return str(v)
		return format(v, 'f')
	if t.startswith('float'): return repr(v)
	return str(v)
def same(t, got, want, what):
	if t == 'numeric':
		check(type(got) is Decimal, '%s: %r is no Decimal', what, got)
		if want.is_nan(): check(got.is_nan(), '%s: got %r, want NaN', what, got)
		else:
			check(got == want, '%s: got %r, want %r', what, got, want)
	else: eq(got, want, what)
def trivial(v): return isinstance(v, (int, float)) and v == v and -100 < v < 100 and v == int(v)

@law(st.lists(typed, min_size=1, max_size=12), 500)
def parameters_and_results_are_exact(case, t):
	r = live.raw()
	for form in (0, 1):
		F = live.form(form)
		for ty, v in case:
			ok = fits(ty, v)
			ps = F.prepare('SELECT $1::%s::text, $1::%s, ($1::%s) IS NULL' % (ty, ty, ty))
			e, rows = raised(ps, v)
			if not ok:
				t.ev('out of range')
				check(e is not None, '%s %r, out of range, was taken as %r', ty, v, rows)
				check(isinstance(e, F.exc.Error), '%s %r: refused with %r', ty, v, e)
				check(not F.db.closed and F.db.query.first('SELECT 1') == 1, 'connection unusable after %r', v)
				continue
			check(e is None, '%s %r was refused: %r', ty, v, e)
			if not trivial(v): t.nt(True)
			(text, back, null), = rows
			want = r.pquery('SELECT $1::%s::text' % ty, [literal(ty, v)])[0][0]
			eq(text, want, '%s %r at the server' % (ty, v))
			w = v
			if ty == 'float4': w, = struct.unpack('f', struct.pack('f', v))
			same(ty, back, w, '%s %r returned' % (ty, v))
			if ty == 'numeric' and v.is_finite():
				# digits and scale are kept
				wd = Decimal(want)
				eq(str(back.copy_abs()) if back else None, str(wd.copy_abs()) if wd else None, 'digits and scale of %r' % v)
				eq(back.as_tuple().exponent, wd.as_tuple().exponent, 'scale of %r' % v)
			check(null is False, 'NULL')

lit = st.one_of(
	st.tuples(st.just('numeric'), st.builds(lambda s, a, b: s + a + ('.' + b if b else ''), st.sampled_from(['', '-', '+']), digits, st.one_of(st.just(''), digits, st.text('0', max_size=20)))),
	st.tuples(st.sampled_from(['numeric(20,5)', 'numeric(6,0)', 'numeric(30,29)']), st.builds(lambda s, a, b: s + a + '.' + b, st.sampled_from(['', '-']), st.text('019', min_size=1, max_size=4), digits)),
	st.tuples(st.just('numeric'), st.sampled_from(['NaN', 'Infinity', '-Infinity', '0', '-0.000', '1e100', '1e-100', '1e131071', '1e-16383', '10000', '1.00005', '0.00010000'])),
	st.tuples(st.sampled_from(['int2', 'int4', 'int8']), st.integers(-2**15, 2**15 - 1).map(str)), st.tuples(st.just('int8'), st.integers(-2**63, 2**63 - 1).map(str)), st.tuples(st.just('int4'), st.integers(-2**31, 2**31 - 1).map(str)),
	st.tuples(st.just('oid'), st.integers(0, 2**32 - 1).map(str)),
	st.tuples(st.just('float8'), floats8.map(repr)), st.tuples(st.just('float4'), st.floats(width=32).map(repr)),
	st.tuples(st.just('bool'), st.sampled_from(['t', 'f'])))
@law(st.lists(lit, min_size=1, max_size=12), 400)
def the_servers_values_are_returned_exactly(case, t):
	r = live.raw()
	for ty, l in case:
		try: want = r.pquery('SELECT $1::%s::text' % ty, [l])[0][0]
		except Exception as e: continue		# not a value of the type
		for form in (0, 1):
			F = live.form(form)
			got = F.prepare('SELECT $1::text::%s' % ty).first(l)
			if ty.startswith('numeric'):
				w = Decimal(want)
				same('numeric', got, w, l)
				if w.is_finite():
					eq((got.as_tuple().exponent, got.as_tuple().digits if w else None), (w.as_tuple().exponent, w.as_tuple().digits if w else None), 'digits and scale of %s' % l)
			elif ty == 'bool': eq(got, l == 't', l)
			elif ty.startswith('float'):
				eq(got, struct.unpack('f', struct.pack('f', float(want)))[0] if ty == 'float4' else float(want), l)
			else: eq(got, int(want), l)
			t.nt(want not in ('0', 't', 'f'))

# as many digits as there may be
long = st.builds(lambda p, n, s, e: s + (p * n)[:n] + 'E%d' % e, st.sampled_from(['1', '9', '10', '90000', '0123456789', '98765', '0000000000000007', '5' + '0' * 1100, '0' * 1100 + '3']), st.one_of(st.integers(61, 1300), st.sampled_from([255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4097, 10000, 16380])), st.sampled_from(['', '-']), st.one_of(st.integers(-1400, 9), st.sampled_from([0, 1, 2, 3, 4, -1, -2, -3, -4, -8000, -16383, 1000, 20001])))
@law(st.lists(long.filter(lambda s: fits('numeric', Decimal(s))), min_size=1, max_size=4), 120)
def long_numerics_are_exact(case, t):
	r = live.raw()
	for form in (0, 1):
		F = live.form(form); ps = F.prepare('SELECT $1::numeric::text, $1::numeric, $2::text::numeric')
		for s in case:
			v = Decimal(s); l = format(v, 'f'); want = r.pquery('SELECT $1::numeric::text', [l])[0][0]
			(text, back, read), = ps(v, l); t.nt(True); what = s if len(s) < 40 else '%s... (%d digits)' % (s[:30], len(s))
			check(text == want, '%s at the server: %.60s, want %.60s', what, text, want)
			w = Decimal(want).as_tuple() if v else None
			for how, x in (('returned', back), ('read', read)):
				check(x.as_tuple() == w if v else x == 0, '%s %s: %.60r, want %.60s', what, how, x, want)

bad = st.one_of(
	st.tuples(st.sampled_from(['int2', 'int4', 'int8', 'oid']), st.sampled_from([1.5, '1', 'x', b'1', [1], Decimal('1.5'), 2**64, -2**64, 10**30, object, 1j, ''])),
	st.tuples(st.just('oid'), st.integers(-2**33, -1)), st.tuples(st.sampled_from(['float4', 'float8']), st.sampled_from(['x', b'1', [], 10**400, None.__class__, 1j])),
	st.tuples(st.just('float4'), st.sampled_from([1e39, -1e39, 1.7976931348623157e308, 3.5e38])), st.tuples(st.just('bool'), st.sampled_from(['t', 'maybe', 2, -1, b'\1', 0.5, []])),
	st.tuples(st.just('numeric'), st.sampled_from(['x', '1,5', b'1', [], {}, Decimal('1E+131072'), Decimal('1E+200000'), Decimal('1E-16384'), Decimal('1E-40000'), Decimal('123E-70000')])))
@law(st.lists(bad, min_size=1, max_size=6), 150)
def unusable_values_are_refused(case, t):
	for form in (0, 1):
		F = live.form(form)
		for ty, v in case:
			e, x = raised(F.prepare('SELECT $1::%s::text' % ty), v)
			t.nt(True)
			check(e is not None and isinstance(e, F.exc.Error), '%s took %r: %r %r', ty, v, e, x)
			check(F.db.query.first('SELECT 1') == 1, 'connection unusable')

@law(st.lists(st.tuples(st.sampled_from(sorted(VAL)), st.booleans()), min_size=1, max_size=6), 30)
def nulls_are_none(case, t):
	for form in (0, 1):
		F = live.form(form)
		for ty, _ in case:
			t.nt(True)
			eq(tuple(F.prepare('SELECT $1::%s, $1::%s IS NULL' % (ty, ty)).first(None)), (None, True), 'NULL of %s' % ty)
