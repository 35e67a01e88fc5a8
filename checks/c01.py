"""C01: wire messages encode exactly and decode to what was sent."""
import struct
from hypothesis import strategies as st
from vlib.core import law, check, eq, OUT, raised, must_raise
import postgresql.protocol.element3 as EC
import postgresql_pure.protocol.element3 as EP
import postgresql.protocol.version as V

RULE = ("Every message class of protocol 3.0 with generated fields (boundary integers, empty, NULL and long values), in the accelerated and the pure form, and prefixes and "
	"extensions of its body. Oracle: an encoder written from the protocol's message formats; a proper prefix must be refused unless it is itself a conforming body. "
	"Non-trivial: a message with at least one variable-length or counted field.")

u4 = st.one_of(st.sampled_from([0, 1, 255, 256, 2**31 - 1, 2**31, 2**32 - 1]), st.integers(0, 2**32 - 1))
u2 = st.one_of(st.sampled_from([0, 1, 255, 256, 2**15, 2**16 - 1]), st.integers(0, 2**16 - 1))
i2 = st.one_of(st.sampled_from([0, -1, 1, -2, -2**15, 2**15 - 1]), st.integers(-2**15, 2**15 - 1))
i4 = st.one_of(st.sampled_from([0, -1, 4, -2**31, 2**31 - 1]), st.integers(-2**31, 2**31 - 1))
cs = st.one_of(st.sampled_from([b'', b'x', b'select 1', 'é€'.encode(), b' ', b'\xff\xfe', b'a' * 300]), st.binary(max_size=12).map(lambda b: b.replace(b'\0', b'')))
cs1 = cs.filter(bool)
raw = st.one_of(st.sampled_from([b'', b'\0', b'\xff\xff\xff\xff', b'\0\0\0\x04', b'x' * 255, b'y' * 70000]), st.binary(max_size=12))
nraw = st.one_of(st.none(), raw)
fmt = st.sampled_from([b'\0\0', b'\0\1'])
def seq(s, n=5): return st.lists(s, max_size=n)
key = st.integers(1, 255).map(lambda i: bytes((i,)))
fields = st.lists(st.tuples(key, cs), max_size=6, unique_by=lambda f: f[0])
params = st.lists(st.tuples(cs1, cs), max_size=5, unique_by=lambda f: f[0])
col = st.tuples(cs, u4, i2, u4, i2, i4, i2)
binding = st.lists(nraw, max_size=5).flatmap(lambda a: st.tuples(
	st.one_of(st.just([]), st.lists(fmt, min_size=1, max_size=1), st.lists(fmt, min_size=len(a), max_size=len(a))), st.just(a)))

L, H = (lambda x: struct.pack('!L', x)), (lambda x: struct.pack('!H', x))
def z(b): return b + b'\0'
def tup(a): return b''.join(b'\xff' * 4 if x is None else L(len(x)) + x for x in a)
def counted(a): return H(len(a)) + b''.join(a)

# name: (type byte, strategy of fields, body, construct, read back)
def strings(*names):
	return (lambda *f: b''.join(z(x) for x in f)), (lambda m: tuple(getattr(m, n) for n in names))
data = strings('data')
notice = (fields, lambda f: b''.join(k + z(v) for k, v in f) + b'\0', lambda m: (sorted(m.items()),))
def emptym(t): return (t, st.tuples(), lambda: b'', lambda m: ())
def one(t): return (t, st.tuples(cs)) + data
M = {
	'Startup': (None, st.tuples(params), lambda f: L(3 << 16) + b''.join(z(k) + z(v) for k, v in f) + b'\0', lambda m: (sorted(m.items()),)),
	'CancelRequest': (None, st.tuples(u4, u4), lambda p, k: L(80877102) + L(p) + L(k), lambda m: (m.pid, m.key)),
	'NegotiateSSL': (None, st.tuples(), lambda: L(80877103), lambda m: ()),
	'Password': one(b'p'), 'Query': one(b'Q'), 'CopyFail': one(b'f'), 'Complete': one(b'C'),
	'Parse': (b'P', st.tuples(cs, cs, seq(u4)), lambda n, s, a: z(n) + z(s) + counted([L(x) for x in a]), lambda m: (m.name, m.statement, list(m.argtypes))),
	'Bind': (b'B', st.tuples(cs, cs, binding, seq(fmt)).map(lambda x: x[:2] + x[2] + x[3:]),
		lambda n, s, f, a, r: z(n) + z(s) + counted(f) + H(len(a)) + tup(a) + counted(r),
		lambda m: (m.name, m.statement, list(m.aformats), list(m.arguments), list(m.rformats))),
	'Execute': (b'E', st.tuples(cs, u4), lambda n, x: z(n) + L(x), lambda m: (m.name, m.max)),
	'DescribeStatement': (b'D', st.tuples(cs), lambda n: b'S' + z(n), data[1]),
	'DescribePortal': (b'D', st.tuples(cs), lambda n: b'P' + z(n), data[1]),
	'CloseStatement': (b'C', st.tuples(cs), lambda n: b'S' + z(n), data[1]),
	'ClosePortal': (b'C', st.tuples(cs), lambda n: b'P' + z(n), data[1]),
	'Function': (b'F', st.tuples(u4, binding, fmt).map(lambda x: (x[0],) + x[1] + (x[2],)),
		lambda o, f, a, r: L(o) + counted(f) + H(len(a)) + tup(a) + r,
		lambda m: (m.oid, list(m.aformats), list(m.arguments), m.rformat)),
	'CopyData': (b'd', st.tuples(raw), lambda d: d, data[1]),
	'CopyDone': emptym(b'c'), 'Flush': emptym(b'H'), 'Synchronize': emptym(b'S'), 'Disconnect': emptym(b'X'),
	'ParseComplete': emptym(b'1'), 'BindComplete': emptym(b'2'), 'CloseComplete': emptym(b'3'), 'NoData': emptym(b'n'), 'Suspension': emptym(b's'), 'Null': emptym(b'I'),
	'Notify': (b'A', st.tuples(u4, cs, cs), lambda p, c, l: L(p) + z(c) + z(l), lambda m: (m.pid, m.channel, m.payload)),
	'ShowOption': (b'S', st.tuples(cs, cs)) + strings('name', 'value'),
	'Ready': (b'Z', st.tuples(st.sampled_from([b'I', b'T', b'E'])), lambda s: s, lambda m: (m.xact_state,)),
	'Notice': (b'N', st.tuples(notice[0])) + notice[1:], 'Error': (b'E', st.tuples(notice[0])) + notice[1:],
	'FunctionResult': (b'V', st.tuples(nraw), lambda r: tup([r]), lambda m: (m.result,)),
	'AttributeTypes': (b't', st.tuples(seq(u4)), lambda a: counted([L(x) for x in a]), lambda m: (list(m),)),
	'TupleDescriptor': (b'T', st.tuples(seq(col)), lambda a: counted([z(c[0]) + struct.pack('!LhLhlh', *c[1:]) for c in a]), lambda m: (list(m),)),
	'Tuple': (b'D', st.tuples(seq(nraw)), lambda a: H(len(a)) + tup(a), lambda m: (list(m),)),
	'KillInformation': (b'K', st.tuples(u4, u4), lambda p, k: L(p) + L(k), lambda m: (m.pid, m.key)),
	'Authentication': (b'R', st.tuples(u4, raw), lambda r, s: L(r) + s, lambda m: (m.request, m.salt)),
	'CopyToBegin': (b'H', st.tuples(st.integers(0, 1), seq(u2)), lambda f, a: bytes((f,)) + counted([H(x) for x in a]), lambda m: (m.format, list(m.formats))),
	'CopyFromBegin': (b'G', st.tuples(st.integers(0, 1), seq(u2)), lambda f, a: bytes((f,)) + counted([H(x) for x in a]), lambda m: (m.format, list(m.formats))),
}
ORDERLESS = ('Startup', 'Notice', 'Error')
def build(E, name, f):
	return getattr(E, name)(*f)
def norm(name, f):
	return tuple((sorted(x) if name in ORDERLESS else list(x)) if isinstance(x, (list, tuple)) else x for x in f)
msg = st.sampled_from(sorted(M)).flatmap(lambda n: st.tuples(st.just(n), M[n][1]))
form = st.sampled_from([0, 1])
FORMS = (EC, EP)
# sequences come back as lists or tuples, whatever was given
SEQ = ('Bind', 'Parse', 'Function', 'CopyToBegin', 'CopyFromBegin', 'Tuple')

@law(st.tuples(msg, form), 3000)
def a_message_is_written_and_read_exactly(case, t):
	(name, f), which = case
	E = FORMS[which]
	typ, _, body, read = M[name]
	t.ev(name)
	t.nt(len(f))
	m = build(E, name, f)
	want = body(*f)
	eq(bytes(m.serialize()), want, '%s%r.serialize()' % (name, f))
	eq(bytes(m.bytes()), (typ or b'') + L(len(want) + 4) + want, '%s%r.bytes()' % (name, f))
	if typ:
		eq(getattr(E, name).type, typ, name + '.type')
	p = getattr(E, name).parse(want)
	if name != 'Tuple':
		check(isinstance(p, getattr(E, name)), '%s.parse() gave %r', name, type(p))
	eq(norm(name, read(p)), norm(name, f), '%s.parse(%r)' % (name, want))
	check(name in SEQ or p == m and not (p != m), '%r parsed from its own bytes is not equal to %r', p, m)
	check(isinstance(repr(m), str), 'repr')
	eq(bytes(E.cat_messages([m])) if name not in ('Tuple',) else bytes(E.cat_messages([tuple(m)])), (typ or b'') + L(len(want) + 4) + want, 'cat_messages([%s])' % name)

@law(st.tuples(st.sampled_from(sorted(n for n in M if n not in ('Tuple',))).flatmap(lambda n: st.tuples(st.just(n), M[n][1], M[n][1])), form), 1500)
def messages_are_equal_exactly_when_their_fields_are(case, t):
	(name, a, b), which = case
	E = FORMS[which]
	same = norm(name, a) == norm(name, b)
	t.nt(not same)
	x, y = build(E, name, a), build(E, name, b)
	eq(x == y, same, '%s%r == %s%r' % (name, a, name, b))
	eq(x != y, not same, '%s%r != %s%r' % (name, a, name, b))
	check(x != 1 and not x == None, 'equality with another type')

# bodies whose extent is not self-describing at the end: any continuation or prefix of the last field conforms
LOOSE = {'Notice', 'Error'}
def prefixes(n): return st.tuples(st.just(n), M[n][1], st.integers(0, 10**6))
@law(st.tuples(st.sampled_from(sorted(n for n in M if n not in ('CopyData',))).flatmap(prefixes), form), 3000)
def a_truncated_body_is_refused(case, t):
	(name, f, at), which = case
	E = FORMS[which]
	_, _, body, read = M[name]
	want = body(*f)
	if not want:
		return
	cut = want[:at % len(want)]
	t.nt(len(want) > 1)
	if name == 'Authentication' and len(cut) >= 4:
		return
	if name in LOOSE:
		# the list terminator itself may be missing; a field may not be
		whole = set()
		b = b''
		for k, v in f[0]:
			b += k + v + b'\0'
			whole.add(b)
		if cut in whole:
			return
	r, p = raised(getattr(E, name).parse, cut)
	check(r is not None, '%s body %r cut to %r was read as %r', name, want, cut, p)
	check(isinstance(r, (ValueError, struct.error, IndexError, OverflowError)), '%s body %r cut to %r: %r', name, want, cut, r)

COUNTED = ['Bind', 'Parse', 'Function', 'Tuple', 'TupleDescriptor', 'AttributeTypes', 'CopyToBegin', 'CopyFromBegin', 'FunctionResult', 'KillInformation', 'CancelRequest', 'NegotiateSSL',
	'CopyDone', 'Flush', 'Synchronize', 'ParseComplete', 'BindComplete', 'CloseComplete', 'NoData', 'Suspension', 'Null', 'Ready']
@law(st.tuples(st.sampled_from(COUNTED).flatmap(lambda n: st.tuples(st.just(n), M[n][1])), st.one_of(st.binary(min_size=1, max_size=5), st.just(b'\0')), form), 1500)
def data_after_the_last_field_is_refused(case, t):
	(name, f), extra, which = case
	E = FORMS[which]
	body = M[name][2](*f) + extra
	t.nt(len(f))
	r, _ = raised(getattr(E, name).parse, body)
	check(r is not None, '%s body %r with %r after it was accepted', name, body, extra)
	check(isinstance(r, (ValueError, struct.error)), '%s: %r', name, r)

@law(st.tuples(st.sampled_from(['Tuple', 'Bind', 'Function', 'FunctionResult', 'Parse', 'AttributeTypes', 'TupleDescriptor', 'CopyToBegin']).flatmap(lambda n: st.tuples(st.just(n), M[n][1])),
	st.integers(0, 10**6), st.integers(1, 255), form), 2500)
def a_body_with_altered_counts_is_never_misread(case, t):
	# flip one byte: what is accepted must be what the altered bytes say
	(name, f), at, x, which = case
	E = FORMS[which]
	_, _, body, read = M[name]
	b = bytearray(body(*f))
	if len(b) > 400:
		return
	b[at % len(b)] ^= x
	b = bytes(b)
	t.nt(True)
	try:
		p = getattr(E, name).parse(b)
	except (ValueError, struct.error, IndexError, OverflowError):
		return
	got = read(p)
	eq(body(*got), b, '%s.parse(%r) gave %r, whose encoding' % (name, b, got))

@law(st.tuples(st.sampled_from(['Describe', 'Close']), st.binary(min_size=1, max_size=1), cs, st.sampled_from(['Statement', 'Portal']), form), 200)
def describe_and_close_check_their_subject(case, t):
	base, k, n, what, which = case
	c = getattr(FORMS[which], base + what)
	ok = k == what[:1].encode()
	t.nt(not ok)
	r, _ = raised(c.parse, k + z(n))
	check((r is None) == ok, '%s%s.parse(%r): %r', base, what, k + z(n), r)

@law(st.tuples(st.binary(max_size=2), form), 300)
def ready_states(case, t):
	d, which = case
	ok = d in (b'I', b'T', b'E')
	t.nt(ok)
	check((raised(FORMS[which].Ready.parse, d)[0] is None) == ok, 'Ready.parse(%r)', d)

@law(st.tuples(st.one_of(st.integers(-1, 2**16), st.sampled_from([0, 1, 3, 1234, 65535, 65536])), st.one_of(st.integers(-1, 2**16), st.sampled_from([0, 5678, 5679]))), 300)
def versions(case, t):
	a, b = case
	ok = 0 <= a < 65536 and 0 <= b < 65536
	t.nt(ok)
	if not ok:
		must_raise(ValueError, 'Version(%r)' % (case,), V.Version, case)
		return
	v = V.Version(case)
	eq((v.major, v.minor, int(v), v.bytes(), repr(v)), (a, b, a << 16 | b, struct.pack('!HH', a, b), '%d.%d' % case), 'Version%r' % (case,))
	eq(V.Version.parse(v.bytes()), v, 'Version.parse')

@law(st.tuples(st.lists(st.one_of(st.sampled_from([b'SELECT', b'INSERT', b'CREATE', b'TABLE', b'AS', b'COPY']), st.just(None)), min_size=1, max_size=3), st.lists(st.integers(0, 10**12), max_size=2)), 400)
def command_tags(case, t):
	words, counts = case
	words = [w for w in words if w]
	tag = b' '.join(words + [str(c).encode() for c in counts])
	if not tag:
		return
	t.nt(counts)
	for E in FORMS:
		m = E.Complete.parse(z(tag))
		eq(m.extract_count(), counts[-1] if counts else None, 'count of %r' % tag)
		eq(m.extract_command(), b' '.join(words) or None, 'command of %r' % tag)

@law(st.tuples(st.integers(0, 255), raw, form, st.integers(-5, 5)), 400)
def a_wire_message_checks_its_length(case, t):
	typ, d, which, off = case
	E = FORMS[which]
	n = len(d) + 4 + off
	if n < 0:
		return
	b = bytes((typ,)) + L(n) + d
	t.nt(off)
	r, _ = raised(E.WireMessage.parse, b)
	check((r is None) == (off == 0), 'WireMessage.parse(%r): %r', b, r)
	if not off:
		m = E.WireMessage.parse(b)
		eq((m.type, m.data, m.bytes()), (bytes((typ,)), d, b), 'WireMessage')
