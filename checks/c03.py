# ASAN-PASS
"""C03: the C accelerator never changes behaviour."""
import array, struct
from hypothesis import strategies as st
from vlib.core import law, check, eq, raised
import postgresql.port.optimized as C
import postgresql.python.structlib as SC, postgresql_pure.python.structlib as SP
import postgresql.python.functools as FC, postgresql_pure.python.functools as FP
import postgresql.protocol.element3 as EC, postgresql_pure.protocol.element3 as EP
import postgresql.copyman as MC, postgresql_pure.copyman as MP
import postgresql.types.io.lib as LC, postgresql_pure.types.io.lib as LP
from postgresql_pure.protocol.pbuffer import pq_message_stream as PB

RULE = ("Every function and type of the accelerator against its pure-Python form on generated inputs of the types it takes (boundary integers, every buffer type and "
	"alignment, well-formed and damaged tuple data, processors that fail or change the list they work on, mixed outgoing messages, COPY streams cut anywhere), and with "
	"arbitrary objects for memory safety, a second time under AddressSanitizer and UBSan. Oracle: the pure form and struct; both give the same value or both refuse. "
	"Non-trivial: the input is neither empty nor refused, or is refused after its first element.")

def both(what, cf, pf, norm=lambda x: x):
	"""run the two forms; same value, or both refuse"""
	ce, cv = raised(cf)
	pe, pv = raised(pf)
	check((ce is None) == (pe is None), '%s: C gave %r, pure gave %r', what, ce or cv, pe or pv)
	if ce is None:
		eq(norm(cv), norm(pv), what + ': C against pure')
	check(not isinstance(ce, SystemError), '%s: C raised %r', what, ce)
	return ce is None

INTS = {'int2': 'h', 'uint2': 'H', 'int4': 'i', 'uint4': 'I', 'int8': 'q', 'uint8': 'Q'}
FN = [(p + n, ('>' if p else '<') + f) for n, f in INTS.items() for p in ('', 'swap_')]
edge = [s * (1 << b) + d for b in (0, 7, 8, 15, 16, 31, 32, 63, 64) for s in (1, -1) for d in (-1, 0, 1)]
num = st.one_of(st.sampled_from(edge), st.integers(-2**70, 2**70), st.integers(-300, 300), st.booleans())

@law(st.tuples(st.sampled_from(FN), st.one_of(num, num, num, st.sampled_from([None, 'x', 1.5, b'1', ()]))), 2500, asan=True)
def integers_pack_alike(case, t):
	(n, f), v = case
	t.nt(both('%s_pack(%r)' % (n, v), lambda: getattr(C, n + '_pack')(v), lambda: struct.pack(f, v)))

def wrap(kind, b):
	if kind == 'bytes': return b
	if kind == 'bytearray': return bytearray(b)
	if kind == 'view': return memoryview(b)
	if kind == 'array': return array.array('B', b)
	if kind == 'slice1': return memoryview(b'x' + b)[1:]
	return memoryview(b'xyz' + b + b'pp')[3:3 + len(b)]
kinds = st.sampled_from(['bytes', 'bytearray', 'view', 'array', 'slice1', 'slice3'])
@law(st.tuples(st.sampled_from(FN), st.one_of(st.binary(max_size=12), st.lists(st.sampled_from([0, 1, 0x7f, 0x80, 0xff]), min_size=7, max_size=9).map(bytes)), kinds), 2500, asan=True)
def integers_unpack_alike(case, t):
	(n, f), b, k = case
	t.nt(both('%s_unpack(%s %r)' % (n, k, b), lambda: getattr(C, n + '_unpack')(wrap(k, b)), lambda: struct.unpack_from(f, wrap(k, b))[0]))

NAMES = sorted(n for n in dir(SP) if n.endswith('_pack') and n != 'mk_pack')
@law(st.tuples(st.sampled_from(NAMES), st.lists(st.one_of(num, st.floats(width=32)), min_size=4, max_size=4), st.binary(max_size=40), kinds), 2000)
def the_library_uses_equivalent_packers(case, t):
	n, v, b, k = case
	u = n[:-4] + 'unpack'
	s = n[:-5].split('_')[0]
	letters = [c for c in s if c in 'dfhHlLq']
	compound = s and set(s) <= set('dfhHlLq') and s not in ('d', 'f')
	a = tuple(v[:len(s)]) if compound else v[0]
	t.nt(both('%s(%r)' % (n, a), lambda: getattr(SC, n)(a), lambda: getattr(SP, n)(a)))
	t.nt(both('%s(%r)' % (u, b), lambda: getattr(SC, u)(wrap(k, b)), lambda: getattr(SP, u)(wrap(k, b)), repr))

att = st.one_of(st.none(), st.sampled_from([b'', b'x', b'\xff\xff\xff\xff', b'a' * 255, b'b' * 65536]), st.binary(max_size=9))
row = st.lists(att, max_size=7)
def enc(a): return b''.join(b'\xff' * 4 if x is None else struct.pack('!L', len(x)) + x for x in a)
def frame(a): return struct.pack('!H', len(a)) + enc(a)
broken = st.one_of(st.none(), st.none(), st.tuples(st.just('cut'), st.integers(0, 10**6)), st.tuples(st.just('add'), st.binary(min_size=1, max_size=4)),
	st.tuples(st.just('set'), st.integers(0, 10**6), st.sampled_from([0, 1, 2, 0x7f, 0x80, 0xff])), st.tuples(st.just('raw'), st.binary(max_size=14)))
def damage(b, d):
	if d is None or not b: return b
	if d[0] == 'cut': return b[:d[1] % len(b)]
	if d[0] == 'add': return b + d[1]
	if d[0] == 'raw': return d[1]
	i = d[1] % min(len(b), 64)
	return b[:i] + bytes((d[2],)) + b[i + 1:]

@law(st.tuples(row, broken, kinds), 2500, asan=True)
def tuple_data_alike(case, t):
	a, d, k = case
	t.nt(a)
	both('pack_tuple_data(%r)' % (a,), lambda: C.pack_tuple_data(tuple(a)), lambda: EP.pack_tuple_data(tuple(a)))
	eq(C.pack_tuple_data(tuple(a)), enc(a), 'pack_tuple_data')
	b = damage(frame(a), d)
	ok = both('parse_tuple_message(%s %r)' % (k, b), lambda: C.parse_tuple_message(b), lambda: EP.Tuple.parse(b))
	e, v = raised(C.parse_tuple_message, wrap(k, b))
	eq(e is None, ok, 'parse_tuple_message of a ' + k)
	if d is None:
		check(ok, 'well-formed tuple data refused')
		eq(C.parse_tuple_message(b), tuple(a), 'parse_tuple_message')
	both('Tuple.parse(%r)' % b, lambda: EC.Tuple.parse(b), lambda: EP.Tuple.parse(b))

@law(st.tuples(st.lists(st.one_of(att, num, st.sampled_from(['str', 1.5, bytearray(b'x'), [], ()])), max_size=5), st.booleans()), 800, asan=True)
def unusable_attributes_are_refused_alike(case, t):
	a, aslist = case
	bad = any(x is not None and type(x) is not bytes for x in a)
	t.nt(bad)
	both('pack_tuple_data(%r)' % (a,), lambda: C.pack_tuple_data(tuple(a)), lambda: EP.pack_tuple_data(tuple(a)))
	both('cat_messages of a tuple', lambda: EC.cat_messages([tuple(a)]), lambda: EP.cat_messages([tuple(a)]))

# outgoing messages; built for each form from the same description
OUT_ = ['Synchronize', 'Flush', 'CopyDone', 'Disconnect']
one = st.one_of(st.binary(max_size=5), st.binary(max_size=5), st.just(b'z' * 5000), row.map(tuple), row.map(tuple),
	st.sampled_from(OUT_).map(lambda n: ['new', n]), st.tuples(st.sampled_from(['Query', 'CopyFail', 'DescribeStatement', 'ClosePortal']), st.binary(max_size=5).map(lambda b: b.replace(b'\0', b''))).map(lambda x: ['new', x[0], x[1]]),
	st.just(['new', 'Startup', {b'user': b'u'}]), st.just(['new', 'CancelRequest', 1, 2]), st.just(['void']), st.just(['new', 'Bind', b'', b's', [b'\0\1'], [b'v'], []]),
	st.just(['new', 'CopyData', b'q']), st.just(['new', 'NegotiateSSL']))
rare = st.sampled_from([None, 1, 'text', [], ['badtype', b'xy'], ['badtype', 'x'], ['badtype', None], ['badbody', 'x'], ['badbody', None], ['raise'], [()]])
def build(E, d):
	if type(d) is not list or not d: return d
	if d[0] == 'new': return getattr(E, d[1])(*d[2:])
	if d[0] == 'void': return E.VoidMessage
	class M(E.Message):
		type = b'M' if d[0] != 'badtype' else d[1]
		def serialize(self):
			if d[0] == 'raise': raise KeyError('serialize')
			return d[1] if d[0] == 'badbody' else b'body'
	return M() if type(d[0]) is str else d
@law(st.tuples(st.lists(one, max_size=9), st.one_of(st.none(), st.none(), st.tuples(rare, st.integers(0, 9))), st.sampled_from(['list', 'tuple', 'gen'])), 1500, asan=True)
def outgoing_messages_concatenate_alike(case, t):
	ms, bad, how = case
	if bad:
		ms = ms[:bad[1]] + [bad[0]] + ms[bad[1]:]
	t.nt(len(ms) > 1)
	mk = {'list': list, 'tuple': tuple, 'gen': iter}[how]
	both('cat_messages(%r)' % (ms,), lambda: EC.cat_messages(mk([build(EC, m) for m in ms])), lambda: EP.cat_messages(mk([build(EP, m) for m in ms])))
	if not bad:
		want = b''.join(b'd' + struct.pack('!L', len(m) + 4) + m if type(m) is bytes else b'D' + struct.pack('!L', len(frame(m)) + 4) + frame(m) if type(m) is tuple
			else build(EP, m).bytes() for m in ms)
		eq(EC.cat_messages(mk([build(EC, m) for m in ms])), want, 'cat_messages')

@law(st.tuples(st.integers(0xfffe, 0x10001)), 8, asan=True)
def the_attribute_count_is_bounded_alike(case, t):
	n, = case
	t.nt(True)
	both('cat_messages of %d attributes' % n, lambda: EC.cat_messages([(None,) * n]), lambda: EP.cat_messages([(None,) * n]))
	both('Tuple of %d attributes' % n, lambda: EC.Tuple((None,) * n).serialize(), lambda: EP.Tuple((None,) * n).serialize())

wire = st.tuples(st.sampled_from([b'D', b'D', b'D', b'C', b'Z', b'N', b'd']), row, broken)
junk = st.sampled_from([(b'D',), (b'D', b'\0\0', 1), [b'D', b'\0\0'], (b'DD', b'\0\0'), ('D', b'\0\0'), (68, b'\0\0'), None, (b'D', None), (b'D', 'x'), (b'', b'')])
@law(st.tuples(st.lists(wire, max_size=6), st.one_of(st.none(), st.none(), st.tuples(junk, st.integers(0, 6)))), 1200, asan=True)
def row_messages_are_consumed_as_they_would_be_parsed(case, t):
	ws, bad = case
	ms = [(k, damage(frame(a), d) if k == b'D' else b'tag\0') for k, a, d in ws]
	if bad:
		ms.insert(bad[1], bad[0])
	ms = tuple(ms)
	t.nt(ms)
	lead = []
	want = []
	for m in ms:
		if type(m) is not tuple or len(m) != 2 or type(m[0]) is not bytes or len(m[0]) != 1 or (m[0] == b'D' and type(m[1]) is not bytes):
			want = None
			break
		if m[0] != b'D':
			break
		e, v = raised(EP.Tuple.parse, m[1])
		if e is not None:
			want = None
			break
		want.append(v)
	e, v = raised(C.consume_tuple_messages, ms)
	check((e is None) == (want is not None), 'consume_tuple_messages(%r): %r %r, want %r', ms, e, v, want)
	check(not isinstance(e, SystemError), 'consume_tuple_messages(%r): %r', ms, e)
	if e is None:
		eq(v, want, 'consume_tuple_messages(%r)' % (ms,))

class Stop(BaseException): pass
PROCS = ['id', 'len', 'neg', 'none', 'raise', 'stop', 'notcallable', 'clear', 'append']
def proc(n, log, chunk):
	def f(x):
		log.append((n, x))
		if n == 'len': return [x, x]
		if n == 'neg': return -x
		if n == 'none': return None
		if n == 'raise': raise LookupError(x)
		if n == 'stop': raise Stop(x)
		if n == 'clear': del chunk[:]; return x
		if n == 'append' and len(chunk) < 9: chunk.append(chunk[0] if chunk else ()); return x
		return x
	return 7 if n == 'notcallable' else f
cell = st.one_of(st.none(), st.integers(-3, 3), st.sampled_from(['a', b'b', (1,)]))
def run(fn, names, rows, handler, how, chunkwise):
	log = []
	chunk = [tuple(r) for r in rows]
	procs = tuple(proc(n, log, chunk) for n in names)
	def fail(cause, p, tup, i):
		log.append(('fail', type(cause), cause.args if not isinstance(cause, TypeError) else None, p is procs, tup, i))
		if handler == 'raise': raise ArithmeticError(i)
		if handler == 'cause': raise cause
	try:
		if chunkwise:
			src = chunk if how == 'list' else tuple(chunk) if how == 'tuple' else iter(list(chunk))
			r = fn(procs, src, fail)
		else:
			r = fn(procs, chunk[0] if chunk else (), fail)
	except (Exception, Stop) as e:
		return ('raised', type(e), e.args if type(e) in (ArithmeticError, LookupError, Stop) else None), log
	return r, log
procs = st.lists(st.one_of(st.sampled_from(['id', 'len', 'neg', 'none']), st.sampled_from(PROCS)), max_size=4)
@law(procs.flatmap(lambda p: st.tuples(st.just(p), st.lists(st.one_of(st.lists(cell, min_size=len(p), max_size=len(p)), st.lists(cell, min_size=len(p), max_size=len(p)), st.lists(cell, max_size=5)), max_size=4),
	st.sampled_from(['raise', 'cause', 'return']), st.sampled_from(['list', 'tuple', 'iter']), st.booleans())), 3000, asan=True)
def rows_and_chunks_process_alike(case, t):
	names, rows, handler, how, chunkwise = case
	t.nt(rows and names)
	a = run(FC.process_chunk if chunkwise else FC.process_tuple, names, rows, handler, how, chunkwise)
	b = run(FP.process_chunk if chunkwise else FP.process_tuple, names, rows, handler, how, chunkwise)
	eq(a, b, 'process_%s(%r, %r): C against pure' % ('chunk' if chunkwise else 'tuple', names, rows))

@law(st.tuples(st.lists(st.sampled_from(['id', 'len', 'neg', 'none', 'raise', 'notcallable', 'stop']), max_size=5), cell, st.sampled_from(['comp', 'tuple', 'list', 'deque', 'shrinking', 'badlen', 'baditem'])), 1200, asan=True)
def compositions_alike(case, t):
	names, x, kind = case
	import collections
	t.nt(len(names) > 1)
	res = []
	for cls in (FC, FP):
		log = []
		fs = [proc(n, log, []) for n in names]
		try:
			r = cls.Composition(fs)(x)
		except (Exception, Stop) as e:
			r = type(e)
		res.append((r, log))
	eq(res[0], res[1], 'Composition(%r)(%r): C against pure' % (names, x))
	# the raw function also takes other sequences
	log = []
	fs = [proc(n, log, []) for n in names]
	if kind == 'list': seq = fs
	elif kind == 'deque': seq = collections.deque(fs)
	elif kind == 'shrinking':
		seq = list(fs)
		seq.insert(0, lambda v: (seq.clear(), v)[1])
	elif kind == 'badlen':
		class seq_:
			def __len__(self): raise KeyError
			def __getitem__(self, i): return fs[i]
		seq = seq_()
	elif kind == 'baditem':
		class seq_:
			def __len__(self): return len(fs) + 1
			def __getitem__(self, i): return fs[i]
		seq = seq_()
	else: seq = tuple(fs)
	try:
		C.compose(seq, x)
	except (Exception, Stop) as e:
		check(not isinstance(e, SystemError), 'compose of a %s: %r', kind, e)

class Ob: pass
class Slots: __slots__ = ('a',)
@law(st.tuples(st.sampled_from(['a', 'b', '', '__class__', 'x y']), cell, st.sampled_from(['ob', 'slots', 'int'])), 200, asan=True)
def rsetattr_alike(case, t):
	n, v, k = case
	mk = {'ob': Ob, 'slots': Slots, 'int': int}[k]
	x, y = mk(), mk()
	ok = both('rsetattr', lambda: FC.rsetattr(n, v, x) is x, lambda: FP.rsetattr(n, v, y) is y)
	t.nt(ok)
	if ok:
		eq(getattr(x, n), getattr(y, n), 'attribute')

cmsg = st.tuples(st.sampled_from(b'dddddddddddddcCEN\0\xff'), st.binary(max_size=9)).map(lambda x: bytes((x[0],)) + struct.pack('!L', len(x[1]) + 4) + x[1])
hdr = st.tuples(st.sampled_from([b'd', b'd', b'c']), st.sampled_from([0, 1, 2, 3, 4, 5, 2**31 - 1, 2**31, 2**32 - 2])).map(lambda x: x[0] + struct.pack('!L', x[1]))
@law(st.tuples(st.lists(cmsg, max_size=8), st.one_of(st.none(), st.none(), hdr), st.lists(cmsg, max_size=2), st.lists(st.one_of(st.integers(0, 6), st.integers(0, 40)), max_size=30), st.sampled_from(['bytes', 'view', 'slice1'])), 2500, asan=True)
def copy_streams_are_tracked_alike(case, t):
	ms, h, more, cuts, kind = case
	data = b''.join(ms) + (h or b'') + b''.join(more)
	c, p = MC.WireState(), MP.WireState()
	w = C.WireState()
	i = 0
	for n in cuts + [len(data)]:
		x = data[i:i + n]
		i += len(x)
		if len(x) > 1: t.nt(True)
		if not both('update(%r)' % x, lambda: w.update(wrap(kind, x)), lambda: p.update(wrap(kind, x))):
			raised(c.update, wrap(kind, x))
			break
		c.update(wrap(kind, x))
		for s in (w, c):
			eq((s.remaining_bytes, bytes(s.size_fragment), s.final_view if s.final_view is None else bytes(s.final_view)),
				(p.remaining_bytes, bytes(p.size_fragment), p.final_view if p.final_view is None else bytes(p.final_view)), 'state after %r of %r' % (x, data))

@law(st.tuples(st.lists(cmsg, max_size=8), st.lists(st.integers(0, 12), max_size=30)), 1000, asan=True)
def wire_states_count_the_messages(case, t):
	ms, cuts = case
	data = b''.join(ms)
	lead = []
	for m in ms:
		if m[:1] != b'd': break
		lead.append(m)
	end = len(b''.join(lead))
	for W in (C.WireState, MP.WireState, MC.WireState):
		s = W()
		i = n = 0
		fv = None
		for k in cuts + [len(data)]:
			x = memoryview(data)[i:i + k]
			if s.final_view is not None:
				e, v = raised(s.update, x)
				check(isinstance(e, RuntimeError), 'update() past the end: %r %r', e, v)
				break
			n += s.update(x)
			i += len(x)
			got = sum(1 for j in range(len(lead)) if len(b''.join(lead[:j + 1])) <= i)
			eq(n, got, 'messages counted after %d bytes' % i)
			eq(s.final_view is not None, i > end, 'termination after %d bytes' % i)
			t.nt(n > 1)
			if s.final_view is not None:
				eq(bytes(s.final_view), data[end:i], 'final view')

# the type routines built on the packers
IO = [n for n in ('numeric_pack', 'numeric_unpack', 'varbit_pack', 'varbit_unpack', 'array_pack', 'array_unpack', 'record_pack', 'record_unpack', 'time_unpack', 'time64_unpack', 'timetz_unpack', 'interval64_unpack',
	'date_unpack', 'path_unpack', 'polygon_unpack', 'net_unpack', 'macaddr_unpack', 'anyarray_unpack', 'anyarray_unpack_elements', 'circle_unpack', 'point_unpack', 'elements_unpack') if n.endswith('unpack') and hasattr(LC, n)]
def deep(r):
	if hasattr(r, '__next__'): r = list(r)
	return type(r)(map(deep, r)) if type(r) in (list, tuple) else r
@law(st.tuples(st.sampled_from(IO), st.one_of(st.binary(max_size=48), st.lists(st.sampled_from([0, 0, 0, 0, 1, 2, 4, 23, 255]), max_size=48).map(bytes))), 1500, asan=True)
def type_routines_alike(case, t):
	n, b = case
	def mk(f):
		return deep(f(b))
	t.nt(both('%s(%r)' % (n, b), lambda: mk(getattr(LC, n)), lambda: mk(getattr(LP, n)), repr))

ALL = sorted(n for n in dir(C) if not n.startswith('_') and callable(getattr(C, n)) and not isinstance(getattr(C, n), type))
@law(st.tuples(st.sampled_from(ALL), st.lists(st.recursive(st.one_of(st.none(), num, st.binary(max_size=12), st.text(max_size=3), st.floats(), st.sampled_from(['$print', '$len', '$object', '$view'])),
	lambda c: st.one_of(st.lists(c, max_size=3), st.lists(c, max_size=3).map(tuple), st.dictionaries(st.integers(0, 3), c, max_size=2)), max_leaves=6), max_size=4)), 4000, asan=True)
def no_argument_corrupts_memory(case, t):
	n, args = case
	names = {'$print': repr, '$len': len, '$object': Ob, '$view': memoryview(b'abcdefgh')[::2]}
	def real(x):
		if isinstance(x, str): return names.get(x, x)
		if type(x) in (list, tuple): return type(x)(real(y) for y in x)
		return x
	t.nt(args)
	e, v = raised(getattr(C, n), *map(real, args))
	check(not isinstance(e, SystemError), '%s%r: %r', n, tuple(args), e)
	if e is None:
		repr(v)

@law(st.tuples(st.lists(st.tuples(st.sampled_from(['write', 'read', 'next_message', 'has_message', 'truncate', 'getvalue', 'len', 'next', 'update']), st.one_of(st.binary(max_size=9),
	st.sampled_from([None, -2, -1, 0, 1, 2**40, 'x', b'', b'd\0\0\0', b'd\xff\xff\xff\xff', b'\x80\0\0\0\4', b'\xff\0\0\0\5x']))), max_size=14)), 1500, asan=True)
def no_history_corrupts_memory(case, t):
	ops, = case
	b, w = C.pq_message_stream(), C.WireState()
	for o, a in ops:
		t.nt(True)
		if o == 'len': e, v = raised(len, b)
		elif o == 'next': e, v = raised(next, b)
		elif o in ('write', 'read'): e, v = raised(getattr(b, o), a)
		elif o == 'update': e, v = raised(w.update, a)
		else: e, v = raised(getattr(b, o))
		check(not isinstance(e, SystemError), '%s(%r): %r', o, a, e)
		if v is not None: repr(v)
	repr((w.remaining_bytes, w.size_fragment, w.final_view))
