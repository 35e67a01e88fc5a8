# ASAN-PASS
"""C02: message framing is independent of how the stream is cut."""
import struct
from hypothesis import strategies as st
from vlib.core import law, check, eq, raised
from postgresql.port.optimized import pq_message_stream as CB
from postgresql_pure.protocol.pbuffer import pq_message_stream as PB
from postgresql.protocol.pbuffer import pq_message_stream as PB2
from postgresql.protocol.buffer import pq_message_stream as XB

RULE = ("Streams of up to 14 messages (any type byte, bodies from empty to several buffer blocks, now and then a length word below 4, a tail cut short), written in "
	"pieces of 1 byte up to the whole, interleaved with next_message, next(), read(n), read(), len, has_message, getvalue and truncate, on the C and the pure buffer. "
	"Oracle: the undelivered suffix of the stream and the messages in it. Non-trivial: some message spans two writes and an operation is made while it is incomplete.")

body = st.one_of(st.binary(max_size=6), st.tuples(st.sampled_from([0, 1, 3, 507, 512, 517, 1024, 2043, 2048, 2050, 3000]), st.integers(0, 255)).map(lambda x: bytes((x[1],)) * x[0]))
msg = st.tuples(st.one_of(st.sampled_from(list(b'DdZCTEN\0\xff\x80')), st.integers(0, 255)), body)
def enc(m): return bytes((m[0],)) + struct.pack('!L', len(m[1]) + 4) + m[1]
stream = st.tuples(st.lists(msg, max_size=14), st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 255), st.integers(0, 3))), st.lists(msg, max_size=2))
OPS = ['next', 'next', 'pynext', 'read', 'len', 'has', 'value', 'readn']
op = st.one_of(st.sampled_from(OPS), st.tuples(st.just('readn'), st.integers(0, 5)), st.tuples(st.just('w'), st.one_of(st.integers(1, 7), st.sampled_from([1, 4, 5, 6, 511, 512, 513, 2048, 5000, 10**6]))),
	st.tuples(st.just('w'), st.one_of(st.integers(1, 7), st.sampled_from([5, 100, 512, 600, 3000]))))
script = st.one_of(st.lists(op, max_size=40), st.lists(st.one_of(op, st.just('truncate')), max_size=40))

def pending(b):
	"""(complete messages, whether the next one's length word is invalid)"""
	out, i = [], 0
	while len(b) - i >= 5:
		n, = struct.unpack_from('!L', b, i + 1)
		if n < 4:
			return out, True
		if len(b) - i < n + 1:
			break
		out.append((b[i:i+1], b[i+5:i+1+n]))
		i += n + 1
	return out, False
def size(m): return 5 + len(m[1])

def play(B, data, ops, t):
	b = B()
	sent, buf = 0, b''
	whole = b''
	def chk():
		msgs, bad = pending(buf)
		if bad:
			r, v = raised(len, b)
			check(isinstance(r, ValueError), 'len() with an invalid length word pending: %r %r', r, v)
		else:
			eq(len(b), len(msgs), 'len()')
		if bad and not msgs:
			r, v = raised(b.has_message)
			check(isinstance(r, ValueError), 'has_message() at an invalid length word: %r %r', r, v)
		else:
			eq(bool(b.has_message()), bool(msgs), 'has_message()')
		eq(bytes(b.getvalue()), buf, 'getvalue()')
	chk()
	got = []
	for o in ops:
		msgs, bad = pending(buf)
		if buf and not msgs:
			t.nt(True)
		if isinstance(o, tuple) and o[0] == 'w':
			x = data[sent:sent + o[1]]
			b.write(x)
			sent += len(x)
			buf += x
		elif o == 'truncate':
			b.truncate()
			buf = b''
		elif o in ('next', 'pynext'):
			r, v = raised(b.next_message) if o == 'next' else raised(next, b)
			if msgs:
				check(r is None, '%s raised %r', o, r)
				eq(tuple(v), msgs[0], o)
				buf = buf[size(msgs[0]):]
			elif bad:
				check(isinstance(r, ValueError), '%s at an invalid length word: %r %r', o, r, v)
			elif o == 'next':
				check(r is None and v is None, 'next_message() without a message: %r %r', r, v)
			else:
				check(isinstance(r, StopIteration), 'next() without a message: %r %r', r, v)
		elif o == 'read' or isinstance(o, tuple) or o == 'readn':
			n = o[1] if isinstance(o, tuple) else None if o == 'read' else 1
			r, v = raised(b.read) if n is None else raised(b.read, n)
			if bad and (n is None or n > len(msgs)):
				check(isinstance(r, ValueError), 'read(%r) over an invalid length word: %r %r', n, r, v)
			else:
				check(r is None, 'read(%r): %r', n, r)
				w = msgs if n is None else msgs[:n]
				eq([tuple(x) for x in v], w, 'read(%r)' % n)
				buf = buf[sum(map(size, w)):]
		chk()

@law(st.tuples(stream, script), 1200, asan=True)
def any_history_delivers_the_stream(case, t):
	(good, bad, more), ops = case
	data = b''.join(map(enc, good))
	if bad:
		data += bytes((bad[0],)) + struct.pack('!L', bad[1])
		t.ev('invalid length')
	data += b''.join(map(enc, more))
	for B in (CB, PB, PB2):
		play(B, data, ops, t)

@law(st.tuples(st.lists(msg, min_size=1, max_size=6), st.integers(1, 40), st.integers(0, 8), st.integers(0, 3)), 400, asan=True)
def each_message_comes_once_in_order(case, t):
	good, step, tail, how = case
	data = b''.join(map(enc, good)) + enc((65, b'x' * 9))[:tail]
	t.nt(len(good) > 1)
	for B in (CB, PB, XB):
		b = B()
		out = []
		for i in range(0, len(data), step):
			b.write(data[i:i + step])
			if how == 0:
				out += map(tuple, b.read())
			elif how == 1:
				while True:
					m = b.next_message()
					if m is None: break
					out.append(tuple(m))
			elif how == 2 and b.has_message():
				out.append(tuple(next(b)))
			elif how == 3:
				out += map(tuple, b.read(1))
		while b.has_message():
			out.append(tuple(b.next_message()))
		eq(out, [(bytes((k,)), v) for k, v in good], 'messages')
		eq(bytes(b.getvalue()), data[len(data) - tail:] if tail else b'', 'tail')
