"""An in-process PostgreSQL backend scripted by a plan, and a socket that delivers its bytes in chosen pieces.

Written from the protocol's documentation; shares no code with the library."""
import struct, errno

class Hang(BaseException):
	"the client waits for something the server will never send"

def z(b): return b + b'\0'
def L(x): return struct.pack('!L', x & 0xffffffff)
def H(x): return struct.pack('!H', x)
def msg(t, body=b''): return t + L(len(body) + 4) + body
def row(a): return H(len(a)) + b''.join(b'\xff' * 4 if x is None else L(len(x)) + x for x in a)
def fields(d): return b''.join(k + z(v) for k, v in d) + b'\0'
def desc(cols): return H(len(cols)) + b''.join(z(n) + struct.pack('!LhLhlh', 0, 0, oid, -1, -1, fmt) for n, oid, fmt in cols)
def oids(o): return H(len(o)) + b''.join(map(L, o))
def copybegin(fmt, n): return bytes((fmt,)) + H(n) + H(fmt) * n

class Backend(object):
	"""plan: list of reply specifications, one per command message, taken in order.

	asyncs: {index of a message the server sends: [(type, body), ...] sent just before it}
	violate: (index, bytes) the message of that index is replaced by these bytes"""
	def __init__(self, plan, asyncs=None, violate=None, startup=None):
		self.plan = list(plan)
		self.asyncs = asyncs or {}
		self.violate = violate
		self.inp = b''
		self.out = b''
		self.count = 0			# messages sent
		self.sent_asyncs = []
		self.state = 'startup' if startup is not None else 'ready'
		self.startup_reply = startup
		self.startup_message = None
		self.reply = []			# messages sent for the current request
		self.replies = []		# per request: list of (type, body)
		self.copied = []
		self.xact = b'I'
		self.log = []			# client messages, as (type, body)
		self.closed = False		# the server closed its end
		self.problems = []
		self.violated = False
		self.cancelled = []

	def send(self, t, body=b''):
		for a in self.asyncs.pop(self.count, ()):
			self.out += msg(*a)
			self.sent_asyncs.append(a)
		if self.violate and self.violate[0] == self.count:
			self.out += self.violate[1]
			self.violated = True
		else:
			self.out += msg(t, body)
		self.count += 1
		self.reply.append((t, body))

	def ready(self):
		self.send(b'Z', self.xact)
		self.replies.append(self.reply)
		self.reply = []

	def feed(self, data):
		self.inp += data
		while True:
			if self.state == 'startup':
				if len(self.inp) < 4: return
				n, = struct.unpack_from('!L', self.inp)
				if len(self.inp) < n: return
				self.startup_message, self.inp = self.inp[4:n], self.inp[n:]
				self.state = 'ready'
				self.out += self.startup_reply
				continue
			if len(self.inp) < 5: return
			n, = struct.unpack_from('!L', self.inp, 1)
			if len(self.inp) < n + 1: return
			t, b = self.inp[:1], self.inp[5:n + 1]
			self.inp = self.inp[n + 1:]
			self.log.append((t, b))
			self.handle(t, b)

	def error(self, e):
		self.send(b'E', fields(e))
		if dict(e).get(b'V', dict(e)[b'S']) != b'ERROR':
			self.closed = True
			self.replies.append(self.reply)
			self.reply = []
			self.state = 'dead'
			return True

	def next(self, t):
		if not self.plan:
			self.problems.append('unplanned message %r' % t)
			return ('ok',)
		p = self.plan.pop(0)
		if p[0] != t:
			self.problems.append('got %r where the request should have %r' % (t, p[0]))
		return p[1:]

	def handle(self, t, b):
		s = self.state
		if s == 'dead':
			return
		if s in ('copyin-q', 'copyin-x'):
			if t == b'd':
				self.copied.append(b)
				self.after -= 1
				if self.after == 0:
					# an error while reading the data
					if not self.error(self.cerr):
						self.endcopy(True)
			elif t == b'c':
				self.send(b'C', z(b'COPY %d' % len(self.copied)))
				self.endcopy(False)
			elif t == b'f':
				if not self.error([(b'S', b'ERROR'), (b'C', b'57014'), (b'M', b'COPY from stdin failed: ' + b[:-1])]):
					self.endcopy(True)
			elif t in b'SH':
				if t == b'S' and self.plan and self.plan[0][0] == b'S':
					pass
			else:
				self.problems.append('message %r in copy-in mode' % t)
			return
		if s == 'skip' and t != b'S':
			if t in b'cdf':
				return
			self.next(t)
			return
		if t == b'S':
			self.state = 'ready'
			self.next(t)
			self.ready()
		elif t == b'X':
			self.closed = True
			self.state = 'dead'
		elif t in b'cdf':
			pass	# left over from a COPY that failed
		elif t == b'H':
			self.next(t)
		elif t == b'Q':
			self.query(list(self.next(t)[0]))
		elif t == b'F':
			r = self.next(t)
			if r[0] == 'err':
				if self.error(r[1]): return
			else:
				self.send(b'V', b'\xff' * 4 if r[1] is None else L(len(r[1])) + r[1])
			self.ready()
		else:
			r = self.next(t)
			if r[0] == 'err':
				if not self.error(r[1]):
					self.state = 'skip'
			elif t == b'P': self.send(b'1')
			elif t == b'B': self.send(b'2')
			elif t == b'C': self.send(b'3')
			elif t == b'D':
				if b[:1] == b'S':
					self.send(b't', oids(r[1]))
					r = r[1:]
				if r[1] is None: self.send(b'n')
				else: self.send(b'T', desc(r[1]))
			elif t == b'E':
				self.execute(r, False)

	def execute(self, r, simple):
		"""one statement's reply; True when the request cannot go on"""
		if r[0] == 'rows':
			if simple: self.send(b'T', desc([(b'c', 25, 0)] * len(r[1][0] if r[1] else ())))
			for x in r[1]:
				self.send(b'D', row(x))
			if r[2] == 'err':
				dead = self.error(r[3])
				if not dead and not simple: self.state = 'skip'
				return True
			if r[2] == 's': self.send(b's')
			else: self.send(b'C', z(b'SELECT %d' % len(r[1])))
		elif r[0] == 'done': self.send(b'C', z(r[1]))
		elif r[0] == 'empty': self.send(b'I')
		elif r[0] == 'err':
			dead = self.error(r[1])
			if not dead and not simple: self.state = 'skip'
			return True
		elif r[0] == 'copyout':
			self.send(b'H', copybegin(0, 1))
			for x in r[1]:
				self.send(b'd', x)
			if r[2] is not None:
				dead = self.error(r[2])
				if not dead and not simple: self.state = 'skip'
				return True
			self.send(b'c')
			self.send(b'C', z(b'COPY %d' % len(r[1])))
		elif r[0] == 'copyin':
			self.send(b'G', copybegin(0, 1))
			self.copied = []
			self.after, self.cerr = r[1] or (-1, None)
			self.state = 'copyin-q' if simple else 'copyin-x'
			return True

	def query(self, segs):
		self.rest = segs
		while self.rest:
			r = self.rest.pop(0)
			if self.execute(r, True):
				if self.state == 'ready':
					self.ready()
				return
		self.ready()

	def endcopy(self, failed):
		if self.state == 'copyin-q':
			self.state = 'ready'
			if failed: self.ready()
			else: self.query(self.rest)
		else:
			self.state = 'skip' if failed else 'ready'

class Socket(object):
	"""the client's end: recv and send in pieces, with faults

	fault: None, ('eof'|'reset', bytes delivered), ('send', bytes accepted)"""
	def __init__(self, backend, rcuts=(), scuts=(), again=(), fault=None):
		self.backend = backend
		self.rcuts, self.scuts, self.again = list(rcuts), list(scuts), list(again)
		self.fault = fault
		self.received = self.sent = self.calls = 0
		self.closed = False
		self.broken = False

	def tick(self):
		self.calls += 1
		if self.calls > 20000:
			raise Hang('too many calls')
		if self.again and self.again.pop(0):
			raise BlockingIOError(errno.EAGAIN, 'try again')

	def send(self, data):
		self.tick()
		n = min(len(data), self.scuts.pop(0) if self.scuts else len(data))
		if self.broken or (self.fault and self.fault[0] == 'send' and self.sent + n > self.fault[1]):
			self.broken = True
			raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
		self.sent += n
		self.backend.feed(bytes(data[:n]))
		return n
	def sendall(self, data):
		while data:
			data = data[self.send(data):]

	def recv(self, n):
		self.tick()
		b = self.backend
		if self.fault and self.fault[0] in ('eof', 'reset') and self.received >= self.fault[1]:
			self.broken = True
			if self.fault[0] == 'reset':
				raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
			return b''
		if not b.out:
			if b.closed or self.broken:
				self.broken = True
				return b''
			raise Hang('recv() while the server has nothing to send')
		n = min(n, self.rcuts.pop(0) if self.rcuts else n)
		if self.fault and self.fault[0] in ('eof', 'reset'):
			n = min(n, self.fault[1] - self.received)
		d, b.out = b.out[:n], b.out[n:]
		self.received += len(d)
		return d

	def fileno(self): return -1
	def settimeout(self, t): pass
	def shutdown(self, how): pass
	def close(self): self.closed = True
