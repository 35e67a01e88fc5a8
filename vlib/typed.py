"""A scripted server for one session: answers startup with given parameters, and the statement "SCRIPT" with given
parameter types, column types and rows; records the bound parameters. Written from the protocol's documentation."""
import os, socket, struct, tempfile, threading
from .core import OUT
from .fakepg import msg, z, L, row, desc, oids

class Server(object):
	def __init__(self, params):
		self.dir = tempfile.mkdtemp(dir=OUT)
		self.path = os.path.join(self.dir, 's')
		self.sock = socket.socket(socket.AF_UNIX)
		self.sock.bind(self.path)
		self.sock.listen(4)
		self.params = params
		self.ptypes, self.ctypes, self.rows = [], [], []
		self.bound = []		# per Bind: (parameter formats, parameters, result formats)
		self.failure = None
		threading.Thread(target=self.run, daemon=True).start()

	def run(self):
		c, _ = self.sock.accept()
		self.sock.close()
		self.f = c.makefile('rb')
		try:
			self.serve(c)
		except EOFError:
			pass
		except Exception as e:
			self.failure = e
		finally:
			c.close()
			self.f.close()
			os.unlink(self.path)
			os.rmdir(self.dir)

	def get(self, n):
		d = self.f.read(n)
		if len(d) < n: raise EOFError()
		return d

	def serve(self, c):
		n, = struct.unpack('!L', self.get(4))
		self.get(n - 4)
		c.sendall(msg(b'R', L(0)) + b''.join(msg(b'S', z(k.encode()) + z(v.encode())) for k, v in self.params) + msg(b'K', L(1) + L(2)) + msg(b'Z', b'I'))
		out, stmts, portals = b'', {}, {}
		first = True
		while True:
			t = self.get(1)
			b = self.get(struct.unpack('!L', self.get(4))[0] - 4)
			if t == b'X': return
			if t == b'P':
				name, q = b.split(b'\0')[:2]
				one = not first and b'version()' not in q
				first = False
				if q == b'SCRIPT': stmts[name] = (self.ptypes, [(b'c%d' % i, o) for i, o in enumerate(self.ctypes)], self.rows)
				else:
					# the first query is about the server and the session, others about a setting
					np = max([0] + [i for i in range(1, 20) if b'$%d' % i in q])
					stmts[name] = ([25] * np, [(b'a', 25)], None, 'setting') if one else ([25] * np, [(b'a', 25)] * 4, [[b'PostgreSQL', b'now', None, None]])
				out += msg(b'1')
			elif t == b'D':
				if b[:1] == b'S':
					s = stmts[b[1:-1]]
					out += msg(b't', oids(s[0])) + msg(b'T', desc([(n, o, 0) for n, o in s[1]]))
				else:
					s, rf = portals[b[1:-1]]
					out += msg(b'T', desc([(n, o, f) for (n, o), f in zip(s[1], rf)]))
			elif t == b'B':
				portal, name, rest = b.split(b'\0', 2)
				s = stmts[name]
				i = 0
				def num():
					nonlocal i
					v, = struct.unpack_from('!H', rest, i)
					i += 2
					return v
				pf = [num() for _ in range(num())]
				args = []
				for _ in range(num()):
					n, = struct.unpack_from('!l', rest, i)
					i += 4
					args.append(None if n < 0 else rest[i:i + n])
					i += max(n, 0)
				rf = [num() for _ in range(num())]
				def spread(f, n): return f * n if len(f) == 1 else f or [0] * n
				pf, rf = spread(pf, len(args)), spread(rf, len(s[1]))
				portals[portal] = (s, rf)
				self.bound.append((pf, args, rf))
				out += msg(b'2')
			elif t == b'E':
				s, rf = portals[b[:b.index(b'\0')]]
				if len(s) > 3:
					# about settings: those reported at startup are all there are
					s = (0, 0, [[v.encode()] for k, v in self.params if k.encode() in self.bound[-1][1]])
				out += b''.join(msg(b'D', row(r)) for r in s[2]) + msg(b'C', z(b'SELECT %d' % len(s[2])))
			elif t == b'C': out += msg(b'3')
			elif t == b'Q': out += msg(b'C', z(b'SET')) + msg(b'Z', b'I')
			elif t == b'S': out += msg(b'Z', b'I')
			if t in b'SQH':
				c.sendall(out)
				out = b''

_sessions = {}
def session(params):
	"""(server, connection) of a session with these startup parameters; kept for the next case"""
	import postgresql.driver as drv
	s = _sessions.get(params)
	if s is None or s[1].closed:
		sv = Server(params)
		db = drv.default.unix(user='u', unix=sv.path, sslmode='disable', connect_timeout=30)()
		db.connect()
		s = _sessions[params] = (sv, db)
	return s
