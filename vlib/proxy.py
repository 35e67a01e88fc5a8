"""A proxy between the library and the worker's server that sees, changes, delays or cuts the server's messages."""
import os, select, socket, ssl, struct, threading, importlib, itertools
from . import pg

_n = itertools.count()
class Link(object):
	def __init__(self, proxy, c):
		self.c = c
		self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM); self.s.connect(proxy.server.sock)
		self.proxy = proxy
		self.sent = []					# types of the messages passed on to the client
		self.ended = threading.Event()
		self.buf = b''
		if proxy.tls: threading.Thread(target=self.secured, daemon=True).start(); return
		threading.Thread(target=self.up, daemon=True).start()
		threading.Thread(target=self.down, daemon=True).start()
	def secured(self):
		try:
			d = self.c.recv(8)
			if d != b'\0\0\0\x08\x04\xd2\x16\x2f': self.s.sendall(d)
			else:
				self.c.sendall(b'S'); x = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tls')
				x.load_cert_chain(os.path.join(d, 'a.crt'), os.path.join(d, 'a.key')); self.c = x.wrap_socket(self.c, server_side=True)
			while True:
				pending = getattr(self.c, 'pending', int)
				r = [self.c] if pending() else select.select([self.c, self.s], [], [])[0]
				if self.c in r:
					d = self.c.recv(65536)
					if not d: break
					self.s.sendall(d)
				if self.s in r:
					d = self.s.recv(65536)
					if not d or not self.pass_on(d): break
		except OSError: pass
		self.end()
	def end(self):
		for x in (self.c, self.s):
			try: x.shutdown(socket.SHUT_RDWR)
			except OSError: pass
		self.ended.set()
	def up(self):
		try:
			first = True
			while True:
				d = self.c.recv(65536)
				if not d: break
				if first and d == b'\0\0\0\x08\x04\xd2\x16\x2f':
					self.c.sendall(b'N'); continue		# no SSL
				first = False
				self.s.sendall(d)
		except OSError: pass
		self.end()
	def down(self):
		try:
			while True:
				d = self.s.recv(65536)
				if not d or not self.pass_on(d): break
		except OSError: pass
		self.end()
	def pass_on(self, d):
		"""whether to go on"""
		buf = self.buf + d; out = b''
		while len(buf) >= 5:
			n = struct.unpack('!I', buf[1:5])[0] + 1
			if len(buf) < n: break
			t, b = buf[:1], buf[5:n]; buf = buf[n:]
			f = self.proxy.transform
			r = f(t, b) if f else [(t, b)]
			if r is None:
				if out: self.c.sendall(out)
				return False
			cut = isinstance(r, tuple)
			for t, b in r:
				self.sent.append(t); out += t + struct.pack('!I', len(b) + 4) + b
			if cut:
				self.c.sendall(out)
				return False
		self.buf = buf
		if out: self.c.sendall(out)
		return True

class Proxy(object):
	"""transform(type, body) gives the messages to send in place of one of the server's, a tuple of them to cut the connection after them, or None to cut it"""
	def __init__(self, server=None, tls=False):
		self.tls = tls
		self.server = server or pg.server()
		self.path = os.path.join(self.server.dir, 'proxy%d' % next(_n))
		self.transform = None
		self.links = []
		self.l = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM); self.l.bind(self.path); self.l.listen(20)
		threading.Thread(target=self.run, daemon=True).start()
	def run(self):
		while True:
			try: c, _ = self.l.accept()
			except OSError: return
			self.links.append(Link(self, c)); del self.links[:-5]
	def connect(self, pkg, **kw):
		drv = importlib.import_module(pkg.__name__ + '.driver')
		if self.tls: kw.setdefault('sslmode', 'require'); kw['sslrootcrtfile'] = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tls', 'a.crt')
		c = drv.default.fit(unix=self.path, user=self.server.user, database='test', **kw)(); c.connect(); return c
	def close(self):
		try: self.l.shutdown(socket.SHUT_RDWR)
		except OSError: pass
		self.l.close()
		try: os.unlink(self.path)
		except OSError: pass
		for x in self.links: x.end()

def fields(b):
	r = []
	while b and b[:1] != b'\0':
		e = b.index(b'\0'); r.append((b[:1], b[1:e])); b = b[e + 1:]
	return r
def unfields(l): return b''.join(k + v + b'\0' for k, v in l) + b'\0'
