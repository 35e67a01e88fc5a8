"""Connections of both forms of the library, and an independent one, to the worker's server."""
import importlib, warnings
from . import pg

class Form(object):
	def __init__(self, name, **kw):
		self.pkg = importlib.import_module(name)
		self.exc = importlib.import_module(name + '.exceptions')
		self.types = importlib.import_module(name + '.types')
		self.kw = kw
		self.db = None
		self.stmts = {}
		self.taken = []
		self.spare = []

	def take(self, n):
		"""n connections of a law's own; those that are as they were go back with give()"""
		while len(self.spare) < n:
			self.spare.append(self.connect())
		r, self.spare = self.spare[:n], self.spare[n:]
		self.taken += r
		return r
	def give(self, dbs):
		dbs = [db for db in dbs if db is not None and not db.closed]
		self.spare += dbs
		for db in self.taken:
			if not any(db is x for x in dbs) and not db.closed: self.drop(db)
		self.taken = []
	@staticmethod
	def drop(db):
		try: db.pq.socket.close()
		except Exception: pass

	def sub(self, name):
		return importlib.import_module(self.pkg.__name__ + '.' + name)

	def connect(self, **kw):
		k = dict(self.kw); k.update(kw)
		return pg.server().connect(self.pkg, **k)

	def get(self):
		if self.db is None or self.db.closed:
			self.db = self.connect()
			self.stmts = {}
		return self.db

	def prepare(self, sql):
		self.get()
		if sql not in self.stmts:
			if len(self.stmts) > 500:
				for s in self.stmts.values(): s.close()
				self.stmts = {}
			self.stmts[sql] = self.db.prepare(sql)
		return self.stmts[sql]

	def reset(self):
		"""drop the connection, e.g. after a failed case"""
		db, self.db, self.stmts = self.db, None, {}
		if db is not None:
			try: db.close()
			except Exception: pass
		for db in self.taken + self.spare: self.drop(db)
		self.taken = []; self.spare = []

_forms = {}
def form(i, **kw):
	k = (i, tuple(sorted(kw.items())))
	if k not in _forms:
		_forms[k] = Form(('postgresql', 'postgresql_pure')[i], **kw)
	return _forms[k]

_raw = {}
def raw(key=None, **kw):
	k = (key, tuple(sorted(kw.items())))
	if k not in _raw:
		_raw[k] = pg.server().raw(**kw)
	return _raw[k]

def reset():
	for f in _forms.values(): f.reset()
	for r in _raw.values():
		try: r.close()
		except Exception: pass
	_raw.clear()
