"""
Laws: executable statements over generated cases.

A check module (checks/cNN.py) defines laws with @law; the worker drives each one
with Hypothesis, counts what was generated, and turns the shrunk failure into a
replay case that runs without the library.
"""
import sys, os, traceback

SITE = os.environ.get('VERIF_SITE', '/repo')
OUT = os.environ.get('VERIF_OUT', '/tmp')
TIER = 'quick'
PASS = os.environ.get('VERIF_PASS', 'plain')

class Violation(Exception):
	"""The property does not hold for the case."""

class Hang(BaseException):
	"""A case did not end within a limit hundreds of times its usual duration."""

LAWS = []

class Law(object):
	def __init__(self, fn, strategy, quick, thorough, asan, hang):
		self.fn, self.strategy, self.quick, self.thorough, self.asan, self.hang = fn, strategy, quick, thorough, asan, hang
		self.name = fn.__name__

def law(strategy, quick = 200, thorough = None, asan = False, hang = 60):
	"""
	strategy: a Hypothesis strategy, or a function returning one.
	asan: whether the law also runs in the sanitizer pass.
	"""
	def deco(fn):
		LAWS.append(Law(fn, strategy, quick, thorough or quick * 20, asan, hang))
		return fn
	return deco

def check(cond, msg = 'law does not hold', *args):
	if not cond:
		raise Violation(msg % args if args else msg)

def short(x, n = 400):
	try:
		r = repr(x)
	except Exception as e:
		r = '<unprintable %s: %r>' % (type(x).__name__, e)
	return r if len(r) <= n else r[:n] + '...[%d]' % len(r)

def eq(got, want, what = ''):
	if not (got == want and type(got) is type(want) or _eqv(got, want)):
		raise Violation('%s: got %s, want %s' % (what, short(got), short(want)))

def _eqv(a, b):
	# equal values; bool is kept apart from int, NaN equals NaN, -0.0 is kept apart from 0.0
	if isinstance(a, bool) != isinstance(b, bool):
		return False
	if isinstance(a, float) and isinstance(b, float):
		import struct
		if a != a and b != b:
			return True
		return struct.pack('d', a) == struct.pack('d', b)
	if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
		return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(_eqv(x, y) for x, y in zip(a, b))
	return a == b

def raised(fn, *args, **kw):
	"""(None, value) or (exception, None)"""
	try:
		return None, fn(*args, **kw)
	except Exception as e:
		if isinstance(e, Violation):
			raise
		return e, None

def must_raise(types, what, fn, *args, **kw):
	e, r = raised(fn, *args, **kw)
	if e is None:
		raise Violation('%s: no error, returned %s' % (what, short(r)))
	if not isinstance(e, types):
		raise Violation('%s: raised %s: %s, want %s' % (what, type(e).__name__, short(e), types))
	return e

def in_site(tb):
	while tb is not None:
		if tb.tb_frame.f_code.co_filename.startswith(SITE + os.sep):
			return True
		tb = tb.tb_next
	return False

def cannot_judge(e, types = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, StopIteration)):
	"""
	Whether the law itself, not the machinery below it, failed to read what it was given: None in place of a row, an
	object without the documented attribute.
	"""
	if not isinstance(e, types):
		return False
	here = os.path.dirname(os.path.abspath(__file__))
	checks = os.path.join(os.path.dirname(here), 'checks')
	tb, inner = e.__traceback__, None
	while tb is not None:
		f = os.path.abspath(tb.tb_frame.f_code.co_filename)
		if os.path.dirname(f) in (here, checks):
			inner = os.path.dirname(f)
		tb = tb.tb_next
	return inner == checks

class T(object):
	"""Per-case context: classification of the case."""
	def __init__(self):
		self.reset()
	def reset(self):
		self.nontrivial = False
		self.events = []
	def nt(self, cond = True):
		if cond:
			self.nontrivial = True
	def ev(self, label):
		self.events.append(label)
