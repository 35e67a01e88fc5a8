"""C36: The Python commands run exactly the given code, like Python would, with the connection."""
import os, sys, io, re, code, types, contextlib, ctypes, subprocess, tempfile, traceback, itertools, importlib, linecache, shutil
from hypothesis import strategies as st
from vlib import live
from vlib.core import law, check, eq, raised, OUT
import postgresql.python.command as C

RULE = ("Programs of printing, assigning, defining, failing and exiting statements, as context code, modules and scripts followed by a command, module, script, standard input or console lines, with any arguments, "
	"run by Execution, the command line functions and console. Oracle: the same programs run by exec() in one namespace of the reference, or by the console of the standard library; and the process' state before and after. Non-trivial: two programs at least, or a failure.")
ASSUME = ["`-m` names a module, not a package", "contexts do not exit", "the frames of the compiler's caller shown with a syntax error are not specified"]

libc = ctypes.CDLL(None); libc.getenv.restype = ctypes.c_char_p
serial = itertools.count()
MARK = 'C36_'
line = st.one_of(
	st.sampled_from(['v0 = 1', 'v1 = 2', 'v0 = v0 + 10', 'v1 = [v0]', 'print(v0)', 'print(v1)', 'print(__name__)', 'print(sys.argv[1:])', 'print(len(sys.argv))', 'sys.argv.append("more")', 'sys.argv = ["other"]',
		'os.environ["C36_A"] = "1"', 'os.environ["C36_B"] = "zwei"', 'print(os.environ.get("C36_A"), os.environ.get("C36_B"))', 'os.environ.pop("C36_B", None)', 'import __main__; print(__main__.__dict__ is globals())',
		'print(os.path.basename(__file__))', 'print(sys.argv[0] == __file__)', 'print("é€")', 'x = "unused"', 'pass', '# a comment', 'print(sorted(k for k in globals() if k in ("v0", "v1", "f", "K")))',
		'def f(x = 3):\n\treturn [x, v0]', 'print(f(4))', 'print(f())', 'class K(object):\n\tdef m(self): return v0 // 0 if v0 == 11 else self\n\tdef __repr__(self): return "K()"', 'print(K().m())', 'print([v0 for i in range(2)])',
		'for i in range(3):\n\tprint(i, end=" ")', 'try:\n\tv2\nexcept NameError:\n\tprint("no v2")', 'try:\n\tsys.exit(2)\nexcept SystemExit:\n\tprint("stays")', 'global v0', '"text"', 'del v0', 'assert v0', 'print(__builtins__ is not None and len("abc"))']),
	st.sampled_from(['print(v0)', 'v0 = 1', 'print("here")', 'sys.argv.append("x")']))
bad = st.sampled_from(['1 // 0', 'raise KeyError("k")', 'f(', 'x = = 1', 'raise KeyboardInterrupt()', 'undefined_name', 'raise ValueError("a\\nb")', 'K().nothing', 'def g():\n\traise LookupError(1)\ng()', 'import nothing_of_this_name', '\tprint(1)',
	'try:\n\t1 // 0\nexcept Exception as e:\n\traise ValueError("next") from e', 'try:\n\t1 // 0\nexcept Exception:\n\traise TypeError("during")', 'raise ExceptionGroup("g", [ValueError(1)])', 'return 1', 'raise GeneratorExit'])
leave = st.sampled_from(['sys.exit()', 'sys.exit(3)', 'sys.exit(0)', 'sys.exit("message")', 'raise SystemExit(4)', 'def g():\n\tsys.exit(5)\ng()', 'sys.exit(None)', 'sys.exit(True)', 'sys.exit(256)', 'exit = sys.exit; exit(7)'])
def program(end): return st.tuples(st.lists(line, max_size=5), st.sampled_from([True] * 3 + [False]).flatmap(lambda b: st.just([]) if b else end), st.lists(line, max_size=2)).map(lambda x: x[0] + x[1] + x[2])
one = lambda s: s.map(lambda x: [x])
arg = st.one_of(st.sampled_from(['a', '-x', '--', '-c', '-m', '--help', '', 'é', '-C', 'a b', '-', '--version', "'"]), st.text(alphabet='ab-= ', max_size=4))
case_ = st.fixed_dictionaries({'context': st.lists(st.tuples(st.sampled_from(['code', 'file', 'module', 'code']), program(one(bad))), max_size=3), 'kind': st.sampled_from(['c', 'm', 'script', 'c', 'pkg', 'stdin']), 'main': program(one(st.one_of(bad, leave, leave))),
	'args': st.lists(arg, max_size=3), 'encoding': st.sampled_from(['utf-8'] * 4 + ['bom', 'latin-1']), 'pm': st.sampled_from([None, None, None, 'seen', 'fails'])})

class Place(object):
	"""a directory of modules and scripts"""
	def __enter__(self):
		self.dir = tempfile.mkdtemp(dir=OUT); self.path = list(sys.path)
		self.mods = set(sys.modules)
		sys.path.insert(0, self.dir); importlib.invalidate_caches()
		return self
	def __exit__(self, *a):
		sys.path[:] = self.path
		for k in set(sys.modules) - self.mods:
			if k.startswith('c36'): del sys.modules[k]
		shutil.rmtree(self.dir, ignore_errors=True)
		linecache.clearcache()
	def write(self, name, src, encoding='utf-8'):
		p = os.path.join(self.dir, name)
		os.makedirs(os.path.dirname(p), exist_ok=True)
		b = src.encode('utf-8') if encoding == 'utf-8' else b'\xef\xbb\xbf' + src.encode('utf-8') if encoding == 'bom' else b'# -*- coding: iso-8859-15 -*-\n' + src.encode('iso-8859-15')
		with open(p, 'wb') as f: f.write(b)
		return p

def source(ls): return 'import sys, os\n' + '\n'.join(ls) + '\n'
class Exec(object):
	"""the reference: a namespace"""
	def __init__(self): self.mod = types.ModuleType('__main__'); self.mod.__dict__['__builtins__'] = __builtins__
	def run(self, src, name, **names):
		"""the exception, or None; what is shown of it"""
		self.mod.__dict__.update(names)
		try: co = compile(src, name, 'exec')
		except SyntaxError as e: return e, traceback.format_exception_only(type(e), e), False
		try: exec(co, self.mod.__dict__)
		except BaseException as e: return e, traceback.format_exception(type(e), e, e.__traceback__.tb_next), True
		return None, None, None

class State(object):
	"""of the process, put back at the end"""
	def __init__(self):
		for k in ('C36_A', 'C36_B'): os.environ.pop(k, None)
		os.environ['C36_B'] = 'before'
		self.environ = os.environ; self.content = dict(os.environ); self.argv = sys.argv; self.args = list(sys.argv); self.main = sys.modules['__main__']; self.path = list(sys.path); self.out = sys.stdout, sys.stderr, sys.stdin
	def same(self):
		check(sys.argv is self.argv or list(sys.argv) == self.args, 'sys.argv afterwards: %r', sys.argv)
		check(sys.modules['__main__'] is self.main, '__main__ afterwards: %r', sys.modules['__main__'])
		eq(dict(os.environ), self.content, 'the environment afterwards')
		for k in ('C36_A', 'C36_B'): eq(libc.getenv(k.encode()), self.content.get(k, '').encode() or None, 'the environment of the process afterwards (%s)' % k)
		os.environ['C36_A'] = 'set'
		try: eq(libc.getenv(b'C36_A'), b'set', 'the environment given to processes once set after the execution')
		finally: del os.environ['C36_A']
	def back(self):
		os.environ = self.environ
		for k in set(os.environ) - set(self.content): del os.environ[k]
		os.environ.update(self.content)
		sys.argv = self.argv; sys.argv[:] = self.args; sys.modules['__main__'] = self.main; sys.path[:] = self.path
		sys.stdout, sys.stderr, sys.stdin = self.out
		for k in ('last_type', 'last_value', 'last_traceback'): sys.__dict__.pop(k, None)
		sys.modules.pop('__context__', None)

def strip(s, d): return s.replace(d, 'DIR')
def shown(got, exp, exact, what, d):
	if exact: eq(got.splitlines(), ''.join(exp).splitlines(), what)
	else: check(got.rstrip('\n').endswith(''.join(exp).rstrip('\n').lstrip()) or got.rstrip('\n').endswith(exp[-1].rstrip('\n')), '%s: %r', what, got)

@law(case_, 500)
def contexts_and_main_run_as_one_program(c, t):
	stt = State(); n = next(serial)
	try:
		with Place() as pl:
			enc = c['encoding'] if '€' not in ''.join(c['main']) or c['encoding'] != 'latin-1' else 'utf-8'
			argv = ['cmd']; units = []
			for i, (k, ls) in enumerate(c['context']):
				src = source(ls)
				if k == 'code': argv += ['-C', src]; units.append((src, '<command>', '<command>'))
				elif k == 'file':
					p = pl.write('ctx%d.py' % i, src); argv += ['--context=file://' + p]; units.append((src, p, p))
				else:
					p = pl.write('c36ctx%d_%d.py' % (n, i), src); argv += ['-C', 'module:c36ctx%d_%d' % (n, i)]; units.append((src, p, p))
			src = source(c['main']); kind = c['kind']; package = None; args = list(c['args']); stdin = None
			if kind == 'c': argv += ['-c', src]; fn = '<command>'
			elif kind == 'script':
				fn = pl.write('script.py', src, enc); argv += [fn]
				if enc == 'latin-1': src = '# -*- coding: iso-8859-15 -*-\n' + src
			elif kind == 'm': fn = pl.write('c36main%d.py' % n, src); argv += ['-m', 'c36main%d' % n]
			elif kind == 'pkg':
				pl.write('c36pkg%d/__init__.py' % n, 'v = "of the package"\n'); pl.write('c36pkg%d/other.py' % n, 'v = "beside"\n')
				src = 'from . import other, v\nprint(v, other.v)\n' + src
				fn = pl.write('c36pkg%d/main.py' % n, src); argv += ['-m', 'c36pkg%d.main' % n]; package = 'c36pkg%d' % n
			else: fn = '<stdin>'; stdin = io.StringIO(src); args = []
			argv += args
			# the reference
			x = Exec(); out = io.StringIO(); sys.stdout = out; exp = None; failed_context = False
			ref_main = sys.modules['__main__']; sys.modules['__main__'] = x.mod
			x.mod.__package__ = package; importlib.invalidate_caches()
			if package: importlib.import_module(package)
			try:
				for s, name, f in units:
					e, text, exact = x.run(s, name, __file__=f)
					if e is not None: failed_context = True; exp = (1, text, exact, e); break
				if exp is None:
					sys.argv = [fn] + args
					e, text, exact = x.run(src, fn, __file__=fn)
					exp = (0, [], True, None) if e is None else (e.code, [], True, e) if isinstance(e, SystemExit) else (1, text, exact, e)
			finally: stt.back(); os.environ.pop('C36_A', None); os.environ['C36_B'] = 'before'
			for k in set(sys.modules) - pl.mods:
				if k.startswith('c36'): del sys.modules[k]
			# the library
			seen = []
			pm = None
			if c['pm']:
				m = types.ModuleType('c36pm')
				def hook():
					seen.append((sys.last_type, sys.last_value))
					if c['pm'] == 'fails': raise RuntimeError('of the hook')
				m.hook = hook; sys.modules['c36pm'] = m; pm = 'c36pm.hook'
			got = io.StringIO(); err = io.StringIO()
			sys.stdout, sys.stderr = got, err
			argv0 = list(argv); sys.path[:] = [pl.dir] + stt.path; importlib.invalidate_caches()
			try:
				if kind == 'stdin':
					o = C.optparse.OptionParser(); o.disable_interspersed_args(); o.add_options(C.default_optparse_options)
					co, ca = o.parse_args(argv[1:])
					px = C.Execution(ca, context=getattr(co, 'python_context', ()) or (), loader=getattr(co, 'python_main', None), stdin=stdin)
				else: px = C.command_execution(argv)
				sys.path[:] = [pl.dir] + stt.path
				eq(px.get_main_source(), src, 'get_main_source()')
				rv = px(context=C.postmortem(pm))
			finally: sys.stdout, sys.stderr = stt.out[:2]
			try:
				eq(argv, argv0, 'the arguments given')
				eq(got.getvalue(), out.getvalue(), 'what was printed')
				check(rv == exp[0] and type(rv) is type(exp[0]), 'exit status %r, not %r', rv, exp[0])
				if not seen or c['pm'] != 'fails': shown(err.getvalue(), exp[1], exp[2], 'the traceback', pl.dir)
				compiled = exp[3] is not None and not exp[2]
				if pm and not failed_context and not compiled:
					eq(len(seen), 1 if exp[3] is not None else 0, 'calls of the post-mortem function')
					if seen: check(seen[0][0] is type(exp[3]) and str(seen[0][1]) == str(exp[3]), 'the exception given to the post-mortem function: %r', seen)
					if c['pm'] == 'fails' and seen: check('of the hook' in err.getvalue(), 'failure of the post-mortem function: %r', err.getvalue())
				elif not pm: eq(seen, [], 'calls of the post-mortem function')
				if exp[3] is not None and not failed_context and not compiled: check(sys.last_type is type(exp[3]) and str(sys.last_value) == str(exp[3]), 'sys.last_type: %r', sys.last_type)
				stt.same()
			finally: sys.modules.pop('c36pm', None)
			t.ev(kind); t.ev('failed' if exp[0] else 'ran'); t.nt(units or exp[0])
	finally: stt.back()

@law(st.tuples(st.sampled_from(['m', 'm pkg', 'script', 'context file', 'context module', 'script dir']), st.lists(arg, max_size=2)), 40)
def what_is_missing_is_refused(case, t):
	how, args = case; t.nt(True); t.ev(how); stt = State()
	try:
		with Place() as pl:
			p = os.path.join(pl.dir, 'none.py'); err = io.StringIO()
			argv = ['cmd'] + {'m': ['-m', 'c36none'], 'm pkg': ['-m', 'c36none.sub'], 'script': [p], 'script dir': [pl.dir], 'context file': ['-C', 'file://' + p, '-c', 'print("main")'], 'context module': ['-C', 'module:c36none', '-c', 'print("main")']}[how] + args
			out = io.StringIO(); sys.stdout, sys.stderr = out, err
			try:
				e, px = raised(C.command_execution, argv)
				if e is None: e, rv = raised(px)
			finally: sys.stdout, sys.stderr = stt.out[:2]
			if how.startswith('context'):
				check(e is None and rv == 1, 'exit status %r (%r)', e if e is not None else rv, how)
				check('none' in err.getvalue(), 'the context is not named: %r', err.getvalue())
			else: check(isinstance(e, ImportError if how[0] == 'm' else OSError), '%s: %r', how, e)
			eq(out.getvalue(), '', 'what ran')
			stt.same()
	finally: stt.back()

# the console
cline = st.one_of(st.sampled_from(['v0 = 1', 'v0', 'v0 + 1', 'print(v0)', '"a\\\\b"', 'def f(x):', '\treturn x + 1', '', '', 'f(2)', 'for i in range(2):', '\tprint(i)', 'x = (1,', '2)', 'x', '"""', '\\set nothing', '\\', 'text"""', '1 // 0', 'x = = 1', 'nothing', 'if v0:', 'else:', '_', 'import os', ' ', '# \\?', 'raise KeyError(1)',
	'def g(): return f(0) // 0', 'g()', 'class K:', '\tpass']), st.sampled_from(['v0', 'v0 = 2', 'print("x")']))
slash = st.one_of(st.tuples(st.just('set'), st.lists(st.sampled_from(['C36_A=1', 'C36_A=a=b', "'C36_B=x y'", 'C36_B', 'C36_A', 'C36_A=']), min_size=1, max_size=3)), st.tuples(st.just('i'), st.lists(cline.filter(lambda l: l[:1] != '\\' and 'exit' not in l), max_size=4), st.sampled_from(['path', 'path', 'missing', 'two', 'space'])),
	st.tuples(st.just('x'), st.sampled_from(['print(len(sys.argv))', 'sys.exit(3)', 'sys.exit()', '1 // 0', 'v0', 'sys.exit("text")', 'print(__name__)'])), st.tuples(st.sampled_from(['unknown', 'help'])), st.tuples(st.just('e'), st.sampled_from(['e', 'E', 'e path']), st.sampled_from(['a', 'A ', 'b', 'a b']), st.sampled_from(['v0 = 7', 'print("edited")', '1 // 0', 'x = = 1'])))
@law(st.tuples(st.lists(st.one_of(cline, cline, cline, slash), min_size=1, max_size=12), st.lists(st.sampled_from(['interact', 'push']), min_size=1, max_size=1)), 250)
def the_console_is_pythons_with_commands(case, t):
	steps, _ = case; stt = State(); n = next(serial)
	try:
		with Place() as pl:
			old = tempfile.tempdir; tempfile.tempdir = pl.dir
			ref = code.InteractiveConsole({'__name__': '__main__'}); ns = {'__name__': '__main__'}; con = C.ExtendedConsole(locals=ns)
			ref_ns = ref.locals; env = {'C36_B': 'before'}; files = {}
			editor = pl.write('editor.sh', '#!/bin/sh\nfor f in "$@"; do cat "$C36_TEXT" > "$f"; echo "$f" >> "$C36_LOG"; done\n'); os.chmod(editor, 0o755)
			os.environ['EDITOR'] = editor; os.environ['C36_TEXT'] = pl.write('text', ''); log = os.environ['C36_LOG'] = pl.write('log', '')
			def do(f, *a):
				o, e = io.StringIO(), io.StringIO()
				hook = sys.displayhook
				sys.stdout, sys.stderr = o, e
				try: r = f(*a)
				finally: sys.stdout, sys.stderr = stt.out[:2]
				return r, o.getvalue(), e.getvalue()
			def execute(src, p):
				"""what \\i does in the reference"""
				try: co = compile(src, p, 'exec')
				except SyntaxError as x: return '', traceback.format_exception_only(type(x), x)[-1], False
				o = io.StringIO(); sys.stdout = o
				try:
					try: exec(co, ref_ns)
					except Exception as x: return o.getvalue(), ''.join(traceback.format_exception(type(x), x, x.__traceback__.tb_next)), True
				finally: sys.stdout = stt.out[0]
				return o.getvalue(), '', True
			def same_shown(got, exp, exact, what):
				if exact: eq(got, exp, what)
				else: check(exp.strip() in got, '%s: %r', what, got)
			try:
				did = 0
				for s in steps:
					if isinstance(s, str):
						if s.startswith('\\') and not ref.buffer: continue
						a = do(ref.push, s); b = do(con.push, s)
						eq((bool(b[0]), b[1], b[2].replace('<input>', '<console>')), (bool(a[0]), a[1], a[2].replace('<input>', '<console>')), 'the line %r' % s); continue
					if ref.buffer:
						# a backslash is part of the statement begun
						l = '\\%s' % s[0]
						a = do(ref.push, l); b = do(con.push, l)
						eq((bool(b[0]),) + b[1:], (bool(a[0]),) + a[1:], 'the line %r' % l); t.ev('continued'); continue
					did += 1; t.ev(s[0])
					if s[0] == 'set':
						r, o, e = do(con.push, '\\set ' + ' '.join(s[1])); exp = ''
						for w in s[1]:
							w = w.strip("'")
							if '=' in w: k, v = w.split('=', 1); env[k] = v
							else: k = w
							exp += '%s=%s\n' % (k, env.get(k, ''))
						eq(e, exp, '\\set shows'); eq(o, '', '\\set prints')
						for k in ('C36_A', 'C36_B'): eq(os.environ.get(k), env.get(k), k)
					elif s[0] == 'i':
						names = ['in put.py'] if s[2] == 'space' else ['in1.py', 'in2.py'] if s[2] == 'two' else ['in1.py']
						src = ''.join(l + '\n' for l in s[1])
						ps = [pl.write('i%d/%s' % (n, w), src if i == 0 else 'print("second")\n') for i, w in enumerate(names)]
						if s[2] == 'missing': os.unlink(ps[0])
						linecache.clearcache()
						r, o, e = do(con.push, '\\i ' + ' '.join("'%s'" % p for p in ps))
						if s[2] == 'missing': check('No such file' in e and o == '', 'a missing file: %r %r', o, e)
						else:
							w = execute(src, ps[0])
							eq(o, w[0] + ('second\n' if s[2] == 'two' else ''), 'what the file prints'); same_shown(e, w[1], w[2], 'the error of the file')
					elif s[0] == 'x':
						r, o, e = do(con.push, '\\x -c "import sys; %s" a b' % s[1].replace('"', "'"))
						rv = {'sys.exit(3)': 3, '1 // 0': 1, 'v0': 1, 'sys.exit("text")': 1}.get(s[1], 0)
						check('[Return Value: %d]' % rv in e, '\\x %s: %r', s[1], e)
						eq(o, {'print(len(sys.argv))': '3\n', 'print(__name__)': '__main__\n'}.get(s[1], ''), 'what the command prints')
						if s[1] == 'sys.exit("text")': check('text\n' in e, 'the message of the command: %r', e)
						if s[1] == '1 // 0': check('ZeroDivisionError' in e, 'the error of the command: %r', e)
						if s[1] == 'v0': check('NameError' in e, 'the namespace of the command: %r', e)
					elif s[0] == 'unknown':
						r, o, e = do(con.push, '\\nothing x'); check('ERROR' in e and 'nothing' in e and not o, 'an unknown command: %r', e)
					elif s[0] == 'help':
						r, o, e = do(con.push, '\\?'); check(all(w in e for w in ('\\?', '\\set', '\\E', '\\i', '\\e', '\\x')), 'the help: %r', e)
					elif s[0] == 'e':
						how, names, text = s[1:]
						pl.write('text', text + '\n'); pl.write('log', '')
						if how == 'e path': names = "'%s'" % os.path.join(pl.dir, 'own.py'); words = [os.path.join(pl.dir, 'own.py')]
						else: words = names.lower().split()
						r, o, e = do(con.push, '\\%s %s' % (how[0], names))
						edited = open(log).read().splitlines()
						eq(len(edited), len(words), 'files edited')
						for w, p in zip(words, edited):
							if how == 'e path': eq(p, w, 'the file edited')
							else:
								check(files.setdefault(w, p) == p, 'the file of %r is %r, then %r', w, files[w], p)
								check(os.path.dirname(p) == pl.dir and p.endswith('.py'), 'the temporary file is %r', p)
						check(len(set(files.values())) == len(files), 'names share a file: %r', files)
						w = [execute(text + '\n', p) for p in edited] if how[0] == 'e' else []
						eq(o, ''.join(x[0] for x in w), 'what the edited files print')
						if how[0] == 'E': eq(e, '', 'errors of editing')
						for x in w: same_shown(e, x[1], False, 'errors of the edited files')
					check(not r, 'more lines wanted after \\%s', s[0])
					eq(con.buffer, [], 'the buffer after a command')
				pub = lambda d: {k: v for k, v in d.items() if k in ('v0', 'i') or k == 'x' and isinstance(v, (int, tuple))}
				eq(pub(ns), pub(ref_ns), 'the namespace')
				t.nt(did)
				check(sys.argv is stt.argv and sys.modules['__main__'] is stt.main, 'sys.argv or __main__ were replaced')
			finally: tempfile.tempdir = old
	finally:
		for k in ('EDITOR', 'C36_TEXT', 'C36_LOG'): os.environ.pop(k, None)
		stt.environ.pop('EDITOR', None)
		stt.back()
		import builtins; builtins.__dict__.pop('_', None)

# pg_python
DBLINES = [('print(db.query.first("SELECT 7"))', '7\n'), ('print(prepare("SELECT $1::int + 1").first(4))', '5\n'), ('print(proc("pg_catalog.abs(int4)")(-3))', '3\n'), ('sqlexec("CREATE TEMP TABLE IF NOT EXISTS t36 (a int)"); print(db.query.first("SELECT count(*) FROM t36"))', '0\n'),
	('with xact(): sqlexec("INSERT INTO vt36 VALUES (1)")', [1]), ('sqlexec("INSERT INTO vt36 VALUES (2); INSERT INTO vt36 VALUES (3)")', [2, 3]), ('do("plpgsql", "BEGIN INSERT INTO vt36 VALUES (4); END")', [4]), ('print(settings["application_name"])', 'app'), ('print(db.closed, connector is db.connector)', 'False True\n'),
	('print(db.closed, db.state)', 'state'), ('print(len(sys.argv), sys.argv[1:])', 'args'), ('x = xact(); x.start(); sqlexec("INSERT INTO vt36 VALUES (5)"); x.rollback()', []), ('print([r[0] for r in db.prepare("SELECT generate_series(1, 3)")])', '[1, 2, 3]\n'), ('print(__name__)', '__main__\n'), ('print(db.query.first("SELECT current_user"), db.query.first("SELECT current_database()"))', 'who')]
LIBLINES = [('print(db.c36lib.two())', '2\n'), ('print(db.c36lib.plus(3))', '[(4,)]\n')]
ENDS = [('', 0)] * 4 + [('sys.exit(3)', 3), ('sys.exit()', 0), ('sys.exit("bye")', 1), ('1 // 0', 1), ('db.query("SELECT 1/0")', 1), ('db.close()', 0), ('x = xact(); x.start(); sqlexec("INSERT INTO vt36 VALUES (6)")', 'open'), ('x = xact(); x.start(); sqlexec("INSERT INTO vt36 VALUES (6)"); sys.exit(4)', 4), ('raise KeyboardInterrupt()', 1), ('with xact():\n\tsqlexec("INSERT INTO vt36 VALUES (7)")\n\traise KeyError(8)', 1)]
pgp = st.fixed_dictionaries({'loc': st.sampled_from(['unix', 'unix=', 'iri', 'open']), 'sets': st.lists(st.sampled_from(['application_name=c36', 'application_name=a b', 'search_path=public', 'work_mem=1MB']), max_size=2), 'lib': st.booleans(), 'trace': st.booleans(), 'kind': st.sampled_from(['c', 'script', 'stdin', 'm', 'C']),
	'lines': st.lists(st.sampled_from(DBLINES + LIBLINES), min_size=1, max_size=6), 'end': st.sampled_from(ENDS), 'args': st.lists(arg, max_size=2), 'tty': st.just(False)})
def locator(path): return '[unix:' + path.replace('/', ':') + ']'
@law(pgp, 24, 250)
def pg_python_runs_the_code_with_the_connection(c, t):
	r = live.raw(); n = next(serial)
	for form in (n % 2,):
		F = live.form(form); con = F.get().connector; pkg = F.pkg if isinstance(F.pkg, str) else F.pkg.__name__
		with Place() as pl:
			r.query('CREATE TABLE IF NOT EXISTS vt36 (a int); TRUNCATE vt36')
			lines = [l for l in c['lines'] if c['lib'] or l not in LIBLINES]
			argv = [sys.executable, '-m', pkg + '.bin.pg_python']; env = {k: v for k, v in os.environ.items() if not k.startswith('PG')}
			site = os.path.dirname(os.path.dirname(sys.modules[pkg].__file__)); env['PYTHONPATH'] = site; env['HOME'] = pl.dir; env['PYTHONIOENCODING'] = 'utf-8'
			db = con.database or con.user
			argv += {'unix': ['--unix', con.unix], 'unix=': ['--unix=' + con.unix], 'iri': ['-I', 'pq://' + locator(con.unix)], 'open': ['--unix', '/nonexistent', '-I', 'pq://' + locator(con.unix)]}[c['loc']]
			argv += ['-U', con.user, '-d', db]
			app = ''
			for s in c['sets']:
				argv += ['-s', s]
				if s.startswith('app'): app = s.split('=')[1]
			if c['lib']:
				pl.write('libc36lib.sql', '[two::first]\nSELECT 2\n[plus]\nSELECT $1::int + 1\n'); argv += ['-L', pl.dir, '-l', 'c36lib']
			tr = os.path.join(pl.dir, 'trace')
			if c['trace']: argv += ['--pq-trace=' + tr]
			end, rv = c['end']
			src = 'import sys, os\nprint(os.getpid() > 0, db.backend_id)\n' + ''.join(l[0] + '\n' for l in lines) + end + '\n'; stdin = subprocess.DEVNULL; data = None; args = c['args']
			k = c['kind']
			if k == 'c': argv += ['-c', src]
			elif k == 'C': argv += ['-C', 'import sys', '-C', 'made = db.query.first("SELECT 11")', '-c', 'assert made == 11\n' + src]
			elif k == 'script': argv += [pl.write('script.py', src)]
			elif k == 'm': pl.write('c36m.py', src); env['PYTHONPATH'] += os.pathsep + pl.dir; argv += ['-m', 'c36m']
			else: data = src.encode(); stdin = None; args = []
			argv += args
			p = subprocess.run(argv, env=env, cwd=pl.dir, capture_output=True, timeout=120, **({'input': data} if data is not None else {'stdin': stdin}))
			out = p.stdout.decode().replace('\r', ''); err = p.stderr.decode(errors='replace')
			check(out.startswith('True '), '%s did not run: %s %s', argv[2:], out[-300:], err[-1500:])
			first, _, rest = out.partition('\n'); pid = int(first.split()[1])
			exp = ''; rows = []; state = 'idle'
			for l, e in lines:
				if isinstance(e, list): rows += e
				else: exp += {'app': app + '\n', 'state': 'False idle\n', 'args': '%d %r\n' % (len(args) + 1, args), 'who': '%s %s\n' % (con.user, db)}.get(e, e)
			eq(rest, exp, 'what was printed')
			if rv == 'open': pass		# the transaction left open is aborted; a complaint is a matter of taste
			else: eq(p.returncode, rv, 'exit status')
			if rv == 0 and not c['trace']: eq(err, '', 'errors')
			if end == 'sys.exit("bye")': check(err.strip().endswith('bye'), 'the message of the exit: %r', err)
			if end == '1 // 0': check('ZeroDivisionError' in err and 'Traceback' in err, 'the error: %r', err)
			if 'SELECT 1/0' in end: check('22012' in err, 'the error: %r', err)
			eq(sorted(int(x[0]) for x in r.query('SELECT a FROM vt36')), sorted(rows), 'the rows that stay')
			for i in range(400):
				if not r.query('SELECT 1 FROM pg_stat_activity WHERE pid = %d' % pid): break
				import time; time.sleep(.01)
			else: check(False, 'the connection outlives the command')
			if c['trace']:
				with open(tr, encoding='utf-8') as f: x = f.read()
				for q in ('SELECT 7', 'CREATE TEMP TABLE IF NOT EXISTS t36', 'INSERT INTO vt36 VALUES (1)', 'plus'):
					if [l for l in lines if q in l[0]] and q != 'plus': check(q in x, '%r was not traced', q)
				check('user' in x or 'SELECT' in x, 'the trace: %r', x[:200])
			r.query('TRUNCATE vt36')
		t.ev(k); t.nt(len(lines) > 1)
