"""C30: editing a configuration file changes exactly the given settings."""
import os, io, re, sys, contextlib
from hypothesis import strategies as st
from vlib.core import law, check, eq, OUT, must_raise, Violation
from vlib import pg
import postgresql.configfile as F

RULE = ("Files of settings (plain, quoted, escaped), duplicates, commented settings, prose comments and blank lines with varied spacing, with and "
	"without a final newline; alterations, removals and mapping operations. Oracles: an independent reader of the server's file grammar, and the "
	"server's own reading (pg_file_settings). Non-trivial: an altered setting occurs in the file, or a value needs quoting.")
ASSUME = ["lines are `name = value` (the equals sign present), names without their optional case variation when read as a mapping",
	"commented-out occurrences of an altered setting may be put to use, as documented by the winning cases of the editor"]

NAMES = ['port', 'work_mem', 'foo.bar', 'search_path', 'a_1', 'x', 'log_line_prefix', 'max_connections', 'my.x1', 'po', 'port2']
special = st.text(alphabet='ab\'"\\ #=n0\n\t\r%,;$1é', max_size=8)
anyval = st.one_of(special, st.text(alphabet=st.characters(exclude_characters='\0', exclude_categories=('Cs',), min_codepoint=9), max_size=8), st.sampled_from(['', 'on', '12MB', '*', 'a#b', "it's", '\\', '\\n', "''", "'", "a=b", ' x ', '#', '5432', 'x' * 60]))
plain = st.one_of(st.sampled_from(['on', 'off', '5', '0', '12', 'md5', 'a_b', '1.5', '-1', '16MB', '0x1F', 'a:b/c']), st.from_regex(r'[a-z][a-z0-9_:/-]{0,6}', fullmatch=True))

def quote(s, how):
	out = "'"
	for i, c in enumerate(s):
		if c == "'":
			out += "''" if (how + i) % 2 else "\\'"
		elif c == '\\':
			out += '\\\\'
		elif c == '\n':
			out += '\\n'
		elif c == '\r':
			out += '\\r'
		elif c == '\t' and how % 3 == 1:
			out += '\\t'
		elif c == 'a' and how % 4 == 3:
			out += '\\141'
		else:
			out += c
	return out + "'"

sp = st.sampled_from(['', ' ', '  ', '\t', ' \t '])
@st.composite
def line(draw):
	"""(text, name or None, value or None, commented)"""
	k = draw(st.integers(0, 9))
	if k == 0:
		return (draw(st.sampled_from(['', ' ', '\t'])), None, None, False)
	if k == 1:
		c = draw(st.sampled_from(['# a comment', '#', '# see port = 5 for more', '# a comment = here', '## port is good', ' # x y = z', '#include x', '# work mem = 4', "# it's = 3", '#= 4 !']))
		return (c, None, None, False)
	name = draw(st.sampled_from(NAMES))
	shown = name if draw(st.integers(0, 7)) else name.upper()
	if draw(st.booleans()):
		v = draw(plain)
		t = v
	else:
		v = draw(anyval)
		t = quote(v, draw(st.integers(0, 11)))
	pre = draw(sp)
	com = k in (2, 3)
	if com:
		pre += draw(st.sampled_from(['#', '# ', '##', '#\t#']))
	tail = draw(st.sampled_from(['', '', ' ', '\t', ' # comment', '# adjacent', " # port = 3 'x", ' #']))
	return (pre + shown + draw(sp) + '=' + draw(sp) + t + tail, name, v, com)

files = st.lists(line(), max_size=8)
def text(ls, nl):
	return '\n'.join(l[0] for l in ls) + ('\n' if nl and ls else '')
def as_lines(s):
	return io.StringIO(s).readlines()

# ---- an independent reader of the server's grammar (guc-file.l), for lines with '='
LINE = re.compile(r"""[ \t\r\f\v]*([A-Za-z_\x80-\U0010ffff][A-Za-z_0-9\x80-\U0010ffff.]*)[ \t\r\f\v]*=[ \t\r\f\v]*(?:('(?:[^'\\\n]|\\.|'')*')|([^'\s#]*))[ \t\r\f\v]*(?:\#.*)?\n?\Z""")
ESC = {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
def unq(q):
	out, i, q = '', 0, q[1:-1]
	while i < len(q):
		c = q[i]
		if c == '\\':
			i += 1
			if q[i] in '01234567':
				j = i
				while j < len(q) and j < i + 3 and q[j] in '01234567':
					j += 1
				out += chr(int(q[i:j], 8) & 255)
				i = j
				continue
			out += ESC.get(q[i], q[i])
		elif c == "'":
			i += 1
			out += "'"
		else:
			out += c
		i += 1
	return out
def effective(lines):
	"""[(index, name, value)] of the lines in effect"""
	out = []
	for i, l in enumerate(lines):
		m = LINE.match(l)
		if m:
			out.append((i, m.group(1).lower(), unq(m.group(2)) if m.group(2) else m.group(3)))
	return out
def reading(lines):
	return {n: v for i, n, v in effective(lines)}
def lower(d):
	out = {}
	for k, v in d.items():
		out[k.lower()] = v
	return out

@law(st.tuples(files, st.booleans()), 800)
def reading_gives_the_settings_in_effect(case, t):
	ls, nl = case
	lines = as_lines(text(ls, nl))
	want = {}
	for x, n, v, com in ls:
		if n and not com:
			want[n] = v
	eq(reading(lines), want, 'the oracle reading %r' % lines)
	t.nt(any("'" in x[0] for x in ls))
	if all(x[1] is None or x[0].lstrip(' \t#').startswith(x[1]) for x in ls):
		eq(F.read_config(lines), want, 'read_config(%r)' % lines)
		for n in NAMES[:4]:
			eq(F.read_config(lines, selector = n.__eq__), {k: v for k, v in want.items() if k == n}, 'read_config of %s alone' % n)
		d = {'zz': '1', 'port': 'old'}
		F.read_config(lines, d)
		eq(d, dict({'zz': '1', 'port': 'old'}, **want), 'read_config into a dictionary')

@law(st.tuples(st.lists(line(), min_size=1, max_size=8), st.booleans()), 150)
def reading_agrees_with_the_server(case, t):
	ls, nl = case
	srv = pg.server()
	path = os.path.join(srv.data, 'extra.conf')
	# settings the server knows only as placeholders: its checks of values do not interfere
	ren = lambda s: s.replace('port2', 'p.p2')
	ls = [(re.sub(r'^([\s#]*)(\w+)(\s*=)', r'\1z.\2\3', x[0]) if x[1] and '.' not in x[1] else x[0],) for x in ls]
	txt = text(ls, nl)
	with open(path, 'w', newline='', encoding='utf-8') as f:
		f.write(txt)
	global raw
	try:
		raw
	except NameError:
		raw = srv.raw()
		with open(srv.data + '/postgresql.conf', 'a') as f:
			f.write("\ninclude 'extra.conf'\n")
	rows = raw.query("SELECT sourcefile LIKE '%/extra.conf', name, setting, error FROM pg_file_settings ORDER BY seqno")
	check(not any(r[3] and 'syntax' in r[3] for r in rows), 'the server finds an error in %r: %r', txt, rows)
	want = {}
	for r in rows:
		if r[0] == 't':
			want[r[1].lower()] = r[2]
	t.nt(any("'" in x[0] for x in ls))
	lines = as_lines(txt)
	eq(reading(lines), want, 'the oracle reading %r' % lines)
	with open(path, encoding='utf-8') as f:
		got = F.read_config(f)
	low = {}
	for k, v in got.items():
		low[k.lower()] = v
	if len(low) == len(got):
		eq(low, want, 'read_config(%r) and the server' % lines)

alts = st.dictionaries(st.sampled_from(NAMES + ['new.one', 'another_setting']), st.one_of(anyval, anyval, plain, st.none()), min_size=1, max_size=4)

def after(lines, result, alt, what):
	joined = ''.join(result)
	res = as_lines(joined)
	want = reading(lines)
	for k, v in alt.items():
		if v is None:
			want.pop(k, None)
		else:
			want[k] = v
	eq(reading(res), want, '%s: settings in effect after %r of %r, written as %r' % (what, alt, lines, joined))
	got = F.read_config(res)
	eq({k: got.get(k, got.get(k.upper())) for k in alt}, {k: v for k, v in alt.items()}, '%s: read_config after %r of %r' % (what, alt, lines))
	eff = effective(res)
	for k, v in alt.items():
		eq(sum(n == k for i, n, _ in eff), 0 if v is None else 1, '%s: lines in effect for %s in %r' % (what, k, joined))
	# every line that does not name an altered setting is as it was, in place
	cand = re.compile(r'^[\s#]*(%s)\s*=' % '|'.join(re.escape(k) for k in alt), re.I)
	for i, l in enumerate(lines):
		check(i < len(res), '%s: line %d is gone', what, i)
		if not cand.match(l):
			eq(res[i].rstrip('\n'), l.rstrip('\n'), '%s: line %d, altering %r of %r' % (what, i, alt, lines))
	for l in res[len(lines):]:
		check(cand.match(l), '%s: unexpected line %r', what, l)
	# what follows the value stays, as a comment
	return res

@law(st.tuples(files, st.booleans(), alts), 2500)
def an_alteration_changes_exactly_its_settings(case, t):
	ls, nl, alt = case
	lines = as_lines(text(ls, nl))
	t.nt(any(x[1] in alt for x in ls) or any(v and F.quote in v for v in alt.values()))
	res = after(lines, F.alter_config(dict(alt), list(lines)), alt, 'alter_config')
	again = as_lines(''.join(F.alter_config(dict(alt), list(res))))
	eq(again, res, 'altering again by %r' % alt)
	# only some of the keys
	ks = sorted(alt)[:1]
	after(lines, F.alter_config(dict(alt), list(lines), keys = list(ks)), {k: alt[k] for k in ks}, 'alter_config with keys')
	# trailing comments survive
	for i, x in enumerate(ls):
		if x[1] in alt and '# comment' in x[0] and not x[3]:
			check('# comment' in res[i], 'the comment of %r is gone: %r', lines[i], res[i])

ops = st.lists(st.one_of(
	st.tuples(st.just('set'), st.sampled_from(NAMES), anyval),
	st.tuples(st.just('del'), st.sampled_from(NAMES)),
	st.tuples(st.just('update'), alts),
	st.tuples(st.just('with'), st.dictionaries(st.sampled_from([n for n in NAMES if '.' not in n]), anyval, min_size=1, max_size=2)),
	st.tuples(st.just('dotconf'), st.dictionaries(st.sampled_from(NAMES), st.one_of(st.none(), anyval.filter(lambda v: '\0' not in v)), max_size=3),
		st.dictionaries(st.sampled_from(NAMES), anyval, max_size=2), st.booleans()),
), max_size=4)

@law(st.tuples(files, st.booleans(), ops), 500)
def the_mapping_and_the_command_edit_the_file(case, t):
	ls, nl, steps = case
	ls = [x for x in ls if x[1] is None or x[0].lstrip(' \t#').startswith(x[1])]
	path = os.path.join(OUT, 'c30.conf')
	with open(path, 'w', newline='') as f:
		f.write(text(ls, nl))
	c = F.ConfigFile(path)
	def content():
		with open(path) as f:
			return f.readlines()
	t.nt(len(steps) > 1)
	for op in steps:
		before = content()
		if op[0] == 'set':
			c[op[1]] = op[2]
			after(before, content(), {op[1]: op[2]}, 'set')
		elif op[0] == 'del':
			del c[op[1]]
			after(before, content(), {op[1]: None}, 'del')
		elif op[0] == 'update':
			c.update(dict(op[1]))
			after(before, content(), op[1], 'update')
		elif op[0] == 'with':
			old = reading(before)
			with c(**op[1]):
				after(before, content(), op[1], 'with')
			eq(reading(content()), old, 'settings after the with block')
		else:
			alt, fset, stdout = op[1:]
			from postgresql.bin.pg_dotconf import command
			args = ['pg_dotconf']
			if fset:
				sp_ = os.path.join(OUT, 'c30.set')
				with open(sp_, 'w', newline='') as f:
					f.write('# comment\n#port = 99\n' + ''.join('%s = %s\n' % (k, quote(v, 1)) for k, v in fset.items()))
				args += [['-f', sp_], ['--file', sp_], ['--file=' + sp_], ['-f' + sp_]][len(alt) * 3 + len(fset) & 3]
				k0 = sorted(fset)[0]
				if len(alt) == 1:
					# what the later file says holds
					fset = dict(fset); fset[k0] = 'later'
					with open(sp_ + '2', 'w') as f: f.write("%s = 'later'" % k0)
					args += ['-f', sp_ + '2']
			if stdout:
				args.append('--stdout')
			args.append(path)
			args += [k if v is None else '%s=%s' % (k, v) for k, v in alt.items()]
			buf = io.StringIO()
			with contextlib.redirect_stdout(buf):
				try:
					rc = command(args)
				except SystemExit as e:
					raise Violation('pg_dotconf %r: exit %r' % (args, e.code))
			eq(rc or 0, 0, 'exit code')
			full = dict(fset)
			full.update(alt)
			if stdout:
				eq(content(), before, 'the file with --stdout')
				after(before, as_lines(buf.getvalue()), full, 'pg_dotconf --stdout')
			else:
				after(before, content(), full, 'pg_dotconf')
		now = reading(content())
		if any(k != k.lower() for k in F.read_config(content())):
			return
		eq(dict(c.items()), now, 'items()')
		eq(sorted(c.keys()), sorted(now), 'keys()')
		eq(sorted(c), sorted(now), 'iteration')
		eq(len(c), len(now), 'len')
		eq(sorted(c.values()), sorted(now.values()), 'values()')
		for k in ('port', 'foo.bar', 'x'):
			eq(c.get(k), now.get(k), 'get(%s)' % k)
			eq(c.get(k, 'dflt'), now.get(k, 'dflt'), 'get(%s, default)' % k)
			if k in now:
				eq(c[k], now[k], 'item %s' % k)
			else:
				must_raise(KeyError, 'missing %s' % k, c.__getitem__, k)
		eq(c.getset({'port', 'x'}), {k: now.get(k) for k in ('port', 'x')}, 'getset')

@law(st.tuples(files, st.booleans(), st.dictionaries(st.sampled_from(NAMES), st.one_of(st.none(), anyval.filter(lambda v: '\0' not in v and '\r' not in v)), max_size=3), st.sampled_from(['stdin', 'stdin', 'process', 'bad', 'none'])), 40)
def the_command_as_a_process(case, t):
	import subprocess, sys
	ls, nl, alt, how = case
	ls = [x for x in ls if x[1] is None or x[0].lstrip(' \t#').startswith(x[1])]
	path = os.path.join(OUT, 'c30p.conf')
	with open(path, 'w', newline='', encoding='utf-8') as f: f.write(text(ls, nl))
	with open(path, encoding='utf-8') as f: before = f.readlines()
	with open(path, 'rb') as f: raw = f.read()
	if b'\r' in raw: return
	env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(F.__file__)), PYTHONUTF8='1')
	args = [k if v is None else '%s=%s' % (k, v) for k, v in alt.items()]
	if how == 'bad': args.insert(len(args) // 2, ' =5')
	cmd = [sys.executable, '-m', 'postgresql.bin.pg_dotconf'] + ([] if how == 'none' else ['/dev/stdin' if how == 'stdin' else path] + args)
	if any(a.startswith('-') for a in args): return
	with open(path, 'rb') as f: p = subprocess.run(cmd, stdin=f, capture_output=True, env=env, timeout=100)
	out = p.stdout.decode('utf-8')
	t.nt(bool(alt)); t.ev(how)
	eq(p.returncode, 1 if how == 'bad' else 0, 'exit status: %s' % p.stderr.decode()[-500:])
	with open(path, 'rb') as f: now = f.read()
	if how != 'process': eq(now, raw, 'the file')
	if how == 'stdin': after(before, as_lines(out), alt, 'pg_dotconf /dev/stdin')
	else:
		eq(out, '', 'output')
		if how == 'bad': check(b'invalid setting' in p.stderr or p.stderr, 'no complaint')
		if how == 'process':
			with open(path, encoding='utf-8') as f: after(before, f.readlines(), alt, 'pg_dotconf')
