"""C27: connection locators parse and rebuild without loss."""
import string
from hypothesis import strategies as st
from vlib.core import law, check, eq, raised
import postgresql.iri as I
import postgresql.resolved.riparse as R

RULE = ("Connection parameter dictionaries of every key combination with values rich in reserved characters, locators written by an independent "
	"writer of the documented grammar with random extra escaping, and arbitrary strings. Non-trivial: some value holds a reserved character, "
	"or the string has at least two components.")
ASSUME = ["percent escapes stand for the character of that number (the library does not decode UTF-8 sequences)",
	"a password has a user, a port has a host, search_path is a non-empty list of non-empty names: others cannot be written in the grammar"]

RES = ':/?#[]@!$&\'()*+,;=% \n\t"<>\\^`{|}'
val = st.one_of(st.text(alphabet='ab1' + RES, max_size=8), st.text(alphabet=st.characters(exclude_categories=('Cs',)), max_size=8),
	st.sampled_from(['', 'a', 'x.y', '%41', '%', '%zz', '%25', '100%', 'a/b', 'user:name', 'é', '~', '\\1', '\\g<0>', '\\']))
nev = val.filter(bool)
host = st.one_of(st.sampled_from(['localhost', '::1', 'fe80::1%eth0', '127.0.0.1', '', '1:2:3::1', 'h.example']),
	st.text(alphabet='abc.-1', min_size=1, max_size=8), nev)
def ok_host(h):
	return not (h.startswith('[') or h.endswith(']') or ':' in h and (']' in h or '[' in h)) and not h.startswith('unix:')
skey = nev.filter(lambda k: not (k.startswith('[') and k.endswith(']')) and k != 'search_path')
dkey = st.one_of(st.sampled_from(['sslmode', 'connect_timeout', 'role', 'sslcrtfile', 'sslkeyfile']), st.text(alphabet='abc_=&% #', min_size=1, max_size=6)).filter(
	lambda k: k not in ('user', 'password', 'port', 'database', 'ssl', 'path', 'host', 'unix', 'ipv', 'settings'))

@st.composite
def params(draw):
	d = {}
	if draw(st.booleans()):
		d['user'] = draw(val)
		if draw(st.booleans()):
			d['password'] = draw(val)
	k = draw(st.integers(0, 3))
	if k == 1 or k == 2:
		d['host'] = draw(host.filter(ok_host))
		if draw(st.booleans()):
			d['port'] = draw(st.one_of(st.integers(0, 65535).map(str), st.sampled_from(['ssh', '']), val))
		elif not d['host']:
			del d['host'] # nothing is written for it
	elif k == 3:
		d['unix'] = draw(st.one_of(st.just('/tmp/.s.PGSQL.5432'), st.lists(val, min_size=1, max_size=4).map('/'.join)))
	if draw(st.booleans()):
		d['database'] = draw(nev)
	if draw(st.integers(0, 3)) == 0:
		d['path'] = draw(st.lists(val, min_size=1, max_size=3))
	s = draw(st.dictionaries(skey, val, max_size=3)) if draw(st.booleans()) else {}
	if draw(st.integers(0, 3)) == 0:
		s['search_path'] = draw(st.lists(nev, min_size=1, max_size=3))
	if s:
		d['settings'] = s
	for k, v in (draw(st.dictionaries(dkey, val, max_size=2)) if draw(st.booleans()) else {}).items():
		d[k] = v
	return d

def flat(d):
	for k, v in d.items():
		if isinstance(v, dict):
			yield from flat(v)
		elif isinstance(v, list):
			yield from v
		else:
			yield v

@law(params(), 2000)
def building_then_parsing_gives_back_the_parameters(d, t):
	t.nt(any(c in RES for v in flat(d) for c in v))
	s = I.serialize(d)
	p = I.parse(s)
	eq(p, d, 'parse(serialize(%r)) via %r' % (d, s))
	# as a sequence of settings
	if 'settings' in d:
		d2 = dict(d, settings = list(d['settings'].items()))
		eq(I.serialize(d2), s, 'serialize with a sequence of settings')
		sp = d['settings'].get('search_path')
		if sp:
			st_ = ', '.join('"' + x.replace('"', '""') + '"' for x in sp)
			d3 = dict(d, settings = dict(d['settings'], search_path = st_))
			eq(I.parse(I.serialize(d3)), d, 'search_path given as %r' % st_)

def esc(s, must, extra):
	out = []
	for i, c in enumerate(s):
		if c in must or c == '%' or ord(c) < 33 or (ord(c) < 128 and extra and (ord(c) * 7 + i * 13 + extra) % 5 == 0):
			h = '%02x' % ord(c)
			out.append('%' + (h.upper() if (extra + i) % 2 else h))
		else:
			out.append(c)
	return ''.join(out)

@law(st.tuples(params(), st.integers(0, 9), st.sampled_from(['pq', 'postgres', 'postgresql', 'PQ', None]), st.permutations(range(6))), 1500)
def a_written_locator_parses_to_its_components(case, t):
	d, x, scheme, order = case
	t.nt(any(c in RES for v in flat(d) for c in v))
	s = scheme + '://' if scheme else ''
	if 'user' in d:
		s += esc(d['user'], ':@/?#[', x)
		if 'password' in d:
			s += ':' + esc(d['password'], '@/?#[', x)
		s += '@'
	if 'unix' in d:
		s += '[unix:' + ':'.join(esc(c, ':@/?#]', x) for c in d['unix'].split('/')) + ']'
	elif 'host' in d:
		if ':' in d['host']:
			s += '[' + esc(d['host'], '@/?#]', x) + ']'
		else:
			s += esc(d['host'], ':@/?#]', x)
		if 'port' in d:
			s += ':' + esc(d['port'], '@/?#', x)
	if 'database' in d or 'path' in d:
		s += '/' + '/'.join(esc(c, '/?#', x) for c in [d.get('database', '')] + d.get('path', []))
	st_ = {k: v for k, v in d.get('settings', {}).items() if k != 'search_path'}
	dr = {k: v for k, v in d.items() if k not in ('user', 'password', 'unix', 'host', 'port', 'database', 'path', 'settings')}
	q = ['[' + esc(k, '&=#[]', x) + ']=' + esc(v, '&#', x) for k, v in dr.items()] + [
		esc(k, '&=#[]', x) + '=' + esc(v, '&#', x) for k, v in st_.items()]
	q = [q[i] for i in order if i < len(q)]
	if len(q) == len(dr) + len(st_) and q:
		s += '?' + '&'.join(q)
	elif q:
		return
	if 'search_path' in d.get('settings', {}):
		s += '#' + ','.join(esc(c, ',', x) for c in d['settings']['search_path'])
	if scheme is None and '://' in s:
		return
	eq(I.parse(s), d, 'parse(%r)' % s)

anyri = st.one_of(
	st.text(alphabet='ab:/?#[]@&=%41. ,', max_size=24),
	st.tuples(st.sampled_from(['pq://', 'http://', '', 'x-1.+://', 'a b://', '://']), st.text(alphabet='ab:@[]%4', max_size=10),
		st.sampled_from(['', '/', '/p', '/p%2Fq/r', '//']), st.sampled_from(['', '?', '?a=b&c', '?[k]=v', '?a=%26']), st.sampled_from(['', '#', '#f', '#a,b%2C'])).map(''.join),
	st.text(max_size=20))

@law(anyri, 2000)
def splitting_loses_nothing(s, t):
	sp = R.split(s)
	t.nt(sum(x is not None for x in sp) > 1)
	eq(R.unsplit(sp), s, 'unsplit(split(%r)) with %r' % (s, sp))
	p = R.parse(s)
	eq(R.structure(sp), p, 'structure(split(x)) and parse(x)')
	r = R.serialize(p)
	if p.get('scheme') is None and '://' in r:
		# an escaped character kept the text from having a scheme
		return
	eq(R.unsplit(R.construct(p)), r, 'unsplit(construct(x)) and serialize(x)')
	eq(R.parse(r), p, 'parse(serialize(parse(%r))) via %r' % (s, r))

@law(st.tuples(params(), st.text(alphabet='pw01@:/%', min_size=1, max_size=6)), 800)
def an_obscured_locator_does_not_show_the_password(case, t):
	d, pw = case
	d = {k: v for k, v in d.items() if k != 'password'}
	d.setdefault('user', 'u')
	a = I.serialize(dict(d, password = 'Zq' + pw), obscure_password = True)
	t.nt()
	o = I.serialize(dict(d, password = '***'))
	check('Zq' not in a or 'Zq' in o, 'the password shows in %r', a)
	eq(a, o, 'obscured form')
	eq(I.serialize(d, obscure_password = True), I.serialize(d), 'obscured form without a password')

@law(val, 1500)
def unescaping_inverts_escaping(s, t):
	t.nt('%' in s)
	full = ''.join('%%%02X' % ord(c) if ord(c) < 256 else c for c in s)
	eq(R.unescape(full), s, 'unescape(%r)' % full)
	eq(R.unescape(full.lower()) if not any(ord(c) > 255 for c in s) else s, s, 'unescape of lower-case escapes')
	if '%' not in s:
		eq(R.unescape(s), s, 'unescape without escapes')
	parts = s.split(',')
	eq(R.split_path(R.unsplit_path(parts)), parts, 'split_path(unsplit_path())')
