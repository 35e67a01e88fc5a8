"""C28: password files resolve exactly as documented (libpq's rules for the file)."""
import os, io
from hypothesis import strategies as st
from vlib.core import law, check, eq, OUT
import postgresql.pgpassfile as F

RULE = ("Files of lines built from fields that hold separators, backslashes, asterisks and spaces, of comments, blank and malformed lines; "
	"lookups drawn from the same pool of values. Oracle: a character-by-character reading of the documented format. "
	"Non-trivial: at least two well-formed lines match some field of the lookup, or the matching line needed unescaping.")
ASSUME = ["a backslash before any other character than a colon or a backslash has no documented meaning and is not generated"]

val = st.one_of(st.sampled_from(['a', 'b', 'host', '5432', 'u', ':', '\\', 'a:b', 'a\\', '\\:', ':\\', '', ' ', 'a b', '**', '#a', 'é', '\\\\:', 'a ', ' a', 'a*', '\t']),
	st.text(alphabet='ab:\\ #', max_size=4), st.text(alphabet=st.characters(exclude_categories=('Cs',), exclude_characters='*\n\r'), max_size=4)
	).filter(lambda s: s.isprintable() or '\t' in s and s.replace('\t', '').isprintable())
def esc(s):
	return s.replace('\\', '\\\\').replace(':', '\\:')

pool = ['a', 'b', 'a:b', 'a\\', 'x y', '', '#a', ':', '\\:']
small = st.sampled_from(pool)
@st.composite
def entry(draw):
	f = [draw(st.one_of(small, st.just(None), st.just(None), val)) for _ in range(4)]
	return (f, draw(st.one_of(val, st.just('*'), st.just(' p '))))

def write(e):
	f, pw = e
	return ':'.join('*' if x is None else esc(x) for x in f) + ':' + esc(pw)

noise = st.one_of(st.sampled_from(['', '# comment', '#a:a:a:a:pw', '#*:*:*:*:pw', 'a:b', 'a:a:a:a', '*:*:*:*', '*:*:*:*:p:q', '::::::', '   ', ':', '*']),
	st.lists(val.map(esc), min_size=1, max_size=7).filter(lambda l: len(l) != 5).map(':'.join))

@law(st.tuples(st.lists(st.one_of(entry(), entry(), noise), max_size=8), st.tuples(small, small, small, small), st.integers(0, 7), st.booleans()), 2500)
def the_first_matching_line_gives_the_password(case, t):
	lines, (user, host, port, database), pick, nl = case
	ents = [x for x in lines if not isinstance(x, str)]
	if ents and pick < 6:
		# aim at a line
		f = ents[pick % len(ents)][0]
		host, port, database, user = [a if a is not None else b for a, b in zip(f, (host, port, database, user))]
	want, n = None, 0
	for x in lines:
		if isinstance(x, str):
			continue
		f, pw = x
		if write(x).startswith('#'):
			continue
		if all(a is None or a == b for a, b in zip(f, (host, port, database, user))):
			n += 1
			if want is None:
				want = pw
				t.nt('\\' in write(x))
	t.nt(n > 1)
	text = '\n'.join(x if isinstance(x, str) else write(x) for x in lines) + ('\n' if nl else '')
	eq(F.lookup_password(F.parse(io.StringIO(text)), (user, host, port, database)), want,
		'password of %r in\n%s\n' % ((user, host, port, database), text))
	path = os.path.join(OUT, 'passfile')
	with open(path, 'w') as f:
		f.write(text)
	eq(F.lookup_password_file(path, (user, host, port, database)), want, 'password in the file')
	d = {'user': user, 'host': host, 'port': port, 'database': database}
	eq(F.lookup_pgpass(d, path), want, 'lookup_pgpass')
	if database == user:
		del d['database']
		eq(F.lookup_pgpass(d, path), want, 'lookup_pgpass with the database left to the user\'s name')
	eq(F.lookup_pgpass(d, path + '.missing'), None, 'lookup_pgpass without a file')
	if port == '5432':
		eq(F.lookup_pgpass(dict(d, port = 5432), path), want, 'lookup_pgpass with an integer port')

def ref(line):
	if line.startswith('#'):
		return None
	out, i = [''], 0
	while i < len(line):
		c = line[i]
		if c == '\\':
			i += 1
			out[-1] += line[i]
		elif c == ':':
			out.append('')
		else:
			out[-1] += c
		i += 1
	return out if len(out) == 5 else None

@law(st.lists(st.sampled_from(['a', ':', ':', '\\\\', '\\:', '*', ' ', '#', 'b', ':::', '\t']), max_size=14).map(''.join), 2500)
def a_line_has_the_documented_fields(line, t):
	w = ref(line)
	t.nt(w is not None)
	for end in ('', '\n', '\r\n'):
		g = F.split(line + end)
		if g is not None:
			g = list(g)
		if not line:
			w = None
		eq(g, w, 'split(%r)' % (line + end))
