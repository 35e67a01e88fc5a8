"""C26: SQL quoting and splitting preserve meaning."""
from hypothesis import strategies as st
from vlib.core import law, check, eq, must_raise, raised
from vlib import pg, gen
import postgresql.string as S

RULE = ("Strings over a small alphabet of quote characters, backslashes, tags and separators, and mixed text; oracles: the real "
	"server's lexer for quoting, an independent reference lexer for splitting. Non-trivial: contains at least one quote character "
	"(quoting), at least one quoted portion (splitting) or two parts (identifiers).")
ASSUME = ["standard_conforming_strings is on, as in every supported server; comments are not recognized, as documented"]

# ---- an independent reading of the documented quoting rules
def isident(c):
	return c.isalnum() or c in '_$' or ord(c) >= 128

def tag_at(s, i):
	"the dollar quote starting at s[i], or None"
	if s[i] != '$' or (i and isident(s[i-1])):
		return None
	j = i + 1
	while j < len(s) and (s[j].isalnum() or s[j] == '_'):
		if j == i + 1 and s[j].isdigit():
			return None
		j += 1
	if j < len(s) and s[j] == '$':
		return s[i:j+1]
	return None

def reflex(s):
	out, plain, i, n = [], '', 0, len(s)
	while i < n:
		c = s[i]
		t = None
		if c in 'eE' and i + 1 < n and s[i+1] == "'" and not (i and isident(s[i-1])):
			t = s[i:i+2]
		elif c in '\'"':
			t = c
		else:
			t = tag_at(s, i)
		if t is None:
			plain += c
			i += 1
			continue
		out.append(plain)
		plain = ''
		j = i + len(t)
		if t[0] == '$':
			k = s.find(t, j)
			if k < 0:
				out.append((t, s[j:]))
				return out
			out.append((t, s[j:k]))
			i = k + len(t)
			continue
		q = t[-1]
		k = j
		while k < n:
			if s[k] == '\\' and len(t) == 2:
				k += 2
				continue
			if s[k] == q:
				if s[k+1:k+2] == q:
					k += 2
					continue
				break
			k += 1
		if k >= n:
			out.append((t, s[j:]))
			return out
		out.append((t, s[j:k]))
		i = k + 1
	out.append(plain)
	return out

frag = st.one_of(
	st.sampled_from(["'", "''", '"', '""', '\\', 'E', 'e', '$', '$$', '$a$', '$_1$', '$1', ';', '\n', ' ', 'x', 'é', '.', ',', '%', ';;', '--', '0', '_']),
	st.text(alphabet='ab\'"\\$;. \nE', max_size=6),
	st.text(alphabet='ab\'"\\$;. \n', max_size=6).map(lambda s: "'" + s.replace("'", "''") + "'"),
	st.text(alphabet='ab\'"\\$;. \n', max_size=6).map(lambda s: '"' + s.replace('"', '""') + '"'),
	st.text(alphabet='ab\'"\\$;. \n', max_size=6).map(lambda s: " E'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"),
	st.tuples(st.sampled_from(['$$', '$t$', '$é_1$']), st.text(alphabet='ab\'"\\;. \nt', max_size=8)).map(lambda p: ' ' + p[0] + p[1] + p[0]),
)
sqltext = st.one_of(st.lists(frag, max_size=8).map(''.join), st.text(max_size=30))

def odd_tag(s):
	"""A dollar sign followed by one that no dollar quote can start with (not SQL): left open."""
	import re
	return re.search(r'\$[^\w$]\w*\$', s) or re.search(r'[\w$\x80-\U0010ffff]\$|\$\d', s)

@law(sqltext, 1200)
def splitting_separates_exactly_the_quoted_portions(s, t):
	got = list(S.split(s))
	want = reflex(s)
	t.nt(len(want) > 1)
	# lossless in every case
	eq(S.unsplit(got), s, 'unsplit(split(%r))' % s)
	eq([isinstance(x, tuple) for x in got], [i % 2 == 1 for i in range(len(got))], 'alternation of %r' % (got,))
	if odd_tag(s):
		return
	eq(got, want, 'split(%r)' % s)

@law(st.tuples(sqltext, st.sampled_from([';', ';', ';', ',', ';;', ' ', '.'])), 1200)
def statements_are_cut_only_at_unquoted_separators(case, t):
	s, sep = case
	got = list(S.split_sql_str(s, sep = sep))
	eq(sep.join(got), s, 'joining the statements of %r' % s)
	full = list(S.split_sql(s, sep = sep))
	eq([S.unsplit(x) for x in full], got, 'split_sql and split_sql_str')
	if odd_tag(s):
		return
	want, cur = [], ''
	toks = reflex(s)
	for i, x in enumerate(toks):
		if isinstance(x, tuple):
			close = '' if i == len(toks) - 1 else (x[0] if x[0][0] == '$' else x[0][-1])
			cur += x[0] + x[1] + close
		else:
			p = x.split(sep)
			cur += p[0]
			for y in p[1:]:
				want.append(cur)
				cur = y
	want.append(cur)
	t.nt(len(want) > 1 and len(toks) > 1)
	eq(got, want, 'split_sql_str(%r, %r)' % case)

ptext = gen.pgtext(20)
@law(st.lists(st.one_of(st.text(alphabet='\'"\\ aE$%\n', max_size=8), ptext), min_size=1, max_size=12), 120)
def quoted_literals_are_read_back_by_the_server(strs, t):
	t.nt(any("'" in s or '\\' in s for s in strs))
	srv = pg.server()
	global raw
	try:
		raw
	except NameError:
		raw = srv.raw()
	got = raw.query('SELECT ' + ', '.join(S.quote_literal(s) for s in strs))
	eq(list(got[0]), list(strs), 'literals read by the server')
	eq(["'" + S.escape_literal(s) + "'" for s in strs], [S.quote_literal(s) for s in strs], 'escape_literal')

ident = st.one_of(st.text(alphabet='\'"\\ aE$%.,', min_size=1, max_size=8), gen.pgtext(12).filter(lambda s: s),
	st.text(alphabet='abc_1', min_size=1, max_size=4))
@law(st.lists(ident, min_size=1, max_size=6), 150)
def quoted_identifiers_are_read_back_by_the_server(strs, t):
	t.nt(any('"' in s for s in strs))
	srv = pg.server()
	global raw
	try:
		raw
	except NameError:
		raw = srv.raw()
	strs = [s for s in strs if len(s.encode()) < 64]
	if not strs:
		return
	raw.query('SELECT ' + ', '.join('1 AS ' + S.quote_ident(s) for s in strs))
	eq(raw.cols, list(strs), 'identifiers read by the server')
	eq(['"' + S.escape_ident(s) + '"' for s in strs], [S.quote_ident(s) for s in strs], 'escape_ident')
	# schema-qualified names, read with the server's own splitter
	for fn, parts in ((S.qname, strs), (S.qname_if_needed, list(strs))):
		if not parts:
			continue
		q = fn(*parts)
		r = raw.query("SELECT unnest(parse_ident($q1q$" + q + "$q1q$))")
		eq([x[0] for x in r], list(parts), '%s%r read by the server' % (fn.__name__, tuple(parts)))
		eq(S.split_qname(q), list(parts), 'split_qname(%r)' % q)
	q = S.quote_ident_if_needed(strs[0])
	check(q == strs[0] or q == S.quote_ident(strs[0]), 'quote_ident_if_needed(%r) = %r', strs[0], q)
	eq(S.split_ident(', '.join(map(S.quote_ident, strs))), strs, 'split_ident of a list')

def ref_split_using(text, quote, sep, maxsplit):
	out, cur, i, inq = [], '', 0, False
	while i < len(text):
		if not inq and maxsplit >= 0 and len(out) >= maxsplit:
			cur += text[i:]
			break
		if text[i] == quote:
			inq = not inq
		elif not inq and text.startswith(sep, i):
			out.append(cur)
			cur = ''
			i += len(sep)
			continue
		cur += text[i]
		i += 1
	out.append(cur)
	return out

@law(st.tuples(st.text(alphabet='ab"\'.., ', max_size=16), st.sampled_from(['"', "'"]), st.sampled_from(['.', ',', ' ', '..', ', ']), st.sampled_from([-1, -1, -1, 0, 1, 2, 3])), 1500)
def separators_inside_quotes_do_not_split(case, t):
	text, quote, sep, maxsplit = case
	got = S.split_using(text, quote, sep = sep, maxsplit = maxsplit)
	eq(sep.join(got), text, 'joining split_using%r' % (case,))
	if text.count(quote) % 2:
		# unterminated quotation: only losslessness is claimed
		return
	want = ref_split_using(text, quote, sep, maxsplit)
	t.nt(len(want) > 1 and quote in text)
	eq(got, want, 'split_using%r' % (case,))

def ref_split_ident(text, sep):
	out = []
	for x in ref_split_using(text, '"', sep, -1):
		x = x.strip()
		if x.startswith('"'):
			b = x[1:-1]
			if len(x) < 2 or x[-1] != '"' or '"' in b.replace('""', ''):
				return None
			out.append(b.replace('""', '"'))
		else:
			if not x or x[0].isdecimal() or not all(c.isalnum() or c == '_' for c in x):
				return None
			out.append(x.lower())
	return out

@law(st.tuples(st.lists(st.one_of(
		st.text(alphabet='ab"., \'', max_size=5),
		st.text(alphabet='abAZ_09éßς', min_size=1, max_size=5),
		st.text(alphabet='ab"., \'', max_size=5).map(lambda s: '"' + s.replace('"', '""') + '"'),
	), min_size=1, max_size=5), st.sampled_from(['.', ',']), st.sampled_from(['', ' ', '\t'])), 1500)
def identifiers_split_into_their_parts(case, t):
	parts, sep, pad = case
	text = (pad + sep + pad).join(parts)
	want = ref_split_ident(text, sep)
	f = (lambda x: S.split_qname(x)) if sep == '.' else (lambda x: S.split_ident(x))
	if want is None:
		must_raise(ValueError, 'splitting the malformed %r' % text, f, text)
	else:
		t.nt(len(want) > 1 and '"' in text)
		eq(f(text), want, 'splitting %r' % text)


def kw():
	return S.quote_ident_if_needed('select') == 'select'
FINDINGS = {'keyword-unquoted': kw}
