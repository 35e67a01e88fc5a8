"""C07: text, bytes and unmapped types survive the trip both ways."""
import json, hashlib
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
from hypothesis import strategies as st
from vlib import live, gen
from vlib.core import law, check, eq, raised

RULE = ("Strings over each client encoding's repertoire (and outside it), bytes, json and xml documents and literals of types without a conversion, sent as parameters and in SQL, and read back, by both "
	"forms, under every client encoding Python knows. Oracle: the server's own account of the value (hexadecimal of its UTF-8 form, its text form) and independent codecs. "
	"Non-trivial: not plain ASCII or more than 20 bytes.")

# PostgreSQL's name -> Python's codec, chosen independently of the library
CODECS = dict(UTF8='utf-8', LATIN1='iso8859-1', LATIN2='iso8859-2', LATIN3='iso8859-3', LATIN4='iso8859-4', LATIN5='iso8859-9', LATIN6='iso8859-10', LATIN7='iso8859-13', LATIN8='iso8859-14',
	LATIN9='iso8859-15', LATIN10='iso8859-16', ISO_8859_5='iso8859-5', ISO_8859_6='iso8859-6', ISO_8859_7='iso8859-7', ISO_8859_8='iso8859-8', KOI8R='koi8-r', KOI8U='koi8-u',
	WIN866='cp866', WIN874='cp874', WIN1250='cp1250', WIN1251='cp1251', WIN1252='cp1252', WIN1253='cp1253', WIN1254='cp1254', WIN1255='cp1255', WIN1256='cp1256', WIN1257='cp1257', WIN1258='cp1258',
	SJIS='cp932', SHIFT_JIS_2004='shift_jis_2004', EUC_JP='euc_jp', EUC_JIS_2004='euc_jis_2004', EUC_CN='gb2312', EUC_KR='euc_kr', BIG5='cp950', GBK='gbk', UHC='cp949', GB18030='gb18030', JOHAB='johab')
_rep = {}
def repertoire(e):
	if e not in _rep:
		# the non-ASCII characters which the codec can take there and back
		r = []
		for i in range(0x80, 0x10000):
			c = chr(i)
			if 0xD800 <= i < 0xE000: continue
			try:
				if c.encode(CODECS[e]).decode(CODECS[e]) == c: r.append(c)
			except UnicodeError: continue
		if e in ('UTF8', 'GB18030'): r += [chr(0x10000), chr(0x1F600), chr(0x20000), chr(0x10FFFF)]
		_rep[e] = r
	return _rep[e]
def textin(e): return st.lists(st.one_of(st.sampled_from('aZ0 \'"\\~{},;%$()\n\t'), st.integers(0, 10**6)), max_size=25).map(lambda l: ''.join(x if isinstance(x, str) else repertoire(e)[x % len(repertoire(e))] for x in l))
enc = st.one_of(st.sampled_from(sorted(CODECS)), st.sampled_from(['UTF8', 'LATIN1', 'SJIS', 'SHIFT_JIS_2004', 'EUC_JIS_2004', 'WIN1258', 'KOI8R']))
items = enc.flatmap(lambda e: st.tuples(st.just(e), st.lists(st.tuples(st.sampled_from(['text', 'varchar', 'bpchar', 'name', 'json', 'sql', 'column', 'varchar(40)', 'xmlattr', 'bulk']), textin(e)), min_size=1, max_size=5), gen.pgtext(6)))
def hexed(s): return s.encode('utf-8').hex()

@law(st.lists(items, min_size=1, max_size=4), 250)
def strings_in_every_client_encoding(case, t):
	r = live.raw()
	for form in (0, 1):
		F = live.form(form)
		db = F.get()
		try:
			for e, l, other in case:
				db.execute("SET client_encoding TO '%s'" % e)
				for ty, s in l:
					if ty == 'json': s = json.dumps({s: [s]}, ensure_ascii=False)
					try: h, b = r.pquery("SELECT encode(convert_to($1, '%s'), 'hex'), convert_from(convert_to($1, '%s'), '%s')" % (e, e, e), [s])[0]
					except Exception: t.ev('server has no such character in ' + e); continue
					if bytes.fromhex(h) != s.encode(CODECS[e]) or b != s or s.encode(CODECS[e]).decode(CODECS[e]) != s: t.ev('codecs differ'); continue
					if not s.isascii(): t.nt(True); t.ev(e)
					if ty == 'sql':
						q = F.sub('string').quote_literal(s)
						eq(db.prepare("SELECT encode(convert_to(%s, 'UTF8'), 'hex')" % q).first(), hexed(s), 'literal in %s' % e)
						eq(db.query.first('SELECT %s::text' % q), s, 'literal in %s, returned' % e)
						continue
					if ty == 'column':
						c = s.encode('utf-8')[:60].decode('utf-8', 'ignore') or 'x'
						p = db.prepare('SELECT 1 AS %s, 2 AS y' % F.sub('string').quote_ident(c))
						eq(p.column_names, [c, 'y'], 'column names in %s' % e)
						eq(p.first()[c], 1, 'by the name')
						continue
					if ty == 'json':
						ps = F.prepare("SELECT encode(convert_to($1::json::text, 'UTF8'), 'hex'), $1::json")
					elif ty == 'xmlattr':
						x = ET.Element('d', {'a': s.replace('\n', ' ').replace('\t', ' ')}); x.text = s
						ps = F.prepare("SELECT encode(convert_to(((xpath('/d/text()', $1::xml))[1])::text, 'UTF8'), 'hex'), $1::xml")
						for v in (x, ET.tostring(x, encoding='unicode'), '<?xml version="1.0" encoding="%s"?>' % 'iso-8859-1' + ET.tostring(x, encoding='unicode')):
							hx, y = ps.first(v)
							eq(hx or '', hexed(escape(s)), 'xml in %s' % e)
							eq(canon(y), canon(x), 'xml in %s' % e)
						continue
					elif ty == 'bulk':
						n = 3000
						ps = F.prepare("SELECT md5(convert_to($1::text, 'UTF8')), $1::text")
						m, b = ps.first(s * n)
						eq((m, b == s * n), (hashlib.md5((s * n).encode('utf-8')).hexdigest(), True), 'long text in %s' % e)
						continue
					else:
						if ty == 'name': s = s.encode('utf-8')[:63].decode('utf-8', 'ignore')
						ps = F.prepare("SELECT encode(convert_to($1::%s::%s, 'UTF8'), 'hex'), $1::%s" % (ty, 'text' if ty != 'bpchar' else 'bpchar', ty))
					hx, back = ps.first(s)
					if ty == 'bpchar': eq(bytes.fromhex(hx).decode('utf-8').rstrip(' '), s.rstrip(' '), '%s in %s' % (ty, e))	# convert_to's text argument drops blanks
					else: eq(hx, hexed(s), '%s in %s' % (ty, e))
					eq(back, s, '%s in %s, returned' % (ty, e))
					check(type(back) is str, '%r is no str', back)
					back = F.prepare("SELECT convert_from(decode($1::text, 'hex'), 'UTF8')").first(hexed(s))
					eq(back, s, 'the server\'s text in %s' % e)
				# outside of the encoding
				try: other.encode(CODECS[e])
				except UnicodeError:
					t.nt(True); t.ev('not representable')
					for ty in ('text', 'name', 'json'):
						ps = F.prepare('SELECT $1::%s' % ty)
						for m in (ps, ps.first, lambda v: list(ps.rows(v)), lambda v: ps.load_rows([(v,)]), ps.declare):
							x, v = raised(m, '"' + other + '"')
							check(isinstance(x, F.exc.ParameterError), '%r, not in %s, as %s: %r %r', other, e, ty, x, v)
					eq(db.query.first('SELECT 7'), 7, 'afterwards')
		finally:
			if db.closed: F.reset()
			else: db.execute("SET client_encoding TO 'UTF8'")

def canon(x):
	return (x.tag, sorted(x.attrib.items()), x.text or '', x.tail or '', [canon(y) for y in x])
xtext = st.text(alphabet=st.one_of(st.sampled_from('ab<>&"\' \u00e9\u4e2d\U0001F600]'), st.characters(min_codepoint=0x20, max_codepoint=0x7e)), max_size=8)
xname = st.sampled_from(['a', 'b', 'doc', 'x-y', '_z', 'é'])
def build(t):
	tag, attrs, text, kids = t
	e = ET.Element(tag, attrs); e.text = text
	for k, tail in kids:
		c = build(k); c.tail = tail; e.append(c)
	return e
leaf = st.tuples(xname, st.dictionaries(xname, xtext, max_size=2), xtext, st.just([]))
tree = st.recursive(leaf, lambda k: st.tuples(xname, st.dictionaries(xname, xtext, max_size=2), xtext, st.lists(st.tuples(k, xtext), max_size=3)), max_leaves=6)
@law(st.tuples(tree, st.lists(tree, max_size=3)), 250)
def xml_documents_keep_their_content(case, t):
	t1, frag = case
	for form in (0, 1):
		F = live.form(form)
		x = build(t1)
		ps = F.prepare('SELECT $1::xml::text, $1::xml')
		s = ET.tostring(x, encoding='unicode')
		if len(s) > 20: t.nt(True)
		for v in (x, s, s.encode('utf-8'), '<?xml version="1.0"?>\n' + s, (x,)):
			txt, y = ps.first(v)
			eq(canon(ET.fromstring(txt)), canon(x), 'xml at the server')
			eq(canon(y), canon(x), 'xml returned')
		if len(frag) > 1:
			l = [build(k) for k in frag]
			txt, y = ps.first(tuple(l))
			eq([canon(k) for k in ET.fromstring('<r>' + txt + '</r>')], [canon(k) for k in l], 'xml content at the server')
			check(type(y) is tuple, 'content returned as %r', y)
			eq([canon(k) for k in y], [canon(k) for k in l], 'xml content returned')
			txt, y = ps.first(tuple(ET.tostring(k, encoding='unicode') if i % 2 else k for i, k in enumerate(l)))
			eq([canon(k) for k in y], [canon(k) for k in l], 'xml content returned')
	# not well-formed
	for form in (0, 1):
		F = live.form(form)
		e, v = raised(F.prepare('SELECT $1::xml::text').first, '<a><b></a>')
		check(isinstance(e, F.exc.Error), 'malformed xml: %r %r', e, v)

data = st.one_of(st.binary(max_size=40), st.sampled_from([b'', b'\0', b'\\', b"'", b'\\x00', b'\xff' * 4, bytes(range(256)), b'\\000', b'\xff\xff\xff\xff']))
@law(st.lists(st.tuples(data, st.one_of(st.just(1), st.just(1), st.integers(1, 5000)), st.integers(0, 255)), min_size=1, max_size=8), 250)
def bytes_are_stored_and_returned(case, t):
	for form in (0, 1):
		F = live.form(form)
		ps = F.prepare("SELECT encode($1::bytea, 'hex'), length($1::bytea), $1::bytea")
		rd = F.prepare("SELECT decode($1::text, 'hex')")
		ch = F.prepare("SELECT ascii($1::\"char\"::text), $1::\"char\", encode(($1::\"char\"::text)::bytea, 'escape')")
		fold = F.prepare("SELECT array_agg(b) FROM (SELECT decode(x, 'hex') b FROM unnest($1::text[]) x) y")
		for d, n, c in case:
			b = d * n
			if len(b) > 20 or any(x > 127 or x < 32 for x in b): t.nt(True)
			h, ln, back = ps.first(b)
			eq((h.replace('\n', ''), ln), (b.hex(), len(b)), 'bytea at the server')
			check(type(back) is bytes and back == b, 'bytea returned: %r, want %r', back, b)
			back = rd.first(b.hex())
			check(type(back) is bytes and back == b, 'bytea read: %r, want %r', back, b)
			cb = bytes([c])
			row = F.prepare('SELECT $1::"char"').first(cb)
			eq(row, cb, '"char"')
			if 0 < c < 128: eq(F.prepare('SELECT $1::"char"::text').first(cb), chr(c), '"char" at the server')
			if 0 < c < 128: eq(F.prepare('SELECT $1::text::"char"').first(chr(c)), cb, '"char" read')
		eq(list(fold.first([(d * min(n, 9)).hex() for d, n, c in case])), [d * min(n, 9) for d, n, c in case], 'array of bytea')

# types without a conversion: (type, literal)
i4 = st.integers(-2**31, 2**31 - 1)
word = st.text('abcxyz', min_size=1, max_size=5)
def lits():
	s = st.just
	q = lambda ty, x: st.tuples(s(ty), x)
	return st.one_of(
		q('money', st.builds(lambda a, b: '%s%d.%02d' % ('-' if a < 0 else '', abs(a), b), i4, st.integers(0, 99))),
		q('int4range', st.builds(lambda a, b, l, u: '%s%d,%d%s' % (l, a, a + b, u), st.integers(-10**6, 10**6), st.integers(0, 10**6), st.sampled_from('[('), st.sampled_from('])'))),
		q('int4range', st.sampled_from(['empty', '(,)', '[5,)', '(,3]'])),
		q('daterange', st.sampled_from(['[2001-01-01,2005-02-03)', 'empty', '(,2020-02-29)'])),
		q('int4multirange', st.sampled_from(['{}', '{[1,3),[5,9)}', '{(,4)}'])),
		q('tsvector', st.lists(word, max_size=4).map(' '.join)), q('tsquery', st.lists(word, min_size=1, max_size=4).map(' & '.join)),
		q('pg_lsn', st.builds('{:X}/{:X}'.format, st.integers(0, 2**32 - 1), st.integers(0, 2**32 - 1))),
		q('regclass', st.sampled_from(['pg_class', 'pg_catalog.pg_type', 'information_schema.tables'])),
		q('regtype', st.sampled_from(['integer', 'text', 'pg_catalog.int8', 'int4range', 'double precision', 'numeric[]'])),
		q('regproc', st.sampled_from(['pg_typeof', 'now'])), q('regprocedure', st.sampled_from(['now()', 'length(text)', 'abs(integer)'])),
		q('regoperator', st.sampled_from(['+(integer,integer)', '||(text,text)'])), q('regnamespace', st.sampled_from(['pg_catalog', 'public'])), q('regrole', st.sampled_from(['pg_monitor'])),
		q('aclitem', st.sampled_from(['=r/test', 'test=arwdDxt/test'])), q('txid_snapshot', st.sampled_from(['10:20:10,14,15', '1:1:'])),
		q('xid8', st.integers(0, 2**64 - 1).map(str)), q('macaddr8', st.binary(min_size=8, max_size=8).map(lambda b: ':'.join('%02x' % x for x in b))),
		q('json', st.recursive(st.one_of(st.none(), st.booleans(), i4, gen.pgtext(6)), lambda k: st.one_of(st.lists(k, max_size=3), st.dictionaries(gen.pgtext(4), k, max_size=3)), max_leaves=5).map(lambda x: json.dumps(x))),
		q('jsonpath', st.sampled_from(['$.a[*] ? (@ > 3)', '$', 'strict $.x.y'])), q('cstring', gen.pgtext(8)),
		q('v_mood', st.sampled_from(['sad', 'ok', "it's \"fine\"", 'é'])), q('v_moods', st.sampled_from(['sad', 'é'])), q('v_range', st.sampled_from(['[1,2)', 'empty'])),
		q('citext', gen.pgtext(10)), q('ltree', st.lists(word, max_size=4).map('.'.join)), q('cube', st.sampled_from(['(1, 2, 3)', '(0),(1)'])), q('hstore', st.sampled_from(['"a"=>"1", "b"=>NULL', ''])),
		q('isbn', st.just('978-0-393-04002-9')), q('refcursor', gen.pgtext(8)), q('line', st.sampled_from(['{1,2,3}', '{0,-1,0.5}']))
		)
DDL = ["CREATE TYPE v_mood AS ENUM ('sad', 'ok', 'it''s \"fine\"', 'é')", 'CREATE DOMAIN v_moods AS v_mood', 'CREATE DOMAIN v_range AS int4range'] + ['CREATE EXTENSION %s' % x for x in ('citext', 'ltree', 'cube', 'hstore', 'isn')]
def setup():
	r = live.raw()
	if not r.query("SELECT 1 FROM pg_type WHERE typname = 'v_mood'"):
		for d in DDL: r.query(d)

@law(st.lists(lits(), min_size=1, max_size=8), 300)
def unmapped_types_use_the_servers_text_form(case, t):
	setup()
	r = live.raw()
	for ty, l in case:
		cast = lambda x: '%s::%s' % (x, ty)
		text = 'cstring_out(%s)' if ty == 'cstring' else "format('%%s', %s)" if ty == 'hstore' else '%s::text'
		want = l if ty == 'cstring' else r.pquery('SELECT ' + text % cast('$1'), [l])[0][0]
		t.nt(True); t.ev(ty)
		for form in (0, 1):
			F = live.form(form)
			if ty == 'cstring':
				eq(F.prepare('SELECT textout($1::text)').first(l), l, 'cstring')
				continue
			ps = F.prepare('SELECT %s, %s' % (text % cast('$1'), cast('$1')))
			for v in (l, want):
				row = ps.first(v)
				eq(tuple(row), (want, want), '%s %r' % (ty, v))
				eq([tuple(x) for x in ps.rows(v)], [(want, want)], '%s %r in rows' % (ty, v))
			eq(tuple(ps.first(None))[1], None, 'NULL')
			eq(F.prepare('SELECT ' + cast('$1::text')).first(l), want, '%s read' % ty)
			eq(list(F.prepare('SELECT ' + cast('$1::text')).column(l)), [want], '%s in a column' % ty)

esclit = st.lists(st.one_of(st.sampled_from(['\\', '\\\\', '\\000', '\\377', '\\101', '\\134', '\\400', '\\378', '\\1_2', '\\ 12', '\\+12', '\\12 ', '\\x', '\\7', '\\07', 'a', ' ', '~', '\x7f', '\t', "'", '0', '7', '9', 'x', 'é', '٣']),
	st.integers(0, 255).map('\\{:03o}'.format), st.integers(0, 999).map('\\{:03d}'.format), st.integers(32, 126).map(lambda i: '\\\\' if i == 92 else chr(i)), st.text('\\0123478 _', max_size=5)), max_size=12).map(''.join).filter(lambda x: not x.startswith('\\x'))
@law(st.lists(st.one_of(data, esclit), min_size=1, max_size=6), 300)
def the_bytea_codec_speaks_the_servers_escape_form(case, t):
	r = live.raw()
	for form in (0, 1):
		F = live.form(form)
		from importlib import import_module
		import_module(F.pkg.__name__ + '.encodings.bytea')
		for d in case:
			if isinstance(d, bytes):
				# the codec's "decode" gives the text form, its "encode" the bytes
				lit = r.pquery("SELECT encode(decode($1, 'hex'), 'escape')", [d.hex()])[0][0]
				eq(lit.encode('bytea'), d, "the server's text form of %r" % d)
				mine = d.decode('bytea')
				eq(mine.encode('bytea'), d, 'there and back')
				eq(r.pquery("SELECT encode($1::bytea, 'hex')", [mine])[0][0], d.hex(), 'the text form %r at the server' % mine)
				t.nt(len(d) > 20 or any(x > 126 or x < 33 or x == 92 for x in d))
				continue
			if not d.isascii():
				e, v = raised(d.encode, 'bytea', 'strict')
				if any(ord(c) > 255 for c in d): check(isinstance(e, ValueError), '%r encoded: %r %r', d, e, v)
				t.nt(True); t.ev('not ASCII')
				continue
			try: want = r.pquery("SELECT encode($1::bytea, 'hex')", [d])[0][0]
			except Exception: want = None
			e, v = raised(d.encode, 'bytea')
			t.nt('\\' in d); t.ev('refused by the server' if want is None else 'accepted')
			if want is None: check(isinstance(e, ValueError), '%r, which the server refuses, encoded: %r %r', d, e, v)
			else: check(e is None and v == bytes.fromhex(want), '%r encoded: %r %r, want %s', d, e, v, want)
