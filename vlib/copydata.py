"""rows, formats and tables for the checks of COPY"""
from hypothesis import strategies as st
from . import gen
from .core import eq

val = st.one_of(st.none(), gen.pgtext(8), st.sampled_from(['', '\\N', '\\.', 'a\tb', 'x\ny', '\r\n', '"', 'a,b', '\\', "it's", '\\n', 'é' * 3, ' ']), st.builds(lambda c, n: c * n, st.sampled_from('xé\\'), st.sampled_from([100, 1000, 4090, 8190, 9000])))
row = st.tuples(st.one_of(st.none(), st.integers(-2**31, 2**31 - 1)), val)
small = st.lists(row, max_size=12)
table = st.tuples(small, st.one_of(st.just(0), st.just(0), st.sampled_from([30, 255, 256, 257, 600, 1000, 5000])))
def expand(x):
	l, n = x
	if not l or not n: return l
	n = min(n, 2000000 // (sum(len(v or '') + 4 for _, v in l) // len(l) + 1))
	return (l * (n // len(l) + 1))[:n]
FORMATS = ['', ' WITH (FORMAT csv)', ' WITH (FORMAT binary)', ' WITH (FORMAT csv, HEADER, FORCE_QUOTE *)', " WITH (DELIMITER '|', NULL 'nil')"]
fmt = st.sampled_from(FORMATS)
def lit(s): return 'NULL' if s is None else "E'%s'" % s.replace('\\', '\\\\').replace("'", "''")
def fill(r, rows):
	r.query('SET client_min_messages = error; DROP TABLE IF EXISTS vt18; CREATE TABLE vt18 (n serial, i int4, t text)')
	for k in range(0, len(rows), 300): r.query('INSERT INTO vt18 (i, t) VALUES ' + ', '.join('(%s, %s)' % ('NULL' if i is None else i, lit(s)) for i, s in rows[k:k + 300]))
def content(r, t='vt18i'): return [(None if a is None else int(a), b) for a, b in r.query('SELECT i, t FROM %s ORDER BY n' % t)]
def same(a, b, what):
	for k, (x, y) in enumerate(zip(a, b)): eq(x, y, '%s: row %d' % (what, k))
	eq(len(a), len(b), what)
