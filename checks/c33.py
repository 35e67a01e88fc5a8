"""C33: version strings and installation information are read correctly."""
import os, shlex, stat, sys
from hypothesis import strategies as st
from vlib.core import law, check, eq, OUT
import postgresql.versionstring as V
import postgresql.installation as I

RULE = ("Version strings of every released form with packager suffixes, pairs of them, option lists in the quotings pg_config uses, and generated "
	"pg_config outputs. Oracles: the components the text was built from, release order, the option list. Non-trivial: a pre-release, a suffix, "
	"or a value that holds a space, quote or equals sign.")

state = st.one_of(st.none(), st.tuples(st.sampled_from(['a', 'alpha', 'b', 'beta', 'rc']), st.one_of(st.none(), st.integers(0, 20))), st.tuples(st.sampled_from(['devel', 'dev']), st.none()))
ver = st.tuples(st.lists(st.integers(0, 120), min_size=1, max_size=3), state)
def text(v):
	n, s = v
	return '.'.join(map(str, n)) + ('' if s is None else s[0] + ('' if s[1] is None else str(s[1])))
def parts(v):
	n, s = v
	return tuple(n) + (None,) * (3 - len(n)) + (s or (None, None))

@law(st.tuples(ver, st.sampled_from(['', '', ' ', '\n', ' (Debian 16.1-1.pgdg120+1)', ' (Ubuntu 16.15-0ubuntu0.24.04.1)'])), 1500)
def a_version_has_its_components(case, t):
	v, suffix = case
	s = text(v) + suffix
	t.nt(v[1] is not None or suffix.strip())
	eq(V.split(s), parts(v), 'split(%r)' % s)
	eq(V.unsplit(V.split(s)), text(v), 'unsplit(split(%r))' % s)
	n = V.normalize(V.split(s))
	eq(n, tuple(x if x is not None else 0 for x in parts(v)[:3]) + ((v[1] or ('final', 0))[0], (v[1] or (0, 0))[1] or 0), 'normalize(split(%r))' % s)
	eq(eval(V.python(n)), n, 'python()')
	eq(dict(l.split('=') for l in V.sh(n).splitlines()), dict(zip(('PG_VERSION_MAJOR', 'PG_VERSION_MINOR', 'PG_VERSION_PATCH', 'PG_VERSION_STATE', 'PG_VERSION_LEVEL'), map(str, n))), 'sh()')
	for tag, x in zip(('major', 'minor', 'patch', 'state', 'level'), n):
		check('<%s>%s</%s>' % (tag, x, tag) in V.xml(n), 'xml() lacks %s: %s', tag, V.xml(n))
	i = I.Installation({'version': 'PostgreSQL ' + s})
	eq(i.version_info, n, 'version_info of an installation')
	eq((i.type, i.version), ('PostgreSQL', 'PostgreSQL ' + s), 'type and version')

RANK = {'a': 0, 'alpha': 0, 'b': 1, 'beta': 1, 'rc': 2, 'final': 3}
@law(st.tuples(ver, ver).filter(lambda p: all(not x[1] or x[1][0] in RANK for x in p)), 800)
def normalized_versions_order_as_releases_do(case, t):
	# state classes ranked by the module's priority list
	pri = V.default_state_class_priority
	def key(v):
		n = V.normalize(V.split(text(v)))
		return n[:-2] + (pri.index(n[-2]), n[-1])
	def ref(v):
		n, s = v
		s = s or ('final', 0)
		return tuple(n) + (0,) * (3 - len(n)) + (RANK[s[0]], s[1] or 0)
	a, b = case
	if {a[1] and a[1][0], b[1] and b[1][0]} in ({'a', 'alpha'}, {'b', 'beta'}):
		return
	t.nt(a[1] != b[1])
	eq((key(a) > key(b)) - (key(a) < key(b)), (ref(a) > ref(b)) - (ref(a) < ref(b)), 'order of %s and %s' % (text(a), text(b)))

oname = st.one_of(st.sampled_from(['with-openssl', 'with-ssl', 'prefix', 'enable-nls', 'CFLAGS', 'without-readline', 'x']), st.from_regex(r'[a-zA-Z][a-zA-Z0-9-]{0,8}[a-z0-9]', fullmatch=True))
oval = st.one_of(st.none(), st.sampled_from(['', '/usr/lib', '-O2 -g', 'a=b', "it's", "'", ' ', '-', 'x-', ' (Ubuntu 16)', '"q"', "a ''b'' c", '--y=1', '\\', '"', 'é', "-g -O2 -D'X=1'"]), st.text(alphabet='ab =-"\'\\/', max_size=8))
opts = st.lists(st.tuples(oname, oval), max_size=5, unique_by=lambda o: o[0])

def plain(v, q):
	return v is None or not any(c in v for c in ' \'"\\') and v[-1:] not in ('"', "'")

@law(st.tuples(opts, st.sampled_from(["'", "'", '"', 'sh', '']), st.sampled_from(['', ' '])), 1500)
def configure_options_have_their_exact_values(case, t):
	os_, how, end = case
	out, want = [], []
	for n, v in os_:
		o = ('' if n.isupper() else '--') + n + ('' if v is None else '=' + v)
		q = "'" if how == 'sh' else how
		if how == '':
			if not plain(v, q):
				return
		elif how == 'sh':
			o = "'" + o.replace("'", "'\\''") + "'"
		else:
			if v and q + '\\' + q + q in q + v.replace(q, q * 2) + q or v and v.endswith('\\'):
				return
			o = q + o.replace(q, q * 2) + q
		if how == 'sh' and v and ("\\'" in v or v.endswith('\\')):
			return
		out.append(o)
		want.append((n.replace('-', '_'), True if v is None else v))
	s = ' '.join(out) + (end if out else '')
	t.nt(any(v and any(c in v for c in ' \'"=') for n, v in os_))
	eq([tuple(x) for x in I.parse_configure_options(s)], want, 'parse_configure_options(%r)' % s)
	i = I.Installation({'version': 'PostgreSQL 12.3', 'configure': s})
	eq(i.configure_options, dict(want), 'configure_options')
	eq(bool(i.ssl), any(n == 'with_openssl' or n.startswith('with_ssl') for n, v in want) if not any('with_ssl' in n for n, v in want) else True, 'ssl')

EXE = ['pg_config', 'psql', 'initdb', 'postgres', 'pg_ctl', 'pg_dump', 'createdb']
lval = st.one_of(st.sampled_from(['/usr/lib/x', '', 'a=b', '-Wl,-z = x', "it's", '$HOME', 'x  y', '\\']), st.text(alphabet='ab =/\'"$`\\', max_size=8)).map(str.strip)
@law(st.tuples(st.dictionaries(st.sampled_from(['DOCDIR', 'LIBDIR', 'PKGLIBDIR', 'CC', 'CFLAGS_SL', 'LDFLAGS', 'SHAREDIR', 'MANDIR']), lval, max_size=5),
	st.sets(st.sampled_from(EXE)), st.booleans(), opts, st.sampled_from([' = ', '=', ' =', '= '])), 60)
def pg_config_output_is_read_line_by_line(case, t):
	info, exes, bindir, os_, sep = case
	d = os.path.join(OUT, 'inst')
	os.makedirs(d, exist_ok=True)
	for n in os.listdir(d):
		os.unlink(os.path.join(d, n))
	for n in exes:
		open(os.path.join(d, n), 'w').close()
	info = dict(info, VERSION = 'PostgreSQL 16.15')
	conf = ' '.join("'--%s%s'" % (n, '' if v is None else '=' + v) for n, v in os_ if plain(v, "'"))
	info['CONFIGURE'] = conf
	if bindir:
		info['BINDIR'] = d
	txt = ''.join(k + sep + v + '\n' for k, v in info.items()) + '\nnot a setting\n'
	script = os.path.join(OUT, 'fake_pg_config')
	with open(script, 'w') as f:
		f.write('#!/bin/sh\ncat %s\n' % shlex.quote(os.path.join(OUT, 'fake.out')))
	os.chmod(script, 0o755)
	with open(os.path.join(OUT, 'fake.out'), 'w') as f:
		f.write(txt)
	got = I.pg_config_dictionary(script)
	eq(got, {k.lower(): v for k, v in info.items()}, 'pg_config_dictionary')
	t.nt(any('=' in v for v in info.values()))
	i = I.Installation(got)
	eq(i.version_info, (16, 15, 0, 'final', 0), 'version_info')
	for k in ('docdir', 'libdir', 'pkglibdir', 'sharedir', 'mandir', 'bindir', 'sysconfdir'):
		eq(getattr(i, k), got.get(k), k)
	for k in EXE:
		eq(getattr(i, k), os.path.join(d, k) if bindir and k in exes else None, 'path of %s' % k)
	eq(i.configure_options, {n.replace('-', '_'): True if v is None else v for n, v in os_ if plain(v, "'")}, 'configure_options')
	old = os.environ.get('PGINSTALLATION')
	os.environ['PGINSTALLATION'] = script
	try:
		eq(I.default().info, got, 'default installation')
	finally:
		if old is not None:
			os.environ['PGINSTALLATION'] = old

OLD = ['bindir', 'docdir', 'includedir', 'libdir', 'pkglibdir', 'pgxs', 'configure']
@law(st.tuples(st.lists(st.tuples(st.sampled_from(OLD), lval), min_size=1, max_size=6, unique_by=lambda x: x[0]), st.sampled_from(['8.0.1', '7.4.30', '8.0.0beta2']), st.sampled_from(['', 'bindir = /usr/bin\n', 'pg_config: missing argument\n']), st.integers(1, 3)), 40)
def the_pg_config_of_old_releases_is_asked_for_each_value(case, t):
	info, version, noise, code = case; t.nt(len(info) > 1)
	d = os.path.join(OUT, 'old'); os.makedirs(d, exist_ok=True); script = os.path.join(d, 'pg_config')
	for k, v in info:
		with open(os.path.join(d, k + '.txt'), 'w') as f: f.write(v + '\n')
	usage = 'pg_config provides information about the installed version of PostgreSQL.\n\nUsage:\n  pg_config OPTION...\n\nOptions:\n' + ''.join('  --%-16s show the value\n' % k for k, v in info) + '  --version        output the PostgreSQL version\n  --help           show this help, then exit\n'
	with open(os.path.join(d, 'usage'), 'w') as f: f.write(usage)
	with open(os.path.join(d, 'noise'), 'w') as f: f.write(noise)
	with open(script, 'w') as f:
		f.write('#!/bin/sh\nD=%s\n[ $# = 0 ] && { cat $D/noise; exit %d; }\nfor x; do case $x in --help) cat $D/usage; exit 0;; --version) echo PostgreSQL %s;; *) cat $D/${x#--}.txt;; esac; done\n' % (shlex.quote(d), code, version))
	os.chmod(script, 0o755)
	eq(I.pg_config_dictionary(script), dict(info, version = 'PostgreSQL ' + version), 'pg_config_dictionary() of an old release')
