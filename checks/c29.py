"""C29: client parameters are collected with the documented precedence."""
import os, io, sys, shutil
from hypothesis import strategies as st
from vlib.core import law, check, eq, OUT, must_raise, raised
import postgresql, postgresql.clientparameters as P

RULE = ("Combinations of defaults, base parameters, environment variables (documented prefix and others), service files, command lines and locators over "
	"a common pool of keys. Oracle: the documented tables applied in the documented order. Non-trivial: at least two sources give the same key.")
ASSUME = ["a service named by PGSERVICE is expanded after the other environment variables"]

val = st.one_of(st.sampled_from(['a', 'b', 'c c', "x'y", 'é', '5', 'utf8', 'on']), st.text(alphabet='ab1 _%', min_size=1, max_size=4))
ENV = {'USER': ('user',), 'DATABASE': ('database',), 'HOST': ('host',), 'PORT': ('port',), 'PASSWORD': ('password',), 'SSLMODE': ('sslmode',),
	'SSLKEY': ('sslkey',), 'CONNECT_TIMEOUT': ('connect_timeout',), 'REALM': ('kerberos4_realm',), 'KRBSRVNAME': ('kerberos5_service',), 'PASSFILE': ('pgpassfile',),
	'TZ': ('settings', 'timezone'), 'DATESTYLE': ('settings', 'datestyle'), 'CLIENTENCODING': ('settings', 'client_encoding'), 'GEQO': ('settings', 'geqo')}
KEYS = ['user', 'database', 'host', 'port', 'password', 'sslmode', 'connect_timeout', 'unix', 'sslkey']
SETS = ['timezone', 'datestyle', 'geqo', 'search_path', 'work_mem']

envs = st.fixed_dictionaries({}, optional = dict({k: val for k in ENV}, HOSTADDR = val, REQUIRESSL = st.sampled_from(['1', '0', ' 1 ', '', '2']), UNKNOWN = val, OTHER_USER = val))
base = st.tuples(st.dictionaries(st.sampled_from(KEYS), val, max_size=3), st.dictionaries(st.sampled_from(SETS), val, max_size=2))

iriv = st.from_regex(r'[a-z][a-z0-9]{0,3}', fullmatch=True)
@st.composite
def option(draw):
	"""(argv words, [(path, value)])"""
	k = draw(st.integers(0, 9))
	v = draw(val)
	def two(short, long):
		return draw(st.sampled_from([[short, v], [short + v], [long, v], [long + '=' + v]]))
	if k == 0: return two('-U', '--username'), [(('user',), v)]
	if k == 1: return two('-d', '--database'), [(('database',), v)]
	if k == 2: return two('-h', '--host'), [(('host',), v)]
	if k == 3: return two('-p', '--port'), [(('port',), v)]
	if k == 4: return ['--unix', v], [(('unix',), v)]
	if k == 5:
		m = draw(st.sampled_from(['require', 'prefer', 'allow', 'disable']))
		return ['--ssl-mode', m], [(('sslmode',), m)]
	if k in (6, 7):
		n = draw(st.sampled_from(SETS))
		v = draw(st.one_of(val, st.just('a=b'), st.just('')))
		return draw(st.sampled_from([['-s', n + '=' + v], ['-s' + n + '=' + v], ['--setting', n + '=' + v]])), [(('settings', n), v)]
	if k == 8:
		return draw(st.sampled_from([['-W'], ['--password']])), [(('prompt_password',), True)]
	d, s = [], 'pq://'
	u, pw, h, db = (draw(st.one_of(st.none(), iriv)) for _ in range(4))
	if u:
		s += u
		d.append((('user',), u))
		if pw:
			s += ':' + pw
			d.append((('password',), pw))
		s += '@'
	if h:
		s += h
		d.append((('host',), h))
	if db:
		s += '/' + db
		d.append((('database',), db))
	q = []
	if draw(st.booleans()):
		x = draw(iriv)
		q.append('[sslmode]=' + x)
		d.append((('sslmode',), x))
	for n in draw(st.lists(st.sampled_from(SETS), max_size=2, unique=True)):
		x = draw(iriv)
		q.append(n + '=' + x)
		d.append((('settings', n), x))
	if q:
		s += '?' + '&'.join(q)
	return draw(st.sampled_from([['-I', s], ['--iri=' + s]])), d

SVC = {'user': ('user',), 'host': ('host',), 'hostaddr': ('host',), 'dbname': ('database',), 'port': ('port',), 'password': ('password',), 'sslmode': ('sslmode',),
	'connect_timeout': ('connect_timeout',), 'timezone': ('settings', 'timezone'), 'work_mem': ('settings', 'work_mem'), 'pg_service': None}
svcs = st.lists(st.tuples(st.sampled_from(['s1', 's2']), st.dictionaries(st.sampled_from(sorted(SVC)), st.one_of(st.from_regex(r'[a-z0-9/%]{1,4}', fullmatch=True), st.sampled_from(['%(user)s', 'a b', '$HOME', 'a%%b'])), max_size=4)), max_size=2, unique_by=lambda s: s[0])

HOME = os.path.join(OUT, '~nobody_zz')

def put(d, path, v):
	for k in path[:-1]:
		d = d.setdefault(k, {})
	d[path[-1]] = v

class Stdin(io.StringIO):
	tty = False
	def isatty(self):
		return self.tty

def reset_home(files = {}):
	shutil.rmtree(HOME, ignore_errors=True)
	os.makedirs(HOME + '/.postgresql')
	for n, c in files.items():
		with open(os.path.join(HOME, n), 'w') as f:
			f.write(c)
	os.chdir(OUT)
	os.environ['LOGNAME'] = 'nobody_zz'

HFILES = {'.pgpass': 'pgpassfile', '.postgresql/postgresql.crt': 'sslcrtfile', '.postgresql/postgresql.key': 'sslkeyfile',
	'.postgresql/root.crt': 'sslrootcrtfile', '.postgresql/root.crl': 'sslrootcrlfile'}

def write_service(path, sections):
	with open(path, 'w') as f:
		for n, d in sections:
			f.write('# a service\n[%s]\n' % n + ''.join('%s=%s\n' % x for x in d.items()))

@law(st.fixed_dictionaries({'no_defaults': st.booleans(), 'home': st.sets(st.sampled_from(sorted(HFILES))), 'base': base, 'env': envs, 'prefix': st.sampled_from(['PG', 'PG', 'PG_SRC_']),
	'noenv': st.integers(0, 9), 'opts': st.lists(option(), max_size=4), 'svc': svcs, 'svcin': st.sampled_from(['file', 'env', 'sysconf', 'defsysconf', 'user', 'file+sys']), 'service': st.sampled_from([None, None, 's1', 's2', 's3'])}), 1200)
def collecting_follows_the_documented_precedence(c, t):
	reset_home({n: '*:*:*:*:x\n' if n == '.pgpass' else '' for n in c['home']})
	environ = {c['prefix'] + k: v for k, v in c['env'].items()}
	kw = {}
	steps = []
	if not c['no_defaults']:
		steps += [(('user',), 'nobody_zz'), (('host',), 'localhost'), (('port',), 5432)]
		steps += [((HFILES[n],), os.path.join('~nobody_zz', n)) for n in c['home']]
	b, bs = c['base']
	b = dict(b)
	if bs:
		b['settings'] = bs
	for k, v in b.items():
		steps += [(('settings', x), y) for x, y in v.items()] if k == 'settings' else [((k,), v)]
	if b:
		kw['parameters'] = b
	envd = {}
	e = c['env']
	if e.get('REQUIRESSL', '').strip() == '1':
		envd[('sslmode',)] = 'require'
	for k, path in ENV.items():
		if k in e:
			envd[path] = e[k]
	if 'HOSTADDR' in e:
		envd[('host',)] = e['HOSTADDR']
	found = {}
	svcpath = os.path.join(OUT, 'svc')
	shutil.rmtree(svcpath, ignore_errors=True)
	os.makedirs(svcpath)
	where = c['svcin']
	missing = False
	if c['service']:
		environ[c['prefix'] + 'SERVICE'] = c['service']
		sections = c['svc']
		if where == 'file':
			write_service(svcpath + '/x.conf', sections)
			kw['pg_service_file'] = svcpath + '/x.conf'
			# an explicit file is the only one besides the system's
			write_service(HOME + '/.pg_service.conf', [(x, {'user': 'decoy'}) for x in ('s1', 's2', 's3')])
		elif where == 'env':
			write_service(HOME + '/.pg_service.conf', [(x, {'user': 'decoy'}) for x in ('s1', 's2', 's3')])
			write_service(svcpath + '/x.conf', sections)
			environ['PGSERVICEFILE'] = svcpath + '/x.conf'
		elif where == 'sysconf':
			write_service(svcpath + '/pg_service.conf', sections)
			environ['PGSYSCONFDIR'] = svcpath
			kw['default_pg_sysconfdir'] = '/nonexistent'
		elif where == 'defsysconf':
			write_service(svcpath + '/pg_service.conf', sections)
			kw['default_pg_sysconfdir'] = svcpath
		elif where == 'user':
			write_service(HOME + '/.pg_service.conf', sections)
		else:
			# the explicit file comes first
			write_service(svcpath + '/x.conf', sections[:1])
			write_service(svcpath + '/pg_service.conf', sections)
			kw['pg_service_file'] = svcpath + '/x.conf'
			environ['PGSYSCONFDIR'] = svcpath
		d = dict(sections).get(c['service'])
		if d is None:
			missing = True
		else:
			for k, v in d.items():
				if SVC[k]:
					envd.pop(SVC[k], None)
					envd[SVC[k]] = v
	noenv = c['noenv'] == 0
	if noenv:
		environ = None
		envd, missing = {}, False
	if 'host' in dict(c['svc']).get(c['service'], {}) and 'hostaddr' in dict(c['svc'])[c['service']]:
		return
	steps += list(envd.items())
	argv = []
	for words, d in c['opts']:
		argv += words
		steps += d
	if argv:
		co, ca = P.DefaultParser().parse_args(list(argv))
		eq(ca, [], 'positional arguments of %r' % argv)
		kw['parsed_options'] = co
	want = {}
	paths = [p for p, v in steps]
	t.nt(len(set(paths)) < len(paths))
	for p, v in steps:
		put(want, p, v)
	f = lambda: P.collect(no_defaults = c['no_defaults'], environ = environ, environ_prefix = c['prefix'], prompt_title = None, **kw)
	if missing:
		must_raise(P.ServiceDoesNotExistError, 'collecting with an unknown service', f)
		return
	got = f()
	eq(got, want, 'collect(%r, environ=%r) with %r' % (kw, environ, argv))

words = st.from_regex(r'[a-z]{1,4}', fullmatch=True)
@law(st.fixed_dictionaries({'prompt': st.booleans(), 'password': st.one_of(st.none(), st.just(''), words), 'haspw': st.booleans(), 'tty': st.booleans(), 'line': st.sampled_from(['sekrit', 'a b', '', ' x ']),
	'nl': st.booleans(), 'title': st.sampled_from(['', 'my_prompt!']), 'ptitle': st.one_of(st.none(), st.just('other')), 'file': st.integers(0, 3),
	'unix': st.booleans(), 'user': words, 'host': words, 'port': st.sampled_from(['5432', 5432, 'ssh', 5433]), 'database': st.one_of(st.none(), words), 'via': st.booleans()}), 800)
def the_password_is_resolved_as_directed(c, t):
	p = {'user': c['user'], 'host': c['host'], 'port': c['port']}
	if c['unix']:
		p = {'user': c['user'], 'unix': '/tmp/x'}
	if c['database']:
		p['database'] = c['database']
	if c['haspw']:
		p['password'] = c['password']
	if c['prompt']:
		p['prompt_password'] = True
	if c['ptitle']:
		p['prompt_title'] = c['ptitle']
	want = {k: v for k, v in p.items() if k not in ('prompt_password', 'prompt_title')}
	path = os.path.join(OUT, 'pwfile')
	host, port = ('localhost', '5432') if c['unix'] else (c['host'], str(c['port']))
	line = '%s:%s:%s:%s:frompgpass\n' % (host, port, c['database'] or c['user'], c['user'])
	with open(path, 'w') as f:
		f.write('x:y:z:w:no\n' + (line if c['file'] != 2 else '# ' + line))
	if c['file']:
		p['pgpassfile'] = path if c['file'] != 3 else path + '.missing'
	asked = []
	def getpass(s):
		asked.append(s)
		return 'from tty'
	t.nt(c['prompt'] or c['file'])
	if c['prompt']:
		want['password'] = 'from tty' if c['tty'] else c['line']
	elif want.get('password') is None:
		if c['file'] == 1:
			want['password'] = 'frompgpass'
		elif c['file']:
			want['password'] = None
	old = sys.stdin
	sys.stdin = Stdin(c['line'] + ('\n' if c['nl'] else '') + ('next\n' if c['nl'] else ''))
	sys.stdin.tty = c['tty']
	try:
		P.resolve_password(p, getpass = getpass, prompt_title = c['title'])
		rest = sys.stdin.read()
	finally:
		sys.stdin = old
	eq(p, want, 'resolved parameters')
	if c['prompt'] and c['tty']:
		eq(len(asked), 1, 'prompts')
		title = c['title'] or c['ptitle'] or ''
		check(asked[0].startswith('Password for ' + title + '[pq://' + c['user']), 'prompt %r', asked[0])
		check(c['password'] is None or c['password'] == '' or not c['haspw'] or (':' + c['password'] + '@') not in asked[0], 'the prompt %r shows the password', asked[0])
	else:
		eq(asked, [], 'prompts')
		if c['prompt']:
			eq(rest, 'next\n' if c['nl'] else '', 'the rest of the standard input')

@law(st.fixed_dictionaries({'env': st.fixed_dictionaries({}, optional={k: iriv for k in ('USER', 'HOST', 'PORT', 'DATABASE', 'PASSWORD', 'GEQO', 'TZ', 'CONNECT_TIMEOUT')}),
	'iri': st.one_of(st.none(), option().filter(lambda o: o[0][0] == '-I' or o[0][0].startswith('--iri'))), 'unix': st.sampled_from([None, None, None, 'iri', 'kw']),
	'kw': st.tuples(st.dictionaries(st.sampled_from(['user', 'database', 'password']), iriv, max_size=2), st.dictionaries(st.sampled_from(SETS), iriv, max_size=2)), 'pgpass': st.booleans()}), 300)
def open_merges_its_sources(c, t):
	reset_home({'.pgpass': '*:*:*:*:frompgpass\n'} if c['pgpass'] else {})
	steps = {('user',): 'nobody_zz', ('host',): 'localhost', ('port',): 5432}
	for k in list(os.environ):
		if k.startswith('PG') and k != 'PGINSTALLATION':
			del os.environ[k]
	for k, v in c['env'].items():
		os.environ['PG' + k] = v
		steps[ENV[k]] = v
	unix = c['unix']
	try:
		iri = ''
		if unix:
			steps.pop(('host',))
			steps.pop(('port',))
		if c['iri'] and unix != 'iri':
			w, d = c['iri']
			iri = w[-1].split('=', 1)[1] if w[0].startswith('--iri') else w[-1]
			steps.update(d)
		if unix == 'iri':
			iri = 'pq://[unix:' + OUT.replace('/', ':') + ':s]'
			steps[('unix',)] = OUT + '/s'
		kw = dict(c['kw'][0])
		for k, v in kw.items():
			steps[(k,)] = v
		if c['kw'][1]:
			kw['settings'] = c['kw'][1]
			for k, v in c['kw'][1].items():
				steps[('settings', k)] = v
		if unix == 'kw':
			kw['unix'] = OUT + '/s'
			steps[('unix',)] = OUT + '/s'
			if ('host',) in steps:
				return
		want = {}
		for p, v in steps.items():
			put(want, p, v)
		if want.get('password') is None:
			want['password'] = 'frompgpass' if c['pgpass'] else None
		port = want.get('port')
		if ('PORT' in c['env']) and not unix and not str(port).isdigit():
			os.environ['PGPORT'] = want['port'] = '5433'
		if want.get('sslmode') not in (None, 'allow', 'prefer', 'require', 'disable'):
			return
		ct = want.get('connect_timeout')
		if ct is not None:
			os.environ['PGCONNECT_TIMEOUT'] = want['connect_timeout'] = '7'
		t.nt(len(kw) + bool(iri) + len(c['env']) > 1)
		C = postgresql.open('&' + iri, **kw)
		for k in ('user', 'password', 'database', 'unix') + (() if unix else ('host', 'port')):
			g = getattr(C, k, None)
			w = want.get(k)
			if k == 'port':
				g, w = int(g), int(w)
			if k == 'unix' and not unix:
				continue
			eq(g, w, '%s of the connector of open(%r, %r) with %r' % (k, iri, kw, c['env']))
		s = dict(C.settings or {})
		for k, v in (want.get('settings') or {}).items():
			eq(s.get(k), v, 'setting %s' % k)
	finally:
		for k in c['env']:
			os.environ.pop('PG' + k, None)
		os.environ.pop('PGPORT', None)

@law(st.one_of(val.filter(lambda s: '=' not in s)), 30)
def an_invalid_setting_argument_is_refused(v, t):
	t.nt()
	import optparse
	class Parser(P.DefaultParser):
		def error(self, msg):
			raise optparse.OptParseError(msg)
	must_raise(optparse.OptParseError, 'parsing -s %r' % v, Parser().parse_args, ['-s', v])
