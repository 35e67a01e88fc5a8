"""C32: cluster control reflects and contains the server's lifecycle."""
import os, sys, time, signal, shutil, socket, subprocess, tempfile
from hypothesis import strategies as st
from vlib.core import law, check, eq, OUT, must_raise, raised, Violation, SITE
from vlib import pg
import postgresql.cluster as C
import postgresql.exceptions as E
from postgresql.installation import Installation, pg_config_dictionary

RULE = ("Histories of control operations on real data directories, through one or two cluster objects, with the server started, killed or its pid file spoiled "
	"from outside, links and odd files placed in the data directory, blocks nested and left by exceptions, and clients holding a shutdown or restart up. Oracle: a model of the directory and the process table. "
	"Non-trivial: the history starts a server and has an outside event, a repeated or a premature call.")
ASSUME = ["a server killed outright has left the process table, with its children, before the next operation (the histories wait for it)",
	"servers listen on TCP as the readiness probe requires; the data directory itself is not a link"]

BIN = pg.BIN
_ins = None
def ins():
	global _ins
	if _ins is None:
		_ins = Installation(pg_config_dictionary(BIN + '/pg_config'))
	return _ins

_template = None
def template():
	global _template
	if _template is None:
		_template = os.path.join(OUT, 'template')
		subprocess.run([BIN + '/initdb', '-D', _template, '-U', 'test', '-A', 'trust', '--no-locale', '-E', 'utf8', '--wal-segsize=1', '-N'],
			check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
	return _template

def free_port():
	s = socket.socket()
	s.bind(('127.0.0.1', 0))
	p = s.getsockname()[1]
	s.close()
	return p

CONF = """
max_connections=8
shared_buffers=1MB
max_wal_senders=0
wal_level=minimal
min_wal_size=2MB
fsync=off
autovacuum=off
unix_socket_directories='%s'
log_min_messages=fatal
"""

def procs(data):
	"""pids of the live processes working in the directory"""
	out = []
	for p in os.listdir('/proc'):
		if p.isdigit():
			try:
				if os.readlink('/proc/%s/cwd' % p) == data:
					with open('/proc/%s/stat' % p) as f:
						if f.read().rsplit(')', 1)[1].split()[0] != 'Z':
							out.append(int(p))
			except OSError:
				pass
	return out

def exiting():
	"""children that have begun to exit, which their parent cannot tell, yet"""
	out = []
	for p in os.listdir('/proc'):
		if p.isdigit():
			try:
				with open('/proc/%s/stat' % p) as f: state, parent = f.read().rsplit(')', 1)[1].split()[:2]
				if int(parent) == os.getpid() and state != 'Z':
					with open('/proc/%s/cmdline' % p) as f:
						if not f.read(): out.append(int(p))
					os.readlink('/proc/%s/cwd' % p)
			except FileNotFoundError: out += [int(p)] if os.path.exists('/proc/' + p) else []
			except OSError: pass
	return out

def wait(cond, what, limit = 20):
	t0 = time.time()
	while not cond():
		if time.time() - t0 > limit:
			raise Violation('%s did not happen' % what)
		time.sleep(0.01)

class World(object):
	def __init__(self, listen = 'localhost'):
		self.root = tempfile.mkdtemp(dir=OUT, prefix='w')
		self.data = os.path.join(self.root, 'd')
		self.sock = os.path.join(self.root, 's')
		self.outside = os.path.join(self.root, 'out')
		os.mkdir(self.sock)
		os.mkdir(self.outside)
		with open(os.path.join(self.outside, 'keep'), 'w') as f:
			f.write('kept')
		os.mkdir(os.path.join(self.outside, 'sub'))
		self.listen = listen
		self.port = free_port()
		self.procs = []
	def cluster(self):
		return C.Cluster(ins(), self.data)
	def populate(self):
		shutil.copytree(template(), self.data, symlinks=True)
		os.chmod(self.data, 0o700)
	def configure(self, c):
		with open(os.path.join(self.data, 'postgresql.conf'), 'a') as f:
			f.write(CONF % self.sock)
		d = {'port': str(self.port)}
		if self.listen is not None:
			d['listen_addresses'] = self.listen
		c.settings.update(d)
	def raw(self):
		return pg.Raw(os.path.join(self.sock, '.s.PGSQL.%d' % self.port), 'test', 'template1')
	def postmaster(self):
		"""pid of the live server, by the process table"""
		ps = procs(self.data)
		if not ps:
			return None
		try:
			with open(os.path.join(self.data, 'postmaster.pid')) as f:
				p = int(f.readline())
		except (OSError, ValueError):
			return None
		return p if p in ps else None
	def end(self):
		for i in range(500):
			ps = procs(self.data)
			if not ps:
				break
			for p in ps:
				try:
					os.kill(p, signal.SIGKILL)
				except OSError:
					pass
			time.sleep(0.02)
		for p in self.procs:
			p.wait()
		shutil.rmtree(self.root)

SETTINGS = st.dictionaries(st.sampled_from(['work_mem', 'maintenance_work_mem', 'vt.some_x', 'search_path']), st.sampled_from(['1111kB', '2222kB']), min_size=1)
PLAIN = ['init', 'start', 'start', 'stop', 'shutdown', 'kill', 'restart', 'restart_busy', 'drop', 'ext_kill', 'ext_start', 'ext_stop', 'wait_started', 'wait_stopped',
	'new', 'other', 'reload', 'with', 'with', 'with_raise', 'client_stop', 'client_shutdown', 'stale', 'empty_pid', 'bad_start', 'link_dir', 'link_file', 'link_dangling', 'connect']
# what an operation calls for, when it is to do something
WANTS = {'ext_kill': 'running', 'ext_stop': 'running', 'restart_busy': 'running', 'client_stop': 'running', 'client_shutdown': 'running', 'reload': 'running', 'connect': 'running',
	'ext_start': 'stopped', 'stale': 'stopped', 'empty_pid': 'stopped', 'bad_start': 'stopped'}
def mix(names, lo, hi, start = None):
	"""histories in which no operation is favoured"""
	def build(x):
		perm, n, at, extra = x
		h = list(perm[:n])
		if extra: h.insert(at % (n + 1), ('start',) + extra)
		return h
	return st.tuples(st.permutations(names), st.integers(lo, hi), st.integers(0, 9), start if start is not None else st.none()).map(build)

SETTLE = {'stop', 'shutdown', 'kill'}
@law(st.tuples(mix(PLAIN, 3, 9, st.one_of(st.none(), st.tuples(SETTINGS, st.booleans()))), st.sampled_from([True, True, True, False]), st.integers(0, 3)), 50, hang=200)
def histories_match_the_model(case, t):
	hist, pre, direct = case
	# most of the time, get to the state that an operation is about, first
	if direct: hist = directed(hist, pre)
	w = World()
	names = [h if isinstance(h, str) else h[0] for h in hist]
	t.nt(bool({'start', 'restart', 'with', 'with_raise', 'ext_start'} & set(names)) and (bool({'ext_kill', 'ext_start', 'ext_stop', 'stale', 'empty_pid', 'link_dir', 'link_file', 'link_dangling', 'client_stop'} & set(names)) or len(set(names)) < len(names) or names[0] != 'init'))
	try:
		cs = [w.cluster()]
		st_ = ['void']
		if pre:
			w.populate()
			w.configure(cs[0])
			st_[0] = 'stopped'
		run(w, cs, st_, hist, t)
	finally:
		w.end()

def directed(hist, pre):
	state, out = 'stopped' if pre else 'void', []
	for h in hist:
		n = h if isinstance(h, str) else h[0]
		want = WANTS.get(n)
		if state == 'void' and n not in ('init', 'drop', 'new', 'other'):
			out.append('init')
			state = 'stopped'
		if want and state != want:
			out.append('start' if want == 'running' else 'shutdown')
		state = want or state
		out.append(h)
		state = {'init': 'stopped' if state == 'void' else state, 'start': 'running', 'restart': 'running', 'drop': 'void', 'ext_start': 'running', 'stop': 'stopped', 'shutdown': 'stopped',
			'kill': 'stopped', 'ext_kill': 'stopped', 'ext_stop': 'stopped', 'restart_busy': 'stopped', 'client_stop': 'stopped', 'client_shutdown': 'stopped'}.get(n, state)
	return out

def owner_reap(cs):
	for c in cs:
		if c.daemon_process is not None:
			c.daemon_process.poll()

def agree(w, cs, state, what):
	owner_reap(cs)
	real = w.postmaster()
	eq(real is not None, state == 'running', 'server process after %s' % what)
	for i, c in enumerate(cs):
		eq(c.running(), state == 'running', 'running() of object %d after %s' % (i, what))
		eq(c.state, state, 'state of object %d after %s' % (i, what))
		eq(c.initialized(), state != 'void', 'initialized() of object %d after %s' % (i, what))
		eq(c.pid, real, 'pid of object %d after %s' % (i, what))
		r = c.ready_for_connections()
		if state == 'running':
			eq(r, True, 'ready_for_connections() after %s' % what)
		else:
			eq(r, None, 'ready_for_connections() of object %d after %s' % (i, what))
			if state == 'stopped':
				must_raise(C.ClusterNotRunningError, 'connect() after %s' % what, c.connect, user='test', database='template1')

def gone(w):
	wait(lambda: not procs(w.data) and not exiting(), 'the end of the server')

def run(w, cs, st_, hist, t):
	state = st_[0]
	agree(w, cs, state, 'creation')
	for h in hist:
		what = h
		c = cs[-1]
		extra = {}
		if not isinstance(h, str):
			what, extra, pairs = h
		t.ev(what + ' when ' + state)
		if what == 'init':
			if state == 'void':
				c.init(user='test', encoding='utf-8', extra_arguments=('--no-locale', '-N', '--wal-segsize=1'))
				w.configure(c)
				state = 'stopped'
			else:
				must_raise(C.InitDBError, 'init() of a directory in use', c.init, user='test')
		elif what in ('new', 'other'):
			if what == 'new':
				cs.append(w.cluster())
				if len(cs) > 2:
					# keep the owner of the process, if any
					cs[:] = [x for x in cs[:-1] if x.daemon_process is not None][-1:] + cs[-1:]
			else:
				cs.reverse()
		elif state == 'void':
			if what == 'drop':
				raised(c.drop)
			elif what == 'wait_started':
				must_raise(C.ClusterError, 'wait_until_started() with no server', c.wait_until_started, timeout=1)
			elif what == 'wait_stopped':
				c.wait_until_stopped(timeout=1)
			elif what in ('stop', 'shutdown', 'kill', 'reload'):
				getattr(c, what)()
		elif what == 'start':
			was = w.postmaster()
			if extra:
				c.start(settings=list(extra.items()) if pairs else extra)
			else:
				c.start()
			check(c.running(), 'not running after start()')
			c.wait_until_started()
			if state == 'running':
				eq(w.postmaster(), was, 'start() of a running cluster changed the process')
			else:
				with w.raw() as r:
					for k, v in extra.items():
						eq(r.one('SHOW ' + k), v, 'setting %s given to start()' % k)
			state = 'running'
		elif what == 'bad_start':
			if state == 'stopped':
				c.start(settings={'max_connections': 'many'})
				e = must_raise(C.ClusterError, 'wait_until_started() of a server that ends', c.wait_until_started)
				check(isinstance(e, C.ClusterStartupError), 'wait_until_started() raised %r', e)
		elif what in ('stop', 'shutdown', 'kill'):
			getattr(c, what)()
			getattr(c, what)()
			reap_while(w, cs, c)
			state = 'stopped'
		elif what == 'restart':
			was = w.postmaster()
			if len(cs) > 1 and cs[0].daemon_process is not None and c is not cs[0]:
				# a child of another object in this process would remain a zombie
				c = cs[0]
			c.restart()
			check(was is None or w.postmaster() != was, 'restart() left the process')
			state = 'running'
		elif what == 'drop':
			if len(cs) > 1 and cs[0].daemon_process is not None and c is not cs[0]:
				c = cs[0]
			c.drop()
			check(not os.path.lexists(w.data), 'drop() left the directory')
			check(not procs(w.data), 'drop() left processes')
			state = 'void'
		elif what == 'ext_kill':
			p = w.postmaster()
			if p:
				os.kill(p, signal.SIGKILL)
				for x in procs(w.data):
					try:
						os.kill(x, signal.SIGKILL)
					except OSError:
						pass
				for x in w.procs:
					x.wait()
				gone(w)
				state = 'stopped'
		elif what == 'ext_start':
			if state == 'stopped':
				w.procs.append(subprocess.Popen([BIN + '/postgres', '-D', w.data], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
				wait(lambda: c.running(), 'running() of a server started elsewhere')
				c.wait_until_started()
				state = 'running'
		elif what == 'ext_stop':
			p = w.postmaster()
			if p:
				os.kill(p, signal.SIGINT)
				gone(w)
				for x in w.procs:
					x.wait()
				state = 'stopped'
		elif what == 'wait_started':
			if state == 'running':
				c.wait_until_started(timeout=5)
			else:
				must_raise(C.ClusterError, 'wait_until_started() with no server', c.wait_until_started, timeout=1)
		elif what == 'wait_stopped':
			if state == 'running':
				t0 = time.time()
				must_raise(C.ClusterTimeoutError, 'wait_until_stopped() of a running server', c.wait_until_stopped, timeout=0.1)
				check(time.time() - t0 < 5, 'the timeout took %r s', time.time() - t0)
			else:
				c.wait_until_stopped(timeout=1)
		elif what == 'reload':
			v = '%dkB' % (1000 + len(t.events))
			c.settings['temp_buffers'] = v
			c.settings['work_mem'] = v
			eq(c.settings['work_mem'], v, 'settings of the cluster')
			c.reload()
			if state == 'running':
				def seen():
					with w.raw() as r:
						return r.query("SELECT 1 FROM pg_file_settings WHERE name = 'work_mem' AND setting = '%s'" % v) and r.query("SELECT 1 FROM pg_settings WHERE name = 'work_mem' AND (setting || unit = '%s' OR source = 'command line')" % v)
				wait(seen, 'the reload', 10)
		elif what == 'restart_busy':
			if state == 'running':
				if len(cs) > 1 and cs[0].daemon_process is not None and c is not cs[0]:
					c = cs[0]
				with w.raw() as r:
					was = w.postmaster()
					t0 = time.time()
					must_raise(C.ClusterTimeoutError, 'restart() with a client connected', c.restart, timeout=0.3)
					check(time.time() - t0 < 5, 'the timeout of restart() took %r s', time.time() - t0)
					eq(w.postmaster(), was, 'the process of a cluster which could not be restarted')
					eq(r.one('SELECT 1'), '1', 'the client of a cluster asked to restart')
				reap_while(w, cs, c)
				state = 'stopped'
		elif what == 'with_raise':
			was = w.postmaster()
			if len(cs) > 1 and cs[0].daemon_process is not None and c is not cs[0]:
				c = cs[0]
			try:
				with c:
					eq(c.ready_for_connections(), True, 'ready within the block')
					for i in (1, 2):
						try:
							with c:
								raise KeyError(i)
						except KeyError: pass
						eq(c.ready_for_connections(), True, 'ready after a nested block was left by an exception')
					raise KeyError(0)
			except KeyError as e:
				eq(e.args, (0,), 'the exception out of a block')
			else:
				raise Violation('a block of the cluster swallowed an exception')
			eq(c.running(), was is not None, 'running after a block left by an exception')
		elif what in ('with', 'with_running'):
			was = w.postmaster()
			if len(cs) > 1 and cs[0].daemon_process is not None and c is not cs[0]:
				c = cs[0]
			with c as x:
				check(x is c, 'the context manager gave another object')
				eq(c.ready_for_connections(), True, 'ready within the block')
				with c:
					pass
				eq(c.ready_for_connections(), True, 'ready after a nested block')
				check(was is None or w.postmaster() == was, 'the block changed the process')
			# a block stops the server only when it started it
			eq(c.running(), was is not None, 'running after the block')
		elif what in ('client_stop', 'client_shutdown'):
			if state == 'running':
				if len(cs) > 1 and cs[0].daemon_process is not None and c is not cs[0]:
					c = cs[0]
				with w.raw() as r:
					if what == 'client_stop':
						c.stop()
						must_raise(C.ClusterTimeoutError, 'wait_until_stopped() with a client connected', c.wait_until_stopped, timeout=0.2)
						check(c.running(), 'not running while a client is served')
						eq(r.one('SELECT 1'), '1', 'the client of a cluster asked to stop')
						z = c.ready_for_connections()
						eq(z, False, 'ready_for_connections() of a cluster which refuses')
					else:
						c.shutdown()
						reap_while(w, cs, c)
				reap_while(w, cs, c)
				state = 'stopped'
		elif what in ('stale', 'empty_pid'):
			if state == 'stopped':
				p = subprocess.Popen(['true'])
				p.wait()
				pf = os.path.join(w.data, 'postmaster.pid')
				with open(pf, 'w') as f:
					f.write('%d\n%s\n1\n%d\n%s\nlocalhost\n' % (p.pid, w.data, w.port, w.sock) if what == 'stale' else '')
				agree(w, cs, state, what)
				if what == 'empty_pid':
					os.unlink(pf)
		elif what == 'connect':
			if state == 'running':
				x = c.connect(user='test', database='template1')
				eq(x.query.first('SELECT 7'), 7, 'a connection to the cluster')
				x.close()
		elif what.startswith('link_'):
			to = {'link_dir': w.outside, 'link_file': os.path.join(w.outside, 'keep'), 'link_dangling': os.path.join(w.outside, 'nothing')}[what]
			for d in ('base/1', 'global') if what != 'link_dir' else ('pg_dynshmem', 'pg_snapshots'):
				try:
					os.symlink(to, os.path.join(w.data, d, 'lnk_' + what))
				except FileExistsError:
					pass
			# the server ignores them
		eq(sorted(os.listdir(w.outside)), ['keep', 'sub'], 'what lies outside the data directory after %s' % what)
		with open(os.path.join(w.outside, 'keep')) as f:
			eq(f.read(), 'kept', 'a file outside the data directory')
		agree(w, cs, state, what)

def reap_while(w, cs, c):
	"""wait_until_stopped, the owner of the process collecting it meanwhile"""
	own = [x for x in cs if x.daemon_process is not None]
	if own and c not in own:
		own[0].wait_until_stopped()
		for x in w.procs:
			x.wait()
		c.wait_until_stopped()
	else:
		import threading
		ps = list(w.procs)
		ths = [threading.Thread(target=x.wait) for x in ps]
		for x in ths:
			x.start()
		c.wait_until_stopped()
		for x in ths:
			x.join()
	gone(w)

@law(st.tuples(st.lists(st.sampled_from(['real', 'real', 'none', 'dead']), min_size=1, max_size=8)), 60, hang=100)
def a_server_which_disappears_is_reported_stopped(case, t):
	# the pid file goes away between any two looks at it, of a server started elsewhere
	sched, = case
	t.nt('none' in sched and 'real' in sched)
	root = tempfile.mkdtemp(dir=OUT)
	p = subprocess.Popen(['sleep', '60'])
	d = subprocess.Popen(['true'])
	d.wait()
	seq = list(sched)
	class Watched(C.Cluster):
		def get_pid_from_file(self):
			k = seq.pop(0) if seq else 'none'
			return {'real': p.pid, 'none': None, 'dead': d.pid}[k]
	try:
		c = Watched(ins(), root)
		c.wait_until_stopped(timeout=20, delay=0.001)
		seq[:] = sched
		for m in ('stop', 'shutdown', 'reload'):
			seq[:] = ['none'] * 10
			getattr(c, m)()
			seq[:] = ['dead'] * 10
			getattr(c, m)()
		check(p.poll() is None, 'a process was signalled which is not the server')
	finally:
		p.kill()
		p.wait()
		shutil.rmtree(root)

@law(st.tuples(st.sampled_from(['stop', 'shutdown', 'kill', 'reload']), st.integers(0, 1)), 12, hang=100)
def control_never_signals_a_past_process(case, t):
	# once the server ended its process identifier belongs to whoever gets it next
	op, how = case
	t.nt()
	w = World()
	real_kill = C.pg_kill
	sent = []
	def rec(pid, sig):
		if sig:
			sent.append((pid, sig))
		return real_kill(pid, sig) if sig == 0 else None
	try:
		w.populate()
		c = w.cluster()
		w.configure(c)
		c.start()
		c.wait_until_started()
		if how:
			os.kill(c.pid, signal.SIGINT)
			gone(w)
		else:
			c.shutdown()
			c.wait_until_stopped()
		C.pg_kill = rec
		getattr(c, op)()
		eq(sent, [], 'signals sent by %s() after the server ended' % op)
	finally:
		C.pg_kill = real_kill
		w.end()

@law(mix(['start', 'ext_start', 'ext_start', 'ext_kill', 'ext_kill', 'ext_kill', 'ext_stop', 'shutdown', 'new', 'with', 'wait_stopped', 'restart'], 5, 10), 14, hang=200)
def servers_come_and_go_outside(case, t):
	# the object is told by the data directory, not by the process it once started
	hist = ['start', 'ext_kill', 'ext_start'] + directed(case, True) if len(case) % 2 else directed(case, True)
	t.nt('ext_start' in case and ({'ext_kill', 'ext_stop'} & set(case)) != set())
	w = World()
	try:
		cs = [w.cluster()]
		w.populate()
		w.configure(cs[0])
		run(w, cs, ['stopped'], hist, t)
	finally:
		w.end()

ODD = ['link_dir', 'link_file', 'link_dangling', 'link_loop', 'link_up', 'fifo', 'socket', 'hidden', 'deep', 'empty', 'readonly', 'unreadable', 'spaces', 'hard']
@law(st.tuples(st.lists(st.tuples(st.sampled_from(ODD), st.sampled_from(['', 'base', 'base/1', 'pg_tblspc', 'global'])), min_size=1, max_size=6), st.sampled_from(['stopped', 'stopped', 'stopped', 'running', 'elsewhere', 'stale'])), 20, hang=100)
def drop_removes_the_directory_and_nothing_else(case, t):
	odd, how = case
	t.nt()
	w = World()
	try:
		w.populate()
		c = w.cluster()
		w.configure(c)
		for i, (k, at) in enumerate(odd):
			t.ev(k)
			p = os.path.join(w.data, at, 'z%d' % i)
			if k.startswith('link_'):
				os.symlink({'link_dir': w.outside, 'link_file': os.path.join(w.outside, 'keep'), 'link_dangling': '/nonexistent/x', 'link_loop': w.data, 'link_up': '..'}[k], p)
			elif k == 'fifo': os.mkfifo(p)
			elif k == 'socket':
				x = socket.socket(socket.AF_UNIX)
				x.bind(p); x.close()
			elif k == 'hidden':
				open(os.path.join(os.path.dirname(p), '.z%d' % i), 'w').close()
			elif k == 'deep': os.makedirs(p + '/a/b/c'); open(p + '/a/b/c/f', 'w').close()
			elif k == 'empty': os.mkdir(p)
			elif k == 'readonly':
				open(p, 'w').close(); os.chmod(p, 0o400)
			elif k == 'unreadable':
				open(p, 'w').close(); os.chmod(p, 0)
			elif k == 'spaces': os.mkdir(p + " a'\nb é")
			elif k == 'hard': os.link(os.path.join(w.outside, 'keep'), p)
		if {at for k, at in odd} - {'', 'global'} and how in ('running', 'elsewhere'): how = 'stopped'
		if how == 'running':
			c.start(); c.wait_until_started()
		elif how == 'elsewhere':
			p = subprocess.Popen([BIN + '/postgres', '-D', w.data], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
			wait(lambda: c.running(), 'running() of a server started elsewhere')
			c.wait_until_started()
			import threading
			threading.Thread(target=p.wait, daemon=True).start()
		elif how == 'stale':
			with open(os.path.join(w.data, 'postmaster.pid'), 'w') as f: f.write('999999\n')
		c.drop()
		check(not os.path.lexists(w.data), 'drop() left the directory')
		check(not procs(w.data), 'drop() left processes')
		eq(sorted(os.listdir(w.outside)), ['keep', 'sub'], 'what lies outside the data directory after drop()')
		with open(os.path.join(w.outside, 'keep')) as f: eq(f.read(), 'kept', 'a file outside the data directory')
		eq(sorted(os.listdir(w.root)), ['out', 's'], 'the neighbours of the data directory')
		eq(c.state, 'void', 'state of a cluster dropped')
		c.init(user='test', extra_arguments=('--no-locale', '-N', '--wal-segsize=1')) if len(odd) == 1 else None
	finally:
		w.end()

LISTEN = ['localhost', '*', '127.0.0.1', 'localhost,127.0.0.1', '127.0.0.1, localhost', ' 127.0.0.1 ', 'nosuch.invalid, 127.0.0.1', '127.0.0.1,nosuch.invalid', 'LOCALHOST', '0.0.0.0', None]
@law(st.tuples(st.sampled_from(LISTEN), st.sampled_from(['trust', 'md5', 'password', 'reject'])), 14, hang=100)
def readiness_is_recognized_however_it_listens(case, t):
	listen, auth = case
	t.nt(listen != 'localhost' or auth != 'trust')
	w = World(listen)
	try:
		w.populate()
		c = w.cluster()
		w.configure(c)
		with open(c.hba_file, 'w') as f:
			f.write('local all all trust\nhost all all all %s\n' % auth)
		c.start()
		t0 = time.time()
		wait(lambda: probe(w), 'the start', 15)
		c.wait_until_started(timeout=6)
		eq(c.ready_for_connections(), True, 'ready_for_connections() of a server listening at %r with %s' % (listen, auth))
		with w.raw() as r:
			eq(r.one("SELECT count(*) FROM pg_stat_activity WHERE usename LIKE '%ping%'"), '0', 'connections left by the readiness probe')
		c.shutdown()
		c.wait_until_stopped()
	finally:
		w.end()
def probe(w):
	try:
		w.raw().close()
		return True
	except Exception:
		return False

@law(st.tuples(st.text(alphabet="aé'\"\\ $", min_size=1, max_size=8), st.sampled_from(['test', 'a b', 'Tx-y'])), 4, hang=100)
def init_applies_its_parameters(case, t):
	password, user = case
	t.nt()
	w = World()
	try:
		c = w.cluster()
		c.init(user=user, password=password, encoding='utf-8', extra_arguments=('--no-locale', '-N', '--wal-segsize=1', '--auth-host=password'))
		check(c.initialized(), 'not initialized after init()')
		w.configure(c)
		with c:
			x = c.connect(user=user, password=password, database='template1')
			eq(x.query.first('SELECT current_user::text'), user, 'the superuser')
			eq(x.query.first('SHOW server_encoding'), 'UTF8', 'the encoding')
			x.close()
			must_raise(E.ClientCannotConnectError, 'another password', c.connect, user=user, password=password + 'x', database='template1')
		must_raise(TypeError, 'an unknown parameter', c.init, nosuch=1)
		must_raise(C.InitDBError, 'init() again', c.init)
		none = Installation({'version': 'PostgreSQL 16.1', 'bindir': w.outside})
		must_raise(C.ClusterInitializationError, 'init() without initdb', C.Cluster(none, os.path.join(w.root, 'e')).init)
	finally:
		w.end()

TMP = """
import sys
from postgresql.temporal import pg_tmp
import builtins
keep = []
mode = sys.argv[1]
with pg_tmp:
	assert prepare('SELECT 1').first() == 1
	sqlexec('CREATE TABLE t(i int)')
	print(pg_tmp.cluster.data_directory, pg_tmp.cluster.pid)
	sys.stdout.flush()
	with pg_tmp:
		assert prepare("SELECT to_regclass('t') IS NULL").first() is True
		sqlexec('CREATE TABLE t(i int)')
		if mode == 'inner':
			keep.append(db.clone())
	assert prepare("SELECT to_regclass('t') IS NOT NULL").first() is True
	if mode == 'extra':
		keep.append(new())
	if mode == 'raise':
		try:
			with pg_tmp:
				1/0
		except ZeroDivisionError:
			pass
	if mode == 'idle':
		keep.append(db.clone())
		keep[0].execute('BEGIN')
if mode == 'open':
	keep.append(pg_tmp.cluster.connect(user='test', database='test'))
assert not hasattr(builtins, 'sqlexec')
"""
@law(st.sampled_from(['plain', 'open', 'idle', 'inner', 'extra', 'raise']), 6, 12, hang=150)
def the_temporary_cluster_ends_with_its_process(case, t):
	t.nt(case != 'plain')
	home = tempfile.mkdtemp(dir=OUT, prefix='h')
	env = dict(os.environ, HOME=home, PGINSTALLATION=BIN + '/pg_config', PYTHONPATH=SITE)
	env.pop('PGTEST', None)
	data = None
	try:
		r = subprocess.run([sys.executable, '-c', TMP, case], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100, cwd=home)
		out = r.stdout.decode().split()
		check(len(out) == 2, 'the process failed: %s', r.stderr.decode()[:1500])
		data = out[0]
		left = procs(data)
		check(r.returncode == 0 and not r.stderr, 'the process ended with %d: %s', r.returncode, r.stderr.decode()[:1500])
		check(not os.path.exists(data), 'the temporary cluster was left in place')
		check(not left, 'the temporary server was left running')
	finally:
		for p in procs(data) if data else []:
			os.kill(p, signal.SIGKILL)
		wait(lambda: not data or not procs(data), 'the end of the temporary server')
		shutil.rmtree(home)
