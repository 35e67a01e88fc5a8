"""C20: Every notification is delivered once, in order, with its payload."""
import time, struct, threading, select, random
from hypothesis import strategies as st
from vlib import live, gen
from vlib.core import law, check, eq, raised
from vlib.proxy import Proxy

RULE = ("Histories of listen(), unlisten(), notify() with any channel names and payloads, inside and outside of transactions, over two connections and an independent client, against a model of channels and transactions; and histories of any operations during which the server's notifications, and further ones put at any position of its messages, arrive, are collected by iternotifies() and by managers with any timeout, and whose connections are closed or lost, against the notifications on the wire. "
	"Non-trivial: at least two notifications are delivered.")

ident = st.one_of(st.text(alphabet=st.characters(codec='utf-8', exclude_characters='\0'), min_size=1, max_size=8), st.sampled_from(['foo', 'Foo', 'FOO', 'a b', 'select', 'x"y', '"', '1', "it's", ';', '--', 'é', 'a;b', '%s', '$1', '\\', ' ', 'x' * 63, 'é' * 31])).filter(lambda s: len(s.encode('utf-8')) <= 63 and s != '*')
chan = st.sampled_from([0, 0, 1, 1, 2, 3])
payload = st.one_of(st.just(''), st.text(alphabet=st.characters(codec='utf-8', exclude_characters='\0'), max_size=12), st.sampled_from(["'", "''", '\\', "\\'", 'x' * 100, 'y' * 7990, '"', "');", ' ']))
who = st.integers(0, 1)
notify = st.tuples(st.just('notify'), st.integers(0, 2), st.lists(st.one_of(chan, st.tuples(chan, payload)), min_size=1, max_size=4), st.dictionaries(chan, payload, max_size=2))
op = st.one_of(
	st.tuples(st.just('listen'), who, st.lists(chan, max_size=3)), st.tuples(st.just('unlisten'), who, st.lists(chan, max_size=2)), st.tuples(st.just('unlisten all'), who),
	notify, notify, notify,
	st.tuples(st.sampled_from(['begin', 'begin', 'commit', 'rollback', 'drain', 'poll', 'both', 'channels', 'query']), who),
	st.tuples(st.just('too long'), who, st.sampled_from(['x' * 64, 'é' * 32, 'x' * 100, 'a' * 61 + '€'])))
class Conn(object):
	def __init__(self, db):
		self.db = db; self.listening = set(); self.todo = None; self.sent = []; self.x = None
		self.server = []; self.due = []
def quote(s): return '"' + s.replace('"', '""') + '"'
def lit(s): return "'" + s.replace("'", "''") + "'"
def poll(pull, got, n, limit=10):
	end = time.monotonic() + limit
	while len(got) < n and time.monotonic() < end:
		pull()
		if len(got) < n: time.sleep(.001)
@law(st.tuples(st.lists(ident, min_size=4, max_size=4, unique=True), st.tuples(st.lists(op, max_size=10), st.lists(op, min_size=4, max_size=10)).map(lambda x: [('listen', 0, [0, 1]), ('listen', 1, [0])] * (len(x[0]) % 5 > 0) + x[0] + x[1])), 250, 5000)
def notifications_follow_listen_and_notify(case, t):
	names, ops = case; delivered = 0
	for form in (0, 1):
		F = live.form(form); N = F.sub('notifyman'); r = live.raw()
		cs = [Conn(db) for db in F.take(2)]
		pids = [c.db.backend_id for c in cs] + [int(r.query('SELECT pg_backend_pid()')[0][0])]
		def commit(sender, sent):
			for c in cs:
				for ch, pl in sent:
					if c.x is not None: c.server.append((ch, pl, sender))
					elif ch in c.listening: c.due.append((ch, pl, sender))
		def act(c, f):
			# UNLISTEN does not recall what's on its way
			if c.x is None: c.db.execute(''); f(c.listening)
			else: c.todo.append(f)
		def pull(c, strict):
			c.got = getattr(c, 'got', [])
			if strict: c.db.execute(''); c.got += c.db.iternotifies(0)
			else: poll(lambda: c.got.extend(c.db.iternotifies(0)), c.got, len(c.due))
			eq(c.got, c.due, 'notifications delivered'); n = len(c.got); c.got = []; c.due = []
			return n
		def end(c, ok):
			todo, sent, x = c.todo, c.sent, c.x; c.todo, c.sent, c.x = None, [], None
			if ok:
				x.commit()
				for f in todo: f(c.listening)
			else: x.rollback()
			# what arrived during the transaction
			for ch, pl, pid in c.server:
				if ch in c.listening: c.due.append((ch, pl, pid))
			c.server = []
			if ok: commit(c.db.backend_id, sent)
		for o in ops:
			if o[0] == 'notify':
				_, i, args, kw = o
				sent = []
				for a in [(a, '') if isinstance(a, int) else a for a in args] + list(kw.items()):
					a = (names[a[0]], a[1])
					if a not in sent: sent.append(a)
				# a pending LISTEN of another's transaction may or may not get it
				if any(c.todo and pids[i] != c.db.backend_id for c in cs): continue
				if i == 2:
					r.query('BEGIN; ' + ''.join('NOTIFY %s, %s;' % (quote(a), lit(b)) for a, b in sent) + 'COMMIT'); commit(pids[2], sent)
				else:
					c = cs[i]
					c.db.notify(*[names[a] if isinstance(a, int) else (names[a[0]], a[1]) for a in args], **{names[k]: v for k, v in kw.items()})
					if c.x is None: commit(pids[i], sent)
					else: c.sent += [a for a in sent if a not in c.sent]
				continue
			c = cs[o[1]]; db = c.db
			if o[0] == 'listen':
				act(c, lambda l, s={names[k] for k in o[2]}: l.update(s)); db.listen(*[names[k] for k in o[2]])
			elif o[0] == 'unlisten':
				act(c, lambda l, s={names[k] for k in o[2]}: l.difference_update(s)); db.unlisten(*[names[k] for k in o[2]])
			elif o[0] == 'unlisten all': act(c, lambda l: l.clear()); db.execute('UNLISTEN *')
			elif o[0] == 'too long':
				e, _ = raised(db.listen, o[2]); check(isinstance(e, ValueError), 'listening to a name that is too long: %r', e)
				e, _ = raised(db.unlisten, o[2]); check(isinstance(e, ValueError), 'unlistening to a name that is too long: %r', e)
			elif o[0] == 'begin':
				if c.x is None: c.x = db.xact(); c.x.start(); c.todo = []
			elif o[0] in ('commit', 'rollback'):
				if c.x is not None: end(c, o[0] == 'commit')
			elif c.x is not None: continue
			elif o[0] == 'drain': delivered += pull(c, True)
			elif o[0] == 'poll': delivered += pull(c, False)
			elif o[0] == 'both':
				# some are collected already and some are on the wire
				db.execute('')
				if names[0] in c.listening and all(d.x is None for d in cs):
					r.query('NOTIFY %s, %s' % (quote(names[0]), lit('both'))); commit(pids[2], [(names[0], 'both')])
					check(select.select([db], [], [], 10)[0], 'a notification arrives')
					got = list(db.iternotifies(0)); eq(got, c.due, 'what a zero timeout drains'); c.due = []; delivered += len(got)
			elif o[0] == 'channels': eq(sorted(db.listening_channels()), sorted(c.listening), 'channels listened to')
			elif o[0] == 'query': eq(db.query.first('SELECT 5'), 5, 'a query')
		for c in cs:
			if c.x is not None: end(c, False)
		# what is left, by a manager of both
		for c in cs: c.got = []
		nm = N.NotificationManager(*[c.db for c in cs], timeout=0); total = sum(len(c.due) for c in cs)
		def collect():
			for db, l in nm:
				for c in cs:
					if c.db is db: c.got += l; everything.extend(l)
		everything = []; poll(collect, everything, total)
		for c in cs: eq(sorted(c.db.listening_channels()), sorted(c.listening), 'channels listened to')
		for c in cs: c.db.execute('')
		collect()
		for c in cs: eq(c.got, c.due, 'notifications delivered by a manager')
		check(not nm.garbage and nm.connections == {c.db for c in cs}, 'connections of the manager: %r', nm.garbage)
		delivered += total
		for c in cs: c.db.execute('UNLISTEN *')
		F.give([c.db for c in cs])
	t.nt(delivered > 1); t.ev('%d' % min(delivered, 10))

# positions of injected notifications are those of the server's messages
inject = st.lists(st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 60)), st.booleans(), st.integers(1, 3)), min_size=1, max_size=6)
step = st.one_of(
	st.tuples(st.sampled_from(['query', 'query', 'rows', 'chunks', 'error', 'xact', 'copy', 'half', 'execute', 'notify', 'notify', 'notify', 'failed']), who),
	st.tuples(st.sampled_from(['drain', 'drain', 'one', 'one']), who),
	st.tuples(st.sampled_from(['manager', 'manager', 'manager one', 'timeout']), st.sampled_from([0, 0, .002, .02, 1e-6])),
	st.tuples(st.sampled_from(['add', 'discard']), who),
	st.tuples(st.just('encoding'), who, st.sampled_from(['LATIN1', 'UTF8', 'LATIN9', 'EUC_JP'])),
	st.tuples(st.just('recvsize'), who, st.sampled_from([1, 3, 10, 100, 8192])))
enc = {'UTF8': 'utf-8', 'LATIN1': 'latin-1', 'LATIN9': 'iso8859-15', 'EUC_JP': 'euc_jp'}
class Wire(object):
	"""a connection through a proxy that notes the notifications sent"""
	def __init__(self, F, plan, cut, tls=False):
		self.plan = list(plan); self.cut = cut; self.n = 0; self.record = []; self.enc = 'utf-8'; self.count = 0; self.live = False; self.lost = False; self.ready = 0; self.pad = ''
		self.p = Proxy(tls=tls); self.p.transform = self.transform
		self.db = self.p.connect(F.pkg); self.db.msghook = lambda m: True
		eq(self.db.security, 'ssl' if tls else None, 'security')
		self.got = []; self.half = None; self.it = None
	def note(self, b):
		pid = struct.unpack('!I', b[:4])[0]; ch, pl, _ = b[4:].split(b'\0')
		self.record.append((ch.decode(self.enc), pl.decode(self.enc), pid))
	def made(self, k):
		r = []
		for _ in range(k):
			self.count += 1
			b = struct.pack('!I', 77) + b'inj\0' + (self.pad + ('é%d' % self.count if self.enc != 'euc_jp' else 'あ%d' % self.count)).encode(self.enc) + b'\0'; self.note(b); r.append((b'A', b))
		return r
	def transform(self, t, b):
		if not self.live: return [(t, b)]
		self.n += 1; r = []
		here = [(before, k) for n, before, k in self.plan if n == self.n]
		for before, k in here:
			if before: r += self.made(k)
		if t == b'A': self.note(b)
		if t == b'Z': self.ready = len(self.record)
		if t == b'S' and b.startswith(b'client_encoding\0'): self.enc = enc[b.split(b'\0')[1].decode()]
		r.append((t, b))
		for before, k in here:
			if not before: r += self.made(k)
		if self.cut is not None and self.n >= self.cut: self.lost = True; return tuple(r)
		return r
@law(st.tuples(st.lists(step, max_size=14), inject, inject, st.one_of(st.none(), st.none(), st.integers(1, 30)), st.sampled_from(['', '', '', 'close', 'kill', 'kill after events', 'cut']), st.sampled_from([False, False, False, True])), 250, 5000)
def every_notification_on_the_wire_is_delivered_once(case, t):
	steps, i0, i1, cut, end, tls = case; r = live.raw(); lens = []
	for form in (0, 1):
		F = live.form(form); N = F.sub('notifyman')
		ws = [Wire(F, i0, cut if end == 'cut' else None, tls), Wire(F, i1, None, tls)]; nm = N.NotificationManager(*[w.db for w in ws], timeout=0)
		try:
			for w in ws: w.db.listen('c20'); w.live = True
			partial = []
			def give(x):
				check(x[0] in [w.db for w in ws], 'the connection is %r', x)
				for w in ws:
					if w.db is x[0]: w.got += x[1]
			def run(o):
				# one consumer at a time
				if o[0] in ('manager', 'manager one'):
					for w in ws:
						if w.it is not None: w.got += list(w.it); w.it = None
				elif o[0] in ('drain', 'one', 'failed') and partial:
					partial.clear(); k = nm.timeout; nm.settimeout(0)
					for x in nm: give(x)
					nm.settimeout(k)
				if o[0] == 'failed' and ws[o[1]].it is not None: ws[o[1]].got += list(ws[o[1]].it); ws[o[1]].it = None
				if o[0] in ('manager', 'manager one', 'timeout'):
					if o[0] == 'timeout': nm.settimeout(o[1]); return
					n = 0
					if nm.timeout != o[1]: nm.settimeout(o[1])
					while n < 40:
						try: x = next(nm)
						except StopIteration: check(nm.timeout == 0 or not nm.connections, 'the manager stops with the timeout %r', nm.timeout); return
						if x is None:
							check(nm.timeout, 'an idle event of the timeout %r', nm.timeout); check(not nm._pulled if hasattr(nm, '_pulled') else True, 'idle event while holding notifications'); return
						give(x); n += 1
						if o[0] == 'manager one': partial.append(1); return
					return
				if o[0] in ('add', 'discard'):
					db = ws[o[1]].db
					if o[0] == 'discard':
						# "discarded connections may still have pending events"
						nm.connections.discard(db)
					elif db not in nm.garbage: nm.connections.add(db)
					return
				w = ws[o[1]]; db = w.db
				if w.half is not None and o[0] not in ('drain', 'one', 'notify', 'recvsize'):
					it, w.half = w.half, None; sum(1 for _ in it)
				if o[0] == 'query': eq(db.query.first('SELECT count(*) FROM generate_series(1, 10)'), 10, 'a query')
				elif o[0] == 'rows': eq([x[0] for x in db.prepare('SELECT i FROM generate_series(1, 20) g(i)').rows()], list(range(1, 21)), 'rows')
				elif o[0] == 'chunks': eq(sum(len(x) for x in db.prepare('SELECT i FROM generate_series(1, 300) g(i)').chunks()), 300, 'chunks')
				elif o[0] == 'error': e, _ = raised(db.query, 'SELECT 1/0'); check(isinstance(e, F.exc.ZeroDivisionError) or w.lost, 'error: %r', e)
				elif o[0] == 'failed':
					x = db.xact(); x.start(); raised(db.query, 'SELECT 1/0'); give_all = list(db.iternotifies(0)); w.got += give_all; x.rollback()
				elif o[0] == 'xact':
					with db.xact(): db.query('SELECT 1'); db.query('SELECT 2')
				elif o[0] == 'copy': eq(db.prepare('COPY (SELECT generate_series(1, 5)) TO STDOUT')(), [b'%d\n' % k for k in range(1, 6)], 'COPY')
				elif o[0] == 'half':
					it = iter(db.prepare('COPY (SELECT generate_series(1, 30)) TO STDOUT').rows()); next(it); w.half = it
				elif o[0] == 'execute': db.execute('SELECT 1; SELECT 2')
				elif o[0] == 'notify': r.query("NOTIFY c20, '%d'" % len(ws[0].record))
				elif o[0] == 'drain':
					if w.it is not None: w.got += list(w.it); w.it = None
					w.got += list(db.iternotifies(0))
				elif o[0] == 'one':
					if w.it is None: w.it = db.iternotifies(0)
					try: w.got.append(next(w.it))
					except StopIteration: w.it = None
				elif o[0] == 'encoding': db.settings['client_encoding'] = o[2]
				elif o[0] == 'recvsize': db.pq.recvsize = o[2]
			for o in steps:
				e, _ = raised(run, o)
				if e is not None:
					if not (any(w.lost for w in ws) and isinstance(e, F.exc.Error)): raise e
					break
			if end == 'close':
				# those collected are kept
				w = ws[0]; w.half = None; raised(w.db.execute, ''); w.db.close(); check(w.db.closed, 'closed')
			elif end in ('kill', 'kill after events'):
				if end == 'kill after events': r.query("NOTIFY c20, 'a'"); r.query("NOTIFY c20, 'b'")
				if not ws[0].lost: r.query('SELECT pg_terminate_backend(%d, 5000)' % ws[0].db.backend_id); check(ws[0].p.links[-1].ended.wait(10), 'the connection ends')
			if end not in ('close',):
				for w in ws:
					if w.lost: check(w.p.links[-1].ended.wait(10), 'the connection ends')
			# everything else
			nm.settimeout(0); stop = time.monotonic() + 10
			for w in ws:
				if w.it is not None: w.got += list(w.it); w.it = None
				if w.half is not None: raised(lambda: sum(1 for _ in w.half))
				nm.connections.add(w.db)
			while True:
				for x in nm: give(x)
				if all(len(w.got) >= (w.ready if w is ws[0] and end == 'close' else len(w.record)) for w in ws) or time.monotonic() > stop: break
				time.sleep(.001)
			dead = set()
			for k, w in enumerate(ws):
				if k == 0 and (end in ('close', 'kill', 'kill after events') or w.lost):
					dead.add(w.db)
					if w.record: t.ev('lost with events')
				else:
					e, _ = raised(w.db.execute, '')
					if w.lost: check(e is None or isinstance(e, F.exc.Error), 'the connection is lost: %r', e); check(w.p.links[-1].ended.wait(10), 'the connection ends'); dead.add(w.db)
					else: check(e is None, 'the connection is not lost: %r', e)
			# collecting may make more of them
			for k in range(20):
				for x in nm: give(x)
				if k and all(len(w.got) >= len(w.record) for w in ws): break
			if end == 'close':
				# those on their way when it's closed may be lost
				w = ws[0]; check(len(w.got) >= w.ready, 'notifications delivered after close(): %r of %r', w.got, w.record[:w.ready]); del w.record[len(w.got):]
			for w in ws: eq(w.got, w.record, 'notifications delivered (%s)' % (end or 'alive'))
			# noticed when the wire is checked
			check(nm.garbage <= dead and not (nm.connections & nm.garbage), 'garbage: %r', nm.garbage); eq(nm.garbage, dead, 'garbage')
			lens.append(sum(len(w.record) for w in ws))
		finally:
			for w in ws:
				F.drop(w.db)
				w.p.close()
	t.nt(max(lens) > 1); t.ev(end or 'alive')

@law(st.tuples(st.integers(0, 4), st.sampled_from([.02, .05]), st.sampled_from(['quiet', 'events', 'events', 'late']), st.integers(1, 2)), 10, 150)
def idle_events_occur_at_their_interval(case, t):
	n, timeout, mode, k = case; r = live.raw()
	for form in (0, 1):
		F = live.form(form); dbs = [F.connect() for _ in range(k)]; nm = F.sub('notifyman').NotificationManager(*dbs, timeout=timeout); stop = threading.Event()
		try:
			for db in dbs: db.listen('c20i'); db.msghook = lambda m: True
			def feed():
				while not stop.wait(timeout / 5):
					if mode == 'events': r.query("NOTIFY c20i, 'x'")
			if mode == 'events': th = threading.Thread(target=feed); th.start()
			idle = events = 0; began = time.monotonic()
			if mode == 'late':
				# a consumer that's slow
				for j in range(n + 2):
					r.query("NOTIFY c20i, '%d'" % j); time.sleep(timeout * 1.5)
					for _ in range(20):
						x = next(nm)
						if x is None: idle += 1
						else: events += len(x[1])
						if events == (j + 1) * k: break
					eq(events, (j + 1) * k, 'events of a slow consumer')
			else:
				while time.monotonic() - began < timeout * (n + 4):
					x = next(nm)
					if x is None: idle += 1
					else: events += len(x[1])
				took = time.monotonic() - began
				check(idle >= 1, 'no idle event in %r seconds with the timeout %r, %d events', took, timeout, events)
				check(idle <= took / timeout + 1, '%d idle events in %r seconds with the timeout %r', idle, took, timeout)
				if mode == 'events': stop.set(); th.join(); t.ev('%d events' % min(events, 3))
		finally:
			stop.set()
			for db in dbs: raised(db.close)
	t.nt(True); t.ev(mode)

@law(st.sampled_from([1, 2]), 2, 4)
def events_do_not_put_off_idle_events(case, t):
	timeout = 1.0
	for form in (0, 1):
		F = live.form(form); late = []
		for attempt in range(4):		# it may be the machine that's late
			dbs = [F.connect() for _ in range(case)]; nm = F.sub('notifyman').NotificationManager(*dbs, timeout=timeout); r = live.raw()
			for db in dbs: db.listen('c20j')
			th = threading.Timer(timeout * .75, lambda: r.query("NOTIFY c20j, 'x'"))
			try:
				began = time.monotonic(); th.start(); events = 0
				while True:
					x = next(nm)
					if x is None: break
					events += len(x[1])
				took = time.monotonic() - began; th.join()
			finally:
				th.cancel()
				for db in dbs: raised(db.close)
			check(took > timeout * .9 or not events, 'an idle event after %r seconds', took)
			if took < timeout * 1.4: break
			late.append(took)
		else: check(False, 'the idle event of the timeout %r came after %r', timeout, late)
	t.nt(True)

sizes = st.one_of(st.sampled_from([1, 2, 60, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1025, 2500]), st.integers(1, 1300))
@law(st.tuples(st.sampled_from(['wait', 'poll', 'drain', 'timeout', 'wait', 'poll']), st.sampled_from([(1, 9000), (0, None), (2, 0), (3, None), (1, None), (2, 9000), (1, 9000)]), sizes, st.booleans(), st.integers(0, 60), st.booleans()), 60, 500)
def any_number_is_delivered_without_delay(case, t):
	way, (held, tls), n, same, size, alone = case; r = live.raw()
	for form in (0, 1):
		F = live.form(form); N = F.sub('notifyman'); w = Wire(F, [], None, tls is not None); w.pad = 'x' * (tls or 0); other = F.take(1)[0]
		try:
			w.db.listen('c20n'); alone or other.listen('c20n'); other.execute('')
			# held: those that come along with the end of an operation
			def along(ty, b):
				if ty == b'A': w.note(b)
				return [(ty, b)] + (w.made(held) if ty == b'Z' and w.live else [])
			w.p.transform = along
			r.query('BEGIN; ' + ''.join("NOTIFY c20n, '%s';" % (('%d ' % (0 if same else i)) + 'x' * size) for i in range(n)) + 'COMMIT')
			sent = [('c20n', ('%d ' % i) + 'x' * size, int(r.query('SELECT pg_backend_pid()')[0][0])) for i in (range(1) if same else range(n))]
			check(select.select([w.db], [], [], 10)[0] and (alone or select.select([other], [], [], 10)[0]), 'notifications arrive'); theirs = [] if alone else sent
			w.live = True
			if held: eq(w.db.query.first('SELECT 5'), 5, 'a query'); w.live = False
			got = []; also = []; began = time.monotonic()
			if way == 'drain':
				poll(lambda: got.extend(w.db.iternotifies(0)), got, len(sent) + w.count); poll(lambda: also.extend(other.iternotifies(0)), also, len(theirs))
			else:
				nm = N.NotificationManager(w.db, other, timeout={'poll': 0, 'wait': None, 'timeout': 8}[way])
				if way == 'poll':
					# whatever is available
					w.live = False
					for db, l in nm: (got if db is w.db else also).extend(l)
					check(got, 'what is on the wire is not seen when polling')
					if held: eq(len(got), len(sent) + w.count, 'what came with the end of an operation, when polling')
					if len(also) < len(theirs): poll(lambda: [(got if db is w.db else also).extend(l) for db, l in nm], also, len(theirs))
				while len(got) < len(sent) + w.count or len(also) < len(theirs):
					w.live = False
					x = next(nm)
					check(x is not None, 'an idle event after %r seconds with %d of %d delivered', time.monotonic() - began, len(got), len(w.record))
					(got if x[0] is w.db else also).extend(x[1])
			took = time.monotonic() - began
			eq(got, w.record, 'notifications delivered'); eq(also, theirs, 'notifications delivered to the other')
			check(took < 6, 'delivered after %r seconds', took)
			nm = N.NotificationManager(w.db, other, timeout=0)
			for db in (w.db, other): db.execute('')
			eq([x[1] for x in nm], [], 'notifications delivered again'); eq(list(w.db.iternotifies(0)), [], 'notifications delivered again')
			other.execute('UNLISTEN *'); F.give([other])
		finally: F.drop(w.db); w.p.close()
	t.nt(len(sent) > 1); t.ev(way); t.ev('%d held' % held)

@law(st.tuples(st.integers(1, 3), st.sampled_from([.01, .05, None, 5]), st.sampled_from(['idle', 'event', 'kill', 'before']), st.integers(0, 3)), 12, 200, hang=90)
def removing_every_connection_ends_the_loop(case, t):
	k, timeout, way, n = case; r = live.raw()
	if way == 'idle' and timeout in (None, 5): timeout = .02
	for form in (0, 1):
		F = live.form(form); dbs = F.take(k) if way != 'kill' else [F.connect() for _ in range(k)]
		for db in dbs: db.listen('c20e'); db.execute(''); db.msghook = lambda m: True
		nm = F.sub('notifyman').NotificationManager(*dbs, timeout=timeout); got = {id(db): [] for db in dbs}; began = time.monotonic()
		if way == 'before': nm.connections.clear()
		if way == 'event' or n:
			for i in range(n + 1): r.query("NOTIFY c20e, '%d'" % i)
			if way != 'before':
				for db in dbs: check(select.select([db], [], [], 10)[0], 'a notification arrives')
		if way == 'kill':
			for db in dbs: r.query('SELECT pg_terminate_backend(%d, 5000)' % db.backend_id)
		for x in nm:
			check(time.monotonic() - began < 60, 'the loop goes on without connections')
			if x is None:
				check(timeout is not None, 'an idle event without a timeout')
				if way == 'idle' : nm.connections.clear()
			else:
				got[id(x[0])] += [y[1] for y in x[1]]
				if way == 'event': nm.connections.discard(x[0])
		check(not nm.connections, 'the loop ended with %r', nm.connections)
		if way == 'kill': eq(nm.garbage, set(dbs), 'garbage')
		else: check(not nm.garbage, 'garbage: %r', nm.garbage)
		if way == 'kill' and n:
			for db in dbs: eq(got[id(db)], [str(i) for i in range(n + 1)], 'delivered before the connection was lost')
		if way == 'kill':
			for db in dbs: raised(db.close)
		else:
			for db in dbs: db.execute('UNLISTEN *'); list(db.iternotifies(0))
			F.give(dbs)
	t.nt(k > 1); t.ev(way)
