"""C04: protocol exchanges complete exactly once and stay in sync."""
import struct, sys
from hypothesis import strategies as st
from vlib.core import law, check, eq, raised
from vlib.fakepg import Backend, Socket, Hang, msg, fields, z, L, row
import postgresql.protocol.client3 as C3, postgresql.protocol.xact3 as X3, postgresql.protocol.element3 as E3
import postgresql_pure.protocol.client3 as P3, postgresql_pure.protocol.xact3 as PX, postgresql_pure.protocol.element3 as PE
from postgresql.python.socket import SocketFactory as SF1
from postgresql_pure.python.socket import SocketFactory as SF2

RULE = ("Histories of up to 5 requests (simple query with several statements, prepare, bind/execute, fetch, close, function call, COPY out and in, pipelines) against a scripted "
	"backend written from the protocol documentation, with errors at any command, notices, parameter changes and notifications before any message, replies and requests "
	"cut anywhere, retries, driven by complete() or step(), accelerated and pure; and the same with the stream ended, reset or violated at any point. Oracle: what the "
	"backend sent and received. Non-trivial: at least two server messages besides the ready message, or a fault that struck.")

FORMS = ((C3, X3, E3, SF1), (P3, PX, PE, SF2))
val = st.one_of(st.none(), st.binary(max_size=6), st.sampled_from([b'', b'x' * 60]))
rows = st.one_of(st.lists(st.lists(val, min_size=2, max_size=2), max_size=5), st.lists(st.just([b'same']), max_size=4))
sev = st.sampled_from([((b'S', b'ERROR'),), ((b'S', b'ERROR'), (b'V', b'ERROR')), ((b'S', b'FEHLER'), (b'V', b'ERROR'))])
err = st.tuples(sev, st.sampled_from([b'42601', b'22012']), st.binary(max_size=5).map(lambda b: b'm' + b.replace(b'\0', b''))).map(lambda x: list(x[0]) + [(b'C', x[1]), (b'M', x[2])])
fatal = st.sampled_from([((b'S', b'FATAL'),), ((b'S', b'FATAL'), (b'V', b'FATAL')), ((b'S', b'PANIK'), (b'V', b'PANIC'))]).map(lambda s: list(s) + [(b'C', b'57P01'), (b'M', b'terminating connection')])
aerr = st.one_of(err, err, err, fatal)
lines = st.lists(st.one_of(st.binary(max_size=5), st.just(b'same\n')), max_size=5)
cols = st.one_of(st.none(), st.lists(st.tuples(st.sampled_from([b'a', b'', b'x y']), st.sampled_from([23, 25]), st.sampled_from([0, 1])), max_size=3))
def may(ok, n=5): return st.integers(0, n).flatmap(lambda i: st.tuples(st.just('err'), aerr) if i == n else ok)
ok = st.just(('ok',))
copyin = st.tuples(st.just('copyin'), st.one_of(st.none(), st.none(), st.tuples(st.integers(1, 3), err)))
stmt = st.one_of(st.tuples(st.just('rows'), rows, st.just('C'), st.none()), st.tuples(st.just('done'), st.sampled_from([b'BEGIN', b'INSERT 0 3', b'CREATE TABLE'])), st.just(('empty',)),
	st.tuples(st.just('copyout'), lines, st.none()))
lastbad = st.one_of(st.tuples(st.just('rows'), rows.filter(bool), st.just('err'), aerr), st.tuples(st.just('copyout'), lines, aerr), st.tuples(st.just('err'), aerr))
def tail(l, n): return st.tuples(st.lists(stmt, max_size=n), st.one_of(st.just([]), st.just([]), l.map(lambda x: [x]))).map(lambda x: x[0] + x[1])
query = tail(lastbad, 3).map(lambda s: ('query', [(b'Q', [x for x in s])]))
qcopy = st.tuples(st.lists(stmt, max_size=1), copyin, st.lists(stmt, max_size=1)).map(lambda s: ('qcopyin', [(b'Q', s[0] + [s[1]] + s[2])]))
def cmd(t, spec): return spec.map(lambda s: (t,) + tuple(s))
S_ = st.just((b'S', 'ok'))
parse = cmd(b'P', may(ok)); bind = cmd(b'B', may(ok)); close = cmd(b'C', may(ok, 9))
descs = cmd(b'D', may(st.tuples(st.just('ok'), st.lists(st.sampled_from([23, 25, 0]), max_size=3), cols), 9))
descp = cmd(b'D', may(st.tuples(st.just('ok'), cols), 9)).map(lambda x: x + ('portal',) if x[1] == 'ok' else x)
exe = cmd(b'E', st.one_of(st.tuples(st.just('rows'), rows.filter(bool), st.just('s'), st.none()), stmt, stmt, lastbad))
xc = cmd(b'E', copyin)
H_ = st.just((b'H', 'ok'))
ext = st.one_of(
	st.tuples(parse, descs, S_), st.tuples(bind, exe, S_), st.tuples(bind, exe, close, S_), st.tuples(exe, S_), st.tuples(close, S_), st.tuples(close, close, S_), st.tuples(S_),
	st.tuples(parse, bind, descp, exe, S_), st.tuples(bind, exe, bind, exe, bind, exe, S_), st.tuples(bind, exe, S_, bind, exe, S_), st.tuples(parse, H_, descs, H_, S_),
	st.tuples(bind, H_, exe, S_), st.lists(st.one_of(parse, descs, bind, exe, close, descp), max_size=6).flatmap(lambda l: st.tuples(*map(st.just, l), S_))).map(lambda c: ('ext', list(c)))
xcopy = st.one_of(st.tuples(bind, xc, S_), st.tuples(xc, S_), st.tuples(bind, H_, xc, S_)).map(lambda c: ('xcopyin', list(c)))
fn = cmd(b'F', may(st.tuples(st.just('ok'), val), 4)).map(lambda c: ('fn', [c]))
request = st.tuples(st.one_of(query, ext, ext, ext, qcopy, xcopy, fn), st.sampled_from(['complete', 'step', 'mixed']),
	st.lists(lines, max_size=3), st.sampled_from(['done', 'done', 'done', 'fail']), st.integers(0, 3))
asyncm = st.one_of(
	st.tuples(st.just(b'N'), st.sampled_from([b'same', b'', b'n2']).map(lambda m: fields([(b'S', b'NOTICE'), (b'C', b'00000'), (b'M', m)]))),
	st.tuples(st.just(b'S'), st.tuples(st.sampled_from([b'TimeZone', b'x']), st.sampled_from([b'', b'UTC'])).map(lambda x: z(x[0]) + z(x[1]))),
	st.tuples(st.just(b'A'), st.tuples(st.sampled_from([1, 2**31]), st.sampled_from([b'ch', b'c2']), st.sampled_from([b'', b'p'])).map(lambda x: L(x[0]) + z(x[1]) + z(x[2]))))
asyncs = st.one_of(st.just({}), st.dictionaries(st.integers(0, 25), st.lists(asyncm, min_size=1, max_size=3), max_size=6))
cuts = st.one_of(st.just([]), st.lists(st.integers(1, 40), max_size=60), st.lists(st.sampled_from([1, 4, 5, 6]), max_size=80))
again = st.one_of(st.just([]), st.lists(st.booleans(), max_size=20))
session = st.tuples(st.lists(request, min_size=1, max_size=5), asyncs, cuts, cuts, again, st.integers(0, 1), st.lists(st.tuples(st.integers(0, 4), st.booleans()), max_size=3), st.integers(0, 9))

def command(E, c):
	t = c[0]
	if t == b'Q': return E.Query(b'q')
	if t == b'P': return E.Parse(b'st', b'select', ())
	if t == b'B': return E.Bind(b'', b'st', (), (), ())
	if t == b'D': return E.DescribePortal(b'p') if c[-1] == 'portal' else E.DescribeStatement(b'st')
	if t == b'E': return E.Execute(b'', 0)
	if t == b'C': return E.CloseStatement(b'st')
	if t == b'F': return E.Function(1, (), [], b'\0\0')
	if t == b'H': return E.FlushMessage
	return E.SynchronizeMessage

def startup():
	return msg(b'R', L(0)) + msg(b'K', L(77) + L(88)) + msg(b'Z', b'I')

def connect(form, backend, sock):
	C, X, E, SF = FORMS[form]
	class Factory(SF):
		def __init__(self): SF.__init__(self, (), ())
		def __call__(self, timeout=None): return sock
	c = C.Connection(Factory(), {b'user': b'u'}, b'')
	c.connect()
	return c

def received(m):
	if type(m) is bytes: return (b'd', m)
	if type(m) is tuple: return (b'D', row(m))
	return (m.type, m.serialize())

class Ended(Exception): pass

def perform(conn, form, req, got, t, raising=0):
	"""run one request to its end; returns its transaction and what was sent as COPY data"""
	C, X, E, SF = FORMS[form]
	(kind, cmds), mode, chunks, end, extra = req
	n = [0]
	def hook(m):
		n[0] += 1
		got.append((m.type, m.serialize()))
		if raising and n[0] == raising: raise KeyError('receiver')
	x = X.Instruction([command(E, c) for c in cmds], asynchook=hook)
	sent = None
	conn.push(x)
	if conn.xact is not x and x.state is not X.Complete: raise Ended()	# what came before it failed
	limit = [4000]
	def step():
		limit[0] -= 1
		if limit[0] < 0: raise Hang('too many steps')
		if conn.xact is not x: raise Ended()
		conn.step()
	if kind in ('qcopyin', 'xcopyin'):
		while x.state is not X.Complete:
			step()
			if getattr(x, 'CopyFailSequence', None) is not None and x.messages is x.CopyFailSequence: break
		else:
			return x, None
		sent = []
		for c in chunks:
			x.messages = list(c)
			sent += c
			while x.state is not X.Complete and x.messages is not x.CopyFailSequence:
				step()
			if x.state is X.Complete: return x, sent
		if end == 'done': x.messages = x.CopyDoneSequence
	elif mode == 'step':
		while x.state is not X.Complete: step()
	elif mode == 'mixed':
		for i in range(extra):
			if x.state is not X.Complete: step()
	if conn.xact is x:
		conn.complete()
	return x, sent

def plan_of(reqs):
	p = []
	for (kind, cmds), mode, chunks, end, extra in reqs:
		p += [tuple(c) for c in cmds]
	return p

def play(case, t, fault=None, violate=None):
	reqs, asyncs, rcuts, scuts, again, form, trash, raising = case
	asyncs = {k: list(v) for k, v in asyncs.items()}
	trash = dict(trash)
	reqs = list(reqs)
	flush = (('ext', [(b'S', 'ok')]), 'complete', [], 'done', 0)
	reqs.append(flush)
	C, X, E, SF = FORMS[form]
	plan = []
	for i, r in enumerate(reqs):
		if i in trash:
			plan += [(b'C', 'ok'), (b'S', 'ok')]
		plan += plan_of([r])
	# a COPY FROM request sends the messages that followed it a second time
	b = Backend(plan, asyncs if not trash else {}, violate, startup())
	s = Socket(b, rcuts, scuts, again)
	if fault: s.fault = None
	old = sys.excepthook
	hooked = []
	sys.excepthook = lambda *a: hooked.append(a)
	try:
		conn = connect(form, b, s)
		x0 = conn.xact
		check(x0 is None, 'the connection was not made: %r', getattr(x0, 'error_message', None))
		eq((conn.backend_id, conn.key, conn.state), (77, 88, b'I'), 'backend identity')
		if fault:
			s.fault = (fault[0], fault[1] + (s.sent if fault[0] == 'send' else s.received))
		got = []
		for i, r in enumerate(reqs):
			if i in trash:
				(conn.trash_cursor if trash[i] else conn.trash_statement)(b'junk')
			nrep = len(b.replies)
			try:
				x, sent = perform(conn, form, r, got, t, raising)
			except Ended:
				x = conn.xact
				check(x is not None and x.state is X.Complete and x.fatal is True and (b.violated or b.closed or s.broken), 'request %d was not taken: %r', i, x)
			except Hang as e:
				check(False, 'request %d hangs: %s', i, e)
			except Exception as e:
				import traceback
				check(False, 'request %d raised %r instead of reporting its error\n%s', i, e, traceback.format_exc())
			if s.broken or b.violated or b.closed:
				check(fault or violate or b.closed, 'broken without a fault')
				t.nt(True); t.ev('ended early')
				y = conn.xact
				check(y is not None and y.state is X.Complete and y.fatal is True, 'request %d after the end of the connection: state %r, fatal %r', i, x.state, x.fatal)
				sv = y.error_message[b'S'] if b'S' in y.error_message else None
				check(y.error_message is not None and sv, 'no error message')
				# nothing more happens on this connection
				z_ = X.Instruction([E.SynchronizeMessage])
				e, _ = raised(conn.push, z_)
				check(e is None, 'push() on a dead connection: %r', e)
				e, _ = raised(conn.complete)
				check(e is None and conn.xact is not None and conn.xact.fatal is True, 'a dead connection went on: %r', e)
				return b, s
			check(x.state is X.Complete, 'request %d ended in state %r', i, x.state)
			check(conn.xact is None, 'request %d is still pending: %r', i, conn.xact)
			# the replies of this request, and of the closes sent before it
			reps = b.replies[nrep:]
			if i in trash:
				eq([m[0] for m in reps[0]], [b'3', b'Z'], 'reply to the closing of garbage')
				reps = reps[1:]
			flat = [m for rep in reps for m in rep]
			if len(flat) > 2: t.nt(True)
			want = [m for m in flat if m[0] != b'E']
			eq([received(m) for m in x.messages_received()], want, 'request %d: messages received' % i)
			errs = [m[1] for m in flat if m[0] == b'E']
			if errs:
				t.ev('server error')
				check(x.fatal is False, 'request %d: fatal is %r after a server error', i, x.fatal)
				eq(sorted(x.error_message.items()), sorted(E.Error.parse(errs[-1]).items()), 'request %d: error' % i)
			else:
				check(x.fatal is None, 'request %d failed without a server error: %r', i, getattr(x, 'error_message', None))
			eq(conn.state, flat[-1][1], 'transaction state after request %d' % i)
			if sent is not None:
				t.ev('copied in')
				eq(b''.join(b.copied), b''.join(sent[:len(b.copied)]), 'request %d: COPY data at the server' % i)
				if not errs:
					eq(b.copied, sent, 'request %d: COPY data at the server' % i)
			check(not b.problems, 'request %d: the server met %s', i, b.problems)
			check(not b.inp, 'request %d left an incomplete message %r', i, b.inp)
		if fault or violate: return b, s
		eq(got, b.sent_asyncs, 'notices, settings and notifications')
		check(not b.plan, 'commands not sent: %r', b.plan)
	finally:
		sys.excepthook = old
	return b, s

@law(session, 1500)
def requests_complete_exactly(case, t):
	play(case, t)

@law(st.tuples(session, st.sampled_from(['eof', 'reset', 'send']), st.integers(0, 400)), 1200)
def a_lost_connection_ends_the_request(case, t):
	c, how, at = case
	play(c, t, fault=(how, at))

bad = st.one_of(
	st.sampled_from([msg(b'?', b''), msg(b'\xff', b'x'), msg(b'R', L(0)), msg(b'K', L(1) + L(2)), b'Z\0\0\0\3', b'D\0\0\0\0', b'C\0\0\0\2', msg(b'D', b'\0\2\0\0\0\1x'), msg(b'Z', b'X'), msg(b'Z', b''), msg(b'E', b''),
		msg(b'E', fields([(b'M', b'no severity')])), msg(b'W', b'\0\0\0'), msg(b'S', b'novalue'), msg(b'A', b'\0\0'), msg(b'N', b'Sunterminated'), msg(b't', b'\0'), msg(b'T', b'\0\1x'), msg(b'v', L(0) + L(0))]))
@law(st.tuples(session, bad, st.integers(0, 20)), 1200)
def a_violation_ends_the_request(case, t):
	c, b, at = case
	play(c, t, violate=(at, b))

@law(st.tuples(session, st.booleans()), 300)
def tracing_changes_nothing(case, t):
	(reqs, asyncs, rcuts, scuts, again, form, trash, raising), _ = case
	def one(traced):
		b = Backend(plan_of(reqs), {k: list(v) for k, v in asyncs.items()}, None, startup())
		s = Socket(b, rcuts, scuts, again)
		conn = connect(form, b, s)
		if traced: conn.tracer = lines_.append
		got, out = [], []
		for r in reqs:
			e, v = raised(perform, conn, form, r, got, t)
			if e is not None: return 'raised', type(e), e.args
			out.append((v[0].fatal, [received(m) for m in v[0].messages_received()], v[1]))
			if v[0].fatal: break
		return out, got, b.log, b.copied
	lines_ = []
	old = sys.excepthook
	try:
		a = one(False)
		c = one(True)
	finally:
		sys.excepthook = old
	t.nt(lines_)
	eq(c, a, 'traced against untraced')
	check(lines_, 'nothing was traced')
