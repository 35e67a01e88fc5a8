"""C19: Copy manager delivers the producer's data to every live receiver."""
import socket
from hypothesis import strategies as st
from vlib import live, gen
from vlib.core import law, check, eq, raised
from vlib import copydata as c18

RULE = ("Copies of generated rows in several formats from statements and iterators, with producer buffers of any size, to any number of statements, callables and null receivers, run at once, by iteration or by transfer(), with partial sends, interrupted sends that are reconciled, transient producer faults and asynchronous messages in the stream; and copies abandoned after any number of cycles or failing by the producer, a receiver, the body or on entry. "
	"Oracle: the messages an independent client sees, the tables, and the state of the connections afterwards. Non-trivial: at least two messages and one receiver.")

def idle(r, F, db, what):
	check(not db.closed, '%s: the connection is closed', what)
	eq(db.query.first('SELECT 5'), 5, what); eq([tuple(x) for x in db.query('SELECT i FROM generate_series(1, 3) g(i)')], [(1,), (2,), (3,)], what)
	eq(r.query('SELECT state FROM pg_stat_activity WHERE pid = %d' % db.backend_id), [('idle',)], what)
	eq(db.prepare('COPY (VALUES (1), (2)) TO STDOUT')(), [b'1\n', b'2\n'], what)
	with db.xact():
		db.execute('CREATE TEMP TABLE vt19x (i int4)'); db.query.load_rows('COPY vt19x FROM STDIN', [b'7\n']); eq(db.query.first('SELECT i FROM vt19x'), 7, what); db.execute('DROP TABLE vt19x')

class Pause(Exception): pass
def flaky(rec, plan, log):
	"""the receiver's send with partial and failing sends"""
	real = rec.send; plan = list(plan)
	def send(view):
		if plan:
			k = plan.pop(0)
			if k < 0:
				log.append(rec); raise (socket.timeout('later') if k == -1 else Pause())
			if k: return real(view[:k])
		return real(view)
	rec.send = send
fmt = c18.fmt
recv = st.one_of(st.tuples(st.just('statement'), st.lists(st.sampled_from([0, 1, 2, 3, 5, 100, 4096, -1, -2, -1]), max_size=8)), st.tuples(st.just('call'), st.lists(st.sampled_from([0, 0, -1]), max_size=6)), st.tuples(st.just('null'), st.just([])), st.tuples(st.just('statement'), st.just([])))
bufsize = st.one_of(st.none(), st.integers(1, 40), st.sampled_from([64, 1000, 4096, 10240, 100000]))
@law(st.tuples(c18.table, fmt, st.sampled_from(['statement', 'statement', 'statement', 'iterator', 'iterator chunks', 'null']), bufsize, st.lists(recv, min_size=1, max_size=3), st.sampled_from(['run', 'for', 'for', 'next', 'transfer']), st.sampled_from([8192, 8192, 1, 7, 100, 5000]), st.lists(st.sampled_from([0, 0, 1, 3]), max_size=6), st.sampled_from(['', '', 'notice', 'notify', 'set', 'receiver']), st.booleans()), 400, 8000)
def completed_copies_deliver_everything(case, t):
	rows, f, kind, buf, recs, style, recvsize, faults, noise, inx = case; rows = c18.expand(rows)
	if (buf or 10240) < 20 or recvsize < 20: rows = rows[:60]
	if any(a == 'statement' and any(p) for a, p in recs) and len(rows) > 1000: rows = rows[:1000]
	if kind == 'null': f = f.replace(' WITH (FORMAT binary)', '')
	if noise == 'receiver' and len(rows) > 200: rows = [(i, 'x' * 3000) for i, v in rows[:600]]
	fin = f.replace(', FORCE_QUOTE *', '')
	if kind == 'null' or style == 'transfer' and kind != 'statement': style = 'for' if style == 'transfer' else style
	if style == 'transfer': buf = None; recs = [r for r in recs if r[0] == 'statement' and not any(r[1])] or [('statement', [])]
	if style in ('run', 'transfer'): recs = [(a, [k for k in p if k >= 0]) for a, p in recs]; faults = []
	r = live.raw(); c18.fill(r, rows)
	r.query("CREATE OR REPLACE FUNCTION vt19n(i int4) RETURNS int4 LANGUAGE plpgsql AS $$BEGIN IF i %% 2 = 0 THEN RAISE NOTICE 'row %%', repeat('n', 40); END IF; RETURN i; END$$; CREATE OR REPLACE FUNCTION vt19s(i int4) RETURNS int4 LANGUAGE plpgsql AS $$BEGIN PERFORM set_config('application_name', 'a' || i, false); RETURN i; END$$".replace('%%', '%'))
	sql = 'COPY (SELECT %s, t FROM vt18 ORDER BY n) TO STDOUT' % ('i' if noise not in ('notice', 'set') else 'vt19%s(i)' % noise[0 if noise == 'notice' else 0]) + f
	want = list(r.copy('SET client_min_messages = error; ' + sql)) if kind != 'null' else []
	t.nt(len(want) > 1); t.ev(kind); t.ev(style)
	r.query('DROP TABLE IF EXISTS vt18w; CREATE TABLE vt18w (n serial, i int4, t text)')
	if want: r.copy('COPY vt18w (i, t) FROM STDIN' + fin, want)
	table = c18.content(r, 'vt18w')
	for form in (0, 1):
		F = live.form(form); M = F.sub('copyman'); src, *dst = F.take(5); log = []; seen = []
		r.query(''.join('DROP TABLE IF EXISTS vt19d%d; CREATE TABLE vt19d%d (n serial, i int4, t text);' % (k, k) for k in range(len(recs))))
		if noise == 'receiver':
			heard = []
			r.query(r'''CREATE OR REPLACE FUNCTION vt19t() RETURNS trigger LANGUAGE plpgsql AS $$BEGIN RAISE WARNING 'row %', repeat('n', 3000); RETURN NEW; END$$;''' + ''.join('CREATE TRIGGER x BEFORE INSERT ON vt19d%d FOR EACH ROW EXECUTE FUNCTION vt19t();' % k for k in range(len(recs))))
			for c in dst: c.msghook = lambda m: heard.append(m) or True
		src.msghook = lambda m: seen.append(m) or True
		src.execute('SET client_min_messages = notice' if noise == 'notice' else 'LISTEN vt19' if noise == 'notify' else 'UNLISTEN *')
		old = src.pq.recvsize; src.pq.recvsize = recvsize
		xs = [c.xact() for c in [src] + dst[:len(recs)]] if inx else []
		for x in xs: x.start()
		ps = src.prepare(sql)
		if style == 'transfer':
			targets = [dst[k].prepare('COPY vt19d%d (i, t) FROM STDIN' % k + fin) for k in range(len(recs))]
			if noise == 'notify': r.query("NOTIFY vt19, 'x'")
			n, b = M.transfer(ps, *targets)
			eq((n, b), (len(want), sum(len(y) + 5 for y in want)), 'what transfer() returns')
		else:
			P = M.StatementProducer(ps, **({'buffer_size': buf} if buf else {})) if kind == 'statement' else M.NullProducer() if kind == 'null' else M.IteratorProducer([want[k:k + 7] for k in range(0, len(want), 7)] if kind == 'iterator' else (list(y) for y in ps.chunks()))
			if kind == 'statement' and faults:
				real = P.recv_into; todo = list(faults)
				def recv_into(buffer, n, *a):
					if todo and todo.pop(0) == 1: raise Pause('producer')
					return real(buffer, n, *a)
				P.recv_into = recv_into
			rs = []; called = {}
			for k, (a, plan) in enumerate(recs):
				if a == 'statement':
					x = M.StatementReceiver(dst[k].prepare('COPY vt19d%d (i, t) FROM STDIN' % k + fin))
					if any(plan): flaky(x, plan, log)
				elif a == 'call':
					called[k] = []
					def call(lines, out=called[k], plan=list(plan)):
						if plan and plan.pop(0) < 0: log.append(None); raise Pause('call')
						out.append(list(lines))
					x = M.CallReceiver(call)
				else: x = M.NullReceiver()
				rs.append(x)
			C = M.CopyManager(P, *rs); messages = nbytes = 0
			check(set(C.receivers) == set(rs) and C.producer is P, 'receivers: %r', C.receivers)
			if style == 'run': C.run()
			else:
				with C as C2:
					check(C2 is C, 'the context is %r', C2)
					while True:
						try:
							if noise == 'notify': r.query("NOTIFY vt19, 'x'")
							if style == 'next': n, b = next(C); messages += n; nbytes += b
							else:
								for n, b in C: messages += n; nbytes += b
								break
						except StopIteration: break
						except M.ReceiverFault as e:
							check(e.manager is C, 'manager'); check(e.faults and not set(e.faults) & set(C.receivers), 'faulted receivers: %r', e.faults); str(e); repr(e)
							check(all(isinstance(y, (Pause, socket.timeout)) for y in e.faults.values()), 'faults: %r', e.faults)
							for x in e.faults:
								check(x in rs, 'faulted: %r', x)
								for again in range(12):
									y, _ = raised(C.reconcile, x)
									if y is None: break
									check(isinstance(y, (Pause, socket.timeout)), 'reconciling: %r', y)
								check(x in C.receivers, 'reconciled receivers: %r', C.receivers)
						except M.ProducerFault as e:
							check(e.manager is C and isinstance(e.__context__, Pause), 'a fault of the producer: %r', e.__context__); str(e); repr(e)
				if not log: eq(messages, len(want), 'messages counted')
			total = sum(len(y) + (5 if kind == 'statement' else 0) for y in want)
			eq((P.total_messages, P.total_bytes), (len(want), total), 'the counts of the producer')
			if style != 'run' and not log: eq(nbytes, total, 'bytes counted')
			for k, (a, plan) in enumerate(recs):
				if a == 'call':
					got = [y for c in called[k] for y in c]; check(all(type(y) is bytes for y in got), 'lines: %r', got[:3]); c18.same(got, want, 'the lines given to a callable')
				elif a == 'statement':
					eq((rs[k].count(), rs[k].command()), (len(table), 'COPY'), 'the count of a receiver')
			if kind == 'statement': eq((P.count(), P.command()), (len(rows), 'COPY'), 'the count of the producer')
		src.pq.recvsize = old
		for x in xs: x.commit()
		for k, (a, _) in enumerate(recs):
			if a == 'statement': c18.same([(None if i is None else int(i), v) for i, v in r.query('SELECT i, t FROM vt19d%d ORDER BY n' % k)], table, 'receiver %d' % k)
			else: eq(r.query('SELECT * FROM vt19d%d' % k), [], 'the table of another receiver')
		if noise == 'notice' and kind in ('statement', 'iterator chunks'): eq(len(seen), sum(1 for i, _ in rows if i is not None and i % 2 == 0), 'notices in the stream')
		if noise == 'notify':
			list(src.iternotifies(0)); src.execute('UNLISTEN *')
		if noise == 'receiver':
			eq(len(heard), len(table) * sum(1 for a, _ in recs if a == 'statement'), 'warnings of the receivers')
			for c in dst: del c.msghook
		del src.msghook; src.execute('RESET ALL'); src.prepare("SELECT set_config('application_name', '', false)")()
		for db in [src] + dst[:len(recs)]: idle(r, F, db, 'after a completed copy')
		F.give([src] + dst)

@law(st.tuples(st.lists(st.one_of(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 250, 251, 252, 253, 65531, 65532]), st.integers(0, 400)), max_size=12), st.lists(st.one_of(st.integers(1, 9), st.integers(1, 3000)), min_size=1, max_size=30), st.sampled_from(['', 'c', 'E', 'N', 'A', 'ff', 'short'])), 1500, 20000)
def messages_of_any_size_are_told_apart_in_any_fragments(case, t):
	sizes, cuts, end = case
	data = b''.join(b'd' + (n + 4).to_bytes(4, 'big') + bytes([i + 1]) * n for i, n in enumerate(sizes)); ends = []
	for n in sizes: ends.append((ends[-1] if ends else 0) + n + 5)
	tail = {'': b'', 'c': b'c\0\0\0\4', 'E': b'E\0\0\0\x05\0', 'N': b'N\0\0\0\x05\0' + b'd\0\0\0\x05x', 'A': b'A', 'ff': b'\xff', 'short': b''}[end]
	if end == 'short': tail = b''; data += b'd\0\0\0'[:1 + len(sizes) % 4]
	stream = data + tail; t.nt(len(sizes) > 1); t.ev(end)
	for form in (0, 1):
		w = live.form(form).sub('copyman').WireState(); pos = i = 0
		while pos < len(stream):
			n = cuts[i % len(cuts)]; i += 1
			if i > 3000: n = len(stream)
			before = pos; pos = min(pos + n, len(stream)); view = memoryview(stream)[before:pos]
			got = w.update(view); upto = min(pos, len(data))
			eq(got, sum(1 for e in ends if before < e <= upto), 'messages completed by bytes %d to %d' % (before, pos))
			if tail and pos > len(data):
				check(w.final_view is not None, 'the message of another kind was not noticed'); eq(bytes(w.final_view), stream[max(len(data), before):pos], 'what follows the copy data'); break
			check(w.final_view is None, 'the copy ended early: %r', bytes(w.final_view or b'')[:20])

def whole(data, what):
	out = []
	while data:
		check(len(data) >= 5, '%s: a piece of a header, %r', what, bytes(data)); n = int.from_bytes(data[1:5], 'big')
		check(4 <= n <= len(data) - 1, '%s: a message of %d bytes in %d', what, n, len(data) - 1); out.append((data[:1], bytes(data[5:n + 1]))); data = data[n + 1:]
	return out
@law(st.tuples(st.lists(st.one_of(st.sampled_from([0, 0, 1, 2, 3, 5, 251, 252, 1000]), st.integers(0, 60)), min_size=1, max_size=10), st.lists(st.integers(1, 40), min_size=1, max_size=20), st.integers(0, 25), st.sampled_from([b'c', b'E', b'N'])), 1500, 20000)
def interrupted_streams_are_realigned(case, t):
	# wherever it stops, both sides are left with whole messages
	sizes, cuts, stop, end = case
	msgs = [(b'd', bytes([i + 1]) * n) for i, n in enumerate(sizes)] + [(end, b'ab')]; stream = b''.join(a + (len(b) + 4).to_bytes(4, 'big') + b for a, b in msgs)
	for form in (0, 1):
		M = live.form(form).sub('copyman'); left = []; at = [0, 0]
		class P(M.ProtocolProducer):
			_e_factors = ()
			def recover(self, view): left.append(bytes(view)); self.nextchunk = None
		def recv_into(buf, n):
			k = min(cuts[at[1] % len(cuts)], n, len(stream) - at[0]); at[1] += 1
			buf[:k] = stream[at[0]:at[0] + k]; at[0] += k
			return k
		p = P(recv_into); sent = b''; first = bytearray(100); k = recv_into(first, 100)
		sent += bytes(p.track_state(memoryview(bytes(first[:k]))))
		for i in range(stop):
			if left: break
			sent += bytes(next(p))
		eq(stream.startswith(sent), True, 'what was handed on is the beginning of the stream'); done = sum(1 for e in range(1, len(msgs)) if len(sent) >= sum(len(b) + 5 for _, b in msgs[:e]))
		eq(p.total_messages, done, 'messages counted'); eq(p.total_bytes, len(sent), 'bytes counted')
		p.realign(); rest = b''
		while True:
			y, x = raised(next, p)
			if y is not None: check(isinstance(y, StopIteration), 'after realigning: %r', y); break
			rest += bytes(x)
		got = whole(sent + rest, 'what receivers got'); eq(got[:done], msgs[:done], 'the whole messages'); check(len(got) <= done + 1 and all(a == b'd' for a, _ in got), 'messages for receivers: %r', got[done:done + 3])
		eq(len(left), 1, 'recoveries'); mine = whole(left[0] + stream[at[0]:], 'what remains for the producer'); eq(mine[-1], msgs[-1], 'the last message')
		cut = len(sent) - sum(len(b) + 5 for _, b in msgs[:done]); t.ev('between' if not cut else 'header' if cut < 5 else 'body'); t.nt(bool(cut))
		if cut < 5: eq(mine, msgs[done:], 'messages left')
		else: eq(mine, [(b'd', msgs[done][1][cut - 5:])] + msgs[done + 1:], 'messages left')

ENDS = ['leave', 'leave', 'leave', 'raise', 'source error', 'bad data', 'constraint', 'kill receiver', 'kill producer', 'call raises', 'drop', 'drop', 'iterator raises', 'enter', 'enter producer', 'fault untrapped', 'producer fault']
@law(st.tuples(st.lists(st.integers(0, 3000), max_size=30), st.integers(1, 60), st.sampled_from(ENDS), st.integers(0, 12), bufsize, st.lists(st.sampled_from(['statement', 'statement', 'call', 'null']), min_size=1, max_size=3), st.sampled_from(['run', 'for', 'next']), st.sampled_from(['statement', 'statement', 'statement', 'iterator']), st.booleans(), st.integers(0, 2), st.sampled_from([8192, 1, 10, 100, 5000])), 400, 8000)
def failed_copies_are_reported_and_leave_nothing(case, t):
	sizes, factor, end, k, buf, recs, style, kind, inx, victim, recvsize = case; victim %= len(recs)
	lens = (sizes * factor)[:600] if sum(sizes) * factor < 2000000 else sizes
	if (buf or 10240) < 20 or recvsize < 20: lens = [min(x, 30) for x in lens[:60]]
	if end in ('source error', 'kill producer', 'enter producer', 'producer fault'): kind = 'statement'
	if end == 'iterator raises': kind = 'iterator'
	if end == 'call raises': recs = recs[:victim] + ['call'] + recs[victim + 1:]
	if end in ('bad data', 'constraint', 'kill receiver', 'fault untrapped', 'drop', 'enter'): recs = recs[:victim] + ['statement'] + recs[victim + 1:]
	if end in ('leave', 'raise', 'kill receiver', 'kill producer', 'drop', 'fault untrapped', 'producer fault'): style = 'next'
	n = len(lens); t.nt(n > 1); t.ev(end); r = live.raw()
	r.query("SET client_min_messages = error; DROP TABLE IF EXISTS vt19s; CREATE TABLE vt19s (n serial, i int4, t text)")
	if lens: r.query('INSERT INTO vt19s (i, t) VALUES ' + ', '.join("(%d, repeat('x', %d))" % (j, l) for j, l in enumerate(lens)))
	bad = k * 7 % n if n else 0
	sql = 'COPY (SELECT %s, t FROM vt19s ORDER BY n) TO STDOUT' % ('i / (CASE WHEN i = %d THEN 0 ELSE 1 END)' % bad if end == 'source error' else "CASE WHEN i = %d THEN 'bad' ELSE i::text END" % bad if end == 'bad data' else 'i')
	want = ['%d\t%s\n' % (j, 'x' * l) for j, l in enumerate(lens)]; want = [y.encode() for y in want]
	if end == 'bad data' and n: want[bad] = b'bad\t' + want[bad].split(b'\t')[1]
	for form in (0, 1):
		F = live.form(form); M = F.sub('copyman'); src, *dst = F.take(5); old = src.pq.recvsize; src.pq.recvsize = recvsize
		r.query(''.join('DROP TABLE IF EXISTS vt19d%d; CREATE TABLE vt19d%d (n serial, i int4 %s, t text);' % (j, j, 'CHECK (i <> %d)' % bad if end == 'constraint' and j == victim else '') for j in range(len(recs))))
		xs = [c.xact() for c in [src] + dst[:len(recs)]] if inx else []
		for x in xs: x.start()
		ps = src.prepare(sql if end != 'enter producer' else 'COPY (SELECT i / 0, t FROM vt19s) TO STDOUT' if k % 2 else 'COPY vt19z TO STDOUT')
		def items():
			for j in range(0, n, 5):
				if end == 'iterator raises' and j >= bad: raise Pause('iterator')
				yield want[j:j + 5]
			if end == 'iterator raises': raise Pause('iterator')
		P = M.StatementProducer(ps, **({'buffer_size': buf} if buf else {})) if kind == 'statement' else M.IteratorProducer(items())
		rs = []; lines = {}
		for j, a in enumerate(recs):
			if a == 'statement': x = M.StatementReceiver(dst[j].prepare('COPY vt19d%d (i, t) FROM STDIN' % j if not (end == 'enter' and j == victim) else 'COPY vt19z FROM STDIN'))
			elif a == 'call':
				lines[j] = []
				def call(l, j=j):
					if end == 'call raises' and j == victim and len(lines[j]) >= k: raise Pause('call')
					lines[j].append(list(l))
				x = M.CallReceiver(call)
			else: x = M.NullReceiver()
			rs.append(x)
		C = M.CopyManager(P, *rs); e = None; over = False; cycles = 0; dropped = set(); killed = set()
		def drop(view):
			raise Pause('send')
		def body():
			nonlocal over, cycles
			if end == 'fault untrapped' or end == 'drop':
				real = rs[victim].send; left = [k]
				def send(view):
					if left[0] <= 0: raise Pause('send')
					left[0] -= 1; return real(view[:max(1, len(view) // 2)])
				rs[victim].send = send
			if end == 'producer fault':
				real = P.recv_into
				def recv_into(*a): raise Pause('producer')
				P.recv_into = recv_into
			while True:
				if cycles == k:
					if end == 'leave': return
					if end == 'raise': raise Pause('body')
					if end in ('kill receiver', 'kill producer'):
						db = src if end == 'kill producer' else dst[victim]; killed.add(db); r.query('SELECT pg_terminate_backend(%d, 5000)' % db.backend_id)
				try: next(C)
				except StopIteration: over = True; return
				except M.ReceiverFault as f:
					if end not in ('drop',): raise
					check(set(f.faults) == {rs[victim]} and rs[victim] not in C.receivers, 'faults: %r', f.faults); dropped.add(victim)
					if not C.receivers: return
				cycles += 1
		def go():
			if style == 'run': C.run()
			else:
				with C:
					if style == 'for':
						nonlocal over
						for _ in C: pass
						over = True
					else: body()
		e, _ = raised(go)
		src.pq.recvsize = old if not src.closed else 0
		# whether the copy is complete
		ok = over and end in ('leave', 'raise', 'kill producer', 'producer fault', 'fault untrapped') or over and end == 'drop' or end in ('bad data', 'constraint', 'source error') and n == 0 or end == 'call raises' and (over or e is None)
		if end == 'enter producer' and n == 0 and k % 2: ok = True
		if end == 'producer fault' and e is None and over: ok = True
		if end in ('kill producer',) and over: ok = e is None
		if end == 'kill receiver': ok = False
		if not killed and end == 'kill receiver': ok = True
		if killed and end == 'kill receiver' and over and e is None: check(False, 'a copy to a lost connection succeeds')
		if ok: check(e is None, 'a complete copy (%s): %r', end, e)
		elif end == 'enter producer' or end == 'source error' and cycles == 0 and not isinstance(e, M.CopyFail): check(isinstance(e, F.exc.Error) or isinstance(e, M.CopyFail), 'on entry: %r', e)
		else:
			check(isinstance(e, M.CopyFail), '%s: %r, %d cycles', end, e, cycles); check(e.manager is C, 'manager'); str(e); repr(e)
			ef = e.receiver_faults or {}; check(all(isinstance(y, Exception) for y in ef.values()) and set(ef) <= set(rs), 'the exceptions of the receivers: %r', ef)
			if end in ('bad data', 'constraint') and len(dropped) == 0: check(isinstance(ef.get(rs[victim] if end == 'constraint' else next((x for x, a in zip(rs, recs) if a == 'statement'), None)), F.exc.Error), 'the fault of the receiver: %r', ef)
			if end == 'source error': check(isinstance(e.__context__, M.ProducerFault) and isinstance(e.__context__.__context__, F.exc.ZeroDivisionError), 'the error of the producer: %r', e.__context__)
		for db in [src] + dst[:len(recs)]:
			if db in killed or victim in dropped and db is dst[victim] or end == 'fault untrapped' and e is not None and db is dst[victim]: continue
			if inx:
				x = xs[([src] + dst).index(db)]
				if db.pq.state == b'E': x.rollback()
				else: x.commit()
		for j in dropped | ({victim} if end == 'fault untrapped' else set()):
			if not (ok and not dropped): dst[j].pq.socket.close(); dst[j] = None
		rows = lambda j: [(None if a is None else int(a), b) for a, b in r.query('SELECT i, t FROM vt19d%d ORDER BY n' % j)]
		full = [(j, 'x' * l) for j, l in enumerate(lens)]
		for j, a in enumerate(recs):
			lost = j in dropped or e is not None or dst[j] in killed
			if a == 'statement': c18.same(rows(j), [] if lost and end not in ('bad data', 'constraint', 'kill receiver') or j == victim and lost else full if not lost else rows(j), '%s: the table of receiver %d' % (end, j))
			elif a == 'call':
				got = [y for c in lines[j] for y in c]; eq(got, want[:len(got)], '%s: lines given to a callable' % end)
				if not lost: eq(len(got), n, '%s: lines given to a callable' % end)
		for db in [src] + [d for d in dst[:len(recs)] if d is not None]:
			if db not in killed: idle(r, F, db, 'after %s (%d cycles, %r)' % (end, cycles, e))
		F.give([c for c in [src] + dst if c not in killed])

# whose headers have any byte in any place
rowsize = st.one_of(st.integers(0, 40), st.integers(0, 40), st.integers(240, 270), st.integers(65510, 66300), st.integers(1, 3).map(lambda k: k * 65536 - 4 + 1000))
@law(st.tuples(st.lists(rowsize, min_size=1, max_size=8), st.sampled_from(['', '', ' WITH (FORMAT binary)']), st.integers(0, 7), st.integers(-6, 6), st.integers(0, 300), st.lists(st.sampled_from(['statement', 'statement', 'call', 'null']), min_size=1, max_size=2), st.sampled_from(['leave', 'raise', 'fault', 'recover']), st.sampled_from([1, 2, 5, 6, 8192]), st.booleans()), 350, 8000)
def copies_abandoned_at_any_byte(case, t):
	"""the producer's reads end at a given byte of the stream when the copy is left, by the end of the block, by an exception or by a fault"""
	lens, f, at, near, skip, recs, end, recvsize, inx = case; r = live.raw()
	if sum(lens) > 2000: recvsize = max(recvsize, 1000)
	n = len(lens); r.query("SET client_min_messages = error; DROP TABLE IF EXISTS vt19s; CREATE TABLE vt19s (n serial, i int4, t text); INSERT INTO vt19s (i, t) VALUES " + ', '.join("(%d, repeat('x', %d))" % (j, l) for j, l in enumerate(lens)))
	sql = 'COPY (SELECT i, t FROM vt19s ORDER BY n) TO STDOUT' + f
	want = list(r.copy(sql)); ends = [0]
	for y in want: ends.append(ends[-1] + 5 + len(y))
	# an offset near the boundary of a message, but one
	target = max(1, min(ends[min(at, len(ends) - 1)] + near, ends[-1])) if skip % 4 else 1 + skip % ends[-1]
	t.nt(target not in ends); t.ev(end)
	for form in (0, 1):
		F = live.form(form); M = F.sub('copyman'); src, *dst = F.take(3); old = src.pq.recvsize; src.pq.recvsize = recvsize
		r.query(''.join('DROP TABLE IF EXISTS vt19d%d; CREATE TABLE vt19d%d (i int4, t text);' % (j, j) for j in range(len(recs))))
		xs = [c.xact() for c in [src] + dst] if inx else []
		for x in xs: x.start()
		P = M.StatementProducer(src.prepare(sql)); real = P.recv_into; stop = [False]; lines = []
		def recv_into(buffer, size, *a):
			left = target - P.total_bytes
			if left <= 0 and stop[0] and end in ('fault', 'recover'):
				if end == 'recover': stop[0] = False
				raise Pause('read')
			return real(buffer, max(1, min(size, left)) if left > 0 else size, *a)
		P.recv_into = recv_into
		rs = [M.StatementReceiver(dst[j].prepare('COPY vt19d%d (i, t) FROM STDIN' % j + f)) if a == 'statement' else M.CallReceiver(lines.extend) if a == 'call' else M.NullReceiver() for j, a in enumerate(recs)]
		C = M.CopyManager(P, *rs); over = False; hit = None
		def go():
			nonlocal over, hit
			with C:
				try:
					while P.total_bytes < target: next(C)
					hit = P.total_bytes; stop[0] = True
					if end in ('leave', 'raise'):
						if end == 'raise': raise Pause('body')
						return
					while True:
						try: next(C)
						except M.ProducerFault as e:
							check(type(e.__context__) is Pause, 'the fault: %r', e.__context__)
							if end == 'fault': raise
				except StopIteration: over = True
		e, _ = raised(go); src.pq.recvsize = old
		whole = over or end == 'recover'
		if whole: check(e is None, 'a complete copy: %r', e); eq((P.total_messages, P.total_bytes), (len(want), ends[-1]), 'the counts of the producer')
		else: check(type(e) is M.CopyFail and e.manager is C, 'left after %r bytes: %r', hit, e)
		for x in xs:
			if x.database.pq.state == b'E': x.rollback()
			else: x.commit()
		for j, a in enumerate(recs):
			rows = [(int(i), v) for i, v in r.query('SELECT i, t FROM vt19d%d' % j)]
			eq(rows, [(k, 'x' * l) for k, l in enumerate(lens)] if whole and a == 'statement' else [], 'the table of receiver %d' % j)
		if 'call' in recs:
			got = [bytes(y) for y in lines]; k = recs.count('call')
			# what is not a message of the stream: the filling which aligns an interrupted copy
			if whole and k == 1: eq(got, want, 'lines')
			elif k == 1: eq(got[:len(want)][:sum(1 for x in ends[1:] if x <= (hit or 0))], want[:sum(1 for x in ends[1:] if x <= (hit or 0))], 'lines')
		for db in [src] + dst: idle(r, F, db, 'after a copy that ended with %s after %r bytes' % (end, hit))
		F.give([src] + dst)
