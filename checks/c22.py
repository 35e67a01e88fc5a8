"""C22: Advisory locks are held exactly while acquired."""
import threading, time
from hypothesis import strategies as st
from vlib import live
from vlib.core import law, check, eq, raised

RULE = ("Histories over several lock objects of two sessions, in both modes, with any identifiers and repetitions of them: acquisitions that block, that don't, that time out, and ones waited for in threads, releases, with-blocks left in any way, transactions and lost connections. "
	"Oracle: a model that counts what each session holds, compared to pg_locks after every step. Non-trivial: a contended acquisition or a nested one.")
ASSUME = ["in a failed transaction nothing can be acquired or released; an acquisition that fails by itself inside of a transaction is not covered"]

LO, HI = -2 ** 63, 2 ** 63 - 1; LO4, HI4 = -2 ** 31, 2 ** 31 - 1
ident = st.one_of(st.sampled_from([0, 1, (0, 0), (0, 1)]), st.sampled_from([0, 1, -1, 2 ** 32, LO, HI, (0, 0), (0, 1), (1, 0), (LO4, HI4), (-1, -1), (HI4, LO4)]), st.integers(LO, HI), st.tuples(st.integers(LO4, HI4), st.integers(LO4, HI4)))
obj = st.tuples(st.integers(0, 1), st.sampled_from(['ExclusiveLock', 'ExclusiveLock', 'ShareLock']), st.lists(ident, max_size=5))
which = st.integers(0, 4)
leaf = st.one_of(
	st.tuples(st.sampled_from(['acquire', 'try', 'try', 'try', 'release', 'release', 'timeout']), which), st.tuples(st.just('wait'), which, which), st.tuples(st.just('late'), which), st.tuples(st.sampled_from(['cancel', 'error', 'query', 'rollback', 'commit']), which))
step = st.recursive(leaf, lambda s: st.tuples(st.sampled_from(['with', 'with', 'try with']), which, st.lists(s, max_size=5), st.sampled_from(['', '', 'raise', 'error'])), max_leaves=10)
class Stop(Exception): pass
def key(i):
	# of pg_locks: the database, the class, the object, its kind
	if isinstance(i, tuple): return (i[0] & 0xffffffff, i[1] & 0xffffffff, 2)
	return ((i >> 32) & 0xffffffff, i & 0xffffffff, 1)

@law(st.tuples(st.lists(obj, min_size=1, max_size=5), st.lists(step, min_size=1, max_size=14), st.sampled_from(['', '', '', 'close', 'kill'])), 300, 6000)
def locks_are_held_while_acquired(case, t):
	objs, steps, end = case; r = live.raw('c22'); stats = [0, 0]
	for form in (0, 1):
		F = live.form(form); A = F.sub('alock'); dbs = F.take(2); pids = [db.backend_id for db in dbs]
		locks = [getattr(A, m)(dbs[s], *ids) for s, m, ids in objs]
		count = [0] * len(locks); held = [{}, {}]; gone = [False, False]	# (key, mode): how often
		def obtain(s, mode, k):
			others = [m for (k_, m) in held[1 - s] if k_ == k]
			return not others or mode == 'ShareLock' and 'ExclusiveLock' not in others
		def obtainable(j): s, m, ids = objs[j]; return all(obtain(s, m, key(i)) for i in ids)
		def add(j):
			s, m, ids = objs[j]
			for i in ids: held[s][key(i), m] = held[s].get((key(i), m), 0) + 1
		def remove(j):
			s, m, ids = objs[j]
			for i in ids:
				held[s][key(i), m] -= 1
				if not held[s][key(i), m]: del held[s][key(i), m]
		def got(j):
			if count[j] == 0: add(j)
			else: stats[0] += 1
			count[j] += 1
		def let(j):
			count[j] -= 1
			if count[j] == 0 and not gone[objs[j][0]]: remove(j)
		def compare(after):
			have = {(int(p), (int(c), int(o), int(n)), {'ExclusiveLock': 'ExclusiveLock', 'ShareLock': 'ShareLock'}[m]) for p, c, o, n, m in r.query("SELECT pid, classid, objid, objsubid, mode FROM pg_locks WHERE locktype = 'advisory' AND granted")}
			eq(have, {(pids[s], k, m) for s in (0, 1) for (k, m) in held[s]}, 'locks on the server after %r' % (after,))
			for j, l in enumerate(locks):
				want = count[j] > 0 and not gone[objs[j][0]]
				eq(l.locked(), want, 'locked() of lock %d' % j); eq(l.state, 'locked' if want else 'unlocked', 'state')
		def acquire(j):
			if count[j] or obtainable(j): eq(locks[j].acquire(), True, 'acquire()'); got(j)
			else:
				stats[1] += 1; eq(locks[j].acquire(False), False, 'acquire(False) of what another session has')
		def run(o):
			j = o[1] % len(locks); l = locks[j]; s, m, ids = objs[j]; db = dbs[s]
			if o[0] == 'acquire': acquire(j)
			elif o[0] == 'try':
				ok = bool(count[j] or obtainable(j)); x = l.acquire(False) if len(ids) % 2 else l.acquire(blocking=False)
				eq(x, ok, 'acquire(blocking=False)')
				if ok: got(j)
				else: stats[1] += 1
			elif o[0] == 'release':
				if count[j]: eq(l.release(), None, 'release()'); let(j)
				else: e, _ = raised(l.release); check(isinstance(e, RuntimeError), 'release() of an unacquired lock: %r', e)
			elif o[0] in ('timeout', 'late', 'cancel'):
				if count[j] or obtainable(j) or db.pq.state != b'I': acquire(j) if o[0] != 'timeout' else None; return
				stats[1] += 1
				if o[0] == 'timeout':
					with db.settings(lock_timeout='8ms'): e, x = raised(l.acquire)
					check(isinstance(e, F.exc.Error) and e.code == '55P03', 'acquire() beyond lock_timeout: %r, %r', e, x)
				else:
					# waiting in a thread
					res = []; th = threading.Thread(target=lambda: res.append(raised(l.acquire))); th.start()
					stop = time.monotonic() + 20
					while not r.query("SELECT 1 FROM pg_locks WHERE locktype = 'advisory' AND NOT granted AND pid = %d" % pids[s]):
						check(th.is_alive() and time.monotonic() < stop, 'acquire() of what another session has: %r', res); time.sleep(.001)
					if o[0] == 'cancel':
						r.query('SELECT pg_cancel_backend(%d)' % pids[s]); th.join(20); check(res and isinstance(res[0][0], F.exc.QueryCanceledError), 'a cancelled acquire(): %r', res)
					else:
						# the others let it go
						for k, n in enumerate(count):
							if objs[k][0] != s:
								for _ in range(n): locks[k].release(); let(k)
						th.join(20); check(not th.is_alive() and res, 'a waiting acquire() goes on'); check(res[0][0] is None and res[0][1] is True, 'a waiting acquire(): %r', res); got(j)
			elif o[0] == 'wait':
				acquire(j); acquire(o[2] % len(locks))
			elif o[0] == 'error':
				if db.pq.state == b'I': e, _ = raised(db.query, 'SELECT 1/0'); check(isinstance(e, F.exc.ZeroDivisionError), 'error: %r', e)
			elif o[0] == 'query': eq(db.query.first('SELECT 1'), 1, 'a query')
			elif o[0] in ('rollback', 'commit'):
				# they survive transactions
				x = db.xact(); x.start(); acquire(j)
				if count[j] > 1: l.release(); let(j)
				getattr(x, o[0])()
			elif o[0] in ('with', 'try with'):
				_, _, body, how = o
				if not count[j] and not obtainable(j): stats[1] += 1; return
				def go():
					if o[0] == 'try with': check(l.acquire(False), 'acquire(False)'); got(j)
					with l as x:
						check(x is l, 'the with-block gives %r', x); got(j); compare('entering')
						for b in body:
							# its own release is for the end of the block
							low = count[j]; run(b)
							if count[j] < 1: acquire(j)
							compare(b)
							if not count[j]: raise Stop
						if how == 'raise': raise Stop
						if how == 'error': db.query('SELECT 1/0')
				e, _ = raised(go)
				if count[j]: let(j)
				else: check(isinstance(e, RuntimeError), 'the lock was released: %r', e); return
				if how == 'raise': check(isinstance(e, Stop), 'the exception of the block: %r', e)
				elif how == 'error': check(isinstance(e, F.exc.ZeroDivisionError), 'the exception of the block: %r', e)
				else: check(e is None, 'with: %r', e)
		stop = time.monotonic() + 10
		while time.monotonic() < stop and r.query("SELECT 1 FROM pg_locks WHERE locktype = 'advisory' AND pid NOT IN (%d, %d)" % tuple(pids)): time.sleep(.002)	# of connections dropped before
		compare('the beginning')
		for o in steps: run(o); compare(o)
		if end:
			if end == 'close': dbs[0].close()
			else: r.query('SELECT pg_terminate_backend(%d, 5000)' % pids[0]); dbs[0].msghook = lambda m: True; raised(dbs[0].query, 'SELECT 1')
			gone[0] = True; held[0].clear(); stop = time.monotonic() + 10
			while r.query("SELECT 1 FROM pg_stat_activity WHERE pid = %d" % pids[0]) and time.monotonic() < stop: time.sleep(.001)
			compare(end)
			for j, (s, m, ids) in enumerate(objs):
				if s == 0:
					for _ in range(count[j]): eq(locks[j].release(), None, 'release() after the connection closed'); let(j)
					e, _ = raised(locks[j].release); check(isinstance(e, RuntimeError), 'release() of an unacquired lock: %r', e)
					if not ids: continue
					e, x = raised(locks[j].acquire); check(isinstance(e, F.exc.Error), 'acquire() on a closed connection: %r, %r', e, x); check(not locks[j].locked(), 'locked() on a closed connection')
		for j, l in enumerate(locks):
			for _ in range(count[j]): l.release(); let(j)
		compare('all releases')
		if end: F.drop(dbs[0]); dbs = dbs[1:]
		F.give(dbs)
	t.nt(sum(stats) > 0); t.ev('nested' if stats[0] else 'not nested'); t.ev('contended' if stats[1] else 'uncontended')

many = st.one_of(st.integers(1, 12), st.sampled_from([31, 33, 64, 100, 101, 128, 150]))
@law(st.tuples(st.sampled_from(['ExclusiveLock', 'ShareLock']), many, st.integers(0, 2 ** 30), st.sets(st.integers(0, 149), min_size=1, max_size=3), st.sampled_from(['lock_timeout', 'statement_timeout', 'cancel', 'deadlock', 'try', 'range', 'none']), st.integers(1, 4), st.booleans(), st.sampled_from(['', '', 'xact', 'held'])), 40, 800)
def many_identifiers_are_obtained_or_not_at_all(case, t):
	mode, n, base, blocked, how, times, pairs, before = case; r = live.raw('c22')
	ids = [(i & 0xff, base + i) if pairs and i % 3 != 1 else base + i for i in range(n)]; blocked = sorted({b % n for b in blocked})
	if before == 'held':
		blocked = [b for b in blocked if b]
		if not blocked: blocked = [n]; ids.append(base + n)
	for form in (0, 1):
		F = live.form(form); A = F.sub('alock'); db, other = F.take(2); db.msghook = lambda m: True
		def held(): return sorted(tuple(map(int, x)) for x in r.query("SELECT classid, objid, objsubid FROM pg_locks WHERE locktype = 'advisory' AND granted AND pid = %d" % db.backend_id))
		def keys(l): return sorted(key(i) for i in l)
		first = A.ShareLock(db, *ids[:1]) if before == 'held' else None; mine = ids[:1] if first else []
		if first:
			# one that's held by another object also
			first.acquire()
		theirs = A.ExclusiveLock(other, *[ids[b] for b in blocked])
		lock = getattr(A, mode)(db, *(ids if how != 'range' else ids + [2 ** 63]))
		x = db.xact() if before == 'xact' and how in ('try', 'none') else None
		if x: x.start()
		if how not in ('none', 'range'):
			theirs.acquire()
			if how == 'try': eq(lock.acquire(False), False, 'acquire(False) of %d identifiers of which %r are not to be had' % (n, blocked))
			else:
				def go():
					if how in ('lock_timeout', 'statement_timeout'):
						db.settings[how] = '40ms' if how == 'statement_timeout' else '5ms'
						try: return raised(lock.acquire)
						finally: db.settings[how] = '0'
					if how == 'deadlock' and ids[0] != ids[blocked[0]] and not first:
						db.settings['deadlock_timeout'] = '30ms'; other.settings['deadlock_timeout'] = '20s'
					res = []; th = threading.Thread(target=lambda: res.append(raised(lock.acquire))); th.start(); stop = time.monotonic() + 20
					while not r.query("SELECT 1 FROM pg_locks WHERE locktype = 'advisory' AND NOT granted AND pid = %d" % db.backend_id):
						if not th.is_alive() or time.monotonic() > stop: break
						time.sleep(.001)
					if how == 'deadlock' and ids[0] != ids[blocked[0]] and not first:
						# the other waits for the first one of these
						mode2 = A.ExclusiveLock(other, ids[0]); th2 = threading.Thread(target=lambda: res2.append(raised(mode2.acquire))); res2 = []; th2.start()
						th.join(20); th2.join(20); check(res2 and res2[0][0] is None, 'the other of a deadlock: %r', res2); mode2.release()
						db.settings['deadlock_timeout'] = '1s'
					else: r.query('SELECT pg_cancel_backend(%d)' % db.backend_id); th.join(20)
					check(res, 'acquire() goes on'); return res[0]
				e, v = go(); check(isinstance(e, F.exc.Error), 'acquire() which fails by %s: %r %r', how, e, v); t.ev(e.code)
			eq(lock.locked(), False, 'locked()'); eq(held(), keys(mine), 'held after a failed acquisition of %d identifiers (%s), %r are not to be had' % (n, how, blocked))
			e, _ = raised(lock.release); check(isinstance(e, RuntimeError), 'release() of an unacquired lock: %r', e)
			theirs.release(); t.nt(n > 2)
		elif how == 'range':
			e, v = raised(lock.acquire); check(isinstance(e, F.exc.Error), 'acquire() of an identifier out of range: %r %r', e, v)
			eq(lock.locked(), False, 'locked()'); eq(held(), keys(mine), 'held after a refused acquisition'); e, v = raised(lock.acquire, False); check(isinstance(e, F.exc.Error), 'acquire(False) of an identifier out of range: %r %r', e, v); eq(held(), keys(mine), 'held after a refused acquisition')
		if how != 'range':
			for k in range(times): check(lock.acquire(k % 2 == 0) is True, 'acquire() number %d', k)
			eq(held(), sorted(keys(ids) + (keys(mine) if mode == 'ExclusiveLock' else [])), 'held by an acquired lock of %d identifiers' % n)
			for k in range(times): check(lock.locked(), 'locked()'); lock.release()
			eq(held(), keys(mine), 'held after the release of %d identifiers' % n); eq(lock.locked(), False, 'locked()')
		if x: x.commit()
		if first: first.release()
		eq(held(), [], 'held in the end'); F.give([db, other])
	t.nt(times > 1); t.ev(how)
