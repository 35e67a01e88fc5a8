"""The unprivileged worker: runs the laws of one property."""
import sys, os, json, time, zlib, pickle, base64, hashlib, signal, argparse, traceback, importlib, faulthandler, resource, mmap

import hypothesis
from hypothesis import settings, seed as hseed, given, HealthCheck, Phase, errors as herr
import hypothesis.internal.conjecture.engine as _eng
from . import core
from .core import Violation, Hang, short

def shortened(lines):
	s = ''.join(lines)
	return s if len(s) < 3600 else s[:1200] + '\n  [...]\n' + s[-2300:]

def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('id')
	ap.add_argument('--tier', default='quick')
	ap.add_argument('--seed', type=int, default=1)
	ap.add_argument('--replay')
	ap.add_argument('--law', action='append', default=[])
	ap.add_argument('--all', action='store_true')
	a = ap.parse_args()
	core.TIER = a.tier
	core.SEED = a.seed
	_eng.MAX_SHRINKING_SECONDS = 40 if a.tier == 'quick' else 200
	if core.PASS != 'asan':
		resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
	resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
	faulthandler.enable()
	t0 = time.time()
	budget = 420 if a.tier == 'quick' else 4 * 3600
	deadline = t0 + budget
	import postgresql
	if not postgresql.__file__.startswith(core.SITE):
		raise RuntimeError('wrong postgresql imported: ' + postgresql.__file__)
	mod = importlib.import_module('checks.' + a.id.lower())
	scale = float(os.environ.get('VERIF_SCALE', '1'))
	report = {'violations': [], 'known': [], 'assumptions': list(getattr(mod, 'ASSUME', []))}
	cur = open(os.path.join(core.OUT, 'current'), 'w+b')
	cur.truncate(1 << 20)
	mm = mmap.mmap(cur.fileno(), 1 << 20)
	def note_current(name, case, p):
		b = json.dumps({'law': name, 'case': base64.b64encode(p).decode(), 'repr': short(case, 1500)}).encode()
		if len(b) < (1 << 20):
			mm[0:len(b) + 1] = b + b'\0'
		else:
			mm[0:1] = b'\0'

	def on_alarm(*x):
		raise Hang('the case did not end in time')
	signal.signal(signal.SIGALRM, on_alarm)

	t = core.T()
	def run_case(l, case):
		"""None or the violation's message"""
		p = pickle.dumps(case)
		note_current(l.name, case, p)
		t.reset()
		signal.setitimer(signal.ITIMER_REAL, l.hang, 5)
		faulthandler.dump_traceback_later(l.hang * 2, exit=True)
		try:
			l.fn(case, t)
		except (Violation, AssertionError) as e:
			m = str(e)
			if not isinstance(e, Violation):
				m = shortened(traceback.format_exception(e))
			raise Violation(m) from None
		except herr.UnsatisfiedAssumption:
			raise
		except Hang:
			raise
		except Exception as e:
			if not isinstance(e, herr.HypothesisException) and core.in_site(e.__traceback__):
				raise Violation('unexpected exception: ' + shortened(traceback.format_exception(e))) from None
			if core.cannot_judge(e):
				# what the library gave is nothing that the oracle can be compared with
				raise Violation('the outcome is not of the form expected: ' + shortened(traceback.format_exception(e))) from None
			raise
		finally:
			signal.setitimer(signal.ITIMER_REAL, 0)
			faulthandler.cancel_dump_traceback_later()
		return p

	def forget_connections():
		"""a violation may have left them in any state"""
		live = sys.modules.get('vlib.live')
		if live is None:
			return
		signal.setitimer(signal.ITIMER_REAL, 10, 5)
		try:
			live.reset()
		except (Exception, Hang):
			pass
		finally:
			signal.setitimer(signal.ITIMER_REAL, 0)

	def violation(l, case, msg):
		report['violations'].append({'law': l.name, 'message': msg, 'repr': short(case, 4000),
			'case': base64.b64encode(pickle.dumps(case)).decode()})

	laws = core.LAWS
	if core.PASS == 'asan':
		laws = [l for l in laws if l.asan]
	if a.replay:
		with open(a.replay) as f:
			r = json.load(f)
		for l in laws:
			if l.name == r['law']:
				case = pickle.loads(base64.b64decode(r['case']))
				try:
					run_case(l, case)
				except Violation as e:
					violation(l, case, str(e))
				except Hang as e:
					violation(l, case, 'hang: ' + str(e))
		finish(mod, report)
		return 1 if report['violations'] else 0

	cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': getattr(mod, 'RULE', ''), 'samples': [], 'laws': {}}
	for l in laws:
		if a.law and l.name not in a.law:
			continue
		n = l.quick if a.tier == 'quick' else l.thorough
		if core.PASS == 'asan':
			n = max(20, n // 4)
		n = max(1, int(n * scale))
		st = {'evaluations': 0, 'nontrivial': 0, 'distinct_nontrivial': 0, 'skipped_by_time': 0, 'events': {}}
		seen = set()
		last = {}
		samples = []
		started = time.time()
		strategy = l.strategy() if callable(l.strategy) and not isinstance(l.strategy, hypothesis.strategies.SearchStrategy) else l.strategy
		def test(case):
			if time.time() > deadline and not last:
				st['skipped_by_time'] += 1
				return
			st['evaluations'] += 1
			try:
				p = run_case(l, case)
			except Violation as e:
				last['case'], last['msg'] = case, str(e)
				last.setdefault('first', (case, str(e)))
				forget_connections()
				raise
			except Hang as e:
				last['case'], last['msg'] = case, 'hang: ' + str(e)
				forget_connections()
				raise
			except Exception as e:
				if last and not isinstance(e, (herr.HypothesisException, herr.UnsatisfiedAssumption)):
					# the remains of the violation already found, seen while shrinking it
					forget_connections()
					return
				raise
			for x in t.events:
				st['events'][x] = st['events'].get(x, 0) + 1
			if t.nontrivial:
				st['nontrivial'] += 1
				h = hashlib.blake2b(p, digest_size=12).digest()
				if h not in seen:
					seen.add(h)
					if len(samples) < 40:
						samples.append(case)
		test = given(strategy)(test)
		test = settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
			suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink), print_blob=False,
			verbosity=hypothesis.Verbosity.quiet)(test)
		test = hseed(zlib.crc32(l.name.encode()) ^ (a.seed * 2654435761 & 0xffffffff))(test)
		try:
			test()
		except (Violation, Hang) as e:
			violation(l, last['case'], last['msg'])
		except (herr.Flaky, BaseExceptionGroup) as e:
			if last:
				# the case as it was first found is as good as the last one of an unreliable shrinking
				case, msg = last.get('first', (last['case'], last['msg']))
				violation(l, case, '(not on every run) ' + msg)
			else:
				raise
		st['distinct_nontrivial'] = len(seen)
		st['wall_s'] = round(time.time() - started, 2)
		cov['laws'][l.name] = st
		cov['evaluations'] += st['evaluations']
		cov['distinct_nontrivial'] += len(seen)
		step = max(1, len(samples) // 2)
		for c in samples[1::step][:2]:
			cov['samples'].append({'law': l.name, 'case': short(c, 500)})
		if report['violations'] and not a.all:
			break
	report['coverage'] = cov
	finish(mod, report)
	return 1 if report['violations'] else 0

def finish(mod, report):
	kf = os.path.join(os.environ['PYTHONPATH'].split(':')[0], 'known-findings.json')
	probes = getattr(mod, 'FINDINGS', {})
	if os.path.exists(kf):
		with open(kf) as f:
			listed = json.load(f).get('findings', [])
		for e in listed:
			if e['property'] == mod.__name__.split('.')[-1].upper() and e['id'] in probes:
				signal.setitimer(signal.ITIMER_REAL, 60, 5)
				try:
					still = probes[e['id']]()
				except Exception:
					still = True
				finally:
					signal.setitimer(signal.ITIMER_REAL, 0)
				if still:
					report['known'].append('%s: %s' % (e['id'], e['what']))
	tmp = os.path.join(core.OUT, 'report.tmp')
	with open(tmp, 'w') as f:
		json.dump(report, f)
	os.rename(tmp, os.path.join(core.OUT, 'report.json'))
	down = getattr(sys.modules.get('vlib.pg'), 'shutdown', None)
	if down:
		down()

if __name__ == '__main__':
	try:
		rc = main()
		sys.stdout.flush()
		os._exit(rc)
	except SystemExit:
		raise
	except BaseException:
		traceback.print_exc()
		sys.stderr.flush()
		down = getattr(sys.modules.get('vlib.pg'), 'shutdown', None)
		if down:
			down()
		os._exit(3)
