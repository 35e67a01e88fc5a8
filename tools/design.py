"""Writes DESIGN.md from this file, the checks' RULE and ASSUME texts, known-findings.json and seeded/*/meta.json."""
import ast, glob, json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]

HEAD = """# Property-based testing of python-postgres/fe

Written by tools/design.py (run it after changing a check, a seed or known-findings.json).

## How a check works

`python3 run.py <ID>` copies `/repo/postgresql` as it is now into a scratch directory twice: once with the C accelerator built from the copied sources
(`postgresql`), and once without it (`postgresql_pure`); so every check judges the working tree, in both forms where both exist, and nothing is written to /repo.
The laws of `checks/cNN.py` then run as the unprivileged user `pgtest` in that directory (`vlib/worker.py`), against a PostgreSQL 16 server of their own
(`vlib/pg.py`, one initdb per run) or a scripted one (`vlib/fakepg.py`, `vlib/typed.py`, `vlib/proxy.py`). What a law could damage is inside the scratch directory, which is removed.

A law is a function of one generated case (plain data). Hypothesis generates the cases, from the seed `VERIF_SEED`, and shrinks a failing one; the shrunk case is
written to `evidence/replay/` and `run.py <ID> --replay FILE` runs it alone. An exception from inside the library that a law doesn't expect is a violation; an exception
of the harness itself is not (exit 2). A case that hangs for long beyond its usual time is a violation. Cases run in the accelerated and the pure form; C02 and C03 run a second time with the
extension built with AddressSanitizer and UBSan. Known findings are recognized by predicates in the check and listed in `known-findings.json`.

The oracle is never the library: it is the server's account given to an independent client (`vlib/pg.py` speaks the protocol by itself), a model written from the
documentation, an independent encoder, or a relation between executions. `quick` is the same search as `thorough` with fewer cases (10 s to 90 s per check; thorough is about 10 to 20 times as many cases).

What this technique leaves open: everything is sampled. Bounds are those of the generators (sizes below); only one server version runs live (16, C locale; no SSL in it,
SSL is exercised against scripted TLS servers). Windows-specific code, Python 2/3.1 compatibility code, `release/` and `documentation/` are out of reach or not claimed.
A TypeError, LookupError, AttributeError or the like raised by a law's own lines is a violation ("the outcome is not of the form expected"), as a law works on what the library returned.

"""
NOTES = {
 'C01': "Not claimed: what a body may mean that is itself a conforming body of another message.",
 'C03': "Operations are compared on inputs of the types they take. Known differences that are not claimed: the C `WireState` ignores its `condition` argument; the size 0xFFFFFFFF is excluded from the parity of wire states; `read()` gives a tuple in C and a list in pure form. Memory safety is judged for any objects.",
 'C05': "SSL needs `sslrootcrtfile` (the library always verifies). Notices received before the encoding is known are shown escaped. Certificates are in vlib/tls.",
 'C07': "Excluded: characters on which Python's codec and PostgreSQL's conversion differ; SQL_ASCII, EUC_TW and MULE_INTERNAL; oidvector and int2vector.",
 'C08': "datetime.max/min stand for infinity; naive datetimes for timestamptz are not claimed; intervals with months are documented to warn.",
 'C09': "Excluded: negative zeros and NaN in boxes.",
 'C10': "Element types without binary support are documented as unsupported inside arrays and composites; mapping keys that are no attributes are not claimed.",
 'C11': "Comparison of arrays with different bounds is not claimed.",
 'C12': "With duplicate column names, a key means the last such column.",
 'C13': "bytea accepting ints or lists is not claimed; of a batch, complete chunks before the unusable member may have been executed.",
 'C14': "Cursor methods only for declarable queries. inet/cidr's declared str is excluded. A cursor's re-execution at commit is the server's.",
 'C15': "Not claimed: seeks to negative absolute positions, reads of negative quantities, the counts of absolute and relative seeks.",
 'C16': "KeyboardInterrupt rolls back, too. With a connection killed unnoticed, leaving by an exception may raise the connection error instead.",
 'C17': "Localized severities without field V (servers before 9.6) are not claimed for errors.",
 'C18': "A BaseException from the caller's iterator outside of a block may leave the failure of the COPY to the next operation (an existing test demands it).",
 'C19': "Not claimed: the connections of receivers that failed and were not reconciled; KeyboardInterrupt in the body. Errors on entry, before the copy begins, may be the database error.",
 'C20': "Not claimed: order among two consumers of one connection's events at once, names above 63 bytes in notify(), the channel named `*`, close() while notifications are on their way, polling with zero timeout during an operation.",
 'C21': "Not claimed: blocks left in a failed transaction begun inside them; settings like transaction_isolation and seed.",
 'C22': "Not claimed: acquire and release in failed transactions, KeyboardInterrupt during an acquisition.",
 'C23': "Not claimed: pseudo-type arguments, undescribed records, types that shadow pg_catalog names the library uses.",
 'C24': "nextset()'s stacking is existing design. Not claimed: executemany of queries without parameters, comments or keys with quotes or parentheses. Errors of INSERT...RETURNING may surface at the first fetch (rows are streamed).",
 'C25': "Not claimed: streams begun inside a transaction and read after it; statements DEALLOCATEd by SQL (their string can still be declared); clones of objects made from identifiers.",
 'C31': "lib const/proc symbols are resolved lazily, which the documentation does not say; lib.load(module) refers to an undefined ModuleLibrary; neither is claimed.",
 'C34': "The octet telling cidr from inet is ignored by servers and not judged. inet, numeric and bit images cut inside their data are not claimed to be refused (types.io's tests allow surplus and missing data there).",
 'C35': "The description of the protocol's own messages and transactions is not judged.",
 'C36': "Terminals (readline, password prompts of pg_python) are not exercised; the editor of `\\e` is a script of the check's.",
 'C37': "Interruptions come before a call on the socket does anything, as a signal handler's exception does when the call was waiting; one that arrives between the return of recv() and the assignment of its result loses data in any Python program, and is not generated. Iterators of rows end with the interruption (as itertools.chain does), those of chunks go on. The error of an operation that was broken off may be reported by the next one.",
 'C32': "Containment: data directories, links and their targets are all scratch directories of the unprivileged user that runs the check.",
}
SEEDNOTE = {}
def consts(f):
	out, laws = {}, []
	for n in ast.parse(open(f).read()).body:
		if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUME'):
			out[n.targets[0].id] = eval(compile(ast.Expression(n.value), f, 'eval'), {})
		if isinstance(n, ast.FunctionDef):
			for d in n.decorator_list:
				if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'law':
					c = [a.value for a in d.args[1:] if isinstance(a, ast.Constant)]
					laws.append((n.name, c))
	return out, laws
o = [HEAD, '## Properties\n\n']
for p in P:
	f = os.path.join(H, 'checks', p['id'].lower() + '.py')
	o.append('### %s %s\n\n' % (p['id'], p['title']))
	c, laws = consts(f)
	o.append(c['RULE'] + '\n\n')
	o.append('Laws (cases in a quick run): ' + ', '.join('%s%s' % (n, ' (%s)' % k[0] if k else '') for n, k in laws) + '.\n')
	if p.get('why_tests_cant'):
		o.append('Beyond the tests: ' + p['why_tests_cant'] + '\n')
	if c.get('ASSUME'): o.append('Assumed: ' + '; '.join(c['ASSUME']) + '.\n')
	if p['id'] in NOTES: o.append(NOTES[p['id']] + '\n')
	o.append('\n')
k = json.load(open(os.path.join(H, 'known-findings.json')))
o.append('## Genuine defects found\n\nRecorded, not repaired (KNOWN-FINDING):\n\n')
for x in k['findings']: o.append('- %s `%s`: %s\n' % (x['property'], x['id'], x['what']))
o.append('\nRepaired in /repo, one "fix:" commit each:\n\n')
for x in k['fixed']: o.append('- ' + x + '\n')
o.append('\n' + open(os.path.join(H, 'tools', 'design_tail.md')).read())
o.append('\n## Planted bugs\n\n| seed | property | needs | breaks | caught by |\n|---|---|---|---|---|\n')
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*'))):
	m = json.load(open(d + '/meta.json'))
	o.append('| %s | %s | %s | %s | %s |\n' % (os.path.basename(d), m['property'], m['needs'], m['what_it_breaks'], m.get('caught_by', m['property'])))
open(os.path.join(H, 'DESIGN.md'), 'w').write(''.join(o))
