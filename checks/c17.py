"""C17: Server errors and messages reach the caller unaltered."""
import os, re, sys
import time
from hypothesis import strategies as st
from vlib import live, gen, proxy
from vlib.core import law, check, eq, raised

RULE = ("Sequences of messages of every level and errors with generated codes and texts, raised by the server during every way of preparing and executing, with and without hooks on cursor, statement, connection, connector, driver and the final one, each accepting or not; errors of many natural kinds in statements with generated layout; and messages whose fields a proxy changes (localized severities, missing and unknown fields, undecodable text). "
	"Oracle: the fields an independent client receives, the list of SQLSTATE classes, and a model of the chain of hooks. Non-trivial: at least one message or error with a detail, a hint, or a hook.")

NAME = {'S': 'severity', 'D': 'detail', 'H': 'hint', 'W': 'context', 'P': 'position', 'p': 'internal_position', 'q': 'internal_query', 'F': 'file', 'L': 'line', 'R': 'function'}
ERR = '''03000 SQLNotYetCompleteError 08000 ConnectionError 08003 ConnectionDoesNotExistError 08006 ConnectionFailureError 08001 ClientCannotConnectError 08004 ConnectionRejectionError 08007 TransactionResolutionUnknownError 08P01 ProtocolError 09000 TriggeredActionError 0A000 FeatureError 0B000 TransactionInitiationError 0F000 LocatorError 0F001 LocatorSpecificationError 0L000 GrantorError 0LP01 GrantorOperationError 0P000 RoleSpecificationError 20000 CaseNotFoundError 21000 CardinalityError 27000 TriggeredDataChangeViolation 28000 AuthenticationSpecificationError 2B000 DPDSEError 2BP01 DPDSEObjectError 2F000 SREError 2F005 FunctionExecutedNoReturnStatementError 2F002 DataModificationProhibitedError 2F003 StatementProhibitedError 2F004 ReadingDataProhibitedError 38000 EREError 38001 ContainingSQLNotPermittedError 38002 ModifyingSQLDataNotPermittedError 38003 ProhibitedSQLStatementError 38004 ReadingSQLDataNotPermittedError 39000 ERIEError 39001 InvalidSQLState 39004 NullValueNotAllowed 39P01 TriggerProtocolError 39P02 SRFProtocolError 40000 TRError 40P01 DeadlockError 40002 IntegrityConstraintViolationError 40001 SerializationError 40003 StatementCompletionUnknownError 25000 ITSError 25001 ActiveTransactionError 25002 BranchAlreadyActiveError 25003 BadAccessModeForBranchError 25004 BadIsolationForBranchError 25005 NoActiveTransactionForBranchError 25006 ReadOnlyTransactionError 25007 SchemaAndDataStatementsError 25008 InconsistentCursorIsolationError 25P01 NoActiveTransactionError 25P02 InFailedTransactionError 3B000 SavepointError 3B001 InvalidSavepointSpecificationError 2D000 TransactionTerminationError 53000 IRError 53200 MemoryError 53100 DiskFullError 53300 TooManyConnectionsError 55000 ONIPSError 55006 ObjectInUseError 55P02 ImmutableRuntimeParameterError 55P03 UnavailableLockError 42000 SEARVError 42602 SEARVNameError 42622 NameTooLongError 42939 ReservedNameError 42830 ForeignKeyCreationError 42501 InsufficientPrivilegeError 42803 GroupingError 42P19 RecursionError 42P20 WindowError 42601 SyntaxError 42846 CoercionError 42804 TypeMismatchError 42P18 IndeterminateTypeError 42809 WrongObjectTypeError 42703 UndefinedColumnError 42883 UndefinedFunctionError 42P01 UndefinedTableError 42P02 UndefinedParameterError 42704 UndefinedObjectError 42701 DuplicateColumnError 42P03 DuplicateCursorError 42P04 DuplicateDatabaseError 42723 DuplicateFunctionError 42P05 DuplicatePreparedStatementError 42P06 DuplicateSchemaError 42P07 DuplicateTableError 42712 DuplicateAliasError 42710 DuplicateObjectError 42702 AmbiguousColumnError 42725 AmbiguousFunctionError 42P08 AmbiguousParameterError 42P09 AmbiguousAliasError 42P10 ColumnReferenceError 42611 ColumnDefinitionError 42P11 CursorDefinitionError 42P12 DatabaseDefinitionError 42P13 FunctionDefinitionError 42P14 PreparedStatementDefinitionError 42P15 SchemaDefinitionError 42P16 TableDefinitionError 42P17 ObjectDefinitionError 24000 CursorStateError 44000 WithCheckOptionError 3D000 CatalogNameError 34000 CursorNameError 26000 StatementNameError 3F000 SchemaNameError 23000 ICVError 23001 RestrictError 23502 NotNullError 23503 ForeignKeyError 23505 UniqueError 23514 CheckError 22000 DataError 22001 StringRightTruncationError 22026 StringDataLengthError 2200F ZeroLengthString 22021 EncodingError 2202E ArrayElementError 2200G SpecificTypeMismatch 22004 NullValueNotAllowedError 22002 NullValueNoIndicatorParameter 22012 ZeroDivisionError 22P01 FloatingPointError 22005 AssignmentError 22022 IndicatorOverflowError 22P04 BadCopyError 22P02 TextRepresentationError 22P03 BinaryRepresentationError 22P05 UntranslatableCharacterError 22P06 NonstandardUseOfEscapeCharacterError 2200L NotXMLError 2200M XMLDocumentError 2200N XMLContentError 2200S XMLCommentError 2200T XMLProcessingInstructionError 22007 DateTimeFormatError 22009 TimeZoneDisplacementValueError 22008 DateTimeFieldOverflowError 22015 IntervalFieldOverflowError 2201E LogArgumentError 2201F PowerFunctionArgumentError 2201G WidthBucketFunctionArgumentError 22018 CastCharacterValueError 22019 EscapeCharacterError 2200D EscapeOctetError 22025 EscapeSequenceError 2200B EscapeCharacterConflictError 22011 SubstringError 22027 TrimError 22010 IndicatorParameterValueError 2201W LimitValueError 22020 LimitValueError 2201X OffsetValueError 22023 ParameterValueError 2201B RegularExpressionError 22003 NumericRangeError 22024 UnterminatedCStringError XX000 InternalError XX001 DataCorruptedError XX002 IndexCorruptedError 58000 SIOError 58P01 UndefinedFileError 58P02 DuplicateFileError F0000 CFError F0001 LockFileExistsError 57000 OIError 57014 QueryCanceledError 57P01 AdminShutdownError 57P02 CrashShutdownError 57P03 ServerNotReadyError P0000 PLPGSQLError P0001 PLPGSQLRaiseError P0002 PLPGSQLNoDataFoundError P0003 PLPGSQLTooManyRowsError'''.split()
ERR = dict(zip(ERR[::2], ERR[1::2]))
WARN = dict(zip(*[iter('01000 Warning 01P01 DeprecationWarning 0100C DynamicResultSetsReturnedWarning 01008 ImplicitZeroBitPaddingWarning 01003 NullValueEliminatedInSetFunctionWarning 01007 PrivilegeNotGrantedWarning 01006 PrivilegeNotRevokedWarning 01004 StringDataRightTruncationWarning 02000 NoDataWarning 02001 NoMoreSetsReturned'.split())] * 2))
OTHER = [l.split()[0] for l in open('/usr/share/postgresql/16/errcodes.txt') if re.match('[0-9A-Z]{5} ', l)] if os.path.exists('/usr/share/postgresql/16/errcodes.txt') else []

def details(f): return {NAME[k]: v for k, v in f.items() if k in NAME}
def iserror(F, e, f, what, **kw):
	"""the exception of an error with the given fields"""
	check(isinstance(e, F.exc.Error), '%s: %r', what, e)
	c = f['C']; name = ERR.get(c) or ERR.get(c[:2] + '000') or 'Error'
	check(c == '2200C' and issubclass(type(e), F.exc.DataError) or type(e) is getattr(F.exc, name), '%s: %s is raised as %s, not %s', what, c, type(e).__name__, name)
	eq((e.code, e.message), (c, f['M']), what + ': code and message')
	d = dict(e.details); w = details(f); d.update(kw); w.update(kw)
	eq({k: v for k, v in d.items() if k in NAME.values()}, w, what + ': details'); eq(e.source, 'SERVER', what + ': source')
	rendered(e, f, what)
def rendered(e, f, what, skip=()):
	s = str(e); r = repr(e)
	for k in ('M', 'C', 'D', 'H', 'W', 'P', 'q', 'p'):
		if k in f and k not in skip: check(f[k] in s, '%s: its text does not have the %s %r: %r', what, k, f[k], s)
	if 'Traceback' not in ''.join(f.values()): check('Traceback (most recent' not in s and 'caused exception' not in s, '%s: its text reports a failure: %s', what, s)
	check(f['M'] in r or repr(f['M']) in r, 'repr: %r', r)
def ismessage(F, m, f, what):
	eq((m.code, m.message), (f['C'], f['M']), what + ': code and message'); eq({k: v for k, v in m.details.items() if k in NAME.values()}, details(f), what + ': details')
	if f['S'] == 'WARNING':
		c = f['C']; name = WARN.get(c) or WARN.get(c[:2] + '000') or 'Warning'
		check(type(m) is getattr(F.exc, name), '%s: the class of %s is %s', what, c, type(m).__name__)
	else: check(isinstance(m, F.sub('message').Message) and not isinstance(m, F.exc.Error), '%s: %r', what, type(m))
	text = F.sub('python.element').format_element(m)
	if not f['M'].strip() == '' and f['M'].isprintable() and len(f['M']) < 60: check(f['M'].strip() in text, 'the formatted message %r of %r', text, f)
	if f['C'] != '00000': check(f['C'] in text, 'the formatted message %r of %r', text, f)

text = st.one_of(gen.pgtext(8), st.sampled_from(['m', 'a\nb', 'x: y', '%', '{}', '\t', 'é', ' x ', 'a' * 200, '$1', 'Zeile 1\n\n  Zeile 3', '"q"', "it's", 'a\\b', '\r\n'])).filter(lambda s: '$vt$' not in s)
state = st.one_of(st.sampled_from(sorted(ERR)), st.sampled_from(sorted(WARN)), st.sampled_from(OTHER or ['22014']), st.text('0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ', min_size=5, max_size=5), st.sampled_from(sorted(ERR)).map(lambda c: c[:2] + 'ZZZ')).filter(lambda c: c[:2] not in ('00',))
note = st.fixed_dictionaries({'level': st.sampled_from(['NOTICE', 'WARNING', 'INFO', 'DEBUG', 'LOG', 'NOTICE', 'WARNING']), 'M': text, 'C': st.one_of(st.none(), state), 'D': st.one_of(st.none(), text), 'H': st.one_of(st.none(), text)})
error = note.map(lambda d: dict(d, level='EXCEPTION')).filter(lambda d: d['C'] not in ('P0004',))
def lit(s): return "E'%s'" % s.replace('\\', '\\\\').replace("'", "''")
def stmt(n): return 'RAISE %s USING MESSAGE = %s%s%s%s;' % (n['level'], lit(n['M']), *[', %s = %s' % (k, lit(n[x])) if n[x] is not None else '' for k, x in (('ERRCODE', 'C'), ('DETAIL', 'D'), ('HINT', 'H'))])
def same(t):
	return t
WAYS = ['execute', 'do', 'call', 'first', 'rows', 'chunks', 'column', 'declare', 'load_rows', 'query', 'query.first', 'query.rows', 'proc', 'prepared do', 'copy', 'copy in', 'by id']
hookset = st.fixed_dictionaries({k: st.sampled_from([None, None, 'none', 'false', 'true', 'zero', 'one', 'str']) for k in ('statement', 'connection', 'connector', 'driver')})
RET = {'none': None, 'false': False, 'true': True, 'zero': 0, 'one': 1, 'str': 'x'}

class Hooks:
	def __init__(self, F, db, spec):
		self.F, self.db, self.spec, self.calls = F, db, spec, []
		self.on = {'connection': db, 'connector': db.connector, 'driver': db.connector.driver}
	def hook(self, name):
		def msghook(m): self.calls.append((name, m)); return RET[self.spec[name]]
		return msghook
	def put(self, name, obj):
		if self.spec.get(name) is not None: obj.msghook = self.hook(name)
	def __enter__(self):
		for k, o in self.on.items(): self.put(k, o)
		self.sys = self.F.sub('sys'); self.old = self.sys.msghook; self.sys.msghook = lambda m: self.calls.append(('sys', m))
		return self
	def __exit__(self, *x):
		self.sys.msghook = self.old
		for k, o in self.on.items():
			if 'msghook' in vars(o): del o.msghook
	def chain(self, msgs, *places):
		out = []
		for f in msgs:
			for p in places:
				if self.spec.get(p) is not None:
					out.append((p, f))
					if RET[self.spec[p]]: break
			else: out.append(('sys', f))
		return out

@law(st.tuples(st.lists(note, max_size=3), st.one_of(st.none(), error), st.sampled_from(WAYS), hookset, st.sampled_from(['notice', 'warning', 'debug1', 'error', 'log', 'notice']), st.booleans(), st.integers(1, 4)), 1200, 25000)
def messages_and_errors_arrive_as_sent(case, t):
	notes, err, way, spec, level, inx, n = case
	r = live.raw()
	if way in ('execute', 'do', 'prepared do', 'load_rows', 'copy in') : n = 1
	body = 'BEGIN ' + ''.join(map(stmt, notes)) + (stmt(err) if err else '')
	r.query('SET client_min_messages = error; DROP TABLE IF EXISTS vt17t; CREATE TABLE vt17t (i int4); CREATE OR REPLACE FUNCTION vt17(i int4) RETURNS int4 LANGUAGE plpgsql AS $vt$ %s RETURN i; END $vt$; CREATE OR REPLACE FUNCTION vt17tr() RETURNS trigger LANGUAGE plpgsql AS $vt$ %s RETURN NEW; END $vt$; CREATE TRIGGER x BEFORE INSERT ON vt17t FOR EACH ROW EXECUTE FUNCTION vt17tr(); SET client_min_messages = %s' % (body, body, level))
	DO = 'DO $vt$ ' + body + ' END $vt$'; SEL = 'SELECT vt17(i) FROM generate_series(1, %d) g(i)' % n
	sql = {'execute': DO, 'do': DO, 'prepared do': DO, 'load_rows': 'INSERT INTO vt17t VALUES (1)', 'proc': 'SELECT vt17(3)', 'copy': 'COPY (%s) TO STDOUT' % SEL, 'copy in': 'INSERT INTO vt17t VALUES (1)'}.get(way, SEL)
	r.notices.clear(); fields = None
	try: r.query(sql)
	except live.pg.RawError as e: fields = e.fields
	msgs = [dict(x) for x in r.notices]
	if way == 'copy in':
		for f in msgs + ([fields] if fields else []): f['W'] = f.get('W', '') + '\nCOPY vt17t, line 1: "1"'
	strip = ('P', 'p') if way in ('proc',) else ()
	t.nt(bool(msgs or fields) and any(x['D'] is not None or x['H'] is not None or any(spec.values()) for x in notes + ([err] if err else []))); t.ev(way)
	for form in (0, 1):
		F = live.form(form); db = F.get(); X = F.exc
		db.execute('SET client_min_messages = ' + level)
		ps = db.prepare({'call': SEL}.get(way, SEL)) if way in ('call', 'first', 'rows', 'chunks', 'column', 'declare') else db.prepare(DO) if way == 'prepared do' else db.prepare('INSERT INTO vt17t VALUES ($1)') if way == 'load_rows' else db.prepare(sql) if way == 'copy' else db.prepare('COPY vt17t FROM STDIN') if way == 'copy in' else None
		pr = db.proc('vt17(int4)') if way == 'proc' else None
		if way == 'by id':
			db.execute('PREPARE vt17s AS ' + SEL); ps = db.statement_from_id('vt17s')
		x = db.xact() if inx else None
		if x: x.start()
		with Hooks(F, db, spec) as h:
			if ps is not None: h.put('statement', ps)
			def go():
				if way == 'execute': return db.execute(DO)
				if way == 'do': return db.do('plpgsql', body + ' END')
				if way in ('call', 'prepared do', 'copy', 'by id'): return ps()
				if way == 'first': return ps.first()
				if way in ('rows', 'chunks', 'column'): return list(getattr(ps, way)())
				if way == 'declare': return ps.declare().read()
				if way == 'load_rows': return ps.load_rows([(1,)])
				if way == 'copy in': return ps.load_rows([b'1\n'])
				if way == 'query': return db.query(SEL)
				if way == 'query.first': return db.query.first(SEL)
				if way == 'query.rows': return list(db.query.rows(SEL))
				if way == 'proc': return pr(3)
			e, v = raised(go)
		if fields is None: check(e is None, '%s: %r', way, e)
		else: iserror(F, e, fields, way)
		if way == 'first' and n > 1 and len(h.calls) < len(msgs) * 2 and not fields: pass
		want = h.chain(msgs, *((['statement'] if ps is not None else []) + ['connection', 'connector', 'driver']))
		eq([p for p, _ in h.calls], [p for p, _ in want], '%s: the hooks called for %d messages' % (way, len(msgs)))
		for (_, m), (_, f) in zip(h.calls, want): ismessage(F, m, f, way)
		if x: x.rollback()
		if way == 'by id': ps.close()
		eq(db.query.first('SELECT 3'), 3, 'afterwards'); eq(r.query("SELECT state FROM pg_stat_activity WHERE pid = %d" % db.backend_id)[0][0], 'idle', 'no transaction is left open')

TOK = ['SELECT', 'FROM', 'WHERE', '1', 'a', '"é x"', ',', '(', ')', '+', '/', '0', 'int4', '::', "'it''s'", '$1', 'pg_class', 'no_such', '.', 'ORDER BY', 'GROUP BY', 'LIMIT', '-1', 'CREATE TABLE', 'INSERT INTO', 'VALUES', ';', '=', 'count', '*', 'NULL', 'ARRAY[', ']', 'AS', 'date', "'x'", '99999999999', '1/0', 'relname', 'CASE', 'END', 'UNION']
WS = st.sampled_from([' ', ' ', ' ', '\n', '\t', '\r\n', '  ', '\n\n', ' /* é */ ', ' -- x\n', '\v', '\f', '\u2028'.replace('\u2028', '\n')])
natural = st.sampled_from([
	"SELECT 1/0", "SELECT 'x'::int4", "SELECT * FROM no_such_table", "SELECT no_such_col FROM pg_class", "SELECT no_such_fn(1)", "SELEC 1", "INSERT INTO vt17u VALUES (1), (1)", "INSERT INTO vt17u VALUES (NULL)", "INSERT INTO vt17u VALUES (-1)", "CREATE TABLE vt17u (i int)", "SELECT 10000000000::int4", "SELECT '2020-13-01'::date", "SELECT '1 foo'::interval", "SELECT repeat('x', 100)::varchar(5), 'toolong'::char(3)::int", "SELECT 'a' ~ '('", "SELECT ln(-1)", "SELECT (SELECT i FROM generate_series(1,2) g(i))", "DROP TABLE vt17v", "DROP SCHEMA no_such", "SET no_such.x.y = 1", "SET bogus_setting = 1", "SELECT sum(count(*)) FROM pg_class", "SELECT relname FROM pg_class GROUP BY relkind", "COMMIT PREPARED 'x'", "EXECUTE no_such", "FETCH 1 FROM no_such", "SELECT 1 UNION SELECT 'x'::date", "SELECT ARRAY[[1],[1,2]]", "SELECT '{\"a\":}'::json", "VACUUM no_such", "SELECT 1 LIMIT -1", "ALTER TABLE vt17u ALTER i TYPE date", "SELECT chr(0)", "SELECT '\\xgg'::bytea", "SELECT power(10.0, 1000000)", "SAVEPOINT x", "SELECT pg_sleep(1/0)", "DO $$BEGIN EXECUTE 'SELECT\n  1/0'; END$$", "DO $$BEGIN PERFORM no_such(); END$$", "SELECT xmlparse(document 'a')"])
@law(st.tuples(st.one_of(natural, st.lists(st.tuples(st.sampled_from(TOK), WS), min_size=1, max_size=12).map(lambda l: ''.join(a + b for a, b in l))), st.lists(WS, max_size=4).map(''.join), st.sampled_from(['execute', 'prepare', 'query', 'query.first', 'rows', 'load_rows']), st.booleans()), 1000, 20000)
def natural_errors_arrive_as_sent(case, t):
	sql, lead, way, inx = case; sql = lead + sql
	r = live.raw()
	r.query('SET client_min_messages = error; DROP TABLE IF EXISTS vt17u CASCADE; CREATE TABLE vt17u (i int4 NOT NULL UNIQUE CHECK (i > 0)); CREATE OR REPLACE VIEW vt17v AS SELECT 1 AS x')
	r.query('BEGIN'); fields = None
	try: (r.query(sql) if way == 'execute' else r.pquery(sql, []))
	except live.pg.RawError as e: fields = e.fields
	finally: r.query('ROLLBACK')
	if not fields: return
	if fields['C'] == '08P01': return		# the statement has parameters
	if re.match(r'(?i)(\s|/\*.*?\*/|--[^\n]*\n)*(COMMIT|VACUUM|SAVEPOINT)', sql): inx = True
	t.nt('P' in fields or 'D' in fields or 'H' in fields); t.ev(fields['C'])
	for form in (0, 1):
		F = live.form(form); db = F.get()
		x = db.xact(); x.start()
		db.execute('SET LOCAL client_min_messages = error')
		def go():
			if way == 'execute': return db.execute(sql)
			ps = db.prepare(sql)
			return ps() if way == 'prepare' else db.query(sql) if way == 'query' else db.query.first(sql) if way == 'query.first' else list(ps.rows()) if way == 'rows' else ps.load_rows([()])
		e, v = raised(go)
		check(e is not None, '%s of %r: %r; want the error %r', way, sql, v, fields)
		if not isinstance(e, F.exc.Error) and isinstance(e, TypeError): x.rollback(); return
		iserror(F, e, fields, '%s of %r' % (way, sql), file='', line='', function='')
		if inx: x.rollback()
		else:
			try: x.__exit__(type(e), e, None)
			except Exception as y: raise
		eq(db.query.first('SELECT 3'), 3, 'afterwards')

field = st.one_of(st.just(b''), gen.pgtext(6).map(str.encode), st.binary(max_size=6).map(lambda b: b.replace(b'\0', b'')))
change = st.fixed_dictionaries({'S': st.sampled_from([None, None, 'WARNUNG', 'AVVISO', 'ПРЕДУПРЕЖДЕНИЕ', 'FEHLER']), 'drop': st.sets(st.sampled_from('DHWPFLRVsxtcnd'), max_size=6), 'add': st.lists(st.tuples(st.sampled_from('DHWPpqXYZstcdn'), field), max_size=4), 'M': st.one_of(st.none(), field), 'order': st.booleans()})
px = {}
@law(st.tuples(change, st.sampled_from(['NOTICE', 'WARNING', 'INFO', 'EXCEPTION', 'EXCEPTION', 'WARNING']), state, st.sampled_from(['execute', 'query', 'rows', 'prepare'])), 500, 8000)
def unusual_fields_are_passed_on(case, t):
	ch, level, code, way = case; t.nt(True)
	for form in (0, 1):
		F = live.form(form)
		if form not in px: P = proxy.Proxy(); px[form] = [P, P.connect(F.pkg)]
		P, db = px[form]
		if db.closed: db = px[form][1] = P.connect(F.pkg)
		sent = []
		def transform(ty, b):
			if ty not in (b'E', b'N'): return [(ty, b)]
			f = [(k, v) for k, v in proxy.fields(b) if k.decode() not in ch['drop'] or k == b'V' and ch['S'] and level == 'EXCEPTION']
			new = []
			for k, v in f:
				if k == b'S' and ch['S']: v = ch['S'].encode()
				if k == b'M' and ch['M'] is not None: v = ch['M']
				new.append((k, v))
			have = {k for k, _ in new}
			for k, v in ch['add']:
				k = k.encode()
				if k not in have: have.add(k); new.append((k, v))
			if ch['order']: new.reverse()
			sent.append(dict(new)); return [(ty, proxy.unfields(new))]
		db.execute('SET client_min_messages = notice')
		sql = "DO $vt$ BEGIN RAISE %s USING MESSAGE = 'x', ERRCODE = '%s', DETAIL = 'd', HINT = 'h'; END $vt$" % (level, code)
		if way == 'rows':
			db.execute('CREATE OR REPLACE FUNCTION pg_temp.vt17() RETURNS int4 LANGUAGE plpgsql AS $f$ BEGIN %s RETURN 1; END $f$' % sql.split('BEGIN')[1].split('END $vt$')[0])
		P.transform = transform
		def decoded(v):
			try: return v.decode('utf-8')
			except UnicodeDecodeError: return None
		try:
			with Hooks(F, db, {'connection': 'true'}) as h:
				e, v = raised(lambda: db.execute(sql) if way == 'execute' else list(db.query.rows('SELECT pg_temp.vt17()')) if way == 'rows' else db.query(sql) if way == 'query' else db.prepare(sql)())
		finally: P.transform = None
		check(len(sent) == 1, 'messages sent: %r; %r', sent, e)
		f = sent[0]
		if level == 'EXCEPTION':
			check(isinstance(e, F.exc.Error), 'an error with the fields %r: %r', f, e); m = e
			name = ERR.get(code) or ERR.get(code[:2] + '000') or 'Error'
			check(code == '2200C' or type(e) is getattr(F.exc, name), '%s raised as %s', code, type(e).__name__); eq([x for x, _ in h.calls], [], 'hooks')
			str(e); repr(e)
		else:
			check(e is None, 'a message with the fields %r: %r', f, e); eq(len(h.calls), 1, 'messages delivered'); m = h.calls[0][1]
			name = WARN.get(code) or WARN.get(code[:2] + '000') or 'Warning'
			if level == 'WARNING' and (b'V' in f or f[b'S'] == b'WARNING'): check(type(m) is getattr(F.exc, name), 'a warning %r delivered as %r', f, type(m))
			F.sub('python.element').format_element(m)
		got = dict(m.details, code=m.code, message=m.message)
		for k, v in f.items():
			n = NAME.get(k.decode()) or {b'C': 'code', b'M': 'message'}.get(k)
			if n is None: continue
			check(n in got and isinstance(got[n], str), 'field %r of %r: %r', k, f, got)
			d = decoded(v)
			if d is not None: eq(got[n], d, 'field %r of %r' % (k, f))
			else: check('\ufffd' not in got[n] and all(w in got[n] for w in ''.join(chr(c) if chr(c).isalnum() and c < 128 else ' ' for c in v).split()), 'field %r of %r: %r', k, f, got[n])
			if d is not None: pass
			elif v.decode('latin1').isascii(): eq(got[n], v.decode('ascii'), 'field %r' % k)
		eq(db.query.first('SELECT 3'), 3, 'afterwards')

@law(st.tuples(st.sampled_from(['execute', 'query', 'rows', 'declare', 'xact', 'chunk']), st.sampled_from([0, 0, 1, 3, 12])), 24, 300)
def fatal_errors_name_their_cause(case, t):
	# behind whatever else was to be received
	way, pending = case; r = live.raw(); t.nt(True)
	for form in (0, 1):
		F = live.form(form); db = F.connect(); pid = db.backend_id
		it = iter(db.query.chunks('SELECT i FROM generate_series(1, 9000) g(i)')) if way == 'chunk' else None
		if it: next(it)
		c = db.query.declare('SELECT 1') if way == 'declare' else None
		if pending and way != 'chunk': db.execute('LISTEN vt17f'); r.query(''.join("NOTIFY vt17f, '%d %s';" % (i, 'x' * 4000) for i in range(pending))); time.sleep(0.05)
		r.query('SELECT pg_terminate_backend(%d, 5000)' % pid)
		def go():
			if way == 'execute': db.execute('SELECT 1')
			elif way == 'query': db.query('SELECT 1')
			elif way == 'rows': list(db.query.rows('SELECT 1'))
			elif way == 'declare': c.read()
			elif way == 'chunk':
				for x in it: pass
				db.execute('SELECT 1')
			else:
				with db.xact(): pass
		e, v = raised(go)
		check(isinstance(e, F.exc.Disconnection) and isinstance(e, F.exc.Error), 'after the server ended the connection: %r', e)
		check(e.code == '57P01' or way == 'chunk', 'the reason was lost: %r', e); t.ev(way)
		if e.code == '57P01': eq((e.message, e.details.get('severity'), e.fatal), ('terminating connection due to administrator command', 'FATAL', True), 'the error')
		str(e); check(db.closed, 'the connection is not closed')
		e, v = raised(db.execute, 'SELECT 1'); check(isinstance(e, F.exc.ConnectionDoesNotExistError), 'using it again: %r', e); str(e)
		db.close()
