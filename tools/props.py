"""Writes /verif/properties.jsonl (the source of the property list; kept as Python so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                    "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": None}})

p("C01", "Wire messages encode exactly and decode to what was sent",
  "Every protocol 3.0 message the library can build serializes to exactly the bytes the PostgreSQL protocol prescribes for its fields (type byte, length word, integers, NUL-terminated strings, NULL markers), and parsing a conforming message body yields a message with exactly those fields, equal to one built from them. A message body that is truncated or otherwise inconsistent with its declared counts is rejected with an error; it never yields a message with wrong fields.",
  ["inputs"], "every message class, every field value (empty, NULL, maximal, non-ASCII, embedded 0xFF), every truncation of a body",
  "test_protocol samples one or two instances per message class and checks the library against itself; it has no independent encoder and no malformed bodies beyond a few.",
  ["postgresql/protocol/element3.py", "postgresql/protocol/version.py", "postgresql/protocol/message_types.py", "postgresql/port/_optimized/element3.c"],
  [("message classes' serialize/parse/bytes", "postgresql/protocol/element3.py"), ("tuple message packing", "postgresql/port/_optimized/element3.c")],
  observe=["Message.bytes()", "Message.parse()"])

p("C02", "Message framing is independent of how the stream is cut",
  "However the bytes of a message stream are divided into reads, the message buffer delivers exactly the messages of the stream, in order, each once, and leaves an incomplete tail pending. After every write and read, its count, availability, peek and bulk-read operations agree with the complete messages then pending, truncation discards everything pending, and a length word smaller than the header it counts is reported as an error instead of being delivered.",
  ["inputs", "histories"], "every message sequence, every partition into writes, every interleaving of writes with reads, peeks, counts and truncation, for both buffer implementations",
  "test_protocol.py feeds a dozen fixed splits; the partition space and interleavings with partial consumption are not explored.",
  ["postgresql/protocol/pbuffer.py", "postgresql/protocol/buffer.py", "postgresql/port/_optimized/buffer.c"],
  [("pq_message_stream", "postgresql/protocol/pbuffer.py"), ("pq_message_stream (C)", "postgresql/port/_optimized/buffer.c")],
  observe=["write/next_message/next_messages/has_message/len/truncate"])

p("C03", "The C accelerator never changes behaviour",
  "For every input, the accelerated and the pure-Python forms of the library give the same results: integer and length packing and unpacking, tuple data packing and unpacking, row and chunk processing, function composition, message framing, outgoing message concatenation, consumption of incoming row messages and COPY stream tracking. Where one form rejects an input so does the other, and no input, however malformed, crashes the interpreter or corrupts its memory.",
  ["inputs", "histories"], "all argument values of each accelerated operation, including wrong types, truncated buffers, overflowing integers and exceptions raised by callbacks",
  "test_optimized.py checks a handful of values per primitive, and the rest of the suite only ever runs with whichever form is installed.",
  ["postgresql/port/_optimized/module.c", "postgresql/port/_optimized/structlib.c", "postgresql/port/_optimized/functools.c", "postgresql/port/_optimized/element3.c", "postgresql/port/_optimized/wirestate.c", "postgresql/port/_optimized/buffer.c", "postgresql/python/structlib.py", "postgresql/python/functools.py", "postgresql/types/io/lib.py", "postgresql/copyman.py", "postgresql/protocol/xact3.py", "postgresql/protocol/element3.py"],
  [("C implementations", "postgresql/port/_optimized/"), ("fallbacks chosen on ImportError", "postgresql/python/structlib.py")],
  observe=["return values and exceptions of both forms"])

p("C04", "Protocol exchanges complete exactly once and stay in sync",
  "For every conforming sequence of server replies, however it is delivered, each client request (simple query, prepare, bind/execute, fetch, close, COPY in either direction) completes exactly when the server has finished replying, exposes exactly the messages the server sent for it, and leaves the connection ready for the next request. A server error reply is reported as that request's error and the next request starts synchronized; asynchronous notices, parameter changes and notifications are delivered to their receiver wherever they occur and never disturb the request. If the peer closes, resets or sends data that violates the protocol at any point, the request ends with a fatal connection error: it neither hangs nor reports success.",
  ["inputs", "schedules", "fault_sequences"], "every request type, reply script, fragmentation of it, placement of asynchronous messages and of errors, partial or interrupted sends, and every cut point of the stream",
  "The live-server tests see only the fragmentation and timing of a local server; no test drives the state machines with scripted replies, short sends or disconnections at chosen bytes.",
  ["postgresql/protocol/client3.py", "postgresql/protocol/xact3.py", "postgresql/protocol/element3.py"],
  [("Transaction/Instruction/Closing state machines", "postgresql/protocol/xact3.py"), ("Connection.push/step/complete, socket reads and writes", "postgresql/protocol/client3.py")],
  state=[("Instruction state and last/next positions", "which message of which command is awaited", "postgresql/protocol/xact3.py"), ("connection state", "socket, read buffer, pending writes", "postgresql/protocol/client3.py")],
  observe=["xact.state, xact.fatal, xact.error_message, xact.messages_received()", "bytes written to the peer"])

p("C05", "Connecting honours credentials, SSL mode and startup parameters",
  "A connection attempt sends exactly the requested startup parameters, answers trust, cleartext, MD5 and crypt password requests with the response the protocol defines for the given user, password and salt, and refuses any other authentication request with an authentication-method error without sending the password. The SSL mode is obeyed: 'disable' never requests SSL, 'require' never continues unencrypted, 'prefer' tries SSL first and 'allow' plain text first, each falling back to the other. Every way in which the server can refuse, garble or drop the negotiation yields a cannot-connect error that records every attempt, and a connection that reports success has its backend identity, parameters and security state set from what the server sent.",
  ["inputs", "fault_sequences", "configurations"], "all users, passwords, salts, settings, SSL modes and answers to the SSL request, authentication codes, and refusals or disconnections at any step",
  "test_connect covers a few fixed accounts on a live server that offers only current authentication methods; refusal and fallback orders need a scripted server.",
  ["postgresql/driver/pq3.py", "postgresql/protocol/client3.py", "postgresql/protocol/xact3.py", "postgresql/resolved/crypt.py", "postgresql/python/socket.py"],
  [("Connection.connect / Connector.socket_factory_sequence", "postgresql/driver/pq3.py"), ("Negotiation", "postgresql/protocol/xact3.py"), ("crypt()", "postgresql/resolved/crypt.py")],
  observe=["bytes received by a scripted server", "exception and its recorded attempts", "connection attributes"])

p("C06", "Numeric and boolean values survive the trip to the server and back",
  "Every value of the supported numeric and boolean types (smallint, integer, bigint, oid, real, double precision, numeric, boolean) sent as a parameter is seen by the server as exactly that value, and every value the server holds is returned as exactly the equal Python value, with numeric keeping its digits and scale. A number outside the type's range is rejected, never wrapped or truncated.",
  ["inputs"], "all integers at and around range limits, all finite and special floats (NaN, infinities, signed zero, subnormals), all decimals including leading/trailing zeros, exponents, NaN and infinities",
  "test_types round-trips a short list of samples through the driver only, so an error made symmetrically in packing and unpacking is invisible.",
  ["postgresql/types/io/builtins.py", "postgresql/types/io/stdlib_decimal.py", "postgresql/types/io/lib.py", "postgresql/python/structlib.py", "postgresql/port/_optimized/structlib.c"],
  [("integer/float packing", "postgresql/types/io/builtins.py"), ("numeric_pack/numeric_unpack", "postgresql/types/io/stdlib_decimal.py")],
  observe=["SELECT $1::T", "SELECT ($1::T)::text", "SELECT $1::text::T"])

p("C07", "Text, bytes and unmapped types survive the trip both ways",
  "Every string without NUL characters sent as a character-type parameter is stored by the server with exactly those characters and returned unchanged under every client encoding able to represent it, every bytes object sent as bytea is stored and returned byte for byte, and json and xml documents keep their content. Types without a conversion accept and return the server's own text form as a string. A string the connection's encoding cannot represent is rejected as a parameter error.",
  ["inputs", "configurations"], "all Unicode strings (non-BMP, combining, quotes, backslashes), all byte strings, client encodings, character types, types without a conversion",
  "The tests use short samples in one encoding and only compare the driver with itself.",
  ["postgresql/types/io/builtins.py", "postgresql/types/io/__init__.py", "postgresql/driver/pq3.py", "postgresql/encodings/aliases.py", "postgresql/encodings/bytea.py", "postgresql/types/io/stdlib_xml_etree.py", "postgresql/types/io/stdlib_jsonb.py"],
  [("TypeIO.encodes/decodes and format selection", "postgresql/driver/pq3.py"), ("text and bytea codecs", "postgresql/types/io/builtins.py"), ("encoding name mapping", "postgresql/encodings/aliases.py")],
  observe=["SELECT $1::T", "server-side hex/char_length of the parameter", "column values"])

p("C08", "Dates, times, timestamps and intervals keep their exact meaning",
  "Every date, time, time with zone, timestamp, timestamp with zone and timedelta sent as a parameter denotes the same calendar moment or duration on the server, to the microsecond and including the zone offset, and every such server value representable in Python is returned as the equal Python object. A timestamp with zone given without a zone is a moment of the client's local time. The special infinite dates and timestamps map to the documented constants in both directions.",
  ["inputs", "configurations"], "the whole Python range of each type, zone offsets on both sides of UTC with minutes, negative and mixed-sign intervals, infinities, session time zones",
  "Round trips of a few samples cannot see an error applied symmetrically on the way in and out (for example an inverted zone sign), nor boundary values.",
  ["postgresql/types/io/stdlib_datetime.py", "postgresql/types/io/lib.py", "postgresql/python/datetime.py"],
  [("datetime pack/unpack", "postgresql/types/io/stdlib_datetime.py"), ("wire time structures", "postgresql/types/io/lib.py"), ("FixedOffset, infinity constants", "postgresql/python/datetime.py")],
  observe=["SELECT ($1::T)::text, extract(epoch from $1::T)", "SELECT $1::text::T"])

p("C09", "UUID, bit, network, geometric, jsonb and hstore values are faithful",
  "Every uuid, bit string, inet/cidr/macaddr address, point, line segment, box, circle, path, polygon, jsonb document and hstore mapping sent as a parameter is seen by the server as the same value, and a server value of these types is returned as the equal Python object. The Python bit-string and geometric value objects compare, convert and render consistently with that value.",
  ["inputs"], "all uuids, all bit strings of any length, addresses with any prefix length, coordinates including infinities, arbitrary JSON documents, hstore maps with empty strings, NULLs and non-ASCII text",
  "Only a few samples per type are round-tripped through the driver itself.",
  ["postgresql/types/bitwise.py", "postgresql/types/geometry.py", "postgresql/types/io/pg_bitwise.py", "postgresql/types/io/pg_geometry.py", "postgresql/types/io/pg_network.py", "postgresql/types/io/stdlib_uuid.py", "postgresql/types/io/stdlib_jsonb.py", "postgresql/types/io/contrib_hstore.py", "postgresql/types/io/lib.py"],
  [("per-type pack/unpack", "postgresql/types/io/lib.py"), ("Varbit/Bit", "postgresql/types/bitwise.py"), ("Point/Lseg/Box/Circle", "postgresql/types/geometry.py")],
  observe=["SELECT ($1::T)::text", "SELECT $1::text::T", "methods of the value objects"])

p("C10", "Arrays, composites and domains carry their elements faithfully",
  "An array of any supported element type, of any dimensions and lower bounds, with NULLs anywhere, and a composite or record value with any supported attribute types, including nesting of each in the other and domains over them, reaches the server with exactly its elements in their positions and returns with equal elements, dimensions, bounds and attribute names. A parameter whose shape does not fit (ragged array, wrong number of attributes) is rejected as a parameter error.",
  ["inputs"], "element types, dimensions 0 to 6, bounds, NULL positions, empty arrays, composites with dropped columns, nested combinations, mapping or sequence arguments",
  "The space of shapes and nestings is combinatorial; the tests fix a few.",
  ["postgresql/types/io/__init__.py", "postgresql/types/io/lib.py", "postgresql/driver/pq3.py", "postgresql/types/__init__.py"],
  [("TypeIO.array_io_factory / record_io_factory / resolve", "postgresql/driver/pq3.py"), ("array_pack/array_unpack, record_pack/record_unpack", "postgresql/types/io/lib.py")],
  observe=["SELECT $1::T", "($1::T)::text", "subscripts and array_dims on the server"])

p("C11", "Array objects behave as the nested sequence they represent",
  "An array object built from nested lists or from a flat element sequence with bounds has the dimensions, bounds, length, element order, nesting, equality and slices of that nested structure; indexing accepts exactly the positions and negative positions of the sequence and raises IndexError otherwise. Rebuilding an array from its own nested form or its elements yields an equal array, and ragged input is rejected.",
  ["inputs"], "all rectangular nested lists of up to several dimensions, all lower bounds, all indices and slices, ragged and mixed-depth input",
  "test_types checks fixed arrays with a few index values.",
  ["postgresql/types/__init__.py"],
  [("Array", "postgresql/types/__init__.py")],
  observe=["Array constructors, accessors and iteration"])

p("C12", "Row objects are consistent sequences and mappings",
  "A row gives the same value by index, by column name and by iteration, in column order; keys, values, items, get, containment, index-from-key and key-from-index agree with each other, and an unknown key or out-of-range index raises KeyError or IndexError (or gives get's default). A transformed row has the same columns, with exactly the designated values replaced by their callables' results and all others unchanged; named-tuple rows carry the same values under the same names.",
  ["inputs"], "any column names (including duplicates and non-identifiers), any values, any index or key, any set of positional and keyword transformations",
  "The tests use two or three fixed rows.",
  ["postgresql/types/__init__.py", "postgresql/types/namedtuple.py"],
  [("Row", "postgresql/types/__init__.py"), ("namedtuple row factory", "postgresql/types/namedtuple.py")],
  observe=["Row methods", "rows returned by statements"])

p("C13", "Unusable parameters are refused and leave the connection usable",
  "When a parameter cannot be converted to its type, or the number of parameters is wrong, the statement is not executed, the caller gets a parameter or type error that identifies the parameter, and the connection, the statement and any open transaction remain usable with their state unchanged. When received data cannot be converted, the caller gets a column error that identifies the column, and the connection remains usable.",
  ["inputs", "histories"], "all combinations of good and bad parameters, at any position, in any execution method, including batches where a later row is bad, inside and outside transactions",
  "The tests check a few wrong values with a fresh statement and do not look at what was executed or at the state left behind.",
  ["postgresql/driver/pq3.py", "postgresql/types/io/lib.py", "postgresql/types/io/__init__.py", "postgresql/python/functools.py"],
  [("_raise_parameter_tuple_error, _raise_column_tuple_error", "postgresql/driver/pq3.py"), ("process_tuple", "postgresql/python/functools.py")],
  observe=["exception class and details", "table contents and statement results afterwards"])

p("C14", "All ways of running a statement give the same result",
  "For any query (the cursor methods: any query the server can run as a cursor), parameters and result size, calling the statement, iterating its rows, its chunks or its first column, taking the first result, declaring a cursor and reading it, and the one-shot query interface all yield the same rows in the same order, complete and without duplicates, with consistent column names and types, however their consumption is interleaved with other operations on the connection. Statements without a result set report the command and the affected row count, and batch loading executes the statement once per given parameter tuple, in order.",
  ["inputs", "histories"], "result sizes around every chunk boundary, column counts, NULLs, several iterators open at once, interleavings with other statements, early abandonment",
  "The tests use a few fixed sizes and rarely interleave open iterators.",
  ["postgresql/driver/pq3.py", "postgresql/protocol/xact3.py", "postgresql/python/functools.py"],
  [("Chunks, FetchAll, SingleXactFetch, MultiXactStream", "postgresql/driver/pq3.py"), ("SingleUseStatement/Query", "postgresql/driver/pq3.py")],
  observe=["results of each execution method"])

p("C15", "Scrollable cursors follow the list-of-rows model",
  "A declared cursor behaves as a position in the list of result rows: reads return the next rows in the effective direction and advance past them, seeks (absolute, relative, from the end) move to the position they name, and reading past either end returns only the rows that exist. Setting the cursor's direction to backward gives exactly the behaviour of a forward cursor over the reversed rows, and iteration yields the remaining rows.",
  ["inputs", "histories"], "all sequences of read, seek, iteration and direction changes with any quantities, positions and direction arguments, over any result size",
  "Cursor state is a product of direction, position and end conditions; the tests walk a few fixed paths.",
  ["postgresql/driver/pq3.py"],
  [("Cursor.read/seek/__next__/direction", "postgresql/driver/pq3.py")],
  state=[("cursor position", "on the server, between rows", "PostgreSQL portal")],
  observe=["rows returned by read and iteration", "results of seek followed by read"])

p("C16", "Transactions and savepoints are atomic and correctly nested",
  "Whatever sequence of nested transaction blocks, explicit start/commit/rollback calls, statements and errors is executed, the data visible afterwards is exactly that of the committed blocks: a block left by an exception is rolled back and the exception propagates, an inner block's failure undoes only that block, and a block left normally is committed. Leaving a block normally while the transaction is in an error state never passes silently: it raises the in-failed-transaction error. Isolation and mode requested for a block are in effect inside it, and misuse (restarting a finished transaction, configuring a nested one) is refused.",
  ["histories", "fault_sequences"], "all trees of nested blocks with statements, database errors, Python exceptions, trapped errors and explicit control calls at any place, with any isolation and mode",
  "test_driver has about a dozen fixed nestings.",
  ["postgresql/driver/pq3.py"],
  [("Transaction", "postgresql/driver/pq3.py")],
  state=[("transaction state and savepoint identity", "initialized/open/committed/aborted", "postgresql/driver/pq3.py")],
  observe=["table contents from a second connection", "exceptions raised", "server transaction status"])

p("C17", "Server errors and messages reach the caller unaltered",
  "Every error the server reports is raised as the exception class of its SQLSTATE (falling back to the class of its first two characters, then to the general error), carrying the server's code, message, severity and details, and rendering it as text always works and shows them; every notice or warning is delivered, with its fields, to the nearest installed message hook and on to the next ones until one accepts it. After any non-fatal error the connection remains usable.",
  ["inputs", "histories"], "all SQLSTATE codes, message texts and detail fields (any Unicode, quotes, newlines), hooks installed at any level with any verdict",
  "The tests raise a few fixed errors and use one or two hook arrangements.",
  ["postgresql/exceptions.py", "postgresql/message.py", "postgresql/driver/pq3.py", "postgresql/python/element.py", "postgresql/sys.py", "postgresql/protocol/element3.py"],
  [("ErrorLookup/WarningLookup", "postgresql/exceptions.py"), ("Message.emit", "postgresql/message.py"), ("error/notice translation", "postgresql/driver/pq3.py"), ("format_element", "postgresql/python/element.py")],
  observe=["raised exceptions, their attributes and str()", "messages seen by hooks"])

p("C18", "COPY through statements moves every row exactly once",
  "Data copied out through a statement arrives complete, in order and byte-exact by every retrieval method, even when the COPY is interrupted by other operations on the connection; data given to a COPY FROM STDIN statement in any row or chunk grouping is loaded exactly once, in order. A COPY that fails part way (bad data, an exception in the caller's iterator, an interrupting operation) loads nothing, raises an error, and leaves the connection usable.",
  ["inputs", "histories", "fault_sequences"], "row contents (text and binary format), sizes around buffer boundaries, groupings into rows and chunks, failure position, interleaved operations",
  "Fixed row sets and groupings; failure positions are not varied.",
  ["postgresql/driver/pq3.py", "postgresql/protocol/xact3.py", "postgresql/protocol/element3.py"],
  [("load_rows/load_chunks, CopyChunks", "postgresql/driver/pq3.py"), ("COPY states of Instruction", "postgresql/protocol/xact3.py")],
  observe=["table contents", "bytes produced", "exceptions"])

p("C19", "Copy manager delivers the producer's data to every live receiver",
  "A copy run to completion delivers exactly the producer's COPY data, in order, once, to every receiver, whatever the chunking of the source and the number and kind of receivers, and its reported row and byte counts equal what was transferred. When a receiver fails it alone is dropped and reported, the others still receive everything, and a receiver that is reconciled after a recoverable failure ends with exactly the complete data. A copy that is abandoned or whose producer fails reports failure, and all connections taking part remain in a well-defined, usable state.",
  ["inputs", "schedules", "fault_sequences"], "row contents and sizes, message boundaries falling anywhere relative to buffer boundaries, receiver counts and kinds, fault points, partial sends, reconciliation or not",
  "Buffer boundaries and partial sends depend on timing and sizes that fixed tests do not control.",
  ["postgresql/copyman.py", "postgresql/port/_optimized/wirestate.c", "postgresql/protocol/client3.py"],
  [("CopyManager, producers and receivers", "postgresql/copyman.py"), ("WireState", "postgresql/copyman.py")],
  state=[("WireState", "how much of the current wire message is still to come", "postgresql/copyman.py")],
  observe=["target table contents", "data given to callable receivers", "ReceiverFault/CopyFail contents", "usability of the connections"])

p("C20", "Every notification is delivered once, in order, with its payload",
  "Each notification committed on a channel a connection listens to is delivered to that connection exactly once, in commit order, with its channel name, payload and sender, whether it arrives during other operations, while waiting, or through a manager of several connections; channels are matched by their exact name and notifications on channels not listened to are never delivered. Idle events occur at about the interval of the manager's timeout and never while the manager holds notifications; a zero timeout drains what is pending on connections without an operation in progress and stops, and a connection that dies is moved to the manager's garbage set without losing events already received (an explicit close may drop those that are still on their way).",
  ["histories", "schedules", "inputs"], "all channel names and payload texts, listen/unlisten/notify sequences over several connections, transactions that commit or roll back, timeouts, connection losses",
  "The tests use one or two fixed channels and payloads.",
  ["postgresql/notifyman.py", "postgresql/driver/pq3.py", "postgresql/lib/libsys.sql"],
  [("NotificationManager", "postgresql/notifyman.py"), ("listen/unlisten/notify/iternotifies", "postgresql/driver/pq3.py")],
  observe=["triples yielded", "listening_channels()", "garbage set"])

p("C21", "The settings mapping mirrors the server's settings",
  "At every moment, reading a setting through the mapping, by name in any case, gives the value the server has in effect as SHOW gives it, whatever changed it (the mapping, SQL SET, transaction rollback or commit, or a settings block); assignment and update take effect on the server with exactly the given text, and unknown settings raise KeyError or give the default. A settings block applies its settings inside and restores the previous values on exit, normal or exceptional, nested to any depth.",
  ["histories", "inputs"], "sequences of mapping writes, SQL SETs, transactions with rollback, nested settings blocks, over reportable and ordinary settings and any values",
  "The tests look at a few settings in fixed orders, without rollbacks between write and read.",
  ["postgresql/driver/pq3.py", "postgresql/lib/libsys.sql"],
  [("Settings", "postgresql/driver/pq3.py"), ("ParameterStatus handling", "postgresql/driver/pq3.py")],
  state=[("settings cache", "values remembered from the server", "postgresql/driver/pq3.py")],
  observe=["settings[k] against SELECT current_setting(k)"])

p("C22", "Advisory locks are held exactly while acquired",
  "An advisory lock object holds the server locks of exactly its identifiers, in its mode, from the first successful acquire until it has been released as many times as acquired; a non-blocking acquire returns True only if all were obtained and otherwise holds none of them. Releasing an unacquired lock raises an error, locked() always tells whether the locks are held, and leaving a with-block releases them.",
  ["histories", "inputs"], "sequences of acquire (blocking or not), release, with-blocks over several lock objects, both modes, one or several sessions, identifiers of both kinds at range limits, duplicates",
  "The tests check a few fixed pairs; re-entrancy and partial failure combinations are not covered.",
  ["postgresql/alock.py", "postgresql/lib/libsys.sql"],
  [("ALock.acquire/release", "postgresql/alock.py"), ("advisory lock symbols", "postgresql/lib/libsys.sql")],
  state=[("acquisition count", "number of unreleased acquires", "postgresql/alock.py")],
  observe=["pg_locks", "attempts from a second session", "locked()"])

p("C23", "Stored procedures return what the function returns",
  "Calling a stored procedure object executes exactly the referenced function with exactly the given arguments and returns what its signature prescribes: the single value, the single composite row, an iterator over all values of a set-returning function, or all rows of a set of composites with the function's column names. Wrong argument counts or types are refused, and a reference to a function that does not exist raises an error.",
  ["inputs"], "function signatures (argument counts and types, overloads, IN/OUT/VARIADIC parameters, scalar, composite, set-returning, void), schema-qualified and quoted names, argument values including NULL",
  "The tests call about ten fixed functions.",
  ["postgresql/driver/pq3.py", "postgresql/lib/libsys.sql"],
  [("StoredProcedure", "postgresql/driver/pq3.py"), ("lookup_procedure symbols", "postgresql/lib/libsys.sql")],
  observe=["results of calls against the same call in SQL"])

p("C24", "The DB-API interface follows PEP 249 over any history",
  "Statements with format or pyformat placeholders execute with each placeholder replaced by its own parameter, leaving quoted text intact and making doubled percent signs outside of it single; fetchone, fetchmany, fetchall and iteration deliver every result row exactly once and in order in any mixture, and description and rowcount describe the last execution. Work is visible to others only after commit, rollback discards everything since the last commit, and autocommit makes each statement permanent at once; using closed cursors or connections raises the interface's errors.",
  ["inputs", "histories"], "queries mixing placeholders with quotes of every kind and percent signs, parameter values, fetch sequences and sizes, commit/rollback/autocommit histories",
  "The standard DB-API test suite checks fixed statements and fetch orders.",
  ["postgresql/driver/dbapi20.py", "postgresql/string.py"],
  [("Cursor._convert_query, Portal", "postgresql/driver/dbapi20.py"), ("Connection commit/rollback/autocommit", "postgresql/driver/dbapi20.py")],
  observe=["rows fetched, description, rowcount", "contents seen by a second connection"])

p("C25", "Server-side statements and cursors live exactly as long as needed",
  "A statement or cursor created by the library exists on the server while its object is referenced and open, and is gone soon after it is closed or garbage collected, without disturbing other operations, even inside transactions or after errors; objects made from identifiers exist until explicitly closed. Using a closed statement, cursor or connection, or one whose connection was lost, raises the documented error, closing is idempotent, and clones are independent of their original.",
  ["histories"], "sequences of prepare, execute, declare, iterate, close, drop references, clone, from-id creation, errors and transactions",
  "The tests check a few closings; leaks and premature closings appear only over histories.",
  ["postgresql/driver/pq3.py"],
  [("Connection._bury/pq garbage queue, weak references", "postgresql/driver/pq3.py"), ("close()", "postgresql/driver/pq3.py")],
  state=[("garbage list", "identifiers awaiting Close", "postgresql/driver/pq3.py")],
  observe=["pg_prepared_statements, pg_cursors", "exceptions", "results of the remaining objects"])

p("C26", "SQL quoting and splitting preserve meaning",
  "Quoting any string as a literal or identifier produces SQL that the server reads back as exactly that string, whatever quotes, backslashes or other characters it holds, and quoted schema-qualified names designate exactly those names. Splitting SQL text separates exactly the quoted portions (single-quoted, escaped, double-quoted and dollar-quoted, any content) from the rest, unsplitting gives back the original text, statement splitting cuts only at unquoted separators, and splitting a qualified identifier returns its parts.",
  ["inputs"], "all strings; all concatenations of quoted and unquoted SQL fragments, including unterminated quotes, newlines and nested quote characters",
  "test_string has a fixed list of literals and statements.",
  ["postgresql/string.py"],
  [("quote_literal, quote_ident, quote_ident_if", "postgresql/string.py"), ("split, unsplit, split_sql, split_ident, split_using", "postgresql/string.py")],
  observe=["return values", "the server's reading of quoted text"])

p("C27", "Connection locators parse and rebuild without loss",
  "Building a locator from connection parameters and parsing it gives back exactly those parameters (user, password, host, port, unix socket path, database, driver parameters, settings and path), whatever characters they contain, and parsing a locator written by the documented grammar gives its components with percent-escapes decoded. The underlying resource-identifier splitting loses nothing: joining the split or parsed form of any string gives an equivalent string, and obscured display never shows the password.",
  ["inputs"], "all parameter values including reserved characters, percent signs, non-ASCII text, IPv6 addresses; all locator strings",
  "test_iri has a fixed table of locators.",
  ["postgresql/iri.py", "postgresql/resolved/riparse.py"],
  [("parse, serialize, structure, construct", "postgresql/iri.py"), ("split, unsplit, parse, construct, serialize", "postgresql/resolved/riparse.py")],
  observe=["return values"])

p("C28", "Password files resolve exactly as documented",
  "For any password file, the password returned for a user, host, port and database is that of the first line whose four fields each equal the wanted value or are a lone asterisk, with backslash-escaped colons and backslashes in fields and passwords read literally, and no password if there is none. Comments, blank lines and malformed lines never match or break the lookup of other lines.",
  ["inputs"], "all line contents with escapes, asterisks, colons, comments, malformed lines, in any order; all lookups",
  "test_pgpassfile has one fixed file.",
  ["postgresql/pgpassfile.py"],
  [("parse, split, lookup_password", "postgresql/pgpassfile.py")],
  observe=["lookup result against an independent reading of the documented format"])

p("C29", "Client parameters are collected with the documented precedence",
  "Collecting client parameters yields, for each parameter, the value of the highest-precedence source that gives it: built-in defaults, then base parameters, then environment variables, then command-line options and locators in the order given, with settings merged per setting and service-file entries contributing what the named service defines. Each documented environment variable and option maps to its documented parameter, and password resolution prompts or consults the password file exactly as directed, removing the resolution hints afterwards.",
  ["inputs", "configurations"], "all subsets and values of environment variables, options, base parameters, service files and locators",
  "The tests check single sources; combinations are exponential.",
  ["postgresql/clientparameters.py", "postgresql/iri.py", "postgresql/pgpassfile.py", "postgresql/__init__.py"],
  [("defaults, envvars, extrapolate, normalize, collect, resolve_password", "postgresql/clientparameters.py")],
  observe=["the collected dictionary"])

p("C30", "Editing a configuration file changes exactly the given settings",
  "After altering a configuration file, reading it gives every altered setting its new value (whatever characters it holds), every removed setting is absent, and all other settings, comments and lines are unchanged; the file has one effective line per altered setting, and reapplying the same alteration changes nothing. Reading agrees with the server's own interpretation of name = value lines, quoted values and comments, and the mapping and command-line interfaces to the file do the same.",
  ["inputs", "histories"], "all files of settings, comments, duplicates, odd spacing and quoting, without final newline; all alterations and sequences of them",
  "test_configfile has a fixed set of snippets.",
  ["postgresql/configfile.py", "postgresql/bin/pg_dotconf.py"],
  [("parse_line, alter_config, read_config, ConfigFile", "postgresql/configfile.py"), ("command", "postgresql/bin/pg_dotconf.py")],
  observe=["file contents", "read_config results"])

p("C31", "SQL libraries define and bind exactly the written symbols",
  "Parsing a library file yields exactly its symbols, each with the name, type, execution method, documentation and SQL text written under its header, references expanded to the referenced text and the preface kept apart, whatever the SQL contains. A bound symbol executes that SQL with its declared method on its connection, caching or re-preparing according to its type, and unknown symbols, types or methods are refused.",
  ["inputs"], "all library files built from headers of every type and method, comments, references, blank lines and SQL bodies",
  "test_lib has one fixed library.",
  ["postgresql/lib/__init__.py"],
  [("ILF.from_lines", "postgresql/lib/__init__.py"), ("Binding, BoundSymbol, BoundReference, Category", "postgresql/lib/__init__.py")],
  observe=["symbol attributes", "results of bound symbols"])

p("C32", "Cluster control reflects and contains the server's lifecycle",
  "Through any sequence of initialize, start, stop, shutdown, kill, restart, reload and drop, the cluster object's account of itself (initialized, running, ready for connections, process identity) agrees with the actual server process and data directory, waiting operations return when the awaited state is reached and raise a timeout error otherwise, and settings given to start or written to the configuration are in effect. Dropping a cluster stops its server and removes its whole data directory and nothing outside it.",
  ["histories", "fault_sequences"], "sequences of control operations, with the server killed or files removed from outside, links inside the data directory, repeated and premature calls",
  "test_cluster runs one fixed start/stop sequence.",
  ["postgresql/cluster.py", "postgresql/configfile.py", "postgresql/temporal.py"],
  [("Cluster", "postgresql/cluster.py")],
  state=[("daemon_process, postmaster.pid", "the server process", "postgresql/cluster.py")],
  observe=["process table, data directory, connections", "method results"])

p("C33", "Version strings and installation information are read correctly",
  "Every version string PostgreSQL releases use (development, alpha, beta, rc, two- and three-part) is split into its components, normalizes to a tuple that orders as the releases do (state classes ranked by the listed priority), and is rebuilt to an equivalent string. Installation information parsed from configure options and pg_config output gives each option its exact value, whatever quoting, spaces or equals signs it contains, and flags as true.",
  ["inputs"], "all version strings of the released forms; all option lists with quoting",
  "Fixed samples only.",
  ["postgresql/versionstring.py", "postgresql/installation.py", "postgresql/string.py"],
  [("split, unsplit, normalize", "postgresql/versionstring.py"), ("parse_configure_options, pg_config_dictionary, Installation", "postgresql/installation.py")],
  observe=["return values"])

p("C34", "Binary images of values are exact for every server format",
  "For every type with binary support, the bytes sent for a value are exactly PostgreSQL's binary image of that value in the format the connected server uses (integer or floating-point date-times, intervals with or without a day field, chosen from the server's version and integer_datetimes setting), and reading any valid image gives exactly the value it stands for. The pack and unpack routines of types.io agree with those images and are inverse to one another, and an image of a fixed-length type, record, array or hstore that was cut short is refused with an error that leaves the connection usable, never read as some other value.",
  ["inputs", "configurations"], "all values of all types with binary support; servers from 7.4 on with either time format or none reported; images cut at every point",
  "Tests run against one server, with one format, and sample a handful of images; formats of older servers and damaged images never occur.",
  ["postgresql/types/io/lib.py", "postgresql/types/io/stdlib_datetime.py", "postgresql/types/io/contrib_hstore.py", "postgresql/python/structlib.py"],
  [("*_pack, *_unpack, record_unpack, array_unpack", "postgresql/types/io/lib.py"), ("select_format, select_day_format, id_to_io", "postgresql/types/io/stdlib_datetime.py")],
  observe=["bound parameters seen by a scripted server", "values read from scripted rows", "errors for damaged images"])

p("C35", "Any object can be described at any time, without effect",
  "Every element of the library - connections, connectors, statements, cursors, transactions, procedures, copy managers, clusters, installations, configuration files, libraries, exceptions and messages - can be described (str(), repr(), python.element.format_element and prime_factors) in every state of its life, also while busy, failed, closed or lost: no description raises, changes the object, the connection's protocol state or what the server is asked, or shows the password; and what it tells - states, SQL, the place of an error in the statement, the reason of every failed connection attempt, the connector's locator - is true of the object then.",
  ["inputs", "histories", "faults"], "all histories of a connection and its objects, with every object described after every operation; all causes of failing to connect; all arrangements of elements",
  "Descriptions are built in error handling and debugging, over objects in states that tests rarely leave them in; tests describe a few objects in their usual state.",
  ["postgresql/python/element.py", "postgresql/driver/pq3.py", "postgresql/copyman.py", "postgresql/cluster.py", "postgresql/configfile.py", "postgresql/exceptions.py", "postgresql/message.py"],
  [("format_element, prime_factors", "postgresql/python/element.py"), ("_e_metas, __repr__, Connector._pq_iri", "postgresql/driver/pq3.py"), ("_e_metas", "postgresql/copyman.py")],
  observe=["the description text", "the server's log of queries of the same history with and without descriptions"])
p("C36", "The Python commands run exactly the given code",
  "pg_python and postgresql.python.command run every context in order and then exactly one main (command, module, script, standard input or console) as one __main__ program, as Python itself would: same output, tracebacks, sys.argv, and exit status; afterwards sys.argv, __main__ and the process' environment are as before, and the post-mortem function has run exactly when main failed. The console behaves as the standard one for every line that is not a backslash command, and backslash commands do what their help says in the console's own namespace. pg_python connects to the location its options name, offers db, prepare, proc, xact, settings, do, sqlexec and the bound libraries, and ends the connection whatever ends the program, uncommitted work undone.",
  ["inputs", "histories"], "all combinations of contexts, main programs that end, fail or exit anywhere, arguments, and sequences of console lines and commands; all options locating the server",
  "Tests run one or two tiny programs; the relations between contexts, exits, encodings and restored state need many combinations.",
  ["postgresql/python/command.py", "postgresql/bin/pg_python.py"],
  [("Execution._call, Execution.__call__, ExtendedConsole.push, postmortem, single_loader, file_loader", "postgresql/python/command.py"), ("command", "postgresql/bin/pg_python.py")],
  observe=["standard output and error", "exit status", "sys.argv, sys.modules['__main__'] and the environment of the process afterwards", "rows left in the database"])

p("C37", "Interrupted and cancelled operations leave the connection in step",
  "An operation broken off at any call on the socket by an exception of the application's (KeyboardInterrupt), or ended by interrupt(), happened once or not at all, whole as its unit of atomicity is (a statement, a chunk of a load, a COPY, a transaction); the chunks of a result come complete when they are asked for again; transient conditions of the socket are not noticed; interrupt() ends the operation in progress with QueryCanceledError and, without one, affects none. Every other operation before and after has its own effect and results, no error belongs to another operation than the broken off one, notifications are neither lost nor doubled, and settings are as the server has them.",
  ["inputs", "histories", "schedules", "faults"], "all programs of operations on a connection, interruptions at any of its socket calls, any sizes of the transfers, and any places of the requests to cancel",
  "Tests never interrupt an operation; each of the protocol's and the driver's states can be the one that is left behind.",
  ["postgresql/protocol/client3.py", "postgresql/protocol/xact3.py", "postgresql/driver/pq3.py"],
  [("step, complete, send_message_data, read_into, interrupt", "postgresql/protocol/client3.py"), ("_pq_push, _pq_complete, FetchAll, MultiXactStream, _load_copy_chunks, _load_tuple_chunks, Transaction", "postgresql/driver/pq3.py")],
  observe=["results and errors of every operation", "the tables, by another connection", "notifications", "settings"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
