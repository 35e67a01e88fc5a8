TECH = {
 'C01': 'generated messages of every class against an independent encoder; truncated and extended bodies',
 'C02': 'model-based histories of writes and reads on the stream buffers, against the stream itself',
 'C03': 'differential testing of the C extension against the pure form, and fuzzing under AddressSanitizer and UBSan',
 'C04': 'model-based exchanges against a scripted backend, with faults at any octet and cuts anywhere',
 'C05': 'generated connection scripts (credentials, SSL, faults) over real sockets against a model of the negotiation',
 'C06': 'round trips of generated values through a real server, against an independent client',
 'C07': 'round trips of generated text through a real server in every encoding, against independent codecs',
 'C08': 'round trips of generated moments through a real server, against integer arithmetic and the server\'s text',
 'C09': 'round trips of generated values and reference models of the value objects',
 'C10': 'generated types and values through a real server, against an independent client',
 'C11': 'generated nested sequences against the list model',
 'C12': 'generated rows against the list-of-pairs model',
 'C13': 'generated unusable parameters and columns, against the table of executions kept by the server',
 'C14': 'differential testing of all execution methods, and model-based histories of interleaved iterators',
 'C15': 'model-based histories of cursor operations against a position in a list, and a metamorphic relation of directions',
 'C16': 'generated transaction programs against a model of savepoints, observed by another session',
 'C17': 'generated errors and messages, also altered on the wire by a proxy, against the fields on the wire',
 'C18': 'generated COPY operations with interruptions and failures at any place, against an independent client',
 'C19': 'generated copies with injected faults against an independent client and the state of the connections',
 'C20': 'model-based histories of notifications over two connections, and events injected on the wire',
 'C21': 'model-based histories of settings against SHOW after every step',
 'C22': 'model-based concurrent histories of locks against pg_locks',
 'C23': 'generated functions and calls against the same call in SQL',
 'C24': 'composed statements with a row computed alongside, and model-based histories of connections',
 'C25': 'model-based histories of object lifetimes against pg_prepared_statements and pg_cursors',
 'C26': 'generated SQL text against an independent reference lexer and the server\'s own reading',
 'C27': 'round trips of generated locators and parameters against an independent writer of the grammar',
 'C28': 'generated password files against an independent reader',
 'C29': 'generated combinations of sources against the documented tables of precedence',
 'C30': 'generated configuration files and alterations against an independent reader and the server\'s own',
 'C31': 'generated library files against the structure they were written from',
 'C32': 'model-based histories of cluster control with outside events, against the process table and directories',
 'C33': 'generated version strings and option lists against their components',
 'C34': 'generated values against images computed by independent formulas, through a scripted server of any version; truncation of images',
 'C35': 'generated histories in which every object is described after every operation, against what is known of each and against the same history without descriptions; generated failures, erroneous statements, connectors and arrangements of elements',
 'C36': "generated programs run by the library and by exec() or the standard library's console (differential), and by the pg_python process against a live server",
 'C37': 'model-based programs of operations with interruptions injected at generated socket calls, and cancellation requests placed by the state of the server, against a live server',
}
LEVEL = {}
