From dc2b3f41796844a7d2bda7ebca1c51180aa8aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 01/49] fix: string.split: terminate quotations exactly as the
 server does

Dollar quotes could not span lines, overlapping closing quotes were taken for
terminators, e'' was not an escape string, and a dollar sign or an E inside of
an identifier started a quotation.
---
 postgresql/string.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 53799d3..3f80904 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -49,11 +49,11 @@ def quote_ident_if_needed(text):
 	"""
 	return quote_ident(text) if needs_quoting(text) else text
 
-quote_re = re.compile(r"""(?xu)
-	E'(?:''|\\.|[^'])*(?:'|$)          (?# Backslash escapes E'str')
-|	'(?:''|[^'])*(?:'|$)               (?# Regular literals 'str')
-|	"(?:""|[^"])*(?:"|$)               (?# Identifiers "str")
-|	(\$(?:[^0-9$]\w*)?\$).*?(?:\1|$)   (?# Dollar quotes $$str$$)
+quote_re = re.compile(r"""(?xus)
+	(?<![\w$\x80-\U0010ffff])[Ee]'(?:''|\\.|[^'])*(?:'|(\Z))  (?# Backslash escapes E'str')
+|	'(?:''|[^'])*(?:'|(\Z))           (?# Regular literals 'str')
+|	"(?:""|[^"])*(?:"|(\Z))           (?# Identifiers "str")
+|	(?<![\w$\x80-\U0010ffff])(\$(?:[^\W\d]\w*)?\$).*?(?:\4|(\Z))  (?# Dollar quotes $$str$$)
 """)
 
 def split(text):
@@ -82,26 +82,22 @@ def split(text):
 	while match is not None:
 		# text preceding the quotation
 		yield text[lastend:match.start()]
-		# the dollar quote, if any
-		dq = match.groups()[0]
+		# the dollar quote, if any, and the ends of the unterminated quotations
+		*unterminated, dq, dq_unterminated = match.groups()
+		unterminated.append(dq_unterminated)
 		if dq is not None:
 			endoff = len(dq)
 			quote = dq
-			end = quote
 		else:
 			endoff = 1
 			q = text[match.start()]
-			if q == 'E':
-				quote = "E'"
-				end = "'"
+			if q in 'Ee':
+				quote = q + "'"
 			else:
-				end = quote = q
+				quote = q
 
-		# If the end is not the expected quote, it consumed
-		# the end. Be sure to check that the match's end - end offset
-		# is *not* the start, ie an empty quotation at the end of the string.
-		if text[match.end()-endoff:match.end()] != end \
-		or match.end() - endoff == match.start():
+		# If the quotation was not terminated, it consumed the end.
+		if any(x is not None for x in unterminated):
 			yield (quote, text[match.start()+len(quote):])
 			break
 		else:
@@ -127,7 +123,7 @@ def unsplit(splitted_iter):
 		try:
 			q, qtext = next(i)
 			s += q + qtext
-			if q == "E'":
+			if q in ("E'", "e'"):
 				endq = "'"
 			else:
 				endq = q
-- 
2.43.0


From f3cc9cf6d61728e48eb5128a6a256733f01ed47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 02/49] fix: string: separators longer than a character,
 unterminated and mixed-case identifiers

---
 postgresql/string.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 3f80904..229dd44 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -47,7 +47,8 @@ def quote_ident_if_needed(text):
 	If needed, replace every instance of '"' with '""' *and* place '"' on each end.
 	Otherwise, just return the text.
 	"""
-	return quote_ident(text) if needs_quoting(text) else text
+	# The server folds unquoted identifiers to lower case.
+	return quote_ident(text) if needs_quoting(text) or text != text.lower() else text
 
 quote_re = re.compile(r"""(?xus)
 	(?<![\w$\x80-\U0010ffff])[Ee]'(?:''|\\.|[^'])*(?:'|(\Z))  (?# Backslash escapes E'str')
@@ -183,7 +184,7 @@ def split_using(text, quote, sep = '.', maxsplit = -1):
 				break
 
 			l.append(text[offset:nextsep])
-			offset = nextsep + 1
+			offset = nextsep + len(sep)
 	l.append(text[offset:])
 	return l
 
@@ -195,7 +196,8 @@ def split_ident(text, sep = ',', quote = '"', maxsplit = -1):
 	for x in split_using(text, quote, sep = sep, maxsplit = maxsplit):
 		x = x.strip()
 		if x.startswith('"'):
-			if not x.endswith('"'):
+			if len(x) < 2 or not x.endswith('"') \
+			or '"' in x[1:-1].replace('""', ''):
 				raise ValueError(
 					"unterminated identifier quotation", x
 				)
-- 
2.43.0


From 4211e569dc055cf2dd635996b9cce8a345783158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 03/49] fix: iri: rebuild and parse locators without losing
 escaped characters

Path components, unix socket paths and bracketed addresses were not escaped
and unescaped symmetrically, a path without a database became the database,
and the search_path of a sequence of settings was dropped.
---
 postgresql/iri.py              | 47 ++++++++++++++++++++--------------
 postgresql/resolved/riparse.py | 13 +++++++---
 2 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 7a90aee..655b87f 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -25,6 +25,7 @@ del itemgetter
 
 import re
 escape_path_re = re.compile('[%s]' %(re.escape(ri.unescaped + ','),))
+escape_unix_re = re.compile('[%s]' %(re.escape(ri.unescaped + ':@?#]'),))
 
 def structure(d, fieldproc = ri.unescape):
 	"""
@@ -46,19 +47,19 @@ def structure(d, fieldproc = ri.unescape):
 		if host.startswith('[') and host.endswith(']'):
 			host = host[1:-1]
 			if host.startswith('unix:'):
-				cpd['unix'] = host[len('unix:'):].replace(':','/')
+				cpd['unix'] = fieldproc(host[len('unix:'):].replace(':','/'))
 			else:
-				cpd['host'] = host
+				cpd['host'] = fieldproc(host)
 		else:
 			cpd['host'] = fieldproc(host)
 
 	if path:
 		# Only state the database field's existence if the first path is non-empty.
 		if path[0]:
-			cpd['database'] = path[0]
+			cpd['database'] = fieldproc(path[0])
 		path = path[1:]
 		if path:
-			cpd['path'] = path
+			cpd['path'] = [fieldproc(x) for x in path]
 
 	settings = {}
 	if query:
@@ -106,8 +107,8 @@ def construct(x, obscure_password = False):
 			search_path = settings.get('search_path')
 		else:
 			siter = list(settings)
-			search_path = [(k,v) for k,v in siter if k == 'search_path']
-			search_path.append((None,None))
+			search_path = [(None,None)]
+			search_path.extend([(k,v) for k,v in siter if k == 'search_path'])
 			search_path = search_path[-1][1]
 		no_path_settings = [(k,v) for k,v in siter if k != 'search_path']
 		if not no_path_settings:
@@ -118,8 +119,13 @@ def construct(x, obscure_password = False):
 		search_path = split_ident(search_path, sep = ',')
 
 	port = None
+	unix = ''
 	if 'unix' in x:
-		host = '[unix:' + x['unix'].replace('/',':') + ']'
+		# The address is escaped here as ':' stands for the path separator.
+		host = None
+		unix = '[unix:' + ':'.join([
+			escape_unix_re.sub(ri.re_pct_encode, y) for y in x['unix'].split('/')
+		]) + ']'
 		# ignore port.. it's a mis-config.
 	elif 'host' in x:
 		host = x['host']
@@ -130,15 +136,23 @@ def construct(x, obscure_password = False):
 		host = None
 		port = x.get('port')
 
+	password = x.get('password')
+	if obscure_password and password is not None:
+		password = '***'
+	netloc = ri.unsplit_netloc((
+		x.get('user'),
+		password,
+		host,
+		None if 'port' not in x else str(x['port'])
+	))
+
 	path = []
 	if 'database' in x:
 		path.append(x['database'])
-	if 'path' in x:
-		path.extend(x['path'] or ())
+	if x.get('path'):
+		# The first component always designates the database.
+		path = (path or ['']) + list(x['path'])
 
-	password = x.get('password')
-	if obscure_password and password is not None:
-		password = '***'
 	driver_params = list({
 		'[' + k + ']' : str(v) for k,v in x.items()
 		if k not in (
@@ -151,14 +165,9 @@ def construct(x, obscure_password = False):
 	return (
 		'pqs' if x.get('ssl', False) is True else 'pq',
 		# netloc: user:pass@host[:port]
-		ri.unsplit_netloc((
-			x.get('user'),
-			password,
-			host,
-			None if 'port' not in x else str(x['port'])
-		)),
+		netloc if not unix else (netloc or '') + unix,
 		None if not path else '/'.join([
-			ri.escape_path_re.sub(path_comp, '/')
+			ri.escape_path_re.sub(ri.re_pct_encode, path_comp)
 			for path_comp in path
 		]),
 		(ri.construct_query(driver_params) if driver_params else None)
diff --git a/postgresql/resolved/riparse.py b/postgresql/resolved/riparse.py
index f91a261..b4fcf21 100644
--- a/postgresql/resolved/riparse.py
+++ b/postgresql/resolved/riparse.py
@@ -47,8 +47,9 @@ percent_escapes_re = re.compile('(%[0-9a-fA-F]{2,2})+')
 escape_re = re.compile('[%s]' %(re.escape(unescaped),))
 escape_user_re = re.compile('[%s]' %(re.escape(unescaped + ':@/?#'),))
 escape_password_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
-escape_host_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
-escape_port_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
+escape_host_re = re.compile('[%s]' %(re.escape(unescaped + ':@/?#['),))
+escape_addr_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#]'),))
+escape_port_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
 escape_path_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
 escape_query_key_re = re.compile('[%s]' %(re.escape(unescaped + '&=#'),))
 escape_query_value_re = re.compile('[%s]' %(re.escape(unescaped + '&#'),))
@@ -246,7 +247,7 @@ def split_netloc(netloc, fieldproc = unescape):
 		if next_pos == -1:
 			# unterminated IPvN block
 			next_pos = len(netloc) - 1
-		addr = netloc[pos:next_pos+1]
+		addr = fieldproc(netloc[pos:next_pos+1])
 		pos = next_pos + 1
 		next_pos = netloc.find(':', pos)
 		if next_pos == -1:
@@ -279,7 +280,11 @@ def unsplit_netloc(t):
 		s += '@'
 
 	if t[2] is not None:
-		s += escape_host_re.sub(re_pct_encode, t[2])
+		if t[2].startswith('[') and t[2].endswith(']'):
+			# IPvN addr
+			s += '[' + escape_addr_re.sub(re_pct_encode, t[2][1:-1]) + ']'
+		else:
+			s += escape_host_re.sub(re_pct_encode, t[2])
 		if t[3] is not None:
 			s += ':'
 			s += escape_port_re.sub(re_pct_encode, t[3])
-- 
2.43.0


From 959e2f9fc250682acf13bf0c5ab8e32f2510b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 04/49] fix: pgpassfile: read lines as libpq does

Comments matched lookups, surrounding space was taken from passwords, and an
escaped backslash before a colon or after one was misread.
---
 postgresql/pgpassfile.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/postgresql/pgpassfile.py b/postgresql/pgpassfile.py
index ee0ae73..5efaacb 100644
--- a/postgresql/pgpassfile.py
+++ b/postgresql/pgpassfile.py
@@ -7,25 +7,20 @@ Parse pgpass files and subsequently lookup a password.
 import os.path
 
 def split(line, len = len):
-	line = line.strip()
-	if not line:
+	line = line.rstrip('\r\n')
+	if not line or line.startswith('#'):
 		return None
-	r = []
-	continuation = False
-	for x in line.split(':'):
-		if continuation:
-			# The colon was preceded by a backslash, it's part
-			# of the last field. Substitute the trailing backslash
-			# with the colon and append the next value.
-			r[-1] = r[-1][:-1] + ':' + x.replace('\\\\', '\\')
-			continuation = False
-		else:
-			# Even number of backslashes preceded the split.
-			# Normal field.
-			r.append(x.replace('\\\\', '\\'))
-		# Determine if the next field is a continuation of this one.
-		if (len(x) - len(x.rstrip('\\'))) % 2 == 1:
-			continuation = True
+	r = ['']
+	chars = iter(line)
+	for c in chars:
+		if c == ':':
+			r.append('')
+			continue
+		if c == '\\':
+			# Only separators and backslashes are escaped.
+			n = next(chars, '')
+			c = n if n == ':' or n == '\\' else c + n
+		r[-1] += c
 	if len(r) != 5:
 		# Too few or too many fields.
 		return None
-- 
2.43.0


From 881fa36d034965a9a70c55e6d6665bab2c0e4281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 05/49] fix: configfile: values with backslashes and newlines,
 qualified names, removal, empty files and the context manager

Also makes postgresql.bin.pg_dotconf importable (there was no __version__) and its -f option usable.
---
 postgresql/__init__.py       |  4 +---
 postgresql/bin/pg_dotconf.py |  4 ++--
 postgresql/configfile.py     | 45 +++++++++++++++++++++++++-----------
 3 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/postgresql/__init__.py b/postgresql/__init__.py
index 60ce8e5..ec05734 100644
--- a/postgresql/__init__.py
+++ b/postgresql/__init__.py
@@ -11,7 +11,6 @@ for information about Python.
 """
 __all__ = [
 	'__author__',
-	'__date__',
 	'__version__',
 	'__docformat__',
 	'version',
@@ -27,8 +26,7 @@ version_info = () # overridden by subsequent import from .project.
 
 # Optional.
 try:
-	from .project import version_info, version, \
-		author as __author__, date as __date__
+	from .project import version_info, version, meaculpa as __author__
 	__version__ = version
 except ImportError:
 	pass
diff --git a/postgresql/bin/pg_dotconf.py b/postgresql/bin/pg_dotconf.py
index 31306e9..06599a6 100644
--- a/postgresql/bin/pg_dotconf.py
+++ b/postgresql/bin/pg_dotconf.py
@@ -39,8 +39,8 @@ def command(args):
 			for line in sf:
 				pl = configfile.parse_line(line)
 				if pl is not None:
-					if comment not in line[pl[0].start]:
-						settings[line[pl[0]]] = unquote(line[pl[1]])
+					if configfile.comment not in line[:pl[0].start]:
+						settings[line[pl[0]]] = configfile.unquote(line[pl[1]])
 
 	prev = None
 	for p in ca[1:]:
diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 2f94f0e..d751323 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -6,11 +6,13 @@ PostgreSQL configuration file parser and editor functions.
 """
 import sys
 import os
+import re
 from . import string as pg_str
 from . import api as pg_api
 
 quote = "'"
 comment = '#'
+backslash_escapes = {'b' : '\b', 'f' : '\f', 'n' : '\n', 'r' : '\r', 't' : '\t'}
 
 def parse_line(line, equality = '=', comment = comment, quote = quote):
 	keyval = line.split(equality, 1)
@@ -25,7 +27,7 @@ def parse_line(line, equality = '=', comment = comment, quote = quote):
 
 		key_len = 0
 		for c in key[prekey_len:]:
-			if not (c.isalpha() or c.isdigit() or c in '_'):
+			if not (c.isalpha() or c.isdigit() or c in '_.'):
 				break
 			key_len += 1
 
@@ -42,10 +44,15 @@ def parse_line(line, equality = '=', comment = comment, quote = quote):
 
 		inquotes = False
 		escaped = False
+		backslashed = False
 		val_len = 0
 		for i in range(preval_len, len(val)):
 			c = val[i]
-			if c == quote:
+			if backslashed is True:
+				backslashed = False
+			elif inquotes is True and c == '\\':
+				backslashed = True
+			elif c == quote:
 				if inquotes is False:
 					inquotes = True
 				else:
@@ -75,7 +82,20 @@ def unquote(s, quote = quote):
 	s = s.strip()
 	if not s.startswith(quote):
 		return s
-	return s[1:-1].replace(quote*2, quote)
+	return re.sub(
+		re.escape(quote*2) + r'|\\([0-7]{1,3}|.)',
+		lambda m: quote if m.group(1) is None else (
+			chr(int(m.group(1), 8) & 0xff) if m.group(1)[0] in '01234567'
+			else backslash_escapes.get(m.group(1), m.group(1))
+		), s[1:-1]
+	)
+
+def quote_value(s, quote = quote):
+	"""
+	Quote the string `s` so that it can be the value of a line.
+	"""
+	s = s.replace('\\', '\\\\').replace(quote, quote*2)
+	return quote + s.replace('\n', '\\n').replace('\r', '\\r') + quote
 
 def write_config(map, writer, keys = None):
 	"""
@@ -124,9 +144,9 @@ def alter_config(map, fo, keys = None):
 			val = map[key]
 			# Can't comment without an uncommented candidate.
 			if val is not None:
-				if not lines[-1].endswith(os.linesep):
+				if lines and not lines[-1].endswith(os.linesep):
 					lines[-1] = lines[-1] + os.linesep
-				lines.append("%s = '%s'" %(key, val.replace("'", "''")))
+				lines.append("%s = %s" %(key, quote_value(val)))
 
 	# Multiple lines may have the key, so make a decision based on the value.
 	for ck in candidates.keys():
@@ -195,7 +215,7 @@ def alter_config(map, fo, keys = None):
 			# way to set something without delving into setting types.
 			lines[line_num] = \
 				bol + l[sk.start:sv.start] + \
-				"'%s'" %(to_set_val.replace("'", "''"),) + post_val
+				quote_value(to_set_val) + post_val
 	return lines
 
 def read_config(iter, d = None, selector = None):
@@ -227,7 +247,7 @@ class ConfigFile(pg_api.Settings):
 		self.path = path
 		self._open = open
 		self._store = []
-		self._restore = {}
+		self._restore = []
 
 	def __repr__(self):
 		return "%s.%s(%r)" %(
@@ -244,7 +264,7 @@ class ConfigFile(pg_api.Settings):
 	def __delitem__(self, k):
 		with self._open(self.path) as cf:
 			lines = alter_config({k : None}, cf)
-		self._save()
+		self._save(lines)
 
 	def __getitem__(self, k):
 		with self._open(self.path) as cfo:
@@ -258,12 +278,13 @@ class ConfigFile(pg_api.Settings):
 
 	def __call__(self, **kw):
 		self._store.insert(0, kw)
+		return self
 
 	def __context__(self):
 		return self
 
 	def __iter__(self):
-		return self.keys()
+		return iter(self.keys())
 
 	def __len__(self):
 		return len(list(self.keys()))
@@ -275,11 +296,7 @@ class ConfigFile(pg_api.Settings):
 		self._restore.append(res)
 
 	def __exit__(self, exc, val, tb):
-		self._restored.update(self._restore[-1])
-		del self._restore[-1]
-		self.update(self._restored)
-		self._restored.clear()
-		return exc is None
+		self.update(self._restore.pop())
 
 	def get(self, k, alt = None):
 		with self._open(self.path) as cf:
-- 
2.43.0


From 4f1898dc801cee0f99725d1793775f727d87a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 06/49] fix: read packagers' version strings, rebuild stateless
 levels, and keep configure option values whole

---
 postgresql/installation.py  | 15 ++++++++++-----
 postgresql/versionstring.py |  5 +++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/postgresql/installation.py b/postgresql/installation.py
index 5856816..ff6b1c2 100644
--- a/postgresql/installation.py
+++ b/postgresql/installation.py
@@ -83,7 +83,7 @@ def pg_config_dictionary(*pg_config_path, encoding='utf-8', timeout=8):
 ##
 # Build a key-value pair list of the configure options.
 # If the item is quoted, mind the quotes.
-def parse_configure_options(confopt, quotes = '\'"', dash_and_quotes = '-\'"'):
+def parse_configure_options(confopt, quotes = '\'"'):
 	# This is not a robust solution, but it will usually work.
 	# Chances are that there is a quote at the beginning of this string.
 	# However, in the windows pg_config.exe, this appears to be absent.
@@ -99,17 +99,22 @@ def parse_configure_options(confopt, quotes = '\'"', dash_and_quotes = '-\'"'):
 	##
 	# This is using the wrong kind of split, but the pg_config
 	# output has been consistent enough for this to work.
-	parts = pg_str.split_using(confopt, quote, sep = ' ')
 	qq = quote * 2
+	# configure uses the shell's way of placing a quote inside of quotes.
+	confopt = confopt.replace(quote + '\\' + qq, qq)
+	parts = pg_str.split_using(confopt, quote, sep = ' ')
 	for x in parts:
+		# remove the quotes around the option.
+		if len(x) > 1 and x[0] in quotes and x[-1] == x[0]:
+			x = x[1:-1]
 		if qq in x:
 			# singularize the quotes
 			x = x.replace(qq, quote)
-		# remove the quotes around '--' from option.
+		# remove the '--' from option.
 		# if it splits once, the '1' index will
 		# be `True`, indicating that the flag was given, but
 		# was not given a value.
-		kv = x.strip(dash_and_quotes).split('=', 1) + [True]
+		kv = x.lstrip('-').split('=', 1) + [True]
 		key = kv[0].replace('-','_')
 		# Ignore empty keys.
 		if key:
@@ -209,7 +214,7 @@ class Installation(pg_api.Installation):
 		"""
 		self.info = info
 		self.version = self.info["version"]
-		self.type, vs = self.version.split()
+		self.type, vs = self.version.split(None, 1)
 		self.version_info = versionstring.normalize(versionstring.split(vs))
 		self.configure_options = dict(
 			parse_configure_options(self.info.get('configure', ''))
diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 04c065a..773a22c 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -13,7 +13,8 @@ def split(vstr: str) -> tuple:
 	Split a PostgreSQL version string into a tuple.
 	(major, minor, patch, ..., state_class, state_level)
 	"""
-	v = vstr.strip().split('.')
+	# Packagers may append information: "16.1 (Debian 16.1-1)"
+	v = vstr.strip().split(None, 1)[0].split('.')
 
 	# Get rid of the numbers around the state_class (beta,a,dev,alpha, etc)
 	state_class = v[-1].strip('0123456789')
@@ -42,7 +43,7 @@ def unsplit(vtup: tuple) -> str:
 	"""
 	svtup = [str(x) for x in vtup[:-2] if x is not None]
 	state_class, state_level = vtup[-2:]
-	return '.'.join(svtup) + ('' if state_class is None else state_class + str(state_level))
+	return '.'.join(svtup) + ('' if state_class is None else state_class) + ('' if state_level is None else str(state_level))
 
 def normalize(split_version: tuple) -> tuple:
 	"""
-- 
2.43.0


From cd0411068145db2de8d8357da2b40b58b2aadd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 07/49] fix: clientparameters: apply the settings' environment
 variables, PGREQUIRESSL and prompt titles

The settings given by PGTZ, PGDATESTYLE, PGCLIENTENCODING and PGGEQO were
collected and dropped, PGREQUIRESSL produced a tuple, a given prompt title was
ignored, and a password file could not be used with a unix socket.
---
 postgresql/clientparameters.py | 15 ++++++++-------
 postgresql/pgpassfile.py       |  4 +++-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 5540976..f32f3c6 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -189,7 +189,7 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	reqssl = modifier('REQUIRESSL')
 	if reqssl in environ:
 		if environ[reqssl].strip() == '1':
-			yield ('sslmode',), ('require', reqssl + '=1')
+			yield ('sslmode',), 'require'
 
 	for k, v in default_envvar_map.items():
 		k = modifier(k)
@@ -201,9 +201,9 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	envvar_settings_map = ((
 		(modifier(k), v) for k,v in default_envvar_settings_map.items()
 	))
-	settings = [
-		(('settings', v,), environ[k]) for k, v in envvar_settings_map if k in environ
-	]
+	for k, v in envvar_settings_map:
+		if k in environ:
+			yield (('settings', v,), environ[k])
 
 	# PGSYSCONFDIR based
 	if pg_sysconfdir_envvar in environ:
@@ -281,7 +281,7 @@ def append_settings(option, opt_str, value, parser):
 	"""
 	kv = value.split('=', 1)
 	if len(kv) != 2:
-		raise OptionValueError("invalid setting argument, %r" %(value,))
+		raise optparse.OptionValueError("invalid setting argument, %r" %(value,))
 	parser.values.db_client_parameters.append(
 		((option.dest, kv[0]), kv[1])
 	)
@@ -391,11 +391,12 @@ def resolve_password(parameters, getpass = getpass, prompt_title = ''):
 	"""
 	prompt_for_password = parameters.pop('prompt_password', False)
 	pgpassfile = parameters.pop('pgpassfile', None)
-	prompt_title = parameters.pop('prompt_title', None)
+	prompt_title = prompt_title or parameters.pop('prompt_title', None)
+	parameters.pop('prompt_title', None)
 	if prompt_for_password is True:
 		# it's a prompt
 		if sys.stdin.isatty():
-			prompt = prompt_title or parameters.pop('prompt_title', '')
+			prompt = prompt_title or ''
 			prompt += '[' + pg_iri.serialize(parameters, obscure_password = True) + ']'
 			parameters['password'] = getpass("Password for " + prompt +": ")
 		else:
diff --git a/postgresql/pgpassfile.py b/postgresql/pgpassfile.py
index 5efaacb..46fe154 100644
--- a/postgresql/pgpassfile.py
+++ b/postgresql/pgpassfile.py
@@ -60,6 +60,8 @@ def lookup_pgpass(d, passfile, exists = os.path.exists):
 	# using the config's criteria.
 	if exists(passfile):
 		return lookup_password_file(passfile, (
-			str(d['user']), str(d['host']), str(d['port']),
+			str(d['user']),
+			# As libpq, when there is no host: connecting to a local socket.
+			str(d.get('host', 'localhost')), str(d.get('port', 5432)),
 			str(d.get('database', d['user']))
 		))
-- 
2.43.0


From f41b70d5b2c6bd8c17d4ed39843a832ed78df4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 08/49] fix: lib: free-form prefaces with reference-like lines,
 and the name in a category's refusal

---
 postgresql/lib/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 1307a3b..7e26a4a 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -218,7 +218,7 @@ class ILF(SymbolCollection):
 				blocks.append((curid, curblock))
 				curid = line
 				curblock = []
-			elif line.startswith('*[') and ']' in line:
+			elif curid is not None and line.startswith('*[') and ']' in line:
 				ref, rest = line.split(']', 1)
 				# strip the leading '*['
 				ref = ref[2:]
@@ -427,7 +427,7 @@ class Category(pg_api.Category):
 			B = Binding(database, l)
 			for n in names:
 				if hasattr(database, n):
-					raise AttributeError("attribute already exists: " + name)
+					raise AttributeError("attribute already exists: " + n)
 				setattr(database, n, B)
 
 def find_libsql(libname, paths, prefix = 'lib', suffix = '.sql'):
-- 
2.43.0


From 8370033f6591deea6e59e5b4e420b1f4495f49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 09/49] fix: cluster: start settings, links in dropped
 directories, identity of ended servers, readiness and nested use; temporal:
 end lingering sessions

---
 postgresql/cluster.py     | 87 +++++++++++++++++++++++++++------------
 postgresql/lib/libsys.sql |  1 +
 postgresql/temporal.py    |  2 +-
 3 files changed, 62 insertions(+), 28 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 122103e..86ab301 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -134,6 +134,9 @@ class Cluster(pg_api.Cluster):
 			path = os.path.join(self.data_directory, self.DEFAULT_PID_FILENAME)
 			with open(path) as f:
 				return int(f.readline())
+		except ValueError:
+			# Not written, yet; or not a pid file at all.
+			return None
 		except IOError as e:
 			if e.errno in (errno.EIO, errno.ENOENT):
 				return None
@@ -142,13 +145,26 @@ class Cluster(pg_api.Cluster):
 	def pid(self):
 		"""
 		If we have the subprocess, use the pid on the object.
+
+		`None` if the server is not running.
 		"""
+		d = self.daemon_process
+		if d is not None and d.poll() is None:
+			return d.pid
 		pid = self.get_pid_from_file()
-		if pid is None:
-			d = self.daemon_process
-			if d is not None:
-				return d.pid
-		return pid
+		if pid is not None and self._exists(pid):
+			return pid
+		return None
+
+	@staticmethod
+	def _exists(pid):
+		try:
+			pg_kill(pid, signal.SIG_DFL)
+		except OSError as e:
+			if e.errno != errno.ESRCH:
+				raise
+			return False
+		return True
 
 	@property
 	def settings(self):
@@ -175,6 +191,7 @@ class Cluster(pg_api.Cluster):
 		)
 		self.daemon_process = None
 		self.daemon_command = None
+		self._entered = []
 
 	def __repr__(self, format = "{mod}.{name}({ins!r}, {dir!r})".format):
 		return format(
@@ -186,18 +203,22 @@ class Cluster(pg_api.Cluster):
 
 	def __enter__(self):
 		"""
-		Start the cluster and wait for it to startup.
+		Start the cluster, if it's not already running, and wait for it to startup.
 		"""
+		was_running = self.running()
 		self.start()
 		self.wait_until_started()
+		self._entered.append(was_running)
 		return self
 
 	def __exit__(self, typ, val, tb):
 		"""
-		Stop the cluster and wait for it to shutdown.
+		Stop the cluster and wait for it to shutdown iff it was started by the
+		corresponding enter.
 		"""
-		self.stop()
-		self.wait_until_stopped()
+		if self._entered.pop() is False:
+			self.stop()
+			self.wait_until_stopped()
 
 	def init(self, password = None, timeout = None, **kw):
 		"""
@@ -325,7 +346,12 @@ class Cluster(pg_api.Cluster):
 			for name in files:
 				os.remove(os.path.join(root, name))
 			for name in dirs:
-				os.rmdir(os.path.join(root, name))	
+				path = os.path.join(root, name)
+				if os.path.islink(path):
+					# Remove the link, and nothing that it refers to.
+					os.remove(path)
+				else:
+					os.rmdir(path)
 		os.rmdir(self.data_directory)
 
 	def start(self, logfile = None, settings = None):
@@ -336,8 +362,9 @@ class Cluster(pg_api.Cluster):
 			return
 		cmd = (self.daemon_path, '-D', self.data_directory)
 		if settings is not None:
-			for k,v in dict(settings).items():
-				cmd.append('--{k}={v}'.format(k=k,v=v))
+			cmd += tuple([
+				'--{k}={v}'.format(k=k,v=v) for k,v in dict(settings).items()
+			])
 
 		p = sp.Popen(
 			cmd,
@@ -457,13 +484,7 @@ class Cluster(pg_api.Cluster):
 			pid = self.get_pid_from_file()
 			if pid is None:
 				return False
-			try:
-				pg_kill(pid, signal.SIG_DFL)
-			except OSError as e:
-				if e.errno != errno.ESRCH:
-					raise
-				return False
-			return True
+			return self._exists(pid)
 
 	def connector(self, **kw):
 		"""
@@ -508,7 +529,9 @@ class Cluster(pg_api.Cluster):
 		if d.get('listen_addresses') is not None:
 			# Prefer localhost over other addresses.
 			# More likely to get a successful connection.
-			addrs = d.get('listen_addresses').lower().split(',')
+			addrs = [
+				x.strip() for x in d.get('listen_addresses').lower().split(',')
+			]
 			if 'localhost' in addrs or '*' in addrs:
 				host = 'localhost'
 			elif '127.0.0.1' in addrs:
@@ -525,15 +548,23 @@ class Cluster(pg_api.Cluster):
 		"""
 		If the daemon is running, and is not in startup mode.
 
+		`True` if it is, `False` if it's not, and `None` if it's not running.
+
 		This only works for clusters configured for TCP/IP connections.
 		"""
+		r = self._ready_for_connections()
+		return r if r in (True, None) else False
+
+	def _ready_for_connections(self):
+		# `True`, `None`, or the exception explaining why it's not ready.
 		if not self.running():
-			return False
+			return None
 		e = None
 		host, port = self.address()
 		connection = self.driver.fit(
 			user = ' -*- ping -*- ',
-			host = host, port = port,
+			host = host or 'localhost',
+			port = port or 5432,
 			database = 'template1',
 			sslmode = 'disable',
 		)()
@@ -550,7 +581,11 @@ class Cluster(pg_api.Cluster):
 						# undefined user.. whatever...
 						return True
 				else:
-					if isinstance(x, pg_exc.AuthenticationSpecificationError):
+					if isinstance(x, (
+						pg_exc.AuthenticationSpecificationError,
+						# It's up, and asks for something unsupported.
+						pg_exc.AuthenticationMethodError,
+					)):
 						return True
 				# configuration file error. ya, that's probably not going to change.
 				if isinstance(x, (pg_exc.CFError, pg_exc.ProtocolError)):
@@ -592,7 +627,7 @@ class Cluster(pg_api.Cluster):
 						"postgres daemon has not been started",
 						creator = self
 					)
-			r = self.ready_for_connections()
+			r = self._ready_for_connections()
 
 			checkpoint = time.time()
 			if r is True:
@@ -608,7 +643,7 @@ class Cluster(pg_api.Cluster):
 					'timeout on startup',
 					creator = self
 				)
-				if r not in (True,False):
+				if r not in (True, None):
 					raise e from r
 				raise e
 			time.sleep(delay)
@@ -627,8 +662,6 @@ class Cluster(pg_api.Cluster):
 			# pickup the exit code.
 			if self.daemon_process is not None:
 				self.last_exit_code = self.daemon_process.poll()
-			else:
-				self.last_exit_code = pg_kill(self.get_pid_from_file(), 0)
 			if time.time() - start >= timeout:
 				raise ClusterTimeoutError(
 					'timeout on shutdown',
diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index e0bcc0b..df3cd00 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -223,6 +223,7 @@ FROM
 	pg_catalog.pg_stat_activity
 WHERE
 	pid != pg_catalog.pg_backend_pid()
+	AND datid IS NOT NULL
 
 [cancel_backends:transient:column]
 -- Cancel all except mine.
diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index a19a845..cd4179a 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -65,6 +65,7 @@ class Temporal(object):
 	def destroy(self):
 		# Don't destroy if it's not the initializing process.
 		if os.getpid() == self._init_pid_:
+			cluster = self.cluster
 			# Kill all the open connections.
 			try:
 				c = cluster.connection(user = 'test', database = 'template1',)
@@ -76,7 +77,6 @@ class Temporal(object):
 			except Exception:
 				# Doesn't matter much if it fails.
 				pass
-			cluster = self.cluster
 			self.cluster = None
 			self._init_pid_ = None
 			if cluster is not None:
-- 
2.43.0


From 6242af937a17c8bc1558af562c5d8cbdd4b377ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 10/49] fix: element3: write complete notice and bind messages,
 refuse truncated and inconsistent bodies, compare fields

---
 postgresql/protocol/element3.py | 144 +++++++++++++++-----------------
 1 file changed, 67 insertions(+), 77 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 1f8579e..97f3fc5 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -62,6 +62,29 @@ except ImportError:
 		])
 	del _pack_tuple, lH_pack, long_pack
 
+def unpack_tuple_data(data, offset, natts, ulong_unpack = ulong_unpack, len = len):
+	"""
+	Extract `natts` attributes from `data` starting at `offset`.
+
+	Returns the list of attributes and the offset of the data following them.
+	"""
+	atts = []
+	add = atts.append
+	end = len(data)
+	while natts > 0:
+		ao = offset + 4
+		size = data[offset:ao]
+		if size == b'\xff\xff\xff\xff':
+			offset = ao
+			add(None)
+		else:
+			offset = ao + ulong_unpack(size)
+			if offset > end:
+				raise ValueError("attribute data exceeds the message size")
+			add(data[ao:offset])
+		natts -= 1
+	return atts, offset
+
 StringFormat = b'\x00\x00'
 BinaryFormat = b'\x00\x01'
 
@@ -104,6 +127,11 @@ class StringMessage(Message):
 			repr(self.data),
 		)
 
+	def __eq__(self, ob):
+		# Subclasses may have empty slots.
+		return isinstance(ob, type(self)) and self.type == ob.type and \
+			self.data == ob.data
+
 	def __getitem__(self, i):
 		return self.data.__getitem__(i)
 
@@ -157,13 +185,19 @@ def dict_message_repr(self):
 		pprint.pformat(dict(self))
 	)
 
+def dict_message_eq(self, ob):
+	return isinstance(ob, type(self)) and self.type == ob.type and \
+		dict.__eq__(self, ob)
+
 class WireMessage(Message):
+	__slots__ = ('type', 'data')
+
 	def __init__(self, typ_data):
 		self.type = message_types[typ_data[0][0]]
 		self.data = typ_data[1]
 
 	def serialize(self):
-		return self[1]
+		return self.data
 
 	@classmethod
 	def parse(typ, data):
@@ -234,7 +268,8 @@ class ShowOption(Message):
 
 	@classmethod
 	def parse(typ, data):
-		return typ(*(data.split(b'\x00', 2)[0:2]))
+		name, value, _ = data.split(b'\x00', 2)
+		return typ(name, value)
 
 class Complete(StringMessage):
 	"""
@@ -243,10 +278,6 @@ class Complete(StringMessage):
 	type = message_types[b'C'[0]]
 	__slots__ = ()
 
-	@classmethod
-	def parse(typ, data):
-		return typ(data.rstrip(b'\x00'))
-
 	def extract_count(self):
 		"""
 		Extract the last set of digits as an integer.
@@ -349,15 +380,18 @@ class Notice(Message, dict):
 	type = message_types[b'N'[0]]
 	__slots__ = ()
 	__repr__ = dict_message_repr
+	__eq__ = dict_message_eq
 
 	def serialize(self):
-		return b'\x00'.join([
-			k + v for k, v in self.items()
+		return b''.join([
+			k + v + b'\x00' for k, v in self.items()
 			if k and v is not None
 		]) + b'\x00'
 
 	@classmethod
 	def parse(typ, data, msgtypes = message_types):
+		if not data.endswith(b'\x00'):
+			raise ValueError("message fields not NUL-terminated")
 		return typ([
 			(msgtypes[x[0]], x[1:])
 			# "if x" reduce empty fields
@@ -469,6 +503,8 @@ class TupleDescriptor(TupleMessage):
 			atts.append((name,) + typ.struct.unpack(data[0:18]))
 			data = data[18:]
 			ca += 1
+		if data:
+			raise ValueError("invalid tuple descriptor, remaining data after attributes")
 		return typ(atts)
 
 class Tuple(TupleMessage):
@@ -482,28 +518,10 @@ class Tuple(TupleMessage):
 		return ushort_pack(len(self)) + pack_tuple_data(self)
 
 	@classmethod
-	def parse(typ, data,
-		T = tuple, ulong_unpack = ulong_unpack,
-		len = len
-	):
-		natts = ushort_unpack(data[0:2])
-		atts = []
-		offset = 2
-		add = atts.append
-
-		while natts > 0:
-			alo = offset
-			offset += 4
-			size = data[alo:offset]
-			if size == b'\xff\xff\xff\xff':
-				att = None
-			else:
-				al = ulong_unpack(size)
-				ao = offset
-				offset = ao + al
-				att = data[ao:offset]
-			add(att)
-			natts -= 1
+	def parse(typ, data, T = tuple, len = len):
+		atts, offset = unpack_tuple_data(data, 2, ushort_unpack(data[0:2]))
+		if offset != len(data):
+			raise ValueError("invalid tuple(D) message, remaining data after attributes")
 		return T(atts)
 	try:
 		parse = parse_tuple_message
@@ -589,6 +607,7 @@ class Startup(Message, dict):
 	packed_version = version.bytes()
 	__slots__ = ()
 	__repr__ = dict_message_repr
+	__eq__ = dict_message_eq
 
 	def serialize(self):
 		return self.packed_version + b''.join([
@@ -604,16 +623,11 @@ class Startup(Message, dict):
 	@classmethod
 	def parse(typ, data):
 		if data[0:4] != typ.packed_version:
-			raise ValueError("invalid version code {1}".format(repr(data[0:4])))
-		kw = dict()
-		key = None
-		for value in data[4:].split(b'\x00')[:-2]:
-			if key is None:
-				key = value
-				continue
-			kw[key] = value
-			key = None
-		return typ(kw)
+			raise ValueError("invalid version code {0}".format(repr(data[0:4])))
+		fields = data[4:].split(b'\x00')
+		if len(fields) % 2 or fields[-2:] != [b'', b'']:
+			raise ValueError("startup parameters not NUL-terminated")
+		return typ(zip(fields[:-2:2], fields[1:-2:2]))
 
 AuthRequest_OK = 0
 AuthRequest_Cleartext = 3
@@ -757,7 +771,8 @@ class Bind(Message):
 		ad = pack_tuple_data(tuple(args))
 		return \
 			self.name + b'\x00' + self.statement + b'\x00' + \
-			ac + b''.join(self.aformats) + ac + ad + \
+			ushort_pack(len(self.aformats)) + b''.join(self.aformats) + \
+			ac + ad + \
 			ushort_pack(len(self.rformats)) + b''.join(self.rformats)
 
 	@classmethod
@@ -768,27 +783,14 @@ class Bind(Message):
 		aformats = unpack(("2s" * ac), data[2:offset])
 
 		natts = ushort_unpack(data[offset:offset+2])
-		args = list()
-		offset += 2
-
-		while natts > 0:
-			alo = offset
-			offset += 4
-			size = data[alo:offset]
-			if size == b'\xff\xff\xff\xff':
-				att = None
-			else:
-				al = ulong_unpack(size)
-				ao = offset
-				offset = ao + al
-				att = data[ao:offset]
-			args.append(att)
-			natts -= 1
+		args, offset = unpack_tuple_data(data, offset + 2, natts)
 
 		rfc = ushort_unpack(data[offset:offset+2])
 		ao = offset + 2
 		offset = ao + (2 * rfc)
 		rformats = unpack(("2s" * rfc), data[ao:offset])
+		if offset != len(data):
+			raise ValueError("invalid Bind message, remaining data after formats")
 
 		return typ(name, statement, aformats, args, rformats)
 
@@ -889,7 +891,7 @@ class Function(Message):
 	def serialize(self):
 		ac = ushort_pack(len(self.arguments))
 		return ulong_pack(self.oid) + \
-			ac + b''.join(self.aformats) + \
+			ushort_pack(len(self.aformats)) + b''.join(self.aformats) + \
 			ac + pack_tuple_data(tuple(self.arguments)) + self.rformat
 
 	@classmethod
@@ -901,24 +903,12 @@ class Function(Message):
 		aformats = unpack(("2s" * ac), data[6:offset])
 
 		natts = ushort_unpack(data[offset:offset+2])
-		args = list()
-		offset += 2
-
-		while natts > 0:
-			alo = offset
-			offset += 4
-			size = data[alo:offset]
-			if size == b'\xff\xff\xff\xff':
-				att = None
-			else:
-				al = ulong_unpack(size)
-				ao = offset
-				offset = ao + al
-				att = data[ao:offset]
-			args.append(att)
-			natts -= 1
-
-		return typ(oid, aformats, args, data[offset:])
+		args, offset = unpack_tuple_data(data, offset + 2, natts)
+
+		rformat = data[offset:]
+		if len(rformat) != 2:
+			raise ValueError("invalid Function message result format")
+		return typ(oid, aformats, args, rformat)
 
 class CopyBegin(Message):
 	type = None
@@ -978,6 +968,6 @@ class CopyFail(StringMessage):
 
 class CopyDone(EmptyMessage):
 	type = message_types[b'c'[0]]
-	__slots__ = ('data',)
+	__slots__ = ()
 CopyDoneMessage = Message.__new__(CopyDone)
 CopyDone.SingleInstance = CopyDoneMessage
-- 
2.43.0


From 55ea92f9b171183043762ef0e3cf6e6625e718ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 11/49] fix: optimized: bounds of message types, reads past an
 invalid length, self-framed messages, mutated lists and sequences; wire state
 refuses invalid sizes

---
 postgresql/copyman.py                  |  4 +++
 postgresql/port/_optimized/buffer.c    | 40 +++++++++++++++------
 postgresql/port/_optimized/element3.c  | 48 ++++++++++++++++++++++++++
 postgresql/port/_optimized/functools.c | 41 ++++++++++++++++------
 postgresql/port/_optimized/structlib.c |  4 ---
 postgresql/port/_optimized/wirestate.c | 20 ++++++-----
 postgresql/protocol/pbuffer.py         |  3 +-
 7 files changed, 125 insertions(+), 35 deletions(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 4322982..a0fcded 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -190,6 +190,8 @@ class WireState(object):
 				# The size fragment is completed; only part
 				# of the fragment remains to be consumed.
 				remaining_bytes = getlen(size_fragment) - o
+				if remaining_bytes < 4 - o:
+					raise ValueError("message header contained an invalid size")
 				size_fragment = b''
 			else:
 				assert len(size_fragment) < 4
@@ -235,6 +237,8 @@ class WireState(object):
 					break
 				# Update remaining_bytes to include the header, and start over.
 				remaining_bytes = getlen(view[1:5]) + 1
+				if remaining_bytes < 5:
+					raise ValueError("message header contained an invalid size")
 
 		# Update the state for the next update.
 		self.remaining_bytes, self.size_fragment = (
diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index cb81b2f..105a342 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -296,7 +296,7 @@ p_build_tuple(struct p_place *p)
 		p_seek(p, copy_amount);
 	}
 
-	mt = PyTuple_GET_ITEM(message_types, (int) header[0]);
+	mt = PyTuple_GET_ITEM(message_types, (unsigned char) header[0]);
 	if (mt == NULL)
 	{
 		/*
@@ -404,10 +404,10 @@ p_next(PyObject *self)
 static PyObject *
 p_read(PyObject *self, PyObject *args)
 {
-	int cur_msg, msg_count = -1, msg_in = 0;
+	int msg_count = -1;
 	struct p_place p;
 	struct p_buffer *pb;
-	PyObject *rob = NULL;
+	PyObject *msgs, *rob = NULL;
 
 	if (!PyArg_ParseTuple(args, "|i", &msg_count))
 		return(NULL);
@@ -416,27 +416,45 @@ p_read(PyObject *self, PyObject *args)
 	p.list = pb->position.list;
 	p.offset = pb->position.offset;
 
-	msg_in = p_length(self);
-	msg_count = msg_count < msg_in && msg_count != -1 ? msg_count : msg_in;
+	msgs = PyList_New(0);
+	if (msgs == NULL)
+		return(NULL);
 
-	rob = PyTuple_New(msg_count);
-	for (cur_msg = 0; cur_msg < msg_count; ++cur_msg)
+	/* A negative count reads all the messages. */
+	while (msg_count < 0 || PyList_GET_SIZE(msgs) < msg_count)
 	{
-		PyObject *msg_tup = NULL;
-		msg_tup = p_build_tuple(&p);
+		int failed;
+		/*
+		 * p_build_tuple moves past the header of an incomplete message,
+		 * so keep the position of the last complete one.
+		 */
+		struct p_place next = p;
+		PyObject *msg_tup = p_build_tuple(&next);
 		if (msg_tup == NULL)
 		{
 			if (PyErr_Occurred())
 			{
-				Py_DECREF(rob);
+				Py_DECREF(msgs);
 				return(NULL);
 			}
 			break;
 		}
 
-		PyTuple_SET_ITEM(rob, cur_msg, msg_tup);
+		failed = PyList_Append(msgs, msg_tup);
+		Py_DECREF(msg_tup);
+		if (failed)
+		{
+			Py_DECREF(msgs);
+			return(NULL);
+		}
+		p = next;
 	}
 
+	rob = PyList_AsTuple(msgs);
+	Py_DECREF(msgs);
+	if (rob == NULL)
+		return(NULL);
+
 	pl_truncate(pb->position.list, p.list);
 	pb->position.list = p.list;
 	pb->position.offset = p.offset;
diff --git a/postgresql/port/_optimized/element3.c b/postgresql/port/_optimized/element3.c
index 7ea2b82..ead72d9 100644
--- a/postgresql/port/_optimized/element3.c
+++ b/postgresql/port/_optimized/element3.c
@@ -601,6 +601,7 @@ cat_messages(PyObject *self, PyObject *messages_in)
 					PyObject_TypeName(ob),
 					PyObject_TypeName(serialized)
 				);
+				Py_DECREF(serialized);
 				goto fail;
 			}
 
@@ -626,6 +627,53 @@ cat_messages(PyObject *self, PyObject *messages_in)
 			 * It is important to get the actual size rather than assuming one.
 			 */
 			msg_type_size = PyBytes_GET_SIZE(msg_type);
+			if (msg_type_size > 1)
+			{
+				Py_DECREF(serialized);
+				Py_DECREF(msg_type);
+				PyErr_SetString(PyExc_ValueError,
+					"message's 'type' attribute was more than a single byte");
+				goto fail;
+			}
+
+			if (msg_type_size == 0)
+			{
+				/*
+				 * The message determines its own framing; Void has none at all.
+				 */
+				Py_DECREF(serialized);
+				Py_DECREF(msg_type);
+				serialized = PyObject_CallMethod(ob, "bytes", NULL);
+				if (serialized == NULL)
+					goto fail;
+				if (!PyBytes_CheckExact(serialized))
+				{
+					PyErr_Format(
+						PyExc_TypeError,
+						"%s.bytes() returned object of type %s, expected bytes",
+						PyObject_TypeName(ob),
+						PyObject_TypeName(serialized)
+					);
+					Py_DECREF(serialized);
+					goto fail;
+				}
+				INCSIZET(bufsize, PyBytes_GET_SIZE(serialized));
+				nbuf = realloc(buf, bufsize + 1);
+				if (nbuf == NULL)
+				{
+					Py_DECREF(serialized);
+					PyErr_NoMemory();
+					goto fail;
+				}
+				buf = nbuf;
+				nbuf = NULL;
+				Py_MEMCPY(buf + bufpos, PyBytes_AS_STRING(serialized),
+					PyBytes_GET_SIZE(serialized));
+				bufpos = bufsize;
+				Py_DECREF(serialized);
+				++cmsg;
+				continue;
+			}
 
 			/* realloc the buf for the new copy data */
 			INCSIZET(bufsize, 4 + msg_type_size);
diff --git a/postgresql/port/_optimized/functools.c b/postgresql/port/_optimized/functools.c
index 9a0deea..489bdca 100644
--- a/postgresql/port/_optimized/functools.c
+++ b/postgresql/port/_optimized/functools.c
@@ -211,27 +211,37 @@ static PyObject *
 _process_chunk_from_list(PyObject *procs, PyObject *tupc, PyObject *fail)
 {
 	PyObject *rob;
-	Py_ssize_t i, len;
+	Py_ssize_t i;
 
-	len = PyList_GET_SIZE(tupc);
-	rob = PyList_New(len);
+	rob = PyList_New(0);
 	if (rob == NULL)
 		return(NULL);
 
-	for (i = 0; i < len; ++i)
+	/*
+	 * The processors may change the list, so don't rely
+	 * on its size or its references across calls.
+	 */
+	for (i = 0; i < PyList_GET_SIZE(tupc); ++i)
 	{
 		PyObject *tup, *r;
-		/*
-		 * If it's Py_None, that means it's NULL. No processing necessary.
-		 */
+		int failed;
+
 		tup = PyList_GET_ITEM(tupc, i);
+		Py_INCREF(tup);
 		r = _process_tuple(procs, tup, fail);
+		Py_DECREF(tup);
 		if (r == NULL)
 		{
 			Py_DECREF(rob);
 			return(NULL);
 		}
-		PyList_SET_ITEM(rob, i, r);
+		failed = PyList_Append(rob, r);
+		Py_DECREF(r);
+		if (failed)
+		{
+			Py_DECREF(rob);
+			return(NULL);
+		}
 	}
 
 	return(rob);
@@ -302,13 +312,14 @@ compose(PyObject *self, PyObject *args)
 	}
 	else if (PyObject_IsInstance(seq, (PyObject *) &PyList_Type))
 	{
-		len = PyList_GET_SIZE(seq);
-		for (i = 0; i < len; ++i)
+		for (i = 0; i < PyList_GET_SIZE(seq); ++i)
 		{
 			x = PyList_GET_ITEM(seq, i);
+			Py_INCREF(x);
 			argt = PyTuple_New(1);
 			PyTuple_SET_ITEM(argt, 0, rob);
 			rob = PyObject_CallObject(x, argt);
+			Py_DECREF(x);
 			Py_DECREF(argt);
 			if (rob == NULL)
 				break;
@@ -320,9 +331,19 @@ compose(PyObject *self, PyObject *args)
 		 * Arbitrary sequence.
 		 */
 		len = PySequence_Length(seq);
+		if (len < 0)
+		{
+			Py_DECREF(rob);
+			return(NULL);
+		}
 		for (i = 0; i < len; ++i)
 		{
 			x = PySequence_GetItem(seq, i);
+			if (x == NULL)
+			{
+				Py_DECREF(rob);
+				return(NULL);
+			}
 			argt = PyTuple_New(1);
 			PyTuple_SET_ITEM(argt, 0, rob);
 			rob = PyObject_CallObject(x, argt);
diff --git a/postgresql/port/_optimized/structlib.c b/postgresql/port/_optimized/structlib.c
index 21ae145..4a03eab 100644
--- a/postgresql/port/_optimized/structlib.c
+++ b/postgresql/port/_optimized/structlib.c
@@ -579,10 +579,6 @@ swap_int8_unpack(PyObject *self, PyObject *arg)
 	Py_ssize_t len;
 	PY_LONG_LONG i;
 
-	c = PyBytes_AsString(arg);
-	if (PyErr_Occurred())
-		return(NULL);
-
 	if (PyObject_AsReadBuffer(arg, (const void **) &c, &len))
 		return(NULL);
 	if (len < 8)
diff --git a/postgresql/port/_optimized/wirestate.c b/postgresql/port/_optimized/wirestate.c
index 74a9aca..ed39576 100644
--- a/postgresql/port/_optimized/wirestate.c
+++ b/postgresql/port/_optimized/wirestate.c
@@ -54,6 +54,14 @@ ws_update(PyObject *self, PyObject *view)
 	Py_ssize_t position = 0, len;
 	PyObject *rob, *final_view = NULL;
 
+	ws = (struct wirestate *) self;
+
+	if (ws->final_view)
+	{
+		PyErr_SetString(PyExc_RuntimeError, "wire state has been terminated");
+		return(NULL);
+	}
+
 	if (PyObject_AsReadBuffer(view, (const void **) &buf, &len))
 		return(NULL);
 
@@ -65,14 +73,6 @@ ws_update(PyObject *self, PyObject *view)
 		return(PyLong_FromUnsignedLong(0));
 	}
 
-	ws = (struct wirestate *) self;
-
-	if (ws->final_view)
-	{
-		PyErr_SetString(PyExc_RuntimeError, "wire state has been terminated");
-		return(NULL);
-	}
-
 	remaining_bytes = ws->remaining_bytes;
 	continuation = ws->continuation;
 
@@ -148,6 +148,8 @@ ws_update(PyObject *self, PyObject *view)
 		if (CONDITION(msgtype))
 		{
 			final_view = PySequence_GetSlice(view, position, len);
+			if (final_view == NULL)
+				return(NULL);
 			break;
 		}
 
@@ -168,7 +170,7 @@ ws_update(PyObject *self, PyObject *view)
 		 * +1 to include the message type.
 		 */
 		Py_MEMCPY(&remaining_bytes, buf + position + 1, 4);
-		remaining_bytes = local_ntohl((int32_t) remaining_bytes) + 1;
+		remaining_bytes = ((uint32_t) local_ntohl((int32_t) remaining_bytes)) + 1;
 		if (remaining_bytes < 5)
 			goto invalid_message_header;
 	} while(1);
diff --git a/postgresql/protocol/pbuffer.py b/postgresql/protocol/pbuffer.py
index d41a79e..401b13b 100644
--- a/postgresql/protocol/pbuffer.py
+++ b/postgresql/protocol/pbuffer.py
@@ -163,7 +163,8 @@ class pq_message_stream(object):
 		new_start = self._start
 		self._strio.seek(new_start)
 		l = []
-		while len(l) < num:
+		# A negative count reads all the messages.
+		while num < 0 or len(l) < num:
 			msg = self._get_message()
 			if msg is None:
 				break
-- 
2.43.0


From 366b794e697460dd5bb3d38bb9c480b2680a82ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 12/49] fix: protocol: repeated asynchronous messages,
 localized severities, failed function calls, portals without data, ended
 connections in step(), own transactions' notifications

---
 postgresql/driver/pq3.py       |  1 +
 postgresql/protocol/client3.py | 45 ++++++++++++++++++++++------------
 postgresql/protocol/xact3.py   | 32 ++++++++++++++++++++----
 postgresql/python/socket.py    |  2 +-
 4 files changed, 59 insertions(+), 21 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6a778bd..f6819d2 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2499,6 +2499,7 @@ class Connection(pg_api.Connection):
 				can_skip = False
 				continue
 			pq = Connection3(sf, startup, password = password,)
+			pq.asynchook = self._receive_async
 			if hasattr(self, 'tracer'):
 				pq.tracer = self.tracer
 
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index f7e2175..368f0b4 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -73,6 +73,10 @@ class Connection(object):
 	connection must check for failures. This is done to encourage users
 	to use their own Exception hierarchy.
 	"""
+	# Receives the asynchronous messages that arrive during the
+	# connection's own transactions: synchronize() and take_out_trash().
+	asynchook = staticmethod(xact.return_arg)
+
 	_tracer = None
 	def tracer():
 		def fget(self):
@@ -99,7 +103,7 @@ class Connection(object):
 		"""
 		if self.xact is not None:
 			self.complete()
-		x = xact.Instruction((element.SynchronizeMessage,))
+		x = xact.Instruction((element.SynchronizeMessage,), asynchook = self.asynchook)
 		self.xact = x
 		self.complete()
 
@@ -195,6 +199,7 @@ class Connection(object):
 		if negxact.state is xact.Complete and negxact.fatal is None:
 			self.key = negxact.killinfo.key
 			self.backend_id = negxact.killinfo.pid
+			self.state = negxact.last_ready.xact_state
 		elif not hasattr(self.xact, 'error_message'):
 			# if it's not complete, something strange happened.
 			# make sure to clean up...
@@ -376,7 +381,7 @@ class Connection(object):
 			xm.append(element.CloseStatement(x))
 			statements += 1
 		xm.append(element.SynchronizeMessage)
-		x = xact.Instruction(xm)
+		x = xact.Instruction(xm, asynchook = self.asynchook)
 		self.xact = x
 		del self.garbage_cursors[:cursors]
 		del self.garbage_statements[:statements]
@@ -411,22 +416,25 @@ class Connection(object):
 		to stream information out.
 		"""
 		x = self.xact
+		if x.state is xact.Complete:
+			# Already over; fatal if it is still here.
+			return
+		dir, op = x.state
+		if dir is not xact.Sending and dir is not xact.Receiving:
+			raise RuntimeError(
+				"unexpected PQ transaction state: " + repr(dir)
+			)
 		try:
-			dir, op = x.state
 			if dir is xact.Sending:
-				self.write_messages(x.messages)
-				# The "op" callable will either switch the state, or
-				# set the 'messages' attribute with a new sequence
-				# of message objects for more writing.
-				op()
-			elif dir is xact.Receiving:
-				self.read_messages()
-				self.read = self.read[op(self.read):]
-				self.state = getattr(x, 'last_ready', self.state)
+				if self.write_messages(x.messages):
+					# The "op" callable will either switch the state, or
+					# set the 'messages' attribute with a new sequence
+					# of message objects for more writing.
+					op()
 			else:
-				raise RuntimeError(
-					"unexpected PQ transaction state: " + repr(dir)
-				)
+				if self.read_messages():
+					self.read = self.read[op(self.read):]
+					self.state = getattr(x, 'last_ready', self.state)
 		except self.socket_factory.try_again_exception as e:
 			# Unlike _complete, this catches at the outermost level
 			# as there is no loop here for more transitioning.
@@ -435,6 +443,13 @@ class Connection(object):
 				return
 			else:
 				raise
+		except Exception as proto_exc:
+			# Same as complete(): a protocol or a programming error.
+			x.fatal = True
+			x.state = xact.Complete
+			x.exception = proto_exc
+			x.error_message = client_detected_protocol_error
+			self.state = b''
 		if x.state is xact.Complete and \
 		getattr(self.xact, 'fatal', None) is not True:
 			# only remove the transaction if it's *not* fatal
diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 6f5497f..78d793a 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -215,6 +215,17 @@ class Negotiation(Transaction):
 				return
 			x = (yield (element.Password(pw),))
 
+			if x[0] != element.Authentication.type:
+				self.fatal = True
+				self.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08P01'),
+					(b'M', message_expectation(
+						expected = element.Authentication.type,
+						received = x[0],
+					)),
+				))
+				return
 			self.authok = element.Authentication.parse(x[1])
 			if self.authok.request != element.AuthRequest_OK:
 				self.fatal = True
@@ -321,7 +332,11 @@ class Instruction(Transaction):
 		),
 
 		element.Function.type : (
-			{element.FunctionResult.type : (element.FunctionResult.parse, 1)},
+			{
+				element.FunctionResult.type : (element.FunctionResult.parse, 1),
+				# After an error.
+				element.Ready.type : (element.Ready.parse, None),
+			},
 			{element.Ready.type : (element.Ready.parse, None)},
 		),
 
@@ -338,6 +353,7 @@ class Instruction(Transaction):
 			# Still needs the descriptor.
 			{
 				element.AttributeTypes.type : (element.AttributeTypes.parse, 1),
+				element.NoData.type : (element.NoData.parse, None),
 				element.TupleDescriptor.type : (
 					element.TupleDescriptor.parse, None
 				),
@@ -476,11 +492,12 @@ class Instruction(Transaction):
 		else:
 			offset, current_step = self.last[2]
 			# it's a new set, so we can clear the asyncs record.
-			self._asyncs = []
+			self._asyncs = 0
 		cmd = COMMANDS[offset]
 		paths = HOOK[cmd.type]
 		processed = []
 		count = 0
+		asyncs = 0
 
 		for x in messages:
 			count += 1
@@ -493,10 +510,13 @@ class Instruction(Transaction):
 				if x[0] == ERROR_TYPE:
 					em = ERROR_PARSE(x[1])
 					# Is it fatal?
-					self.fatal = fatal = em[b'S'].upper() != b'ERROR'
+					# The severity of 'S' may be localized, 'V' never is.
+					self.fatal = fatal = \
+						(em.get(b'V') or em[b'S']).upper() != b'ERROR'
 					self.error_message = em
 					if fatal is True:
 						# Can't sync up if the session is closed.
+						self.completed.append((id(messages), processed))
 						self.state = Complete
 						return count
 					# Error occurred, so sync up with backend if
@@ -512,6 +532,7 @@ class Instruction(Transaction):
 						else:
 							##
 							# It's done.
+							self.completed.append((id(messages), processed))
 							self.state = Complete
 							return count
 					##
@@ -523,7 +544,8 @@ class Instruction(Transaction):
 					current_step = 0
 					continue
 				elif x[0] in AsynchronousMap:
-					if x not in self._asyncs:
+					asyncs += 1
+					if asyncs > self._asyncs:
 						msg = AsynchronousMap[x[0]](x[1])
 						try:
 							self.asynchook(msg)
@@ -532,7 +554,7 @@ class Instruction(Transaction):
 							# notify the user, but continue...
 							sys.excepthook(*sys.exc_info())
 						# it's been processed, so don't process it again.
-						self._asyncs.append(x)
+						self._asyncs = asyncs
 				else:
 					##
 					# Procotol violation.
diff --git a/postgresql/python/socket.py b/postgresql/python/socket.py
index 6587d4c..e55864d 100644
--- a/postgresql/python/socket.py
+++ b/postgresql/python/socket.py
@@ -46,7 +46,7 @@ class SocketFactory(object):
 		"""
 		if typ.try_again(err):
 			return None
-		return getattr(err, 'strerror', '<strerror not present>')
+		return getattr(err, 'strerror', None) or str(err) or '<strerror not present>'
 
 	@property
 	def _security_context(self):
-- 
2.43.0


From de47b7aa24736aa516356cd689ad09685cd5bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 13/49] fix: connecting: lost SSL negotiations, fallback after
 failed handshakes, notices and non-ASCII parameters at startup, NUL in
 startup parameters, search_path None

---
 postgresql/driver/pq3.py       | 47 ++++++++++++++++++++++------------
 postgresql/protocol/client3.py | 15 ++++++++++-
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index f6819d2..4671d1b 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2058,7 +2058,11 @@ class Settings(pg_api.Settings):
 		subs = getattr(self, '_subscriptions', {})
 		d = self.database.typio._decode
 		key = d(msg.name)[0]
-		val = d(msg.value)[0]
+		try:
+			val = d(msg.value)[0]
+		except UnicodeError:
+			# Not in the client's encoding; (SQL_ASCII)
+			val = msg.value.decode('utf-8', 'surrogateescape')
 		for x in subs.get(key, ()):
 			x(self.database, key, val)
 		if None in subs:
@@ -2517,10 +2521,11 @@ class Connection(pg_api.Connection):
 				if hasattr(self.pq.socket, 'fileno'):
 					self.fileno = self.pq.socket.fileno
 				self.security = 'ssl' if didssl is True else None
-				showoption_type = element.ShowOption.type
-				for x in neg.asyncs:
-					if x.type == showoption_type:
-						self._receive_async(x)
+				# The encoding first; the others may need it.
+				for x in sorted(neg.asyncs,
+					key = lambda m: getattr(m, 'name', None) != b'client_encoding'
+				):
+					self._receive_async(x)
 				# success!
 				break
 			elif pq.socket is not None:
@@ -2536,7 +2541,8 @@ class Connection(pg_api.Connection):
 				# *not* be ran because it has already been noted to be
 				# a failure.
 				can_skip = True
-			elif hasattr(pq.xact, 'exception'):
+			elif pq.socket is None and hasattr(pq.xact, 'exception'):
+				# It could not even reach the host.
 				# If a Python exception occurred, chances are that it is
 				# going to fail again iff it is going to hit the same host.
 				if sslmode == 'prefer' and ssl is False:
@@ -2744,15 +2750,19 @@ class Connector(pg_api.Connector):
 	"""
 	@property
 	def _pq_iri(self):
-		return pg_iri.serialize(
-			{
-				k : v for k,v in self.__dict__.items()
-				if v is not None and not k.startswith('_') and k not in (
-					'driver', 'category'
-				)
-			},
-			obscure_password = True
-		)
+		params = {
+			k : v if isinstance(v, str) else str(v)
+			for k,v in self.__dict__.items()
+			if v is not None and not k.startswith('_') and k not in (
+				'driver', 'category', 'settings'
+			) and not callable(v)
+		}
+		if self.settings:
+			params['settings'] = {
+				k : v if isinstance(v, (str, list, tuple)) and k == 'search_path' else str(v)
+				for k,v in dict(self.settings).items() if v is not None
+			}
+		return pg_iri.serialize(params, obscure_password = True)
 
 	def _e_metas(self):
 		yield (None, '[' + self.__class__.__name__ + '] ' + self._pq_iri)
@@ -2817,10 +2827,10 @@ class Connector(pg_api.Connector):
 		}
 		if self.settings:
 			s = dict(self.settings)
-			if 'search_path' in self.settings:
+			if 'search_path' in s:
 				sp = s.get('search_path')
 				if sp is None:
-					self.settings.pop('search_path')
+					s.pop('search_path')
 				elif not isinstance(sp, str):
 					s['search_path'] = ','.join(
 						pg_str.quote_ident(x) for x in sp
@@ -2842,6 +2852,9 @@ class Connector(pg_api.Connector):
 			)
 			for k, v in tnkw.items()
 		])
+		for k, v in self._startup_parameters:
+			if b'\x00' in k or b'\x00' in v:
+				raise ValueError("startup parameter contains a NUL character: " + repr(k))
 		self._password = (self.password or '').encode(se)
 # class Connector
 
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 368f0b4..5512a40 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -164,7 +164,20 @@ class Connection(object):
 			# if ssl is True, ssl is *required*
 			# if ssl is False, ssl will be tried, but not required
 			# if ssl is None, no SSL negotiation will happen
-			self.ssl_negotiation = supported = self.negotiate_ssl()
+			try:
+				self.ssl_negotiation = supported = self.negotiate_ssl()
+			except self.socket_factory.fatal_exception as err:
+				# The connection was lost, or timed out, before the answer.
+				self.xact.exception = err
+				self.xact.fatal = True
+				self.xact.state = xact.Complete
+				self.xact.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08006'),
+					(b'M', self.socket_factory.fatal_exception_message(err) \
+						or "SSL negotiation was interrupted"),
+				))
+				return
 
 			# b'S' or b'N' was *not* received.
 			if supported is None:
-- 
2.43.0


From 2475e2beedbb656caf820aaab04497fed5269c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 14/49] fix: numeric: NaN and infinity

---
 postgresql/types/io/stdlib_decimal.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/io/stdlib_decimal.py b/postgresql/types/io/stdlib_decimal.py
index 3deee38..5818d5b 100644
--- a/postgresql/types/io/stdlib_decimal.py
+++ b/postgresql/types/io/stdlib_decimal.py
@@ -28,6 +28,18 @@ oid_to_type = {
 #  2. digits, sequence of int()'s
 #  3. exponent, digits that fall to the right of the decimal point
 numeric_negative = 16384
+# By as_tuple()'s exponent: signs, as signed shorts, of the positive and negative.
+numeric_nan = -0x4000
+numeric_specials = {
+	'F' : (-0x3000, -0x1000),
+	'n' : (numeric_nan, numeric_nan),
+	'N' : (numeric_nan, numeric_nan),
+}
+numeric_constants = {
+	numeric_nan : Decimal('NaN'),
+	-0x3000 : Decimal('Infinity'),
+	-0x1000 : Decimal('-Infinity'),
+}
 
 def numeric_pack(x,
 	numeric_digit_length : "number of decimal digits in a numeric digit" = 4,
@@ -39,8 +51,9 @@ def numeric_pack(x,
 	if not isinstance(x, Decimal):
 		x = Decimal(x)
 	x = x.as_tuple()
-	if x.exponent == 'F':
-		raise ValueError("numeric does not support infinite values")
+	if x.exponent in numeric_specials:
+		# NaN, and infinity (which servers before 14 refuse).
+		return pack(((0, 0, numeric_specials[x.exponent][x.sign], 0), ()))
 
 	# normalize trailing zeros (truncate em')
 	# this is important in order to get the weight and padding correct
@@ -148,6 +161,8 @@ numeric_signs = {
 
 def numeric_unpack(x, unpack = lib.numeric_unpack):
 	header, digits = unpack(x)
+	if header[2] in numeric_constants:
+		return numeric_constants[header[2]]
 	npad = (header[3] - ((header[0] - (header[1] + 1)) * 4))
 	return Decimal((
 		numeric_signs.get(header[2], header[2]),
-- 
2.43.0


From 263e72219aeff9183433b3ece1a33e7cc21fd67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 15/49] fix: parameters: text format for types without
 conversions, UTF-8 xml, encodings' codecs

---
 postgresql/driver/pq3.py                |  2 +-
 postgresql/encodings/aliases.py         |  4 ++--
 postgresql/types/io/stdlib_xml_etree.py | 25 ++++++++++++++-----------
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 4671d1b..90df7ea 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1554,7 +1554,7 @@ class Statement(pg_api.Statement):
 			pack = (typio.resolve(x) or (None,None))[0]
 			packs.append(pack or typio.encode)
 			formats.append(
-				strfmt if x is None else binfmt
+				strfmt if pack is None else binfmt
 			)
 		self._input_io = tuple(packs)
 		self._input_formats = formats
diff --git a/postgresql/encodings/aliases.py b/postgresql/encodings/aliases.py
index 7f86830..84d3f15 100644
--- a/postgresql/encodings/aliases.py
+++ b/postgresql/encodings/aliases.py
@@ -21,8 +21,8 @@ postgres_to_python = {
 	'euc_jp' : 'eucjp',
 	'euc_cn' : 'euccn',
 	'euc_kr' : 'euckr',
-	'shift_jis_2004' : 'euc_jis_2004',
-	'sjis' : 'shift_jis',
+	'sjis' : 'cp932', # WIN932
+	'big5' : 'cp950', # WIN950
 	'alt' : 'cp866', # IBM866
 	'abc' : 'cp1258',
 	'vscii' : 'cp1258',
diff --git a/postgresql/types/io/stdlib_xml_etree.py b/postgresql/types/io/stdlib_xml_etree.py
index 52d56f7..0926cf3 100644
--- a/postgresql/types/io/stdlib_xml_etree.py
+++ b/postgresql/types/io/stdlib_xml_etree.py
@@ -1,6 +1,7 @@
 ##
 # types.io.stdlib_xml_etree
 ##
+import re
 try:
 	import xml.etree.cElementTree as etree
 except ImportError:
@@ -41,16 +42,24 @@ if not hasattr(etree, 'tostringlist'):
 			etree.ElementTree,
 		)
 else:
+	# The encoding declaration of a document; it has no meaning for a str.
+	_encoding_declaration = re.compile(
+		r"""^(<\?xml\s[^>]*?)\s+encoding\s*=\s*(?:"[^"]*"|'[^']*')"""
+	)
+
 	# New etree tostring API.
-	def xml_pack(xml, encoding, encoder,
+	def xml_pack(xml,
 		tostr = etree.tostring, et = etree.ElementTree,
 		str = str, isinstance = isinstance, tuple = tuple,
+		sub = _encoding_declaration.sub,
 	):
+		# The server reads documents without an encoding declaration
+		# as UTF-8, whatever the client encoding is.
 		if isinstance(xml, bytes):
 			return xml
 		if isinstance(xml, str):
 			# If it's a string, encode and return.
-			return encoder(xml)
+			return sub(r'\1', xml).encode('utf-8')
 		elif isinstance(xml, tuple):
 			# If it's a tuple, encode and return the joined items.
 			# We do not accept lists here--emphasizing lists being used for ARRAY
@@ -58,7 +67,7 @@ else:
 			##
 			# 3.2
 			# XXX: tostring doesn't include declaration with utf-8?
-			x = b''.join(
+			return b''.join(
 				x.encode('utf-8') if isinstance(x, str) else
 				tostr(x, encoding = "utf-8")
 				for x in xml
@@ -67,16 +76,10 @@ else:
 			##
 			# 3.2
 			# XXX: tostring doesn't include declaration with utf-8?
-			x = tostr(xml, encoding = "utf-8")
-		if encoding in ('utf8','utf-8'):
-			return x
-		else:
-			return encoder(x.decode('utf-8'))
+			return tostr(xml, encoding = "utf-8")
 
 	def xml_io_factory(typoid, typio, c = compose):
-		def local_xml_pack(x, encoder = typio.encode, typio = typio, xml_pack = xml_pack):
-			return xml_pack(x, typio.encoding, encoder)
-		return (local_xml_pack, c((typio.decode, xml_unpack)), etree.ElementTree,)
+		return (xml_pack, c((typio.decode, xml_unpack)), etree.ElementTree,)
 
 oid_to_io = {
 	XMLOID : xml_io_factory
-- 
2.43.0


From e79ea99350755bd9c6857de10abab5c4c48a55c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 16/49] fix: datetime: direction and seconds of zone offsets,
 any tzinfo for timetz, moments beyond the calendar in UTC, microseconds of
 float times

---
 postgresql/python/datetime.py          |  2 +-
 postgresql/types/io/lib.py             |  5 ++++-
 postgresql/types/io/stdlib_datetime.py | 11 +++++++----
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/postgresql/python/datetime.py b/postgresql/python/datetime.py
index 5844e33..529ce53 100644
--- a/postgresql/python/datetime.py
+++ b/postgresql/python/datetime.py
@@ -16,7 +16,7 @@ class FixedOffset(datetime.tzinfo):
 		self._tzname = tzname
 		self._offset = offset_in_seconds
 		self._offset_in_mins = offset_in_seconds // 60
-		self._td_offset = datetime.timedelta(0, self._offset_in_mins * 60)
+		self._td_offset = datetime.timedelta(0, offset_in_seconds)
 		self._dst = datetime.timedelta(0)
 
 	def utcoffset(self, offset_from):
diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index f9638c7..29308af 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -76,7 +76,10 @@ date_pack, date_unpack = long_pack, long_unpack
 def mktimetuple(ts, floor = floor):
 	'make a pair of (seconds, microseconds) out of the given double'
 	seconds = floor(ts)
-	return (int(seconds), int(1000000 * (ts - seconds)))
+	microseconds = int(round(1000000 * (ts - seconds)))
+	if microseconds == 1000000:
+		return (int(seconds) + 1, 0)
+	return (int(seconds), microseconds)
 
 def mktimetuple64(ts, divmod = divmod):
 	'make a pair of (seconds, microseconds) out of the given long'
diff --git a/postgresql/types/io/stdlib_datetime.py b/postgresql/types/io/stdlib_datetime.py
index 995e126..624a403 100644
--- a/postgresql/types/io/stdlib_datetime.py
+++ b/postgresql/types/io/stdlib_datetime.py
@@ -120,7 +120,9 @@ def timestamptz_pack(x,
 	"""
 	Create a (seconds, microseconds) pair from a `datetime.datetime` instance.
 	"""
-	x = (x.astimezone(UTC) - pg_epoch_datetime_utc)
+	if x.tzinfo is None:
+		x = x.astimezone(UTC)
+	x = (x - pg_epoch_datetime_utc)
 	return ((x.days * seconds_in_day) + x.seconds, x.microseconds)
 
 def timestamptz_unpack(seconds,
@@ -186,9 +188,10 @@ def timetz_pack(x,
 	Create a ((seconds, microseconds), timezone) tuple from a `datetime.time`
 	instance.
 	"""
-	td = x.tzinfo.utcoffset(x)
+	td = x.utcoffset()
 	seconds = (td.days * seconds_in_day + td.seconds)
-	return (time_pack(x), seconds)
+	# The server's timezone is the number of seconds *west* of UTC.
+	return (time_pack(x), -seconds)
 
 def timetz_unpack(tstz,
 	time_unpack = time_unpack,
@@ -199,7 +202,7 @@ def timetz_unpack(tstz,
 	tuple.
 	"""
 	t = time_unpack(tstz[0])
-	return t.replace(tzinfo = FixedOffset(tstz[1]))
+	return t.replace(tzinfo = FixedOffset(-tstz[1]))
 
 FloatTimes = False
 IntTimes = True
-- 
2.43.0


From b05ed63d2d5ff639196a3550fa4db707d8b72cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 17/49] fix: types: inet masks, MAC address texts, bit lookup,
 truth, slices and comparison of bit strings, division and directions of
 points and segments

---
 postgresql/types/bitwise.py       | 17 +++++++++++------
 postgresql/types/geometry.py      | 15 ++++++++++-----
 postgresql/types/io/lib.py        |  7 ++++++-
 postgresql/types/io/pg_network.py | 10 +++++++---
 4 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 018b762..70f501b 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -17,6 +17,8 @@ class Varbit(object):
 		if isinstance(data, bytes):
 			return typ.from_bits(len(data) * 8, data)
 		# str(), eg '00101100'
+		if not set(data) <= {'0', '1'}:
+			raise ValueError('invalid bit string %r' %(data,))
 		bits = len(data)
 		nbytes, remain = divmod(bits, 8)
 		bdata = [bytes((int(data[x:x+8], 2),)) for x in range(0, bits - remain, 8)]
@@ -41,8 +43,11 @@ class Varbit(object):
 		)
 
 	def __eq__(self, ob):
-		if not isinstance(ob, type(self)):
-			ob = type(self)(ob)
+		if not isinstance(ob, Varbit):
+			try:
+				ob = type(self)(ob)
+			except (TypeError, ValueError):
+				return NotImplemented
 		return ob.bits == self.bits and ob.data == self.data
 
 	def __len__(self):
@@ -63,18 +68,18 @@ class Varbit(object):
 			raise IndexError("bit index %d out of range" %(bitoffset,))
 
 		byte, bitofbyte = divmod(idx, 8)
-		if ord(self.data[byte]) & (1 << (7 - bitofbyte)):
+		if self.data[byte] & (1 << (7 - bitofbyte)):
 			return OneBit
 		else:
 			return ZeroBit
 
 	def __getitem__(self, item):
 		if isinstance(item, slice):
-			return type(self)(str(self)[item])
+			return Varbit(str(self)[item])
 		else:
 			return self.getbit(item)
 
-	def __nonzero__(self):
+	def __bool__(self):
 		for x in self.data:
 			if x != 0:
 				return True
@@ -89,7 +94,7 @@ class Bit(Varbit):
 
 		raise ValueError('unknown bit value %r, 0 or 1' %(ob,))
 
-	def __nonzero__(self):
+	def __bool__(self):
 		return self is OneBit
 
 	def __str__(self):
diff --git a/postgresql/types/geometry.py b/postgresql/types/geometry.py
index ba996e5..1776d76 100644
--- a/postgresql/types/geometry.py
+++ b/postgresql/types/geometry.py
@@ -39,12 +39,12 @@ class Point(tuple):
 		ry = (self[0] * wy) + (self[1] * wx)
 		return type(self)((rx, ry))
 
-	def __div__(self, ob):
+	def __truediv__(self, ob):
 		sx, sy = self
 		wx, wy = ob
 		div = (wx * wx) + (wy * wy)
 		rx = ((sx * wx) + (sy * wy)) / div
-		ry = ((wx * sy) + (wy * sx)) / div
+		ry = ((wx * sy) - (wy * sx)) / div
 		return type(self)((rx, ry))
 
 	def distance(self, ob, sqrt = math.sqrt):
@@ -70,6 +70,9 @@ class Lseg(tuple):
 			(s[0][1] + s[1][1]) / 2.0,
 		))
 	)
+	_direction = property(
+		fget = lambda s: (s[1][0] - s[0][0], s[1][1] - s[0][1])
+	)
 
 	def __new__(subtype, pair):
 		p1, p2 = pair
@@ -77,7 +80,7 @@ class Lseg(tuple):
 
 	def __repr__(self):
 		# Avoid the point representation
-		return '%s.%s(%s, %s)' %(
+		return '%s.%s((%s, %s))' %(
 			type(self).__module__,
 			type(self).__name__,
 			tuple.__repr__(self[0]),
@@ -93,10 +96,12 @@ class Lseg(tuple):
 		)
 
 	def parallel(self, ob):
-		return self.slope == type(self)(ob).slope
+		(ax, ay), (bx, by) = self._direction, type(self)(ob)._direction
+		return ax * by == ay * bx
 
 	def perpendicular(self, ob):
-		return (self.slope / type(self)(ob).slope) == -1.0
+		(ax, ay), (bx, by) = self._direction, type(self)(ob)._direction
+		return ax * bx == -(ay * by)
 
 class Box(tuple):
 	"""
diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index 29308af..a4fad6c 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -324,6 +324,9 @@ def macaddr_pack(data, bytes = bytes):
 	elif len(dash_parts) == 2:
 		mac_parts = [dash_parts[0][:2], dash_parts[0][2:4], dash_parts[0][4:],
 			dash_parts[1][:2], dash_parts[1][2:4], dash_parts[1][4:]]
+	elif len(dash_parts) == 3:
+		mac_parts = [dash_parts[0][:2], dash_parts[0][2:], dash_parts[1][:2],
+			dash_parts[1][2:], dash_parts[2][:2], dash_parts[2][2:]]
 	elif len(dot_parts) == 3:
 		mac_parts = [dot_parts[0][:2], dot_parts[0][2:], dot_parts[1][:2],
 			dot_parts[1][2:], dot_parts[2][:2], dot_parts[2][2:]]
@@ -331,7 +334,9 @@ def macaddr_pack(data, bytes = bytes):
 		mac_parts = [data[:2], data[2:4], data[4:6], data[6:8], data[8:10], data[10:]]
 	else:
 		raise ValueError('data string cannot be parsed to bytes')
-	if len(mac_parts) != 6 and len(mac_parts[-1]) != 2:
+	if len(mac_parts) != 6 or not all(
+		0 < len(p) < 3 and p.isalnum() for p in mac_parts
+	):
 		raise ValueError('data string cannot be parsed to bytes')
 	return bytes([int(p, 16) for p in mac_parts])
 
diff --git a/postgresql/types/io/pg_network.py b/postgresql/types/io/pg_network.py
index a74d5e1..d44edbc 100644
--- a/postgresql/types/io/pg_network.py
+++ b/postgresql/types/io/pg_network.py
@@ -8,9 +8,9 @@ oid_to_type = {
 	CIDROID: ipaddress._BaseNetwork,
 }
 
-def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_address):
+def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_interface):
 	a = Constructor(ob)
-	return pack((a.version, None, a.packed))
+	return pack((a.version, a.network.prefixlen, a.packed))
 
 def cidr_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_network):
 	a = Constructor(ob)
@@ -18,7 +18,11 @@ def cidr_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_network):
 
 def inet_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_address):
 	version, mask, data = unpack(data)
-	return Constructor(data)
+	a = Constructor(data)
+	if mask != a.max_prefixlen:
+		# A host in a network.
+		return ipaddress.ip_interface((a, mask))
+	return a
 
 def cidr_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_network):
 	version, mask, data = unpack(data)
-- 
2.43.0


From 4d3443304dbb725f87f5728ddd045d13f0298425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 18/49] fix: Array bounds given with elements, irregular
 nesting, and sub-array indexing

---
 postgresql/types/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 12b2543..061f757 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -261,6 +261,9 @@ class Array(object):
 		ndepth = depth + 1
 		if ndepth == len(dimensions):
 			# at the bottom
+			for x in hier:
+				if x.__class__ is list:
+					raise ValueError("list in place of an element at depth " + str(ndepth))
 			r = hier
 		else:
 			# go deeper
@@ -354,7 +357,7 @@ class Array(object):
 				upperbounds = ()
 				dimensions = ()
 			else:
-				upperbounds = (nelements,)
+				upperbounds = ((lowerbounds[0] if lowerbounds else 1) + nelements - 1,)
 				dimensions = (nelements,)
 
 		# consistency..
@@ -530,8 +533,10 @@ class Array(object):
 		else:
 			# get a sub-array
 			l = len(self)
-			if item > l:
-				raise IndexError("index {0} is out of range".format(l))
+			if not -l <= item < l:
+				raise IndexError("index {0} is out of range".format(item))
+			if item < 0:
+				item += l
 			return self.__class__.from_elements(
 				self._elements[self._weight*item:self._weight*(item+1)],
 				lowerbounds = self.lowerbounds[1:],
-- 
2.43.0


From 2f9bf7813b1090df6adbba627a78b99e9da1e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 19/49] fix: Row.get() default and bounds; rows with duplicate
 names; rows of named cursors

---
 postgresql/driver/pq3.py       | 2 +-
 postgresql/types/__init__.py   | 8 ++++----
 postgresql/types/namedtuple.py | 7 ++++---
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 90df7ea..2f03857 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1117,7 +1117,7 @@ class Cursor(Output, pg_api.Cursor):
 				if m.type == tupledesc:
 					typio = self.database.typio
 					self._output = m
-					self._output_attmap = typio.attribute_map(self._output)
+					self._output_attmap = dict(typio.attribute_map(self._output))
 					self._row_constructor = typio.RowTypeFactory(self._output_attmap)
 					# tuple output
 					self._output_io = typio.resolve_descriptor(
diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 061f757..a9ed527 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -577,10 +577,10 @@ class Row(tuple):
 		idx = self.keymap[i]
 		return gi(self, idx)
 
-	def get(self, i, gi = tuple.__getitem__, len = len):
-		if type(i) is int:
+	def get(self, i, default = None, gi = tuple.__getitem__, len = len):
+		if isinstance(i, int):
 			l = len(self)
-			if -l < i < l:
+			if -l <= i < l:
 				return gi(self, i)
 		else:
 			idx = self.keymap.get(i)
@@ -595,7 +595,7 @@ class Row(tuple):
 		return iter(self)
 
 	def items(self):
-		return zip(iter(self.column_names), iter(self))
+		return ((k, tuple.__getitem__(self, self.keymap[k])) for k in self.column_names)
 
 	def index_from_key(self, key):
 		return self.keymap.get(key)
diff --git a/postgresql/types/namedtuple.py b/postgresql/types/namedtuple.py
index 96b4658..e98df10 100644
--- a/postgresql/types/namedtuple.py
+++ b/postgresql/types/namedtuple.py
@@ -39,9 +39,10 @@ def NamedTupleFactory(attribute_map, composite_relid = None):
 	And **all** Rows produced by that connection will be namedtuple()'s.
 	This includes composites.
 	"""
-	colnames = list(attribute_map.items())
-	colnames.sort(key = lambda x: x[1])
-	return lambda y: _factory((x[0] for x in colnames))(*y)
+	names = {v: k for k, v in attribute_map.items()}
+	# A name used by many columns maps to the last; the others get renamed.
+	colnames = [names.get(i, '') for i in range(max(names, default = -1) + 1)]
+	return lambda y: _factory(colnames)(*y)
 
 from itertools import chain, starmap
 
-- 
2.43.0


From 0e729aa20f9d54061035254481284c9951d8b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 20/49] fix: column errors and NULLs in column() and first();
 Python types of columns

---
 postgresql/driver/pq3.py              | 18 ++++++++----------
 postgresql/types/io/contrib_hstore.py |  2 +-
 postgresql/types/io/pg_system.py      |  8 ++++----
 postgresql/types/io/stdlib_uuid.py    |  2 +-
 4 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 2f03857..19d2943 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -213,9 +213,7 @@ class TypeIO(pg_api.TypeIO):
 			return None
 
 	def type_from_oid(self, oid):
-		if oid in self._cache:
-			typ = self._cache[oid][2]
-		return typ
+		return self.resolve(oid)[2]
 
 	def resolve_descriptor(self, desc, index):
 		"""
@@ -496,7 +494,7 @@ class TypeIO(pg_api.TypeIO):
 
 			return process_tuple(column_unpack, data, raise_unpack_tuple_error)
 
-		return (None, _unpack_record)
+		return (None, _unpack_record, tuple)
 
 	def raise_client_error(self, error_message, cause = None, creator = None):
 		m = {
@@ -748,7 +746,7 @@ class Output(object):
 		return x
 
 	# Process the element.Tuple message in x for column()
-	def _process_tuple_chunk_Column(self, x, range = range):
+	def _process_tuple_chunk_Column(self, x):
 		unpack = self._output_io[0]
 		# get the raw data for the first column
 		l = [y[0] for y in x]
@@ -794,7 +792,7 @@ class Output(object):
 					itemnum,
 					self.column_names[itemnum],
 					self.database.typio.sql_type_from_oid(
-						self.statement.pg_column_types[itemnum]
+						self.pg_column_types[itemnum]
 					) or '<unknown>',
 				)
 			),
@@ -1700,10 +1698,10 @@ class Statement(pg_api.Statement):
 				)
 			else:
 				# Single column output.
-				if xt[0] is None:
-					return None
-				io = self._output_io[0] or self.database.typio.decode
-				return io(xt[0])
+				return process_tuple(
+					self._output_io, xt,
+					self._raise_column_tuple_error
+				)[0]
 		else:
 			##
 			# It doesn't return rows, so return a count.
diff --git a/postgresql/types/io/contrib_hstore.py b/postgresql/types/io/contrib_hstore.py
index 9279863..8df50bf 100644
--- a/postgresql/types/io/contrib_hstore.py
+++ b/postgresql/types/io/contrib_hstore.py
@@ -44,5 +44,5 @@ def hstore_factory(oid, typio,
 	return (pack_hstore, unpack_hstore)
 
 oid_to_io = {
-	'contrib_hstore' : hstore_factory,
+	'contrib_hstore' : lambda oid, typio: hstore_factory(oid, typio) + (dict,),
 }
diff --git a/postgresql/types/io/pg_system.py b/postgresql/types/io/pg_system.py
index 70ce964..efc6503 100644
--- a/postgresql/types/io/pg_system.py
+++ b/postgresql/types/io/pg_system.py
@@ -2,9 +2,9 @@ from ...types import OIDOID, XIDOID, CIDOID, TIDOID
 from . import lib
 
 oid_to_io = {
-	OIDOID : (lib.oid_pack, lib.oid_unpack),
-	XIDOID : (lib.xid_pack, lib.xid_unpack),
-	CIDOID : (lib.cid_pack, lib.cid_unpack),
-	TIDOID : (lib.tid_pack, lib.tid_unpack),
+	OIDOID : (lib.oid_pack, lib.oid_unpack, int),
+	XIDOID : (lib.xid_pack, lib.xid_unpack, int),
+	CIDOID : (lib.cid_pack, lib.cid_unpack, int),
+	TIDOID : (lib.tid_pack, lib.tid_unpack, tuple),
 	#ACLITEMOID : (aclitem_pack, aclitem_unpack),
 }
diff --git a/postgresql/types/io/stdlib_uuid.py b/postgresql/types/io/stdlib_uuid.py
index 3fc33b9..6b8879a 100644
--- a/postgresql/types/io/stdlib_uuid.py
+++ b/postgresql/types/io/stdlib_uuid.py
@@ -10,5 +10,5 @@ def uuid_unpack(x, UUID = uuid.UUID):
 	return UUID(bytes=x)
 
 oid_to_io = {
-	UUIDOID : (uuid_pack, uuid_unpack),
+	UUIDOID : (uuid_pack, uuid_unpack, uuid.UUID),
 }
-- 
2.43.0


From 03e11a026bebaf8465ec084577bc3e26db76e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 21/49] fix: rows() and chunks() of non-query statements
 returning rows, and of statements from identifiers, outside a transaction

---
 postgresql/driver/pq3.py     | 35 +++++++++++++++++++++--------------
 postgresql/types/__init__.py |  4 +++-
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 19d2943..1aecc3e 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -5,6 +5,7 @@
 PG-API interface for PostgreSQL using PQ version 3.0.
 """
 import os
+import re
 import weakref
 import socket
 from traceback import format_exception
@@ -750,18 +751,15 @@ class Output(object):
 		unpack = self._output_io[0]
 		# get the raw data for the first column
 		l = [y[0] for y in x]
-		# iterate over the range to keep track
-		# of which item we're processing.
-		r = range(len(l))
-		try:
-			return [unpack(l[i]) for i in r]
-		except Exception:
-			cause = sys.exc_info()[1]
+		# keep track of which item we're processing.
+		r = []
 		try:
-			i = next(r)
-		except StopIteration:
-			i = len(l)
-		self._raise_column_tuple_error(cause, self._output_io, (l[i],), 0)
+			for y in l:
+				r.append(y if y is None else unpack(y))
+			return r
+		except Exception as err:
+			cause = err
+		self._raise_column_tuple_error(cause, self._output_io, (l[len(r)],), 0)
 
 	# Process the element.Tuple message in x for rows()
 	def _process_tuple_chunk_Row(self, x,
@@ -971,6 +969,7 @@ class SingleXactCopy(FetchAll):
 
 class SingleXactFetch(FetchAll):
 	_expect = element.Tuple.type
+	_process_chunk = FetchAll._process_tuple_chunk
 
 class MultiXactStream(Chunks):
 	chunksize = 1024 * 4
@@ -1604,6 +1603,14 @@ class Statement(pg_api.Statement):
 		return chain.from_iterable(chunks)
 	__iter__ = rows
 
+	def _declarable(self,
+		match = re.compile(r'(?:[\s(]|--[^\n]*|/\*.*?\*/)*([a-z]+)', re.I | re.S).match
+	):
+		# Whether a cursor may be declared for the statement:
+		# INSERT RETURNING, SHOW, EXPLAIN, etc, return rows, but are no queries.
+		m = match(str(self.string))
+		return m is None or m.group(1).upper() in ('SELECT', 'VALUES', 'TABLE', 'WITH')
+
 	def chunks(self, *parameters):
 		if self.closed is None:
 			self._fini()
@@ -1620,12 +1627,12 @@ class Statement(pg_api.Statement):
 			# Currently, *not* in a Transaction block, so
 			# DECLARE the statement WITH HOLD in order to allow
 			# access across transactions.
-			if self.string is not None:
+			if self.string is not None and self._declarable():
 				return MultiXactOutsideBlock(self, parameters, None)
 			else:
 				##
-				# Statement source unknown, so it can't be DECLARE'd.
-				# This happens when statement_from_id is used.
+				# Statement source unknown, or not a query, so it can't be DECLARE'd.
+				# The former happens when statement_from_id is used.
 				return SingleXactFetch(self, parameters)
 		else:
 			# Likely, the best possible case. It gets to use Execute messages.
diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index a9ed527..e63e57c 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -268,6 +268,8 @@ class Array(object):
 		else:
 			# go deeper
 			for x in hier:
+				if x.__class__ is not list:
+					raise ValueError("element in place of a list at depth " + str(ndepth))
 				r.extend(typ.unroll_nest(x, dimensions, ndepth))
 		return r
 
@@ -586,7 +588,7 @@ class Row(tuple):
 			idx = self.keymap.get(i)
 			if idx is not None:
 				return gi(self, idx)
-		return None
+		return default
 
 	def keys(self):
 		return self.keymap.keys()
-- 
2.43.0


From 524d1b8926d50537770a60ab22a5ab12adc4df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 22/49] fix: Cursor.seek() directions and unknown whence

---
 postgresql/driver/pq3.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 1aecc3e..bdc9369 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1062,7 +1062,7 @@ class MultiXactOutsideBlock(MultiXactStream):
 class Cursor(Output, pg_api.Cursor):
 	_process_tuple = Output._process_tuple_chunk_Row
 	def _e_metas(self):
-		yield ('direction', 'FORWARD' if self.direction else 'BACKWORD')
+		yield ('direction', 'FORWARD' if self.direction else 'BACKWARD')
 		yield ('type', 'Cursor')
 
 	def clone(self):
@@ -1156,7 +1156,7 @@ class Cursor(Output, pg_api.Cursor):
 
 	def seek(self, offset, whence = 'ABSOLUTE'):
 		rwhence = self._seek_whence_map.get(whence, whence)
-		if rwhence is None or rwhence.upper() not in \
+		if not isinstance(rwhence, str) or rwhence.upper() not in \
 		self._seek_whence_map.values():
 			raise TypeError(
 				"unknown whence parameter, %r" %(whence,)
@@ -1165,22 +1165,22 @@ class Cursor(Output, pg_api.Cursor):
 
 		if offset == 'ALL':
 			if rwhence not in ('BACKWARD', 'FORWARD'):
-				rwhence = 'BACKWARD' if self.direction is False else 'FORWARD'
-		else:
-			if offset < 0 and rwhence == 'BACKWARD':
-				offset = -offset
 				rwhence = 'FORWARD'
 
-			if self.direction is False:
-				if offset == 'ALL' and rwhence != 'FORWARD':
-					rwhence = 'BACKWARD'
-				else:
-					if rwhence == 'RELATIVE':
-						offset = -offset
-					elif rwhence == 'ABSOLUTE':
-						rwhence = 'FROM_END'
-					else:
-						rwhence = 'ABSOLUTE'
+		if self.direction is False:
+			if rwhence == 'RELATIVE':
+				offset = -offset
+			else:
+				rwhence = {
+					'ABSOLUTE' : 'FROM_END',
+					'FROM_END' : 'ABSOLUTE',
+					'FORWARD' : 'BACKWARD',
+					'BACKWARD' : 'FORWARD',
+				}[rwhence]
+
+		if offset != 'ALL' and offset < 0 and rwhence == 'BACKWARD':
+			offset = -offset
+			rwhence = 'FORWARD'
 
 		if rwhence in ('RELATIVE', 'BACKWARD', 'FORWARD'):
 			if offset == 'ALL':
-- 
2.43.0


From 9ea2273d7e717056a981673405c2aa87e22de27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 23/49] fix: transactions roll back for every exception and
 when a pending operation fails

---
 postgresql/driver/pq3.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index bdc9369..6c5f160 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2130,6 +2130,14 @@ class Transaction(pg_api.Transaction):
 
 	def __exit__(self, typ, value, tb):
 		if typ is None:
+			if not self.database.closed:
+				# An operation that is still in progress may fail yet.
+				try:
+					self.database._pq_complete()
+				except Exception:
+					if not self.database.closed:
+						self.rollback()
+					raise
 			# No exception, but in a failed transaction?
 			if self.database.pq.state == b'E':
 				if not self.database.closed:
@@ -2154,7 +2162,7 @@ class Transaction(pg_api.Transaction):
 						self.state = 'open'
 						self.rollback()
 					raise
-		elif issubclass(typ, Exception):
+		else:
 			# There's an exception, so only rollback if the connection
 			# exists. If the rollback() was called here, it would just
 			# contribute noise to the error.
@@ -2255,6 +2263,10 @@ class Transaction(pg_api.Transaction):
 			q = self._rollback_to_string(hex(id(self)))
 		else:
 			raise RuntimeError("unknown transaction type " + repr(self.type))
+		if self.database.pq.xact is not None:
+			# The failure of an operation still in progress is not
+			# to be taken for one of the rollback.
+			self.database.pq.complete()
 		self.database.execute(q)
 		self.state = 'aborted'
 	abort = rollback
-- 
2.43.0


From 7df0607375b1dc37eb1da34c6f7e33673d71d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:49 +0000
Subject: [PATCH 24/49] fix: rows() and chunks() outside a transaction execute
 their query once; locking and modifying queries

---
 postgresql/driver/pq3.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6c5f160..0cb6caf 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -89,6 +89,8 @@ def declare_statement_string(
 		s += ' INSENSITIVE'
 	if scroll is True:
 		s += ' SCROLL'
+	elif scroll is False:
+		s += ' NO SCROLL'
 	s += ' CURSOR'
 	if hold is True:
 		s += ' WITH HOLD'
@@ -690,12 +692,13 @@ class Output(object):
 			element.Execute(b'', 0xFFFFFFFF),
 		)
 
-	def _pq_xp_declare(self):
+	def _pq_xp_declare(self, scroll = True):
 		return (
 			element.Parse(b'', self.database.typio.encode(
 					declare_statement_string(
 						str(self._quoted_cursor_id),
-						str(self.statement.string)
+						str(self.statement.string),
+						scroll = scroll
 					)
 				), ()
 			),
@@ -1044,7 +1047,10 @@ class MultiXactInsideBlock(MultiXactStream):
 # The cursor is streamed to the client on demand *outside* of
 # a single SQL transaction block. [DECLARE ... WITH HOLD]
 class MultiXactOutsideBlock(MultiXactStream):
-	_bind = MultiXactStream._pq_xp_declare
+	def _bind(self):
+		# NO SCROLL: a scrollable cursor is executed again, from its
+		# beginning, when its transaction ends after the first fetch.
+		return self._pq_xp_declare(scroll = False)
 
 	def _fetch(self):
 		##
@@ -1604,12 +1610,18 @@ class Statement(pg_api.Statement):
 	__iter__ = rows
 
 	def _declarable(self,
-		match = re.compile(r'(?:[\s(]|--[^\n]*|/\*.*?\*/)*([a-z]+)', re.I | re.S).match
+		match = re.compile(r'(?:[\s(]|--[^\n]*|/\*.*?\*/)*([a-z]+)', re.I | re.S).match,
+		unheld = re.compile(r'\b(?:UPDATE|SHARE|INSERT|DELETE|MERGE)\b', re.I).search,
 	):
 		# Whether a cursor may be declared for the statement:
-		# INSERT RETURNING, SHOW, EXPLAIN, etc, return rows, but are no queries.
-		m = match(str(self.string))
-		return m is None or m.group(1).upper() in ('SELECT', 'VALUES', 'TABLE', 'WITH')
+		# INSERT RETURNING, SHOW, EXPLAIN, etc, return rows, but are no queries;
+		# and queries that lock or modify rows cannot be held.
+		string = str(self.string)
+		m = match(string)
+		return m is None or (
+			m.group(1).upper() in ('SELECT', 'VALUES', 'TABLE', 'WITH')
+			and unheld(string) is None
+		)
 
 	def chunks(self, *parameters):
 		if self.closed is None:
-- 
2.43.0


From 8e2dcb5967dac35f5b75e984345baa82185b4998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 25/49] fix: escape character errors have classes of their own

---
 postgresql/exceptions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postgresql/exceptions.py b/postgresql/exceptions.py
index 5d71d01..364261e 100644
--- a/postgresql/exceptions.py
+++ b/postgresql/exceptions.py
@@ -583,6 +583,9 @@ class CastCharacterValueError(DataError):
 	code = '22018'
 
 class EscapeCharacterError(DataError):
+	"""
+	Invalid escape character.
+	"""
 	code = '22019'
 class EscapeOctetError(DataError):
 	code = '2200D'
@@ -590,9 +593,9 @@ class EscapeSequenceError(DataError):
 	code = '22025'
 class EscapeCharacterConflictError(DataError):
 	code = '2200B'
-class EscapeCharacterError(DataError):
+class EscapeCharacterUseError(DataError):
 	"""
-	Invalid escape character.
+	Invalid use of escape character.
 	"""
 	code = '2200C'
 
-- 
2.43.0


From da8a0e0697140611884dc48d7ec3dce6d3bd1144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 26/49] fix: warnings of servers with localized severities

---
 postgresql/driver/pq3.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 0cb6caf..62eeaad 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -579,7 +579,13 @@ class TypeIO(pg_api.TypeIO):
 		m = fields.pop('message')
 		c = fields.pop('code')
 
-		if fields['severity'].upper() == 'WARNING':
+		# The severity field is localized, prefer the one that is not. (9.6+)
+		severity = message.get(b'V')
+		if severity is not None:
+			severity = severity.decode('ascii', 'replace')
+		else:
+			severity = fields.get('severity', '')
+		if severity.upper() == 'WARNING':
 			MessageType = self.lookup_warning(c)
 
 		message = MessageType(m, code = c, details = fields,
-- 
2.43.0


From 4838353c996f795739aa07eef4d2bb4f58408fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:44 +0000
Subject: [PATCH 27/49] fix: errors are raised once, and operations on lost
 connections say so

---
 postgresql/driver/pq3.py | 41 ++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 62eeaad..730ce2a 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -944,6 +944,10 @@ class FetchAll(Chunks):
 		# fatal is True == dead connection
 		# fatal is False == dead transaction
 		if x.fatal is not None:
+			# Don't leave the failed transaction behind, or the next operation
+			# would raise the error again.
+			if self.database.pq.xact is x:
+				self.database._pq_complete()
 			self.database.typio.raise_error(x.error_message, creator = getattr(self, '_controller', self) or self)
 
 		# no messages to process?
@@ -2642,15 +2646,37 @@ class Connection(pg_api.Connection):
 
 		super().connect()
 
-	def _pq_push(self, xact, controller = None):
+	# The fatal protocol transaction whose error has been raised.
+	_lost = None
+
+	def _pq_push(self, xact, controller = None, closing = globals()['xact'].Closing):
 		x = self.pq.xact
 		if x is not None:
 			self.pq.complete()
-			if x.fatal is not None:
-				self.typio.raise_error(x.error_message)
+			if x is self._lost:
+				# The error that ended the connection was raised already.
+				self.typio.raise_client_error(
+					closing.error_message, creator = controller
+				)
+			self._pq_finished(x)
 		if controller is not None:
 			self._controller = controller
 		self.pq.push(xact)
+		x = self.pq.xact
+		if x is not None and x is not xact:
+			# It was not pushed, closing the garbage found the connection lost.
+			self._pq_finished(x)
+
+	# The protocol transaction is complete, raise an error *iff* one occurred.
+	def _pq_finished(self, x):
+		try:
+			if x.fatal is not None:
+				if x.fatal is True:
+					self._lost = x
+				self.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None))
+		finally:
+			# It's not the source of the messages to come.
+			self.__dict__.pop('_controller', None)
 
 	# Complete the current protocol transaction.
 	def _pq_complete(self):
@@ -2659,10 +2685,7 @@ class Connection(pg_api.Connection):
 		if x is not None:
 			# There is a running transaction, finish it.
 			pq.complete()
-			# Raise an error *iff* one occurred.
-			if x.fatal is not None:
-				self.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None))
-			del self._controller
+			self._pq_finished(x)
 
 	# Process the next message.
 	def _pq_step(self, complete_state = globals()['xact'].Complete):
@@ -2673,9 +2696,7 @@ class Connection(pg_api.Connection):
 			# If the protocol transaction was completed by
 			# the last step, raise the error *iff* one occurred.
 			if x.state is complete_state:
-				if x.fatal is not None:
-					self.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None))
-				del self._controller
+				self._pq_finished(x)
 
 	def _receive_async(self,
 			msg, controller = None,
-- 
2.43.0


From 37a9b821b43c84a01e8150efdd0f990e500c1840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 28/49] fix: cancelling waits until the server has processed
 the request

---
 postgresql/protocol/client3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 5512a40..056fffa 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -112,6 +112,10 @@ class Connection(object):
 		s = self.socket_factory(timeout = timeout)
 		try:
 			s.sendall(cq)
+			# The server closes the connection once the request is processed;
+			# without waiting for that, a later operation may be interrupted.
+			while s.recv(16):
+				pass
 		finally:
 			s.close()
 
-- 
2.43.0


From 03aa48029137eac994745c5ab202934c31813cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 29/49] fix: large loads do not deadlock with the server's own
 messages

---
 postgresql/copyman.py          |  8 +++++++-
 postgresql/protocol/client3.py | 35 ++++++++++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index a0fcded..b7c232f 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -577,7 +577,13 @@ class StatementReceiver(ProtocolReceiver):
 		self.statement = statement
 		self.parameters = parameters
 		self.xact = None
-		super().__init__(statement.database.pq.socket.send,)
+		super().__init__(self._send)
+
+	def _send(self, view):
+		pq = self.statement.database.pq
+		# The server may be sending messages about the data that it got.
+		pq.wait_for_send()
+		return pq.socket.send(view[:pq.sendsize])
 
 	# XXX: A bit of a hack...
 	# This is actually a good indication that statements need a .copy()
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 056fffa..b7bb449 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -6,6 +6,10 @@ Protocol version 3.0 client and tools.
 """
 import os
 import weakref
+try:
+	from select import poll, POLLIN, POLLOUT
+except ImportError:
+	poll = None
 from .buffer import pq_message_stream
 from . import element3 as element
 from . import xact3 as xact
@@ -303,6 +307,25 @@ class Connection(object):
 		return r
 	read_messages = standard_read_messages
 
+	def wait_for_send(self):
+		"""
+		Wait until the socket takes data.
+
+		The server may not read any more before the messages that it's sending
+		are received, so keep those in the message buffer.
+		"""
+		fd = self.socket.fileno()
+		if poll is None or fd < 0 or self.socket.gettimeout() is not None:
+			return
+		p = poll()
+		p.register(fd, POLLIN|POLLOUT)
+		while not p.poll()[0][1] & ~POLLIN:
+			data = self.socket.recv(self.recvsize)
+			if not data:
+				# It's over, let send() find out.
+				break
+			self.message_buffer.write(data)
+
 	def send_message_data(self):
 		"""
 		send all `message_data`.
@@ -311,12 +334,13 @@ class Connection(object):
 		is fatal or not.
 		"""
 		SEND_DATA = self.socket.send
+		data = memoryview(self.message_data)
+		sent = 0
 		try:
-			while self.message_data:
+			while sent < len(data):
 				# Send data while there is data to send.
-				self.message_data = self.message_data[
-					SEND_DATA(self.message_data):
-				]
+				self.wait_for_send()
+				sent += SEND_DATA(data[sent:sent+self.sendsize])
 		except self.socket_factory.fatal_exception as e:
 			msg = self.socket_factory.fatal_exception_message(e)
 			if msg is not None:
@@ -333,6 +357,8 @@ class Connection(object):
 			else:
 				# It wasn't fatal, so just raise
 				raise
+		finally:
+			self.message_data = self.message_data[sent:]
 		return True
 
 	def standard_write_messages(self, messages,
@@ -574,6 +600,7 @@ class Connection(object):
 
 		self.message_buffer = pq_message_stream()
 		self.recvsize = 8192
+		self.sendsize = 8192
 
 		self.read = ()
 		# bytes received.
-- 
2.43.0


From 22d192c804e604394202e4fcdf403203faf77781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 30/49] fix: a COPY FROM STDIN that is interrupted or whose
 data fails ends

---
 postgresql/driver/pq3.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 730ce2a..bd9f6f9 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1793,14 +1793,34 @@ class Statement(pg_api.Statement):
 			))
 			self.database.typio.raise_client_error(x.error_message, creator = self)
 
-		for chunk in chunks:
-			x.messages = list(chunk)
-			while x.messages is not x.CopyFailSequence:
-				# Continue stepping until the transaction
-				# sets the CopyFailSequence again. That's
-				# the signal that the transaction has sent
-				# all the previously set messages.
-				step()
+		try:
+			for chunk in chunks:
+				messages = list(chunk)
+				for y in messages:
+					if y.__class__ is not bytes:
+						raise TypeError(
+							"COPY data must be bytes, given %r" %(
+								y.__class__.__name__,
+							)
+						)
+				if self.database.pq.xact is not x:
+					# Another operation interrupted the COPY.
+					break
+				x.messages = messages
+				while x.messages is not x.CopyFailSequence:
+					# Continue stepping until the transaction
+					# sets the CopyFailSequence again. That's
+					# the signal that the transaction has sent
+					# all the previously set messages.
+					step()
+			if self.database.pq.xact is not x:
+				self.database.typio.raise_error(x.error_message, creator = self)
+		except Exception:
+			# The COPY is not to be completed, and the server's
+			# agreement is not for the next operation to report.
+			if self.database.pq.xact is x:
+				self.database.pq.complete()
+			raise
 		x.messages = x.CopyDoneSequence
 		self.database._pq_complete()
 		self.database.pq.synchronize()
-- 
2.43.0


From 5f70a189da3c09bc829a6635b10bbec269953b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 31/49] fix: receivers do not keep the data of incomplete
 copies

---
 postgresql/copyman.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index b7c232f..6d2dd86 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -717,6 +717,10 @@ class CopyManager(Element, Iterator):
 			# Don't bother, it's an interrupt or sufficient resources.
 			return
 
+		# Realignment runs the producer's iterator, so take note
+		# of whether it's complete beforehand.
+		complete = typ is None and self._seen_stop_iteration
+
 		profail = None
 		try:
 			# Does nothing if the COPY was successful.
@@ -743,6 +747,11 @@ class CopyManager(Element, Iterator):
 		if not self.receivers:
 			raise CopyFail(self, "no receivers", producer_fault = profail)
 
+		if typ is None and (profail is not None or not complete):
+			# The receivers must not keep incomplete data.
+			val = profail if profail is not None else CopyFail(self)
+			typ = type(val)
+
 		exit_faults = {}
 		for x in self.receivers:
 			try:
@@ -750,7 +759,7 @@ class CopyManager(Element, Iterator):
 			except Exception as e:
 				exit_faults[x] = e
 
-		if typ or exit_faults or profail or not self._seen_stop_iteration:
+		if typ or exit_faults:
 			raise CopyFail(self,
 				"could not complete the COPY operation",
 				receiver_faults = exit_faults or None,
-- 
2.43.0


From 345801f52047bd6f251bc95078f1511db6cc0c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 32/49] fix: statements whose preparation could not be sent are
 closed

---
 postgresql/driver/pq3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index bd9f6f9..930db6b 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1518,7 +1518,12 @@ class Statement(pg_api.Statement):
 			)
 		)
 		self._xact = xact.Instruction(cmd, asynchook = self.database._receive_async)
-		self.database._pq_push(self._xact, self)
+		try:
+			self.database._pq_push(self._xact, self)
+		except Exception:
+			# There's nothing for _fini() to complete.
+			self.closed = True
+			raise
 
 	def _fini(self, strfmt = element.StringFormat, binfmt = element.BinaryFormat):
 		"""
-- 
2.43.0


From 5ab41e172b1575184b642dbdcb23752016a47d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 33/49] fix: settings mirror the server's, SHOW's forms and any
 spelling included

---
 postgresql/driver/pq3.py  | 41 ++++++++++++++++++++++++++-------------
 postgresql/lib/libsys.sql | 16 +++++++++++++--
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 930db6b..dd1c39b 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1999,6 +1999,11 @@ class SettingsCM(object):
 		self.database.settings.update(self.settings_to_set)
 
 	def __exit__(self, typ, val, tb):
+		if typ is not None and (
+			self.database.closed or self.database.pq.state == b'E'
+		):
+			# There's nothing to restore, or the transaction's rollback will.
+			return
 		self.database.settings.update(self.stored_settings)
 
 class Settings(pg_api.Settings):
@@ -2014,15 +2019,23 @@ class Settings(pg_api.Settings):
 	def _clear_cache(self):
 		self.cache.clear()
 
-	def __getitem__(self, i):
+	# Only the settings that the server reports are kept in the cache;
+	# it doesn't tell about changes of the others.
+	def _show(self, i):
 		v = self.cache.get(i)
 		if v is None:
-			r = self.database.sys.setting_get(i)
-
-			if r:
-				v = r[0][0]
+			if self.database.version_info[:2] >= (9,6):
+				v = self.database.sys.setting_show(i)
 			else:
-				raise KeyError(i)
+				r = self.database.sys.setting_get(i)
+				if r:
+					v = r[0][0]
+		return v
+
+	def __getitem__(self, i):
+		v = self._show(i)
+		if v is None:
+			raise KeyError(i)
 		return v
 
 	def __setitem__(self, i, v):
@@ -2046,16 +2059,14 @@ class Settings(pg_api.Settings):
 
 	def path():
 		def fget(self):
-			return pg_str.split_ident(self["search_path"])
+			path = self["search_path"]
+			return pg_str.split_ident(path) if path.strip() else []
 		def fset(self, value):
 			self['search_path'] = ','.join([
 				'"%s"' %(x.replace('"', '""'),) for x in value
 			])
 		def fdel(self):
-			if self.database.connector.path is not None:
-				self.path = self.database.connector.path
-			else:
-				self.database.execute("RESET search_path")
+			self.database.execute("RESET search_path")
 		doc = 'structured search_path interface'
 		return locals()
 	path = property(**path())
@@ -2084,8 +2095,10 @@ class Settings(pg_api.Settings):
 				rkeys.append(k)
 
 		if rkeys:
-			r = self.database.sys.setting_mget(rkeys)
-			self.cache.update(r)
+			if self.database.version_info[:2] >= (9,6):
+				r = self.database.sys.setting_mshow(rkeys)
+			else:
+				r = self.database.sys.setting_mget(rkeys)
 			setmap.update(r)
 			rem = set(rkeys) - set([x['name'] for x in r])
 			if rem:
@@ -2104,7 +2117,7 @@ class Settings(pg_api.Settings):
 
 	def update(self, d):
 		kvl = [list(x) for x in dict(d).items()]
-		self.cache.update(self.database.sys.setting_update(kvl))
+		self.database.sys.setting_update(kvl)
 
 	def _notify(self, msg):
 		subs = getattr(self, '_subscriptions', {})
diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index df3cd00..689c1fc 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -130,6 +130,16 @@ SELECT statement FROM pg_catalog.pg_prepared_statements WHERE name = $1
 [setting_get]
 SELECT setting FROM pg_catalog.pg_settings WHERE name = $1
 
+[setting_show::first]
+-- 9.6 and greater
+SELECT pg_catalog.current_setting($1, true)
+
+[setting_mshow]
+-- 9.6 and greater
+SELECT name, pg_catalog.current_setting(name, true) AS setting
+FROM pg_catalog.unnest($1::text[]) AS x(name)
+WHERE pg_catalog.current_setting(name, true) IS NOT NULL
+
 [setting_set::first]
 SELECT pg_catalog.set_config($1, $2, false)
 
@@ -146,10 +156,12 @@ SELECT name, setting FROM pg_catalog.pg_settings WHERE name = ANY ($1)
 SELECT name FROM pg_catalog.pg_settings ORDER BY name
 
 [setting_values]
-SELECT setting FROM pg_catalog.pg_settings ORDER BY name
+SELECT pg_catalog.current_setting(name) AS setting
+FROM pg_catalog.pg_settings ORDER BY name
 
 [setting_items]
-SELECT name, setting FROM pg_catalog.pg_settings ORDER BY name
+SELECT name, pg_catalog.current_setting(name) AS setting
+FROM pg_catalog.pg_settings ORDER BY name
 
 [setting_update]
 SELECT
-- 
2.43.0


From 1279e03e9754412bdc8df2ca9c2c334abb1defdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 34/49] fix: LISTEN and UNLISTEN use the channel names as given

---
 postgresql/driver/pq3.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index dd1c39b..914652c 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2800,18 +2800,21 @@ class Connection(pg_api.Connection):
 		qstr = ''
 		for x in channels:
 			# XXX: hardcoded identifier length?
-			if len(x) > 63:
+			if len(x.encode('utf-8')) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; LISTEN ' + x.replace('"', '""')
+			qstr += '; LISTEN ' + '"' + x.replace('"', '""') + '"'
 		return self.execute(qstr)
 
 	def unlisten(self, *channels, len = len):
 		qstr = ''
 		for x in channels:
 			# XXX: hardcoded identifier length?
-			if len(x) > 63:
+			if len(x.encode('utf-8')) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; UNLISTEN ' + x.replace('"', '""')
+			qstr += '; UNLISTEN ' + (
+				# All of them.
+				x if x == '*' else '"' + x.replace('"', '""') + '"'
+			)
 		return self.execute(qstr)
 
 	def iternotifies(self, timeout = None):
-- 
2.43.0


From 640818834547ffa3f427e5e326d6905cac39d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 35/49] fix: notifications received before a client_encoding
 change are decoded

---
 postgresql/driver/pq3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 914652c..d5d28bb 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2746,6 +2746,11 @@ class Connection(pg_api.Connection):
 		typ = msg.type
 		if typ == showoption:
 			if msg.name == b'client_encoding':
+				# The notifications that came before have the previous encoding.
+				decode = self.typio.decode
+				for x in self._notifies:
+					if x.channel.__class__ is not str:
+						x.channel, x.payload = decode(x.channel), decode(x.payload)
 				self.typio.set_encoding(msg.value.decode('ascii'))
 			self.settings._notify(msg)
 		elif typ == notice:
-- 
2.43.0


From f54c495186f5da4e8ff2e085589149a8efaad3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 36/49] fix: notifications and the reason sent before a
 connection was lost are processed

---
 postgresql/protocol/client3.py | 35 ++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index b7bb449..b2e5f8f 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -5,6 +5,7 @@
 Protocol version 3.0 client and tools.
 """
 import os
+import sys
 import weakref
 try:
 	from select import poll, POLLIN, POLLOUT
@@ -326,6 +327,39 @@ class Connection(object):
 				break
 			self.message_buffer.write(data)
 
+	def read_remains(self):
+		"""
+		Process what the server sent before the connection was lost:
+		the asynchronous messages and, perhaps, the reason.
+		"""
+		x = self.xact
+		try:
+			self.socket.settimeout(0)
+			while True:
+				data = self.socket.recv(self.recvsize)
+				if not data:
+					break
+				self.message_buffer.write(data)
+		except (OSError, ValueError):
+			# Nothing more.
+			pass
+		messages = list(self.read)
+		self.read = ()
+		messages.extend(self.message_buffer.read())
+		hook = getattr(x, 'asynchook', None)
+		for typ, body in messages:
+			if typ in xact.AsynchronousMap:
+				if hook is not None:
+					try:
+						hook(xact.AsynchronousMap[typ](body))
+					except Exception:
+						# Same as the transactions: notify the user, but continue.
+						sys.excepthook(*sys.exc_info())
+			elif typ == element.Error.type:
+				em = element.Error.parse(body)
+				if (em.get(b'V') or em[b'S']).upper() != b'ERROR':
+					x.error_message = em
+
 	def send_message_data(self):
 		"""
 		send all `message_data`.
@@ -353,6 +387,7 @@ class Connection(object):
 					(b'C', '08006'),
 					(b'M', msg),
 				))
+				self.read_remains()
 				return False
 			else:
 				# It wasn't fatal, so just raise
-- 
2.43.0


From 56934478b64d1c3b87f8e6ce487a564eeb0cbddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 37/49] fix: settings keep only what the server reports

---
 postgresql/driver/pq3.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index d5d28bb..d4ad41f 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2039,17 +2039,12 @@ class Settings(pg_api.Settings):
 		return v
 
 	def __setitem__(self, i, v):
-		cv = self.cache.get(i)
-		if cv == v:
-			return
-		setas = self.database.sys.setting_set(i, v)
-		self.cache[i] = setas
+		self.database.sys.setting_set(i, v)
 
 	def __delitem__(self, k):
 		self.database.execute(
 			'RESET "' + k.replace('"', '""') + '"'
 		)
-		self.cache.pop(k, None)
 
 	def __len__(self):
 		return self.database.sys.setting_len()
@@ -2072,17 +2067,8 @@ class Settings(pg_api.Settings):
 	path = property(**path())
 
 	def get(self, k, alt = None):
-		if k in self.cache:
-			return self.cache[k]
-
-		db = self.database
-		r = self.database.sys.setting_get(k)
-		if r:
-			v = r[0][0]
-			self.cache[k] = v
-		else:
-			v = alt
-		return v
+		v = self._show(k)
+		return alt if v is None else v
 
 	def getset(self, keys):
 		setmap = {}
-- 
2.43.0


From 19d773d9c5ad2ba917b9b6e6046ebdf9f936f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 38/49] fix: a notification manager notices what was received,
 and keeps its interval

---
 postgresql/driver/pq3.py |  8 ++++++++
 postgresql/notifyman.py  | 44 ++++++++++++++++++++++++----------------
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index d4ad41f..a03fe4a 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2711,6 +2711,14 @@ class Connection(pg_api.Connection):
 			pq.complete()
 			self._pq_finished(x)
 
+	# Whether messages were received that no operation processed, yet.
+	def _pq_received(self):
+		pq = self.pq
+		return bool(
+			pq.read or pq.read_data or pq.message_buffer.has_message()
+			or getattr(pq.socket, 'pending', int)()
+		)
+
 	# Process the next message.
 	def _pq_step(self, complete_state = globals()['xact'].Complete):
 		pq = self.pq
diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index cc6ef2c..4bcb126 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -73,11 +73,22 @@ class NotificationManager(object):
 		check = self.connections - self.garbage
 		for db in check:
 			if db.closed:
+				self._pull((db,))
 				self.connections.remove(db)
 				self.garbage.add(db)
 		check = self.connections - self.garbage
-
+		if self.timeout == 0:
+			# Collecting would have to wait for the end of the operation
+			# in progress, which processes those that come meanwhile.
+			check = {db for db in check if db.pq.xact is None}
+
+		# Those whose messages were received, but not processed. There may not
+		# be anything more on the wire.
+		received = [db for db in check if db._pq_received()]
+		if received:
+			max_duration = 0
 		r, w, x = select(check, (), check, max_duration)
+		r.extend(db for db in received if db not in r)
 		# Make sure the connection's _notifies get filled.
 		for db in r:
 			# Collect any pending events.
@@ -90,6 +101,8 @@ class NotificationManager(object):
 				# failed to collect notifies; put in exception list.
 				# It is very unlikely that this is *not* a FATAL error.
 				x.append(db)
+		# Those received before the failure.
+		self._pull(x)
 		self.trash(x)
 
 	def trash(self, connections):
@@ -116,13 +129,17 @@ class NotificationManager(object):
 
 	# Check the connection's _notifies list; just scan everything.
 	def _pull_from_connections(self):
-		for db in self.connections:
+		self._pull(self.connections)
+
+	def _pull(self, connections):
+		for db in connections:
 			if not db._notifies:
 				# nothing queued up, look at the next connection
 				continue
 			# Pull notifies into the NotificationManager
 			decode = db.typio.decode
 			notifies = [
+				(x.channel, x.payload, x.pid) if x.channel.__class__ is str else
 				(decode(x.channel), decode(x.payload), x.pid)
 				for x in db._notifies
 			]
@@ -149,19 +166,15 @@ class NotificationManager(object):
 
 	def _timedout(self, time = time):
 		# Idles are guaranteed to occur, but make sure that
-		# __next__ has a chance to check the connections and the wires.
-		now = time()
-		if self._last_time is None:
-			self._last_time = now
-		elif self.timeout and now >= (self._last_time + self.timeout):
+		# __next__ has a chance to check the connections and the wires:
+		# the interval begins when the wires are waited on.
+		if self.timeout and self._last_time is not None and \
+		time() >= (self._last_time + self.timeout):
 			# Set last_time to None in case the timeout is so low
 			# that this condition keeps NOTIFYs from being seen.
 			self._last_time = None
 			# Signal timeout.
 			return True
-		else:
-			# toggle back to None.
-			self._last_time = None
 		return False
 
 	def settimeout(self, seconds):
@@ -195,7 +208,6 @@ class NotificationManager(object):
 		return self
 
 	def __next__(self, time = time):
-		checked_wire = True
 		# Loop until NOTIFY received or timeout.
 		while True:
 			if self.incoming is not None:
@@ -217,11 +229,9 @@ class NotificationManager(object):
 			if self._timedout():
 				return None
 
-			if not checked_wire and self.connections:
-				# Nothing queued up, check connections if any.
-				self._wait_on_wires()
-				checked_wire = True
-			else:
-				checked_wire = False
 			self._pull_from_connections()
+			if self.connections and (self.timeout == 0 or not self._pulled):
+				# Nothing queued up or polling, check connections if any.
+				self._wait_on_wires()
+				self._pull_from_connections()
 			self._queue_next()
-- 
2.43.0


From fc51a616106bfcb2d6246b7544a0d5ae1558f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:35 +0000
Subject: [PATCH 39/49] fix: acquire one advisory lock at a time and release
 with the outermost release

A nested release let the locks go, and a blocking acquire that failed part
way kept the ones that it had got.
---
 postgresql/alock.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/postgresql/alock.py b/postgresql/alock.py
index cdf413d..c1cf6fb 100644
--- a/postgresql/alock.py
+++ b/postgresql/alock.py
@@ -70,7 +70,19 @@ class ALock(element.Element):
 			# _count is zero, so the locks need to be acquired.
 			wait = bool(blocking)
 			if wait:
-				self._acquire(self._id_pairs, self._ids)
+				# One at a time, as those that were acquired before a failure
+				# need to be released.
+				acquired = []
+				try:
+					for id in self.identifiers:
+						self._acquire(*self._split_lock_identifiers((id,)))
+						acquired.append(id)
+				except Exception:
+					acquired.reverse()
+					if acquired and not self.database.closed \
+					and self.database.pq.state != b'E':
+						self._release(*self._split_lock_identifiers(acquired))
+					raise
 			else:
 				# grab the success of each lock id. if some were
 				# unsuccessful, then the ones that were successful need to be
@@ -104,7 +116,7 @@ class ALock(element.Element):
 		"""
 		if self._count < 1:
 			raise RuntimeError("cannot release un-acquired lock")
-		if not self.database.closed and self._count > 0:
+		if not self.database.closed and self._count == 1:
 			# if the database has been closed, or the count will
 			# remain non-zero, there is no need to release.
 			self._release(reversed(self._id_pairs), reversed(self._ids))
-- 
2.43.0


From a65302ee8843d23281de6aaff0065281b8897c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:35 +0000
Subject: [PATCH 40/49] fix: TimestampFromTicks() took the day of the week for
 microseconds

---
 postgresql/driver/dbapi20.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index dafd49a..4a54cf6 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -58,7 +58,7 @@ Time = datetime.time
 Timestamp = datetime.datetime
 DateFromTicks = lambda x: Date(*time.localtime(x)[:3])
 TimeFromTicks = lambda x: Time(*time.localtime(x)[3:6])
-TimestampFromTicks = lambda x: Timestamp(*time.localtime(x)[:7])
+TimestampFromTicks = lambda x: Timestamp(*time.localtime(x)[:6])
 
 def dbapi_type(typid):
 	if typid in (
-- 
2.43.0


From f5004ab9857501ac051658e6d3ce5812b2e81b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:35 +0000
Subject: [PATCH 41/49] fix: DB-API: percent escapes in every part,
 descriptions and result sets of the last execution, commit failures

Doubled percent signs were only undone in the parts of a query that held a
parameter; description and the rows of an earlier query remained after DML;
a failed commit left the connection without a transaction.
---
 postgresql/driver/dbapi20.py | 87 ++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 38 deletions(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 4a54cf6..1b52703 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -131,7 +131,6 @@ class Cursor(object):
 
 	def __init__(self, C):
 		self.database = self.connection = C
-		self.description = ()
 		self.__portals = []
 
 	# Describe the "real" cursor as a "portal".
@@ -169,7 +168,16 @@ class Cursor(object):
 			raise Error("cursor is closed",
 				source = 'CLIENT', creator = self.database)
 
-	def callproc(self, proname, args):
+	# Describe the last operation's columns.
+	def _describe(self, ps):
+		# name, relationId, columnNumber, typeId, typlen, typmod, format
+		self.description = tuple([
+			(self.database.typio.decode(x[0]), dbapi_type(x[3]),
+			None, None, None, None, None)
+			for x in ps._output
+		])
+
+	def callproc(self, proname, args = ()):
 		if self.__portals is None:
 			raise Error("cursor is closed",
 				source = 'CLIENT', creator = self.database)
@@ -180,6 +188,8 @@ class Cursor(object):
 			])
 		))
 		self.__portals.insert(0, Portal(p.chunks(*args)))
+		self.rowcount = -1
+		self._describe(p)
 		return args
 
 	def fetchone(self):
@@ -219,32 +229,33 @@ class Cursor(object):
 		for part in parts:
 			if part.__class__ is ().__class__:
 				# skip quoted portions
-				rparts.append(part)
-			else:
+				continue
+			for x in percent_parameters(part):
+				if x == 's':
+					count += 1
+				else:
+					x = x[1:-2]
+					if x not in keys:
+						kmap[x] = '$' + str(len(keys) + 1)
+						keys.append(x)
+
+		position = 0
+		for part in parts:
+			if part.__class__ is not ().__class__ and (keys or count):
 				r = percent_parameters(part)
-				pcount = 0
-				for x in r:
-					if x == 's':
-						pcount += 1
-					else:
-						x = x[1:-2]
-						if x not in keys:
-							kmap[x] = '$' + str(len(keys) + 1)
-							keys.append(x)
-				if r:
-					if pcount:
-						# format
-						params = tuple([
-							'$' + str(i+1) for i in range(count, count + pcount)
-						])
-						count += pcount
-						rparts.append(part % params)
-					else:
-						# pyformat
-						rparts.append(part % kmap)
+				if not r:
+					# no parameters here, but the escapes are the same
+					part = part.replace('%%', '%')
+				elif 's' in r:
+					# format
+					part = part % tuple([
+						'$' + str(position + i + 1) for i in range(len(r))
+					])
+					position += len(r)
 				else:
-					# no parameters identified in string
-					rparts.append(part)
+					# pyformat
+					part = part % kmap
+			rparts.append(part)
 
 		if keys:
 			if count:
@@ -271,22 +282,16 @@ class Cursor(object):
 		ps = self.database.prepare(sql)
 		c = ps.chunks(*pxf(parameters))
 		if ps._output is not None and len(ps._output) > 0:
-			# name, relationId, columnNumber, typeId, typlen, typmod, format
 			self.rowcount = -1
-			self.description = tuple([
-				(self.database.typio.decode(x[0]), dbapi_type(x[3]),
-				None, None, None, None, None)
-				for x in ps._output
-			])
+			self._describe(ps)
 			self.__portals.insert(0, Portal(c))
 		else:
 			self.rowcount = c.count()
 			if self.rowcount is None:
 				self.rowcount = -1
 			self.description = None
-			# execute bumps any current portal
-			if self.__portals:
-				del self._portal
+			# There's nothing to fetch.
+			del self.__portals[:]
 		return self
 
 	def executemany(self, statement, parameters):
@@ -301,6 +306,8 @@ class Cursor(object):
 		else:
 			ps.load_rows(parameters)
 		self.rowcount = -1
+		self.description = None
+		del self.__portals[:]
 		return self
 
 	def close(self):
@@ -383,9 +390,13 @@ class Connection(Connection):
 				},
 				creator = self
 			)
-		self._xact.commit()
-		self._xact = self.xact()
-		self._xact.start()
+		try:
+			self._xact.commit()
+		finally:
+			# The transaction may be over in spite of a failure.
+			if not self.closed and self.pq.state == b'I':
+				self._xact = self.xact()
+				self._xact.start()
 
 	def rollback(self):
 		if self._xact is None:
-- 
2.43.0


From 407beb6373452e6edf9bbff8499ca1fdc90b9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:35 +0000
Subject: [PATCH 42/49] fix: StoredProcedure: keyword arguments, and the
 function and types identified regardless of the search_path

---
 postgresql/driver/pq3.py  | 68 +++++++++++++++++++++++----------------
 postgresql/lib/libsys.sql | 20 +++++++++++-
 2 files changed, 59 insertions(+), 29 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index a03fe4a..accf2f5 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1908,25 +1908,29 @@ class StoredProcedure(pg_api.StoredProcedure):
 			self.procedure_id, self.statement.string
 		)
 
-	def __call__(self, *args, **kw):
+	def __call__(*args, **kw):
+		# An argument may be named "self".
+		self, *args = args
+		argc = len(self._input_types)
 		if kw:
-			input = []
-			argiter = iter(args)
 			try:
-				word_idx = [(kw[k], self._input_attmap[k]) for k in kw]
+				words = {self._input_attmap[k] : kw[k] for k in kw}
 			except KeyError as k:
-				raise TypeError("%s got unexpected keyword argument %r" %(
-						self.name, k.message
+				raise TypeError("%s() got an unexpected keyword argument %r" %(
+						self.name, k.args[0]
 					)
 				)
-			word_idx.sort(key = get1)
-			current_word = word_idx.pop(0)
-			for x in range(argc):
-				if x == current_word[1]:
-					input.append(current_word[0])
-					current_word = word_idx.pop(0)
-				else:
-					input.append(argiter.next())
+			if len(args) + len(words) != argc:
+				raise TypeError("%s() requires %d arguments, given %d" %(
+						self.name, argc, len(args) + len(words)
+					)
+				)
+			# The positional arguments fill the gaps.
+			argiter = iter(args)
+			input = [
+				words[x] if x in words else next(argiter)
+				for x in range(argc)
+			]
 		else:
 			input = args
 
@@ -1957,26 +1961,34 @@ class StoredProcedure(pg_api.StoredProcedure):
 		self.oid = proctup[0]
 		self.name = proctup["proname"]
 
-		self._input_attmap = {}
-		argnames = proctup.get('proargnames') or ()
-		for x in range(len(argnames)):
-			an = argnames[x]
-			if an is not None:
-				self._input_attmap[an] = x
-
-		proargs = proctup['proargtypes']
+		proargs = self._input_types = proctup['proargtypes']
 		for x in proargs:
 			# get metadata filled out.
 			database.typio.resolve(x)
 
+		# The names of the input arguments; proargnames has those of the
+		# OUT parameters as well.
+		argmodes = proctup.get('_proargmodes') or ()
+		argnames = [
+			name for i, name in enumerate(proctup.get('proargnames') or ())
+			if not argmodes or argmodes[i] in ('i', 'b', 'v')
+		]
+		self._input_attmap = {
+			name : i for i, name in enumerate(argnames) if name
+		}
+
+		# ($1::type, $2::type, ... VARIADIC $n::type)
+		params = [
+			'$%d::%s' %(x + 1, typname)
+			for x, typname in enumerate(proctup['_proargtypnames'])
+		]
+		if proctup.get('provariadic'):
+			params[-1] = 'VARIADIC ' + params[-1]
+
 		self.statement = database.prepare(
 			"SELECT * FROM %s(%s) AS func%s" %(
-				proctup['_proid'],
-				# ($1::type, $2::type, ... $n::type)
-				', '.join([
-					 '$%d::%s' %(x + 1, database.typio.sql_type_from_oid(proargs[x]))
-					 for x in range(0, len(proargs))
-				]),
+				proctup['_proname'],
+				', '.join(params),
 				# Description for anonymous record returns
 				(description and \
 					'(' + ','.join(description) + ')' or '')
diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index 689c1fc..5fca418 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -85,7 +85,25 @@ SELECT
  pg_proc.oid::regprocedure as procedure_id,
  COALESCE(string_to_array(trim(replace(textin(oidvectorout(proargtypes)), ',', ' '), '{}'), ' ')::oid[], '{}'::oid[])
   AS proargtypes,
- (pg_type.oid = 'record'::regtype or pg_type.typtype = 'c') AS composite
+ -- The same function and types regardless of the search_path.
+ (
+  SELECT pg_catalog.quote_ident(n.nspname) FROM pg_catalog.pg_namespace n
+  WHERE n.oid = pg_proc.pronamespace
+ ) || '.' || pg_catalog.quote_ident(pg_proc.proname) AS _proname,
+ ARRAY(
+  SELECT pg_catalog.quote_ident(n.nspname) || '.' || pg_catalog.quote_ident(t.typname)
+  FROM
+   pg_catalog.generate_series(0, pg_proc.pronargs - 1) AS g(i),
+   pg_catalog.pg_type t, pg_catalog.pg_namespace n
+  WHERE t.oid = pg_proc.proargtypes[i] AND n.oid = t.typnamespace
+  ORDER BY i
+ ) AS _proargtypnames,
+ pg_proc.proargmodes::text[] AS _proargmodes,
+ (
+  pg_type.oid = 'record'::regtype or pg_type.typtype = 'c' or
+  -- domains of composites
+  (pg_type.typtype = 'd' and pg_type.typcategory = 'C')
+ ) AS composite
 FROM
  pg_catalog.pg_proc LEFT JOIN pg_catalog.pg_type ON (
   pg_proc.prorettype = pg_type.oid
-- 
2.43.0


From a070b7b0db39ee9b731f169ea58a4e8b0b33e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:58 +0000
Subject: [PATCH 43/49] fix: closed statements could still be declared, and
 their rows read

declare(), rows(), chunks(), and column() outside of a block use the
statement's string, the server would not tell that it was closed.
---
 postgresql/driver/pq3.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index accf2f5..1350b38 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1607,9 +1607,21 @@ class Statement(pg_api.Statement):
 			r.extend(x)
 		return r
 
+	# The string of a closed statement could still be DECLARE'd.
+	def _inhibit_closed(self):
+		if self.closed and not self.database.closed:
+			self.database.typio.raise_client_error(
+				element.ClientError((
+					(b'S', 'ERROR'),
+					(b'C', '26000'),
+					(b'M', 'the statement is closed'),
+				)), creator = self
+			)
+
 	def declare(self, *parameters):
 		if self.closed is None:
 			self._fini()
+		self._inhibit_closed()
 		if self._input is not None:
 			if len(parameters) != len(self._input):
 				raise TypeError("statement requires %d parameters, given %d" %(
@@ -1641,6 +1653,7 @@ class Statement(pg_api.Statement):
 	def chunks(self, *parameters):
 		if self.closed is None:
 			self._fini()
+		self._inhibit_closed()
 		if self._input is not None:
 			if len(parameters) != len(self._input):
 				raise TypeError("statement requires %d parameters, given %d" %(
-- 
2.43.0


From 558e25e96a1527212ea56ff473c52ec525a7c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:46 +0000
Subject: [PATCH 44/49] fix: types.io: refuse array images that end within an
 element

---
 postgresql/types/io/lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index a4fad6c..28b42bf 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -459,7 +459,10 @@ def elements_unpack(data, offset,
 			yield None
 		else:
 			sizeof_el = long_unpack(lend)
-			yield data[offset:offset+sizeof_el]
+			element = data[offset:offset+sizeof_el]
+			if sizeof_el < 0 or len(element) != sizeof_el:
+				raise ValueError("insufficient data left in array")
+			yield element
 			offset += sizeof_el
 
 def array_unpack(data,
-- 
2.43.0


From bc8e821494c4966de80fb7160652fefeededd698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:36 +0000
Subject: [PATCH 45/49] fix: describing any object works at any time

---
 postgresql/cluster.py        | 10 +++++-----
 postgresql/configfile.py     |  5 ++++-
 postgresql/copyman.py        | 16 ++++++++++++----
 postgresql/python/element.py | 25 ++++++++-----------------
 4 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 86ab301..6bb6c28 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -117,7 +117,7 @@ class Cluster(pg_api.Cluster):
 		state = self.state
 		yield (None, '[' + state + ']')
 		if state == 'running':
-			yield ('pid', self.state)
+			yield ('pid', self.pid)
 
 	@property
 	def daemon_path(self):
@@ -195,10 +195,10 @@ class Cluster(pg_api.Cluster):
 
 	def __repr__(self, format = "{mod}.{name}({ins!r}, {dir!r})".format):
 		return format(
-			type(self).__module__,
-			type(self).__name__,
-			self.installation,
-			self.data_directory,
+			mod = type(self).__module__,
+			name = type(self).__name__,
+			ins = self.installation,
+			dir = self.data_directory,
 		)
 
 	def __enter__(self):
diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index d751323..e582e7f 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -241,7 +241,10 @@ class ConfigFile(pg_api.Settings):
 	_e_label = 'CONFIGFILE'
 
 	def _e_metas(self):
-		yield (None, len(self.keys()))
+		try:
+			yield (None, len(self.keys()))
+		except OSError as e:
+			yield (None, str(e))
 
 	def __init__(self, path, open = open):
 		self.path = path
diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 6d2dd86..00da705 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -256,8 +256,12 @@ class WireState(object):
 class Fitting(Element):
 	_e_label = 'FITTING'
 
+	# A description of the progress made, if there is one.
+	state = None
+
 	def _e_metas(self):
-		yield None, '[' + self.state + ']'
+		if self.state is not None:
+			yield None, '[' + self.state + ']'
 
 	@abstractproperty
 	def protocol(self):
@@ -281,7 +285,8 @@ class Producer(Fitting, Iterator):
 			yield x
 		yield 'data', str(self.total_bytes / (1024**2)) + 'MB'
 		yield 'messages', self.total_messages
-		yield 'average size', (self.total_bytes / self.total_messages)
+		if self.total_messages:
+			yield 'average size', (self.total_bytes / self.total_messages)
 
 	def __init__(self):
 		self.total_messages = 0
@@ -570,8 +575,11 @@ class StatementReceiver(ProtocolReceiver):
 	_e_factors = ('statement', 'parameters',)
 	__slots__ = ProtocolReceiver.__slots__ + _e_factors + ('xact',)
 
-	def _e_metas(self):
-		yield None, '[' + self.state + ']'
+	@property
+	def state(self):
+		if self.xact is None:
+			return 'created'
+		return 'receiving'
 
 	def __init__(self, statement, *parameters):
 		self.statement = statement
diff --git a/postgresql/python/element.py b/postgresql/python/element.py
index 4257a44..1f9c7d6 100644
--- a/postgresql/python/element.py
+++ b/postgresql/python/element.py
@@ -109,25 +109,16 @@ def prime_factors(obj):
 	"""
 	Yield out the sequence of primary factors of the given object.
 	"""
-	visited = set((obj,))
-	ef = getattr(obj, '_e_factors', None)
-	if not ef:
-		return
-	fn = ef[0]
-	e = getattr(obj, fn, None)
-	if e in visited:
-		raise RecursiveFactor(obj, e)
-	visited.add(e)
-	yield fn, e
-
-	while e is not None:
-		ef = getattr(obj, '_e_factors', None)
-		fn = ef[0]
-		e = getattr(e, fn, None)
-		if e in visited:
+	# by identity; factors need not be hashable.
+	visited = [obj]
+	pf = prime_factor(obj)
+	while pf is not None:
+		fn, e = pf
+		if any(e is x for x in visited):
 			raise RecursiveFactor(obj, e)
-		visited.add(e)
+		visited.append(e)
 		yield fn, e
+		pf = prime_factor(e)
 
 def format_element(obj, coverage = ()):
 	"""
-- 
2.43.0


From cdcd4e283a3d56b8d7b645be57e1c1f642b34dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:36 +0000
Subject: [PATCH 46/49] fix: python commands restore the environment, run
 modules and scripts as Python does

---
 postgresql/python/command.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/postgresql/python/command.py b/postgresql/python/command.py
index d88b154..c59d218 100644
--- a/postgresql/python/command.py
+++ b/postgresql/python/command.py
@@ -53,6 +53,7 @@ import types
 import optparse
 import subprocess
 import contextlib
+import tokenize
 
 from gettext import gettext as _
 from traceback import print_exception
@@ -98,7 +99,7 @@ class file_loader(object):
 	def _read(self):
 		if hasattr(self, '_source'):
 			return self._source
-		f = open(self.filepath)
+		f = tokenize.open(self.filepath)
 		try:
 			return f.read()
 		finally:
@@ -306,7 +307,7 @@ class ExtendedConsole(code.InteractiveConsole):
 		return path
 
 	def execfile(self, filepath):
-		src = open(filepath)
+		src = tokenize.open(filepath)
 		try:
 			try:
 				co = compile(src.read(), filepath, 'exec')
@@ -354,6 +355,12 @@ class ExtendedConsole(code.InteractiveConsole):
 				rv = command(argv = a)
 			except SystemExit as se:
 				rv = se.code
+			if rv is None:
+				rv = 0
+			elif not isinstance(rv, int):
+				# As with sys.exit(), any other object is a message.
+				self.write("%s%s" %(rv, os.linesep))
+				rv = 1
 			self.write("[Return Value: %d]%s" %(rv, os.linesep))
 
 	def push(self, line):
@@ -448,7 +455,7 @@ class Execution(object):
 		# If there are args, but no main, run the first arg.
 		elif args:
 			fp = self.args[0]
-			f = open(fp)
+			f = tokenize.open(fp)
 			try:
 				l = file_loader(fp, fileobj = f)
 			finally:
@@ -471,7 +478,7 @@ class Execution(object):
 		mod.__builtins__ = __builtins__
 		mod.__package__ = None
 		self.module__main__ = mod
-		path = getattr(self.main[1], 'fullname', None)
+		path = getattr(self.main[1], 'name', None)
 		if path is not None:
 			mod.__package__ = '.'.join(path.split('.')[:-1])
 
@@ -588,14 +595,23 @@ class Execution(object):
 			sys.modules.get('__context__'),
 			sys.modules.get('__main__'),
 			sys.argv,
+			os.environ,
 			os.environ.copy(),
 		)
 		try:
 			return self._call(*args, **kw)
 		finally:
-			sys.modules['__context__'], \
-			sys.modules['__main__'], \
-			sys.argv, os.environ = storage
+			for k, v in zip(('__context__', '__main__'), storage):
+				if v is None:
+					sys.modules.pop(k, None)
+				else:
+					sys.modules[k] = v
+			sys.argv, os.environ, env = storage[2:]
+			# Restore the mapping itself, as it's the one that maintains the
+			# environment of the process.
+			for k in set(os.environ) - set(env):
+				del os.environ[k]
+			os.environ.update(env)
 
 	def get_main_source(self):
 		"""
-- 
2.43.0


From 20b27060e8fb957ccf1820695688af1d4625f984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:36 +0000
Subject: [PATCH 47/49] fix: pg_python --unix no longer conflicts with the
 default host and port

---
 postgresql/bin/pg_python.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/postgresql/bin/pg_python.py b/postgresql/bin/pg_python.py
index a97aa97..86338a4 100644
--- a/postgresql/bin/pg_python.py
+++ b/postgresql/bin/pg_python.py
@@ -61,6 +61,13 @@ def command(argv = sys.argv):
 		while connection is None:
 			try:
 				cond = clientparameters.collect(parsed_options = co, prompt_title = None)
+				# If unix is specified, it's going to conflict with the standard
+				# host and port, so remove those that were not asked for.
+				if 'unix' in cond:
+					given = [x[0] for x in co.db_client_parameters or ()]
+					for k in ('host', 'port'):
+						if (k,) not in given:
+							cond.pop(k, None)
 				if need_prompt:
 					# authspec error thrown last time, so force prompt.
 					cond['prompt_password'] = True
-- 
2.43.0


From e8cc079821d240be0ef964a557e7872f6e694f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:36 +0000
Subject: [PATCH 48/49] fix: the bytea codec refuses what is not the server's
 escape form

---
 postgresql/encodings/bytea.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/postgresql/encodings/bytea.py b/postgresql/encodings/bytea.py
index 3c406df..354b3aa 100644
--- a/postgresql/encodings/bytea.py
+++ b/postgresql/encodings/bytea.py
@@ -41,14 +41,16 @@ def encode(data):
 				except StopIteration:
 					# requires three digits
 					raise ValueError("incomplete backslash sequence")
-				try:
-					x = int(os, base = 8)
-				except ValueError:
+				# int() allows whitespace, underscores, and any Unicode digit
+				if os[0] not in '0123' or os[1] not in '01234567' or os[2] not in '01234567':
 					raise ValueError("invalid bytea octal sequence '%s'" %(os,))
+				x = int(os, base = 8)
 			else:
 				raise ValueError("invalid backslash follow '%s'" %(y,))
 		else:
 			x = ord(x)
+			if x > 255:
+				raise ValueError("invalid bytea character %r" %(chr(x),))
 		output.append(x)
 	return struct.pack(str(len(output)) + 'B', *output)
 
-- 
2.43.0


From ba6bc46aa8bdead593c9797f1ace02f3fe0288e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:02 +0000
Subject: [PATCH 49/49] fix: a server that ends at startup while a stale pid
 file lies about is reported as terminated

---
 postgresql/cluster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 6bb6c28..9bcf184 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -473,10 +473,10 @@ class Cluster(pg_api.Cluster):
 			r = self.daemon_process.poll()
 			if r is not None:
 				pid = self.get_pid_from_file()
-				if pid is not None:
-					# daemon process does not exist, but there's a pidfile.
+				if pid is not None and self._exists(pid):
+					# daemon process does not exist, but another one took its place.
 					self.daemon_process = None
-					return self.running()
+					return True
 				return False
 			else:
 				return True
-- 
2.43.0

