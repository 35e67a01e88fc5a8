#!/bin/sh
# runs a Python file in the checks' environment (live server, both forms): tools/try.sh FILE
cp "$1" /tmp/_try.py; chmod 644 /tmp/_try.py
cat > /verif/checks/c99.py <<'P'
from hypothesis import strategies as st
from vlib import live, pg
from vlib.core import law, check, eq, raised
import traceback, os, io, contextlib
from vlib import core
RULE = 'scratch'
done = []
@law(st.integers(0, 3), 20)
def scratch(case, t):
	t.nt(True)
	if done: return
	done.append(1)
	o = io.StringIO()
	with contextlib.redirect_stdout(o):
		try: exec(compile(open('/tmp/_try.py').read(), 'try', 'exec'), {'live': live, 'pg': pg, 'raised': raised})
		except BaseException: o.write(traceback.format_exc())
	open(os.path.join(core.OUT, 'try.out'), 'w').write(o.getvalue())
	os.write(1, o.getvalue().encode('utf-8', 'replace'))
P
cd /verif && python3 run.py C99 2>&1; rm -f /verif/checks/c99.py /verif/evidence/C99.json
