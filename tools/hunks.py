"""commit selected hunks of /repo's working tree: hunks.py MESSAGE REGEX...  (a hunk is taken when a REGEX matches its text); without arguments list hunks"""
import subprocess, sys, re
def git(*a, inp=None): return subprocess.run(['git', '-C', '/repo', *a], input=inp, text=True, capture_output=True, check=True).stdout
def hunks():
	cur = None
	for l in git('diff', '-U1').splitlines(True):
		if l.startswith('diff '): head = l; cur = None; inhead = True
		elif l.startswith('@@'): inhead = False; cur = [head, l]; out.append(cur)
		elif inhead: head += l
		else: cur[1] += l
out = []; hunks()
if len(sys.argv) < 2:
	for h in out: print(h[0].splitlines()[-1], h[1])
else:
	msg, *rx = sys.argv[1:]
	sel = [h for h in out if any(re.search(r, h[0].splitlines()[-1] + h[1]) for r in rx)]
	byfile = {}
	for h in sel: byfile.setdefault(h[0], []).append(h[1])
	git('apply', '--cached', '--unidiff-zero', '--recount', '-', inp=''.join(f + ''.join(hs) for f, hs in byfile.items()))
	print(git('commit', '-m', msg)); print(len(out) - len(sel), 'hunks left')
