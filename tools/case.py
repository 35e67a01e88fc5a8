"""print the case of a replay file"""
import sys, json, pickle, base64
for f in sys.argv[1:]:
	d = json.load(open(f)); print({k: v for k, v in d.items() if k not in ('case', 'pickle')}); 
	for k in ('case', 'pickle'):
		if k in d: print(pickle.loads(base64.b64decode(d[k])))
