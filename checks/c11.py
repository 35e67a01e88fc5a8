"""C11: Array objects behave as the nested sequence they represent."""
import copy, pickle
from hypothesis import strategies as st
from vlib import live
from vlib.core import law, check, eq, raised

RULE = ("Rectangular nested lists of up to five dimensions with tuple, text and absent elements and any lower bounds, built in every way, and ragged or mixed-depth nestings. Oracle: the nested Python list. "
	"Non-trivial: an array of more than one element, or a ragged nesting.")

el = st.one_of(st.none(), st.integers(-3, 3), st.text(max_size=3), st.tuples(st.integers(0, 2), st.integers(0, 2)), st.tuples(), st.dictionaries(st.text(max_size=1), st.integers(), max_size=1))
def prod(d):
	n = 1
	for x in d: n *= x
	return n
def nest(els, dims):
	if not dims: return []
	if len(dims) == 1: return list(els)
	w = len(els) // dims[0]
	return [nest(els[i * w:(i + 1) * w], dims[1:]) for i in range(dims[0])]
dims = st.one_of(st.just(()), st.integers(1, 9).map(lambda n: (n,)), st.lists(st.integers(1, 4), min_size=2, max_size=5).map(tuple).filter(lambda d: prod(d) <= 60))
shaped = dims.flatmap(lambda d: st.tuples(st.just(d), st.lists(el, min_size=prod(d) if d else 0, max_size=prod(d) if d else 0), st.one_of(st.none(), st.tuples(*[st.integers(-5, 6)] * len(d)))))
off = st.one_of(st.none(), st.integers(-6, 6))
sl = st.tuples(off, off, st.sampled_from([None, None, 1, 2, 3, -1, -2]))

def plain(x, A): return x.nest() if isinstance(x, A) else x
def agree(a, l, d, lbs, A, what):
	"""the array is the nested list, with these dimensions and bounds"""
	eq((tuple(a.dimensions), tuple(a.lowerbounds), tuple(a.upperbounds), a.ndims, len(a)), (d, lbs, tuple(b + n - 1 for b, n in zip(lbs, d)), len(d), d[0] if d else 0), '%s: shape' % what)
	eq(a.nest(), l, '%s: nest()' % what)
	def tup(x, n): return tuple(tup(y, n - 1) for y in x) if n > 1 else tuple(x)
	eq(a.nest(seqtype=tuple), tup(l, len(d)), '%s: nest(tuple)' % what)
	def flat(x, n): return [z for y in x for z in flat(y, n - 1)] if n > 1 else list(x)
	eq(list(a.elements()), flat(l, len(d)), '%s: elements()' % what)
	eq([plain(x, A) for x in a], l, '%s: iteration' % what)
	check(a == l and not a != l, '%s: not equal to its nesting', what)

def addresses(d):
	if not d: yield (); return
	for i in range(-d[0] - 1, d[0] + 1):
		for r in addresses(d[1:]): yield (i,) + r

@law(st.tuples(shaped, st.lists(sl, max_size=5), st.lists(st.integers(0, 59), min_size=5, max_size=5)), 1200)
def an_array_is_its_nested_list(case, t):
	(d, els, lbs), slices, picks = case
	lbs1 = lbs or (1,) * len(d)
	l = nest(els, d)
	for form in (0, 1):
		A = live.form(form).types.Array
		if len(els) > 1: t.nt(True)
		t.ev('%d dimensions' % len(d))
		arrays = [('of the nesting', A(l), (1,) * len(d)), ('from_nest', A.from_nest(l), (1,) * len(d)),
			('from bounds', A.from_elements(iter(els), lowerbounds=lbs1, upperbounds=[b + n - 1 for b, n in zip(lbs1, d)]), lbs1)]
		if len(d) < 2: arrays += [('of an iterator', A(iter(l)), (1,) * len(d)), ('from elements', A.from_elements(els), (1,) * len(d))]
		if len(d) < 2: arrays.append(('from elements and lower bounds', A.from_elements(els, lowerbounds=lbs1), lbs1))
		arrays.append(('from upper bounds', A.from_elements(els, upperbounds=d), (1,) * len(d)))
		for how, a, b in arrays: agree(a, l, d, b, A, how)
		how, a, b = arrays[2]
		check(A(a) is a or A(a) == a, 'an array of an array')
		agree(A(a.nest()), l, d, (1,) * len(d), A, 'rebuilt from its nesting')
		agree(A.from_elements(a.elements(), lowerbounds=a.lowerbounds, upperbounds=a.upperbounds), l, d, b, A, 'rebuilt from its elements')
		agree(pickle.loads(pickle.dumps(a)), l, d, b, A, 'pickled')
		agree(copy.copy(a), l, d, b, A, 'copied'); agree(copy.deepcopy(a), l, d, b, A, 'deeply copied')
		agree(eval(repr(a), {A.__module__.split('.')[0]: live.form(form).pkg}), l, d, (1,) * len(d), A, 'its repr')
		for x, y in ((arrays[0][1], arrays[1][1]), (a, A(l))): check(x == y and not x != y, 'two arrays of one nesting differ')
		if l:
			m = copy.deepcopy(l); k = m
			for p in picks[:len(d) - 1]: k = k[p % len(k)]
			k[picks[-1] % len(k)] = 'other!'
			check(a != m and not a == m and a != A(m) and not a == A(m), 'equal to another nesting: %r %r', l, m)
			check(a != l[:-1] and a != l + l[:1], 'equal to a shorter or longer one')
		n = len(l)
		for i in list(range(-n - 3, n + 3)):
			e, v = raised(a.__getitem__, i)
			if -n <= i < n:
				check(e is None, 'index %d of %r: %r', i, l, e)
				if len(d) > 1: agree(v, l[i], d[1:], b[1:], A, 'index %d of %r' % (i, l))
				else: eq(v, l[i], 'index %d of %r' % (i, l))
			else: check(isinstance(e, IndexError), 'index %d of %r: %r', i, l, e if e is not None else v)
		eq([plain(x, A) for x in reversed(a)], l[::-1], 'reversed')
		for s in slices:
			s = slice(*s); w = l[s]; v = a[s]
			what = '%r of %r' % (s, l)
			check(v == w and len(v) == len(w), '%s: %r', what, v)
			if isinstance(v, A):
				if w: agree(v, w, (len(w),) + d[1:], tuple(v.lowerbounds), A, what); eq(tuple(v.lowerbounds[1:]), b[1:], what)
				else: agree(v, [], (), (), A, what)
		for ad in addresses(d):
			e, v = raised(a.get_element, ad); e2, v2 = raised(a.sql_get_element, tuple(x + y for x, y in zip(ad, b)))
			try:
				w = l
				for i in ad: w = w[i]
				if not d: raise IndexError
			except IndexError:
				check(isinstance(e, IndexError), 'element %r of %r: %r', ad, l, e if e is not None else v)
				check(e2 is None and v2 is None, 'SQL element %r of %r: %r', ad, l, e2 or v2)
			else:
				check(e is None, 'element %r of %r: %r', ad, l, e); eq(v, w, 'element %r of %r' % (ad, l))
				check(e2 is None, 'SQL element %r: %r', ad, e2); eq(v2, w if min(ad) >= 0 else None, 'SQL element %r (from 0) of %r with bounds %r' % (ad, l, b))
		if d:
			for ad in ((0,) * (len(d) + 1), (0,) * (len(d) - 1)):
				e, v = raised(a.get_element, ad)
				check(isinstance(e, ValueError), 'address %r in %d dimensions: %r', ad, len(d), e if e is not None else v)
		agree(a, l, d, b, A, 'after all reads')

nested = st.recursive(el, lambda k: st.lists(k, max_size=4), max_leaves=12)
def shape(x, top=True):
	"""the dimensions of a rectangular nesting, None when it is ragged or an inner axis is empty"""
	if not isinstance(x, list): return ()
	if not x: return () if top else None
	s = [shape(y, False) for y in x]
	if any(y is None or y != s[0] for y in s): return None
	return (len(x),) + s[0]
def mutate(case):
	(d, els, _), path, act = case
	l = copy.deepcopy(nest(els, d)); k = l
	for p in path[:-1]:
		if not isinstance(k, list) or not k or not isinstance(k[p % len(k)], list): break
		k = k[p % len(k)]
	if isinstance(k, list) and k:
		i = path[-1] % len(k)
		if act == 'drop': del k[i]
		elif act == 'dup': k.insert(i, copy.deepcopy(k[i]))
		elif act == 'wrap': k[i] = [k[i]]
		elif act == 'tuple': k[i] = tuple(k[i]) if isinstance(k[i], list) else (k[i],)
		elif act == 'text': k[i] = 'xyzw'[:len(k[i])] if isinstance(k[i], list) else 'x'
		elif act == 'none': k[i] = None
		elif act == 'empty': k[i] = []
	return l
@law(st.one_of(st.lists(nested, max_size=4), st.tuples(shaped, st.lists(st.integers(0, 9), min_size=1, max_size=4), st.sampled_from(['drop', 'dup', 'wrap', 'tuple', 'text', 'none', 'empty'])).map(mutate)), 1500)
def ragged_nestings_are_rejected(case, t):
	s = shape(case)
	for form in (0, 1):
		A = live.form(form).types.Array
		for make in (A, A.from_nest):
			e, a = raised(make, copy.deepcopy(case))
			if s is None:
				t.nt(True); t.ev('ragged')
				check(isinstance(e, ValueError), '%r was taken: %r', case, e if e is not None else a)
			else:
				check(e is None, '%r: %r', case, e)
				agree(a, case, s, (1,) * len(s), A, repr(case))

@law(st.tuples(st.lists(el, max_size=12), st.one_of(st.none(), st.lists(st.integers(-3, 5), max_size=3)), st.one_of(st.none(), st.lists(st.integers(-3, 5), max_size=3))), 1500)
def elements_must_fit_their_bounds(case, t):
	els, lb, ub = case
	if ub is not None:
		lbs = tuple(lb) if lb is not None else (1,) * len(ub)
		bad = len(lbs) != len(ub)
		d = tuple(u - b + 1 for b, u in zip(lbs, ub))
		if not bad:
			if not els: bad = None if any(x < 1 for x in d) else bool(d)
			else: bad = any(x < 1 for x in d) or not d or prod(d) != len(els)
		elif not els and any(x < 1 for x in d): bad = None
	else:
		lbs = tuple(lb) if lb is not None else (1,) * bool(els)
		d = (len(els),) if els else ()
		bad = len(lbs) != len(d)
	for form in (0, 1):
		A = live.form(form).types.Array
		e, a = raised(A.from_elements, els, lowerbounds=lb, upperbounds=ub)
		if bad:
			t.nt(True)
			check(isinstance(e, ValueError), '%r was taken: %r', case, e if e is not None else a)
		elif bad is None:		# nothing, within bounds of nothing
			if e is None: agree(a, [], (), (), A, repr(case))
			else: check(isinstance(e, ValueError), '%r: %r', case, e)
		else:
			check(e is None, '%r: %r', case, e)
			t.nt(len(els) > 1)
			agree(a, nest(els, d), d, lbs, A, repr(case))
