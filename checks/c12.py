"""C12: equality, dict keys and sorting are mutually consistent.

All pairs of a domain with values of every type (twice constructed, nested, NaN, signed zeros): equality both ways, key
lookup, replacement; all triples for dicts of three keys; all arrays up to length 4 (5) over mixed domains sorted."""
import functools
import itertools
import math

from vlib import batch, explore
from vlib.core import chunks
from vlib.lang import *

v, w, d, a = V('v'), V('w'), V('d'), V('a')
nan = math.nan


def FL(x):
	return ('float', x)


def ER(m, c=NIL):
	return STDC('error', S(m), c)


SCALARS = [NIL, TRUE, FALSE, ('byte', 0), ('byte', 65), ('byte', 97), I(0), I(1), I(-1), I(65), I(I64_MAX), I(I64_MIN), FL(0.0), FL(-0.0), FL(1.0), FL(-1.0), FL(65.0), FL(1e300),
	FL(math.inf), FL(-math.inf), FL(nan), FL(9.223372036854775807e18), S(''), S('A'), S('a'), S('ab'), S('a\0'), S('1'), S('nil'), S(b'\xff'), S('[ ]')]
NESTED = [('arr', []), ('arr', [NIL]), ('arr', [I(1)]), ('arr', [FL(1.0)]), ('arr', [TRUE]), ('arr', [I(1), I(2)]), ('arr', [I(2), I(1)]), ('arr', [('arr', [])]), ('arr', [('arr', [I(1)])]), ('arr', [S('')]),
	('arr', [FL(nan)]), ('arr', [FL(0.0)]), ('arr', [FL(-0.0)]), ('arr', [I(1), I(2), I(3)]), ('arr', [S('a'), S('b')]), ('arr', [S('ab')]),
	('dict', []), ('dict', [('a', I(1))]), ('dict', [('a', I(2))]), ('dict', [('b', I(1))]), ('dict', [('a', I(1)), ('b', I(2))]), ('dict', [('b', I(2)), ('a', I(1))]), ('dict', [('a', I(2)), ('b', I(1))]),
	('dict', [('a', FL(1.0))]), ('dict', [('a', FL(nan))]), ('dict', [('a', ('arr', []))]), ('dict', [('a', ('dict', []))]), ('dict', [('a', NIL)]), ('arr', [('dict', [])]), ('arr', [('dict', [('a', I(1))])]),
	ER('a'), ER('b'), ER('a', I(1)), ER('a', FL(1.0)), ER('', ('arr', [I(1)])), ER('a', ER('a')), ('arr', [ER('a')]), ('dict', [('a', ER('a'))]), ER('a', FL(nan))]
FUNS = [D(V('std'), 'len'), D(V('std'), 'type'), V('f1'), V('f2')]
MORE = [I(2), I(-2), I(255), I(256), I(1 << 32), FL(0.5), FL(-0.5), FL(5e-324), FL(2.0 ** 53), I(2 ** 53), I(2 ** 53 + 1), ('byte', 255 - 128), S('b'), S('aa'), S('Z'), S('\t'), ('arr', [NIL, NIL]),
	('arr', [('arr', [('arr', [])])]), ('arr', [('dict', []), ('arr', [])]), ('dict', [('a', ('arr', [I(1), FL(1.0)]))]), ('arr', [FALSE]), ('arr', [I(0)]), ('arr', [('byte', 0)]), ER('a', ('dict', [('k', I(1))]))]


def pair_programs(quick):
	dom = SCALARS + NESTED + FUNS + ([] if quick else MORE)
	for x in dom:
		for y in dom:
			yield [L('v', x), L('w', y), P(B('==', v, w), B('!=', v, w), B('==', w, v), B('==', v, v), B('==', ('arr', [v]), ('arr', [w])), B('==', ('dict', [('k', v)]), ('dict', [('k', w)])), B('==', ER('e', v), ER('e', w)), STDC('contains', ('arr', [I(99), v]), w)),
				# As keys.
				L('d', ('dict', [])), A(('idx', d, v), S('first')), P(STDC('contains', d, v), STDC('contains', d, w), STDC('len', d)), P(C(V('get'), d, w)),
				A(('idx', d, w), S('second')), P(STDC('len', d), C(V('get'), d, v), C(V('get'), d, w)),
				# Inside a key.
				L('e', ('dict', [])), A(('idx', V('e'), ('arr', [v])), I(1)), P(STDC('contains', V('e'), ('arr', [w])), STDC('contains', V('e'), v)),
				E(S('end'))]


def key_triples(quick):
	dom = [NIL, TRUE, ('byte', 1), I(1), FL(1.0), FL(0.0), FL(-0.0), S('1'), S(''), ('arr', []), ('arr', [I(1)]), ('dict', []), ('dict', [('a', I(1))]), ER('a')]
	if quick:
		dom = dom[:11]
	for x, y, z in itertools.product(dom, repeat=3):
		yield [L('d', ('dict', [])), A(('idx', d, x), S('x')), A(('idx', d, y), S('y')), A(('idx', d, z), S('z')), P(STDC('len', d))] + [P(C(V('get'), d, k)) for k in (x, y, z)] + \
			[P(B('==', d, V('d'))), L('n', I(0)), ('for', 'i', STDC('iter', d), [E(('if', B('==', ('idx', d, D(V('i'), 'key')), D(V('i'), 'value')), [A('n', B('+', V('n'), I(1)))], None))]), E(V('n'))]


def sort_programs(quick):
	def prog(items):
		return [L('a', ('arr', list(items))), L('b', a), P(STDC('sort', a)), P(a), P(B('==', a, V('b')))]
	# Mixed types: every array up to length 4 (5) over one value per type; duplicates included.
	mixed = [NIL, TRUE, ('byte', 97), I(5), FL(-2.5), S('m'), ('arr', [I(1)]), ('dict', [('k', I(1))])]
	for n in range(0, 5 if quick else 6):
		for t in itertools.product(mixed, repeat=n):
			yield prog(t)
	# Within a type: every array up to length 4 over its values.
	groups = [
		[FALSE, TRUE], [('byte', 0), ('byte', 65), ('byte', 97), ('byte', 127)], [I(0), I(1), I(-1), I(I64_MAX), I(I64_MIN)], [FL(0.0), FL(1.0), FL(-1.0), FL(math.inf), FL(-math.inf), FL(nan)],
		[S(''), S('a'), S('b'), S('ab'), S('aa'), S('B'), S(b'\xff')], [('arr', []), ('arr', [I(1)]), ('arr', [I(2)]), ('arr', [I(1), I(0)]), ('arr', [I(1), I(2)]), ('arr', [NIL]), ('arr', [S('a')])],
		[('dict', []), ('dict', [('a', I(1))]), ('dict', [('a', I(2))]), ('dict', [('b', I(0))]), ('dict', [('a', NIL)])],
		[('arr', [FL(nan)]), ('arr', [FL(1.0)]), ('arr', [FL(nan), I(1)]), ('arr', [])], [I(1), FL(1.0), FL(0.5), I(2), ('byte', 1)], [S('1'), I(1), FL(1.0), ('byte', 49), TRUE, NIL],
	]
	for g in groups:
		for n in range(1, 5 if quick or len(g) > 6 else 6):
			for t in itertools.product(g, repeat=n):
				if n == 4 and len(g) > 6 and quick:
					continue
				yield prog(t)
	# All permutations of longer arrays, and arrays beyond the insertion sort limit of the library.
	for t in itertools.permutations(range(6 if quick else 7)):
		yield prog([I(x) for x in t])
	for n in (20, 21, 33, 64, 100):
		for step in (1, 3, 7, 11):
			for m in (2, 5, n):
				xs = [(i * step) % m for i in range(n)]
				yield prog([I(x) for x in xs])
				yield prog([FL(float(x)) if x % 3 else FL(nan) for x in xs])
				yield prog([FL(float(x)) if i % 4 else (I(x) if i % 8 else S(str(x))) for i, x in enumerate(xs)])
	# Agreement with the operators; sorting twice; aliases; sorting a sorted or reversed array.
	ordered = [[I(-5), I(0), I(7)], [FL(-1.0), FL(0.0), FL(2.5)], [S(''), S('a'), S('b')], [('byte', 1), ('byte', 2)]]
	for g in ordered:
		for x in g:
			for y in g:
				yield [L('a', ('arr', [x, y])), E(STDC('sort', a)), P(('idx', a, I(0)), ('idx', a, I(1)), B('<=', ('idx', a, I(0)), ('idx', a, I(1))), B('<', x, y), B('>=', y, x), B('>', y, x)), E(STDC('sort', a)), E(a)]
	yield [L('x', ('arr', [I(2)])), L('y', ('arr', [I(1)])), L('a', ('arr', [V('x'), V('y')])), E(STDC('sort', a)), E(STDC('push', ('idx', a, I(0)), I(9))), P(V('x'), V('y')), E(a)]
	yield [L('in', ('arr', [])) if False else L('inn', ('arr', [I(3), I(1)])), L('a', ('arr', [V('inn'), V('inn')])), E(STDC('sort', a)), P(a), E(STDC('sort', V('inn'))), E(a)]


HEAD = [
	L('f1', F(['q'], E(V('q')))), L('f2', F(['q'], E(V('q')))),
	L('get', F(['c', 'i'], L('r', STDC('catch', F([], E(('idx', V('c'), V('i')))))), E(('if', B('==', STDC('type', V('r')), S('error')), [E(S('none'))], [E(V('r'))])))),
]


KEYS = ['1', '1.0', "'1'", '"1"', 'nil', 'true', '0.0', '[1]', '[ c1 ]', '@[ a: 1 ]', 'std.error("1", 1)', 'c1', 'c2', 'c3', 'g', 'std.len']


def dict_key_cases(quick):
	"""Dicts with every set of up to 3 (4) keys, built in every order, used as keys, as elements of keys and inside errors."""
	head = 'let mk = function(n) function() n end end\nlet c1 = mk(1)\nlet c2 = mk(2)\nlet c3 = mk([])\nlet g = function() 0 end\nlet bad = []\n'
	head += ('let same = function(n, p, q)\nif p != q then std.push(bad, [ n, "differ" ]) end\nlet m = @[]\nm[p] = "x"\nm[[ p ]] = "y"\nm[std.error("e", p)] = "z"\nm[@[ k: p ]] = "w"\n'
		'if not (std.contains(m, q) and std.contains(m, [ q ]) and std.contains(m, std.error("e", q)) and std.contains(m, @[ k: q ])) then std.push(bad, [ n, "not found" ]) else\n'
		'm[q] = 1\nm[[ q ]] = 2\nm[std.error("e", q)] = 3\nif std.len(m) != 4 or m[p] != 1 or m[[ p ]] != 2 then std.push(bad, [ n, "not replaced" ]) end end end\n'
		'let other = function(n, p, q)\nlet m = @[]\nm[p] = "x"\nif p == q or std.contains(m, q) or std.contains([ p ], q) then std.push(bad, [ n, "not distinguished" ]) end end\n')
	sets = [t for k in range(0, 4 if quick else 5) for t in itertools.combinations(KEYS, k) if k < 4 or sum(x.startswith('c') for x in t) > 1 or '1' in t]
	for part in chunks(sets, 40):
		src = head
		for i, t in enumerate(part):
			src += 'let p%d = @[]\n' % i + ''.join('p%d[%s] = %d\n' % (i, k, j) for j, k in enumerate(t))
			for j, perm in enumerate(itertools.permutations(range(len(t)))):
				n = '%d_%d' % (i, j)
				src += 'let q%s = @[]\n' % n + ''.join('q%s[%s] = %d\n' % (n, t[x], x) for x in perm) + 'same("%s", p%d, q%s)\n' % (n, i, n)
			if t:
				src += 'let r%d = @[]\n' % i + ''.join('r%d[%s] = %d\n' % (i, k, j) for j, k in enumerate(t[:-1])) + 'other("%d short", p%d, r%d)\nr%d[%s] = nil\nother("%d value", p%d, r%d)\n' % (i, i, i, i, t[-1], i, i, i)
		yield 'dicts as keys: %s' % (part,), src + 'bad', b'R\t[ ]\n'


FUNCTIONS = ['std.len', 'std.cwd', 'std.env', 'std.int', 'std.print', 'std.regex', 'std.catch', 'f1', 'f2', 'std.base64.encode', 'std.base64.decode', 'std.hex.encode', 'c1', 'c3', 'std.iter', 'std.bind']


def function_cases(quick):
	"""However an array of functions is ordered, it is ordered the same after sorting; all functions are distinct keys."""
	head = ('let f1 = function() 1 end\nlet f2 = function() 1 end\nlet c1 = function(a, b) a end\nlet c3 = function() f1() end\nlet bad = []\n')
	head += ('let check = function(n, a, b)\nstd.sort(a)\nstd.sort(b)\nif a != b then std.push(bad, n) end\nlet d = @[]\nlet i = 0\nfor f in std.iter(a) do d[f] = i i = i + 1 end\n'
		'if std.len(d) != std.len(a) then std.push(bad, [ n, "keys" ]) end\ni = 0\nfor f in std.iter(b) do if d[f] != i then std.push(bad, [ n, "lookup" ]) end i = i + 1 end end\n')
	cases = [(k, t) for k in (2, 3) for t in itertools.combinations(FUNCTIONS, k)] + ([] if quick else [(4, t) for t in itertools.combinations(FUNCTIONS, 4)])
	for part in chunks(cases, 60):
		src = head
		for k, t in part:
			for perm in itertools.permutations(t):
				if perm != t:
					src += 'check("%s", [ %s ], [ %s ])\n' % (' '.join(perm), ', '.join(t), ', '.join(perm))
		yield 'functions: %s' % (part,), src + 'bad', b'R\t[ ]\n'
	src = head
	for n in (5, 8, len(FUNCTIONS)):
		for r in range(n):
			t = FUNCTIONS[:n]
			src += 'check("%d %d", [ %s ], [ %s ])\n' % (n, r, ', '.join(t), ', '.join((t[r:] + t[:r])[::-1]))
	# Functions defined on one line, at one column, in a module, nested, ...
	place = ('let p1 = function() 1 end let p2 = function() 2 end let p3 = function() 3 end\nlet p4 = function() 1 end let p5 = [ function() 1 end, function() 2 end ] let p6 = @[a: function() 1 end, b: function() 1 end]\n'
		'let p7 = function() function() 1 end end let p8 = p7()\n')
	names = ['p1', 'p2', 'p3', 'p4', 'p5[0]', 'p5[1]', 'p6.a', 'p6.b', 'p7', 'p8', 'check', 'f1']
	part = head + place
	for k in ((2, 3) if quick else (2, 3, 4)):
		for t in itertools.combinations(names, k):
			for perm in itertools.permutations(t):
				if perm != t:
					part += 'check("%s", [ %s ], [ %s ])\n' % (' '.join(perm), ', '.join(t), ', '.join(perm))
	yield 'functions: places', part + 'bad', b'R\t[ ]\n'
	yield 'functions: many', src + 'bad', b'R\t[ ]\n'


def check(ctx):
	n = explore.programs(ctx, itertools.chain(pair_programs(ctx.quick), key_triples(ctx.quick), sort_programs(ctx.quick)), size=200, head_prog=HEAD)
	# Many keys of all types at once.
	cases = []
	for cnt in (1, 2, 3, 7, 8, 14, 15, 16, 28, 100, 1000):
		cases.append(('dict with %d integer and string keys' % cnt,
			'let d = @[]\nfor i in std.range(0, %d, 1) do d[i] = i d[std.to_string(i)] = -i d[std.float(i)] = [i] d[[i]] = i end\nlet bad = 0\n'
			'for i in std.range(0, %d, 1) do if d[i] != i or d[std.to_string(i)] != -i or d[std.float(i)] != [i] or d[[i]] != i then bad = bad + 1 end end\n'
			'std.println(std.len(d), bad, std.contains(d, %d), std.contains(d, nil))' % (cnt, cnt, cnt), b'%d\t0\tfalse\tfalse\nR\tnil\n' % (4 * cnt)))
	m = batch.sweep(ctx, cases, size=2)
	k = batch.sweep(ctx, dict_key_cases(ctx.quick), size=1)
	k += batch.sweep(ctx, function_cases(ctx.quick), size=1)
	return {'exhaustive': True, 'programs': n, 'large_dicts': m, 'dict_key_batches': k, 'domain': len(SCALARS + NESTED + FUNS),
		'rule': 'all pairs of the value domain (equality, key lookup, replacement, nesting); all key triples; all arrays up to length 4 (5) over mixed and same-typed domains; all permutations of 6 (7)',
		'assumptions': ['acyclic values', 'how functions are ordered is free, as long as it is one order']}
