"""C13: iteration visits exactly the elements, in order, with the documented protocol.

All std.range argument triples over integer and float domains with the limits; std.iter on all small arrays, strings and
dicts; all interleavings of steps of up to three iterators over two collections mixed with mutations; all malformed
iteration results; nesting, sharing and breaking."""
import itertools
import math

from vlib import batch, explore
from vlib.lang import *

a, n, it, i = V('a'), V('n'), V('it'), V('i')


def FL(x):
	return ('float', x)


def take(iterable, limit=8, body=()):
	"""Prints at most limit values."""
	return [L('n', I(0)), ('for', 'i', iterable, [P(S('v'), STDC('type', i), i), A('n', B('+', n, I(1))), *body, E(('if', B('==', n, I(limit)), [('break',)], None))]), P(S('count'), n)]


def ranges(quick):
	ints = [0, 1, -1, 2, 3, -3, 5, I64_MAX, I64_MAX - 1, I64_MIN, I64_MIN + 1]
	steps = [1, -1, 2, -2, 3, 0, I64_MAX, I64_MIN, -I64_MAX]
	for f in ints:
		for t in ints:
			for s in steps:
				yield [L('it', STDC('range', I(f), I(t), I(s)))] + take(it) + [P(S('again'), C(it)) if False else P(S('end'))]
	fl = [0.0, 1.0, -1.0, 0.5, 2.5, 1e300, math.inf, -math.inf, math.nan, -0.0]
	if quick:
		fl = fl[:5] + [math.inf, math.nan]
	for f in fl:
		for t in fl:
			for s in [1.0, -1.0, 0.5, 0.25, 0.1, 0.0, -0.0, 1e300, math.inf, math.nan]:
				yield [L('it', STDC('range', FL(f), FL(t), FL(s)))] + take(it)
	# Mixed types are converted to float.
	for f, t, s in itertools.product([I(0), FL(0.0), I(3)], [I(3), FL(2.5), I(0)], [I(1), FL(0.5), I(-1), FL(-1.0)]):
		yield [L('it', STDC('range', f, t, s))] + take(it)
	# Every length of a range: exactly ceil((t - f) / s) values.
	for f in range(-4, 5):
		for t in range(-4, 9):
			for s in (1, 2, 3, 4, -1, -2, -3):
				yield [L('c', ('arr', [])), ('for', 'i', STDC('range', I(f), I(t), I(s)), [E(STDC('push', V('c'), i))]), E(V('c'))]
	for bad in [NIL, TRUE, S('1'), ('arr', []), ('byte', 49)]:
		for pos in range(3):
			args = [I(0), I(1), I(1)]
			args[pos] = bad
			yield [E(STDC('range', *args))]
	for k in (0, 1, 2, 4):
		yield [E(STDC('range', *[I(0)] * k))]


def exhausted():
	"""A finished iterator stays finished; extra arguments panic without advancing."""
	for src in (STDC('range', I(0), I(2), I(1)), STDC('iter', ('arr', [I(0), I(1)])), STDC('iter', S('ab')), STDC('range', I(I64_MAX - 1), I(I64_MAX), I(1)), STDC('range', I(I64_MIN), I(I64_MAX), I(I64_MAX))):
		for k in range(6):
			steps = [P(C(V('step'), it)) for _ in range(k)]
			yield [L('it', src)] + steps + take(it) + take2(it) + [P(C(V('step'), it))]
			yield [L('it', src)] + steps + [P(STDC('type', STDC('catch', F([], E(C(it, I(1)))))))] + take(it)


def take2(e):
	return [('for', 'j', e, [P(S('again'), V('j'))])]


def elements(quick):
	vals = [I(1), S('x'), NIL, ('arr', [I(2)])]
	for k in range(0, 5 if quick else 6):
		for t in itertools.product(vals, repeat=k):
			yield [L('a', ('arr', list(t))), ('for', 'e', STDC('iter', a), [P(STDC('type', V('e')), V('e'))]), P(a)]
	for k in range(0, 4 if quick else 5):
		for t in itertools.product(b'a\0\n\xc3', repeat=k):
			yield [L('c', S(bytes(t))), L('n', I(0)), ('for', 'e', STDC('iter', V('c')), [P(STDC('type', V('e')), B('==', V('e'), ('idx', V('c'), n))), P(V('e')), A('n', B('+', n, I(1)))]), E(n)]
	keys = [S('a'), I(1), FL(1.0), NIL, ('arr', [])]
	for k in range(0, 4):
		for t in itertools.permutations(keys, k):
			# Order is unspecified: every entry exactly once, with its value.
			p = [L('d', ('dict', [])), L('seen', ('dict', [])), L('n', I(0))]
			for j, key in enumerate(t):
				p.append(A(('idx', V('d'), key), I(j)))
			p += [('for', 'e', STDC('iter', V('d')), [A('n', B('+', n, I(1))), P(STDC('contains', V('seen'), D(V('e'), 'key')), STDC('len', V('e'))), A(('idx', V('seen'), D(V('e'), 'key')), D(V('e'), 'value'))]), P(B('==', V('d'), V('seen')), n)]
			yield p
	for bad in (NIL, I(1), TRUE, FL(1.0), ('byte', 65), F([], E(I(1))), STDC('error', S('e'), NIL)):
		yield [E(STDC('iter', bad))]
	for k in (0, 2):
		yield [E(STDC('iter', *[S('a')] * k))]


def interleavings(quick):
	"""All schedules of steps of three iterators (two over one array) and mutations of the array."""
	ops = [P(S('x'), C(V('step'), V('x'))), P(S('y'), C(V('step'), V('y'))), P(S('z'), C(V('step'), V('z'))), E(STDC('push', a, n)), E(C(V('drop'), a)), A(('idx', V('a'), I(0)), S('set')),
		A('y', V('x')), A('z', STDC('iter', a))]
	for k in range(0, 5 if quick else 6):
		for seq in itertools.product(range(len(ops)), repeat=k):
			if k >= 4 and quick and not {0, 1, 2} & set(seq[-2:]):
				continue
			yield [L('a', ('arr', [I(1), I(2), I(3)])), L('n', I(9)), L('x', STDC('iter', a)), L('y', STDC('iter', a)), L('z', STDC('range', I(0), I(2), I(1)))] + [ops[o] for o in seq] + \
				[P(C(V('step'), V('x')), C(V('step'), V('y')), C(V('step'), V('z'))), E(a)]


def loops():
	"""Nested loops over shared and separate iterators, broken out of at every point, with mutation of the collection."""
	srcs = [('arr', lambda: STDC('iter', a)), ('rng', lambda: STDC('range', I(0), I(3), I(1))), ('str', lambda: STDC('iter', S('pqr'))), ('shared', lambda: V('sh')),
		('user', lambda: C(V('counter'), I(3)))]
	bodies = [[], [E(('if', B('==', n, I(2)), [('break',)], None))], [E(('if', B('==', n, I(4)), [('break',)], None))], [E(STDC('push', V('log'), n))], [E(C(V('drop'), a))], [E(('if', B('<', STDC('len', a), I(5)), [E(STDC('push', a, n))], None))]]
	for (n1, s1), (n2, s2) in itertools.product(srcs, repeat=2):
		for b1 in bodies:
			for b2 in bodies:
				for pre in (False, True):
					inner = [A('n', B('+', n, I(1))), P(S('in'), V('p'), V('q')), *b2, E(('if', B('>', n, I(30)), [('break',)], None))]
					body = [A('n', B('+', n, I(1))), P(S('out'), V('p'))]
					if pre:
						body += b1
					body += [('for', 'q', s2(), inner)]
					if not pre:
						body += b1
					yield [L('a', ('arr', [I(1), I(2), I(3)])), L('log', ('arr', [])), L('n', I(0)), L('sh', STDC('iter', ('arr', [S('s1'), S('s2'), S('s3'), S('s4')]))),
						('for', 'p', s1(), body), P(S('rest'), V('log'), a), ('for', 'q', V('sh'), [P(V('q'))]), E(n)]


def protocol():
	"""Iterators returning anything: the loop ends, runs or panics exactly as the protocol says."""
	results = [NIL, TRUE, I(1), S('x'), ('arr', []), ('dict', []), ('dict', [('finished', TRUE)]), ('dict', [('finished', FALSE)]), ('dict', [('finished', NIL)]), ('dict', [('finished', I(0))]), ('dict', [('value', I(1))]),
		('dict', [('finished', TRUE), ('value', I(1))]), ('dict', [('finished', FALSE), ('value', I(7))]), ('dict', [('finished', FALSE), ('value', NIL)]), ('dict', [('finished', FALSE), ('value', I(7)), ('more', I(1))]),
		('dict', [('Finished', TRUE), ('value', I(1))]), ('dict', [('finished', S('true')), ('value', I(1))]), STDC('error', S('e'), NIL), F([], E(I(1)))]
	for r1 in results:
		for r2 in results:
			yield [L('n', I(0)), ('for', 'i', F([], A('n', B('+', n, I(1))), E(('if', B('==', n, I(1)), [E(r1)], [E(('if', B('==', n, I(2)), [E(r2)], [E(('dict', [('finished', TRUE)]))]))]))), [P(S('v'), i)]), E(n)]
	for bad in (NIL, I(1), S('abc'), ('arr', [I(1)]), ('dict', [('finished', TRUE)]), STDC('error', S('e'), NIL)):
		yield [('for', 'i', bad, [P(i)])]
	yield [('for', 'i', F(['x'], E(I(1))), [P(i)])]
	# self is nil in an iterator, also when it is a method.
	yield [L('o', ('dict', [('it', F([], P(STDC('type', ('self',))), E(('dict', [('finished', TRUE)]))))])), ('for', 'i', D(V('o'), 'it'), [])]
	yield [L('o', ('dict', [('n', I(0)), ('it', F([], A(D(('self',), 'n'), B('+', D(('self',), 'n'), I(1))), E(('dict', [('finished', B('>', D(('self',), 'n'), I(2))), ('value', D(('self',), 'n'))]))))])), ('for', 'i', STDC('bind', V('o'), D(V('o'), 'it')), [P(i)]), E(D(V('o'), 'n'))]
	# The iterable is evaluated once, the loop variable is fresh in scope.
	yield [L('i', S('outer')), L('k', I(0)), ('for', 'i', C(F([], A('k', B('+', V('k'), I(1))), E(STDC('range', I(0), I(3), I(1))))), [P(i), A('i', S('changed'))]), P(i), E(V('k'))]


HEAD = [
	L('step', F(['it'], L('r', C(it)), E(('if', D(V('r'), 'finished'), [E(S('fin'))], [E(D(V('r'), 'value'))])))),
	L('drop', F(['c'], E(('if', B('>', STDC('len', V('c')), I(0)), [E(STDC('pop', V('c')))], None)))),
	L('counter', F(['m'], L('k', I(0)), E(F([], A('k', B('+', V('k'), I(1))), E(('dict', [('finished', B('>', V('k'), V('m'))), ('value', V('k'))])))))),
]


def check(ctx):
	q = ctx.quick
	n = explore.programs(ctx, itertools.chain(ranges(q), exhausted(), elements(q), interleavings(q), loops(), protocol()), size=150, head_prog=HEAD)
	cases = [
		('long range', 'let s = 0 for i in std.range(0, 100000, 1) do s = s + i end s', b'R\t4999950000\n'),
		('long array', 'let a = [] for i in std.range(0, 20000, 1) do std.push(a, i) end let s = 0 for i in std.iter(a) do s = s + i end s', b'R\t199990000\n'),
		('large dict', 'let d = @[] for i in std.range(0, 5000, 1) do d[i] = i end let s = 0 let n = 0 for e in std.iter(d) do s = s + e.key + e.value n = n + 1 end std.println(s, n)', b'24995000\t5000\nR\tnil\n'),
		('exhausted dict iterator', 'let it = std.iter(@[k: 1]) let r = it() std.println(r.finished, r.value.key, r.value.value) for k in std.range(0, 3, 1) do r = it() std.println(r.finished, std.contains(r, "value")) end std.type(std.catch(function() it(1) end))', b'false\tk\t1\ntrue\tfalse\ntrue\tfalse\ntrue\tfalse\nR\terror\n'),
		('dict snapshot', 'let d = @[a: 1, b: 2] let n = 0 for e in std.iter(d) do d[n] = 0 n = n + 1 end std.println(n, std.len(d))', b'2\t4\nR\tnil\n'),
	]
	m = batch.sweep(ctx, cases, size=1)
	return {'exhaustive': True, 'programs': n, 'long_cases': m,
		'rule': 'all range triples over the limit domain; all arrays/strings/dicts up to length 4; all schedules of length 4 (5) of three iterators and mutations; all pairs of nested loops x bodies; all pairs of iteration results'}
