"""C11: arrays and dicts behave as shared mutable sequences and maps.

All operation sequences up to a length over arrays and dicts reached through variables, aliases, elements, captured
variables, parameters and bound objects; additionally a breadth-first search over the model's distinct heap states,
replaying every transition (shortest history + operation). After each history everything reachable is dumped."""
import itertools

from vlib import batch, explore
from vlib.lang import *

a, b, d, o = V('a'), V('b'), V('d'), V('o')


def show_op(e):
	return E(C(V('op'), F([], E(e))))


def stmt_op(*s):
	return E(C(V('op'), F([], *s)))


def array_ops():
	yield show_op(STDC('push', a, I(1)))
	yield show_op(STDC('push', b, S('s')))
	yield show_op(STDC('push', ('idx', o, I(0)), ('arr', [])))
	yield show_op(C(V('fpush'), a, NIL))
	yield show_op(STDC('pop', a))
	yield show_op(STDC('pop', D(V('h'), 'arr')))
	for i in (-1, 0, 1, 2):
		yield stmt_op(A(('idx', a, I(i)), I(10 + i)))
	yield stmt_op(A(('idx', b, I(0)), S('b0')))
	yield stmt_op(A(('idx', ('idx', o, I(0)), I(1)), TRUE))
	yield stmt_op(A(('idx', a, ('float', 0.0)), I(5)))
	yield show_op(C(V('cap')))
	yield show_op(('idx', b, I(1)))
	yield show_op(STDC('contains', b, I(1)))
	yield E(C(V('op'), F([], A('a', ('arr', [I(7), I(8)])))))
	yield E(C(V('op'), F([], A(('idx', o, I(0)), a))))
	yield E(C(V('op'), F([], A(D(V('h'), 'arr'), b))))
	yield show_op(STDC('sort', b))
	yield E(('for', 'q', STDC('iter', a), [P(S('it'), V('q'))])) if False else ('for', 'q', STDC('iter', a), [P(S('it'), V('q'))])


ARRAY_PRE = [L('a', ('arr', [])), L('b', a), L('o', ('arr', [a, I(0)])), L('h', ('dict', [('arr', a)])), L('cap', F([], E(STDC('push', a, S('c'))))),
	L('fpush', F(['p', 'x'], E(STDC('push', V('p'), V('x')))))]
ARRAY_DUMP = [P(S('dump'), a, b, o, D(V('h'), 'arr')), P(STDC('len', a), STDC('len', b), STDC('is_empty', a), STDC('contains', a, S('c')), B('==', a, b), B('==', ('idx', o, I(0)), b))] + \
	[P(C(V('get'), x, I(i))) for x in (a, b) for i in (-1, 0, 1, 2, 3)]


def dict_ops():
	k = S('k')
	yield stmt_op(A(D(d, 'k'), I(1)))
	yield stmt_op(A(('idx', b, k), I(2)))
	yield stmt_op(A(D(d, 'j'), ('arr', [])))
	yield stmt_op(A(('idx', d, I(1)), S('int')))
	yield stmt_op(A(('idx', b, ('float', 1.0)), S('float')))
	yield stmt_op(A(('idx', d, NIL), S('nil')))
	yield stmt_op(A(('idx', d, ('arr', [I(1)])), S('arrkey')))
	yield stmt_op(A(D(D(V('h'), 'dict'), 'k'), NIL))
	yield show_op(D(d, 'k'))
	yield show_op(D(b, 'j'))
	yield show_op(STDC('push', D(d, 'j'), I(3)))
	yield show_op(('idx', d, I(1)))
	yield show_op(STDC('contains', d, k))
	yield show_op(C(V('setk'), b, S('par')))
	yield show_op(C(D(d, 'k')))
	yield E(C(V('op'), F([], A('d', ('dict', [('k', I(9))])))))
	yield E(C(V('op'), F([], A(D(V('h'), 'dict'), b))))
	yield stmt_op(A(D(d, 'k'), F([], E(STDC('len', ('self',))))))
	yield stmt_op(A(('idx', d, S('')), S('empty')))


KEYS = [S('k'), S('j'), I(1), ('float', 1.0), NIL, ('arr', [I(1)]), S(''), TRUE, ('arr', [])]
DICT_PRE = [L('d', ('dict', [])), L('b', d), L('h', ('dict', [('dict', d)])), L('setk', F(['p', 'v'], A(D(V('p'), 'k'), V('v'))))]
DICT_DUMP = [P(STDC('len', d), STDC('len', b), STDC('is_empty', d), B('==', d, b), B('==', D(V('h'), 'dict'), b))] + \
	[P(STDC('contains', x, k), C(V('get'), x, k)) for x in (d, b) for k in KEYS] + [P(C(V('keys'), d)), P(C(V('keys'), D(V('h'), 'dict')))]

HEAD = [
	L('op', F(['f'], L('r', STDC('catch', V('f'))), P(S('op'), ('if', B('==', STDC('type', V('r')), S('error')), [E(D(V('r'), 'description'))], [E(V('r'))])))),
	L('get', F(['c', 'i'], L('r', STDC('catch', F([], E(('idx', V('c'), V('i')))))), E(('if', B('==', STDC('type', V('r')), S('error')), [E(S('none'))], [E(V('r'))])))),
	# Number of entries an iteration reports, and how many of them agree with indexing.
	L('keys', F(['c'], L('n', I(0)), L('ok', I(0)), ('for', 'e', STDC('iter', V('c')), [A('n', B('+', V('n'), I(1))), E(('if', B('==', ('idx', V('c'), D(V('e'), 'key')), D(V('e'), 'value')), [A('ok', B('+', V('ok'), I(1)))], None))]), E(B('+', B('*', V('n'), I(100)), V('ok'))))),
]


def histories(ops, pre, dump, n):
	for k in range(n + 1):
		for seq in itertools.product(ops, repeat=k):
			yield pre + list(seq) + dump + [E(S('end'))]


def heap_key(it):
	"""Canonical form of everything reachable from the program's variables."""
	seen = {}

	def walk(v):
		t = typ(v)
		if t in ('array', 'dict', 'error'):
			if id(v) in seen:
				return ('ref', seen[id(v)])
			seen[id(v)] = len(seen)
			if t == 'array':
				return ('array', tuple(walk(x) for x in v.v))
			if t == 'dict':
				return ('dict', tuple(sorted((repr(walk(k)), repr(walk(x))) for k, x in v.v)))
		if t == 'function':
			return ('function',)
		return (t, repr(v) if t != 'char' else v.n)
	env, out = it.globals, []
	while env is not None:
		for n, c in sorted(env.vars.items()):
			if n in ('a', 'b', 'd', 'o', 'h'):
				out.append((n, walk(c.v)))
		env = env.parent
	return repr(out)


def bfs(ops, pre, dump, depth, cap):
	"""All transitions of the model's state graph: (shortest history to a state) + operation."""
	front, seen = [()], set()
	for level in range(depth):
		nxt = []
		for hist in front:
			for i, op in enumerate(ops):
				seq = hist + (i,)
				it = Interp(20000)
				it.top(HEAD + pre + [ops[j] for j in seq])
				yield pre + [ops[j] for j in seq] + dump + [E(S('end'))]
				k = heap_key(it)
				if k not in seen:
					seen.add(k)
					nxt.append(seq)
		front = nxt[:cap]
		if not front:
			return


def aliasing():
	"""Every way to reach a collection x every mutation: all references observe it."""
	makers = {
		'var': ([L('c', V('m'))], V('c')), 'elem': ([L('c', ('arr', [V('m')]))], ('idx', V('c'), I(0))), 'field': ([L('c', ('dict', [('x', V('m'))]))], D(V('c'), 'x')),
		'deep': ([L('c', ('arr', [('dict', [('x', ('arr', [V('m')]))])]))], ('idx', D(('idx', V('c'), I(0)), 'x'), I(0))), 'fn': ([L('c', F([], E(V('m'))))], C(V('c'))),
		'clos': ([L('c', C(F(['z'], E(F([], E(V('z'))))), V('m')))], C(V('c'))), 'id': ([L('c', C(F(['z'], ('ret', V('z'))), V('m')))], V('c')), 'err': ([L('c', STDC('error', S('e'), V('m')))], D(V('c'), 'context')),
		'if': ([L('c', ('if', TRUE, [E(V('m'))], None))], V('c')), 'self': ([L('c', C(D(('dict', [('me', V('m')), ('g', F([], E(D(('self',), 'me'))))]), 'g')))], V('c')),
		'bind': ([L('c', STDC('bind', V('m'), F([], E(('self',)))))], C(V('c'))), 'try': ([L('c', C(F([], E(('try', V('m'))))))], V('c')), 'catch': ([L('c', STDC('catch', F([], E(V('m')))))], V('c')),
		'iter': ([L('c'), ('for', 'q', STDC('iter', ('arr', [V('m')])), [A('c', V('q'))])], V('c')), 'pop': ([L('c', STDC('pop', ('arr', [V('m')])))], V('c')),
		'val': ([L('c'), ('for', 'q', STDC('iter', ('dict', [('k', V('m'))])), [A('c', D(V('q'), 'value'))])], V('c')),
	}
	muts = {
		'arr': (('arr', [I(1), I(2)]), [lambda r: E(STDC('push', r, I(9))), lambda r: E(STDC('pop', r)), lambda r: A(('idx', r, I(1)), S('set')), lambda r: E(STDC('sort', r))], lambda r: P(r, STDC('len', r))),
		'dict': (('dict', [('k', I(1))]), [lambda r: A(D(r, 'k'), I(5)), lambda r: A(('idx', r, S('k')), NIL)], lambda r: P(D(r, 'k'), STDC('len', r))),
	}
	for kind, (init, mm, dump) in muts.items():
		for n1, (s1, r1) in makers.items():
			for n2, (s2, r2) in makers.items():
				for mu in mm:
					s2r = [rename(s, 'c', 'c2') for s in s2]
					r2r = rename(r2, 'c', 'c2')
					yield [L('m', init)] + s1 + s2r + [mu(r1), dump(V('m')), dump(r2r), mu(r2r), dump(r1), dump(V('m')), P(B('==', r1, r2r))]


def rename(t, x, y):
	if isinstance(t, tuple):
		if t[:2] in (('var', x), ('let', x)):
			t = (t[0], y) + t[2:]
		return tuple(rename(e, x, y) if i else e for i, e in enumerate(t))
	if isinstance(t, list):
		return [rename(e, x, y) for e in t]
	return t


def errors():
	"""Accesses that must panic, on every kind of object, leaving everything as it was."""
	objs = [NIL, TRUE, I(1), ('float', 1.0), ('byte', 65), S('ab'), ('arr', [I(1), I(2)]), ('dict', [('k', I(1))]), F([], E(I(1))), STDC('error', S('e'), I(1))]
	ixs = [NIL, TRUE, I(0), I(1), I(2), I(-1), I(I64_MAX), I(I64_MIN), ('float', 0.0), ('byte', 107), S('k'), S(''), S('0'), ('arr', []), ('dict', []), ('float', float('nan'))]
	for ob in objs:
		for ix in ixs:
			yield [L('c', ob), L('i', ix), L('n', I(0)), E(C(V('op'), F([], E(('idx', V('c'), V('i')))))), E(C(V('op'), F([], A(('idx', V('c'), V('i')), S('v'))))), E(C(V('op'), F([], E(('idx', V('c'), V('i')))))), E(V('c')) if ob[0] != 'dict' else E(STDC('len', V('c')))]
		for fn in ('push', 'contains'):
			for x in objs[:8]:
				yield [L('c', ob), L('x', x), E(C(V('op'), F([], E(STDC(fn, V('c'), V('x')))))), E(V('c'))]
		for fn in ('pop', 'len', 'is_empty', 'sort', 'iter'):
			yield [L('c', ob), E(C(V('op'), F([], E(STDC('type', STDC(fn, V('c'))))))), E(V('c'))]


GC = [
	# Collections that stay reachable survive any amount of garbage, unreachable ones may vanish.
	('let keep = [[1], @[k: [2]], function() 7 end]\nlet junk = nil\nfor i in std.range(0, %(n)d, 1) do junk = [i, [i], @[x: [i]]] end\nstd.println(keep[0], keep[1].k, keep[2](), junk[1])', b'[ 1 ]\t[ 2 ]\t7\t[ %(m)d ]\nR\tnil\n'),
	('let mk = function(v) let c = [v] function() std.push(c, v) c end end\nlet fs = []\nfor i in std.range(0, 5, 1) do std.push(fs, mk(i)) end\nfor i in std.range(0, %(n)d, 1) do let j = [[i], @[]] end\nfor f in std.iter(fs) do std.println(f()) end', b'[ 0, 0 ]\n[ 1, 1 ]\n[ 2, 2 ]\n[ 3, 3 ]\n[ 4, 4 ]\nR\tnil\n'),
	('let it = std.iter([[1], [2], [3]])\nlet bd = std.bind([8], function() for i in std.range(0, %(n)d, 1) do let j = [i] end self end)\nfor x in it do std.println(x, bd()) end', b'[ 1 ]\t[ 8 ]\n[ 2 ]\t[ 8 ]\n[ 3 ]\t[ 8 ]\nR\tnil\n'),
	('let e = std.error("m", [[5]])\nlet d = @[]\nd[["key"]] = ["val"]\nfor i in std.range(0, %(n)d, 1) do let j = std.catch(function() [i] + 1 end) end\nstd.println(e.context, d[["key"]], e.description)', b'[ [ 5 ] ]\t[ "val" ]\tm\nR\tnil\n'),
	('function f(p, q) for i in std.range(0, %(n)d, 1) do let j = @[a: [i]] end [p, q] end\nstd.println(f([1], f(@[], [[2]])))', b'[ [ 1 ], [ @[ ], [ [ 2 ] ] ] ]\nR\tnil\n'),
	('let a = [] \nlet b = [a]\nlet c = [b]\nstd.push(a, c)\na = nil b = nil c = nil\nfor i in std.range(0, %(n)d, 1) do let x = [] let y = [x] std.push(x, y) end\n"done"', b'R\tdone\n'),
	('let big = []\nfor i in std.range(0, %(n)d, 1) do std.push(big, [i]) end\nlet s = 0\nfor x in std.iter(big) do s = s + x[0] end\nstd.println(std.len(big), s, big[%(m)d])', b'%(n)d\t%(sum)d\t[ %(m)d ]\nR\tnil\n'),
	('let d = @[]\nfor i in std.range(0, %(n)d, 1) do d[i] = [i] d[std.to_string(i)] = i end\nlet s = 0\nfor e in std.iter(d) do if std.type(e.key) == "int" then s = s + e.value[0] end end\nstd.println(std.len(d), s, d["%(m)d"])', b'%(n2)d\t%(sum)d\t%(m)d\nR\tnil\n'),
]


# Every size and every position up to n.
SIZES = [
	("""let a = []
for i in std.range(0, %(n)d, 1) do
	std.push(a, i * 3)
	if a[i] != i * 3 or std.len(a) != i + 1 or a[0] != 0 or (i > 0 and a[i - 1] != (i - 1) * 3) then std.println("push", i) end
end
for i in std.range(0, %(n)d, 1) do
	if a[i] != i * 3 then std.println("get", i) end
	a[i] = [i]
	if a[i][0] != i or (i > 0 and a[i - 1][0] != i - 1) or (i < %(m)d and a[i + 1] != (i + 1) * 3) or std.len(a) != %(n)d then std.println("set", i) end
end
let k = 0
for x in std.iter(a) do
	if x[0] != k then std.println("iter", k) end
	k = k + 1
end
std.println(k)
for i in std.range(%(m)d, -1, -1) do
	let x = std.pop(a)
	if x[0] != i or std.len(a) != i or std.is_empty(a) != (i == 0) then std.println("pop", i) end
end
std.push(a, "again")
std.println(a)""", b'%(n)d\n[ "again" ]\nR\tnil\n'),
	("""let d = @[]
let key = function(i) if i %% 3 == 0 then i else if i %% 3 == 1 then std.to_string(i) else [i, "k"] end end end
for i in std.range(0, %(n)d, 1) do
	if std.contains(d, key(i)) then std.println("early", i) end
	d[key(i)] = i
	if d[key(i)] != i or std.len(d) != i + 1 or d[0] != 0 or (i > 0 and d[key(i - 1)] != i - 1) then std.println("insert", i) end
end
for i in std.range(0, %(n)d, 1) do
	if not std.contains(d, key(i)) or d[key(i)] != i then std.println("get", i) end
	d[key(i)] = -i
	if d[key(i)] != -i or std.len(d) != %(n)d or (i < %(m)d and d[key(i + 1)] != i + 1) then std.println("set", i) end
end
let k = 0
for x in std.iter(d) do
	if x.key != key(-x.value) then std.println("iter", k) end
	k = k + 1
end
std.println(k, std.contains(d, "x"), std.contains(d, %(n)d))""", b'%(n)d\tfalse\tfalse\nR\tnil\n'),
	("""let a = []
for i in std.range(0, 200, 1) do
	for ix in std.iter([i, i + 1, i + 2, i * 2 + 1, -1, -i - 1, -2, 4096]) do
		let g = std.catch(function() a[ix] end)
		let s = std.catch(function() a[ix] = "bad" end)
		if std.type(g) != "error" or std.type(s) != "error" then std.println("out of range", i, ix) end
		if std.len(a) != i or (i > 0 and a[i - 1] != i - 1) or (i > 0 and a[0] != 0) then std.println("changed", i, ix) end
	end
	std.push(a, i)
end
let d = @[]
for i in std.range(0, 200, 1) do
	for ix in std.iter([i, i + 1, -1, std.to_string(i), nil]) do
		let g = std.catch(function() d[ix] end)
		if std.type(g) != "error" then std.println("no such key", i, ix) end
		if std.len(d) != i then std.println("changed", i, ix) end
	end
	d[i] = i
end
std.println(std.len(a), std.len(d))""", b'200\t200\nR\tnil\n'),
	("""let q = []
let front = 0
for i in std.range(0, %(n)d, 1) do
	std.push(q, i) std.push(q, -i)
	let x = std.pop(q)
	if x != -i or std.len(q) != i + 1 then std.println("wave", i) end
end
let b = [] for x in std.iter(q) do std.push(b, x) end
std.println(b == q, std.len(b))
b[%(m)d] = "other"
std.println(b == q, q[%(m)d])""", b'true\t%(n)d\nfalse\t%(m)d\nR\tnil\n'),
]


def gc_cases(n):
	p = {'n': n, 'm': n - 1, 'sum': n * (n - 1) // 2, 'n2': 2 * n}
	for s, e in GC + SIZES:
		# Dict and array operations under collector pressure.
		src = s % p
		yield ('under garbage: ' + src, src, (e.decode() % p).encode())


def check(ctx):
	q = ctx.quick
	aops, dops = list(array_ops()), list(dict_ops())
	n = explore.programs(ctx, itertools.chain(
		histories(aops, ARRAY_PRE, ARRAY_DUMP, 3), histories(dops, DICT_PRE, DICT_DUMP, 3),
		aliasing(), errors()), size=150, head_prog=HEAD)
	m = explore.programs(ctx, itertools.chain(bfs(aops, ARRAY_PRE, ARRAY_DUMP, 4 if q else 6, 150 if q else 1500), bfs(dops, DICT_PRE, DICT_DUMP, 4 if q else 6, 150 if q else 1500)), size=100, head_prog=HEAD)
	l = 0
	if not q:
		keep = lambda ops: [op for i, op in enumerate(ops) if i % 3 != 2]
		l = explore.programs(ctx, itertools.chain(
			histories(keep(aops), ARRAY_PRE, ARRAY_DUMP, 4), histories(keep(dops), DICT_PRE, DICT_DUMP, 4)), size=150, head_prog=HEAD)
	k = batch.sweep(ctx, gc_cases(3000 if q else 12000), size=1)
	return {'exhaustive': True, 'histories': n + l, 'state_graph_transitions': m, 'collector_cases': k, 'array_operations': len(aops), 'dict_operations': len(dops),
		'rule': 'all operation sequences of length 3 (thorough: 4 over two thirds of the operations); all transitions of the heap state graph to depth 4 (6), with a cap on the states expanded per level; '
			'all pairs of access paths x mutations; all (object type, index) accesses',
		'assumptions': ['no collection contains itself (see known findings); dict keys are not mutated while in the dict']}
