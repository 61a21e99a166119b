"""C09: catching a panic leaves the program state as if the call had returned.

All combinations of: where std.catch is called (pending arguments, loops, operands, methods, recursion ...), the chain of
constructs inside the caught function through which the panic travels, and the kind of panic (or none). The effects
performed before the panic and everything after the catch are traced and compared with the reference interpreter."""
import itertools

from vlib import batch, explore
from vlib.lang import *

x = V('x')


def T(n, e):
	return C(V('t'), I(n), e)


def inc(n=1):
	return A('x', B('+', x, I(n)))


def kinds():
	yield 'none', [E(I(5))]
	yield 'op', [E(B('+', I(1), NIL))]
	yield 'user', [E(STDC('panic', ('arr', [x, I(2)])))]
	yield 'arity', [E(C(V('two'), I(1)))]
	yield 'arity0', [E(C(V('two'), T(8, I(1)), I(2), I(3)))]
	yield 'native', [E(STDC('len', I(1)))]
	yield 'index', [L('ix', ('arr', [I(0)])), E(('idx', V('ix'), I(9)))]
	yield 'protocol', [('for', 'pp', F([], E(I(1))), [P(S('NEVER'))])]
	yield 'call', [E(C(V('x')))]
	yield 'cond', [E(('if', I(1), [], None))]
	yield 'pop', [E(STDC('pop', ('arr', [])))]
	yield 'readonly', [A(D(STDC('error', S('m'), I(1)), 'context'), I(2))]


def inner():
	"""How the panic travels: block -> block, the last statement being the one that panics."""
	yield 'if', lambda b: [inc(), E(('if', TRUE, b, None))]
	yield 'while', lambda b: [L('w', I(0)), ('while', B('<', V('w'), I(3)), [A('w', B('+', V('w'), I(1))), inc(), E(('if', B('==', V('w'), I(2)), b, None))]), P(S('w'), V('w'))]
	yield 'for', lambda b: [('for', 'i', STDC('range', I(0), I(3), I(1)), [E(STDC('push', V('a'), V('i'))), E(('if', B('==', V('i'), I(1)), b, None))])]
	yield 'fn', lambda b: [L('f', F(['p'], L('q', B('+', V('p'), I(1))), A('x', V('q')), *b)), E(C(V('f'), T(1, x)))]
	yield 'tail', lambda b: [L('g', F(['n'], L('v1', I(1)), L('v2', I(2)), inc(), *b)), L('f', F([], E(C(V('g'), I(3))))), E(C(V('f')))]
	yield 'rec', lambda b: [('letfn', 'r', ['n'], [L('loc', V('n')), E(STDC('push', V('a'), V('loc'))), E(('if', B('==', V('n'), I(0)), b, [E(B('+', C(V('r'), B('-', V('n'), I(1))), V('loc')))]))]), E(C(V('r'), I(3)))]
	yield 'arg', lambda b: [P(S('r'), C(V('three'), T(1, I(1)), ('if', T(2, TRUE), [inc()] + b, None), T(3, I(3))))]
	yield 'argarg', lambda b: [E(C(V('three'), T(1, I(1)), C(V('three'), T(4, I(4)), I(5), ('if', TRUE, b, None)), T(3, I(3))))]
	yield 'elem', lambda b: [L('z', ('arr', [T(1, I(1)), ('if', TRUE, [inc()] + b, None), T(2, I(2))])), P(V('z'))]
	yield 'dict', lambda b: [L('z', ('dict', [('k', T(1, I(1))), ('j', ('if', TRUE, b, None))])), P(D(V('z'), 'k'))]
	yield 'set', lambda b: [A(D(V('d'), 'k'), ('if', TRUE, [A(D(V('d'), 'j'), x)] + b, None)), P(S('set'))]
	yield 'iter', lambda b: [L('n', I(0)), ('for', 'v', F([], A('n', B('+', V('n'), I(1))), E(('if', B('==', V('n'), I(2)), b, None)), E(('dict', [('finished', B('>', V('n'), I(2))), ('value', V('n'))]))), [E(STDC('push', V('a'), V('v')))])]
	yield 'method', lambda b: [L('o', ('dict', [('v', I(1)), ('m', F(['p'], A(D(('self',), 'v'), V('p')), A('x', D(('self',), 'v')), *b))])), E(C(D(V('o'), 'm'), I(7)))]
	yield 'bind', lambda b: [L('bf', STDC('bind', V('d'), F(['p', 'q'], A(D(('self',), 'k'), B('+', V('p'), V('q'))), *b))), E(C(V('bf'), T(1, I(1)), T(2, I(2))))]
	yield 'closure', lambda b: [L('mk', F([], L('c', I(10)), E(F([], A('c', B('+', V('c'), I(1))), A('x', V('c')), *b)))), L('cl', C(V('mk'))), E(C(V('cl')))]
	yield 'catch', lambda b: [L('e1', STDC('catch', F([], inc(), *b))), P(STDC('type', V('e1'))), inc(), E(STDC('panic', S('second')))]
	yield 'caught', lambda b: [L('e1', STDC('catch', F([], inc(), E(B('+', I(1), NIL))))), P(STDC('type', V('e1')), x)] + b
	yield 'short', lambda b: [P(B('and', T(1, TRUE), ('if', TRUE, b, None)))]


def outer():
	"""Where the catch happens. c: the catch expression."""
	yield 'let', lambda c: [L('r', c), P(S('r'), V('r'))]
	yield 'stmt', lambda c: [E(c)]
	yield 'args', lambda c: [P(S('r'), C(V('three'), T(11, x), c, T(13, x)))]
	yield 'args2', lambda c: [P(C(V('three'), T(11, x), C(V('two'), T(12, x), c), T(13, x)))]
	yield 'elem', lambda c: [P(('arr', [T(11, x), c, T(13, x)]))]
	yield 'operand', lambda c: [P(B('==', T(11, x), c))]
	yield 'for', lambda c: [('for', 'o1', STDC('range', I(0), I(3), I(1)), [L('lv', V('o1')), P(S('o'), V('o1'), STDC('type', c)), P(V('lv'), x)])]
	yield 'while', lambda c: [L('o2', I(0)), ('while', B('<', V('o2'), I(2)), [A('o2', B('+', V('o2'), I(1))), E(c), P(V('o2'), x)])]
	yield 'wcond', lambda c: [L('o2', I(0)), ('while', ('if', B('==', c, I(987)), [E(FALSE)], [E(B('<', V('o2'), I(2)))]), [A('o2', B('+', V('o2'), I(1))), P(V('o2'), x)])]
	yield 'iter', lambda c: [L('o3', I(0)), ('for', 'v', F([], A('o3', B('+', V('o3'), I(1))), L('cc', c), E(('dict', [('finished', B('>', V('o3'), I(2))), ('value', STDC('type', V('cc')))]))), [P(V('v'), x)])]
	yield 'fn', lambda c: [L('h', F(['p1', 'p2'], L('l1', B('+', V('p1'), I(1))), L('cc', c), L('l2', B('+', V('p2'), I(1))), P(V('p1'), V('l1'), V('p2'), V('l2')), E(V('cc')))), P(C(V('h'), I(5), I(6)))]
	yield 'tail', lambda c: [L('h', F([], L('l1', I(4)), E(c))), P(C(V('h'))), L('h2', F([], E(C(V('h'))))), P(C(V('h2')))]
	yield 'method', lambda c: [L('o', ('dict', [('v', I(42)), ('m', F(['p'], L('cc', c), P(V('p'), D(('self',), 'v')), E(STDC('type', V('cc')))))])), P(C(D(V('o'), 'm'), I(3)))]
	yield 'rec', lambda c: [('letfn', 'rr', ['n'], [E(('if', B('==', V('n'), I(0)), [E(c)], [L('k1', V('n')), L('k2', C(V('rr'), B('-', V('n'), I(1)))), P(V('k1'), V('n')), E(V('k2'))]))]), P(C(V('rr'), I(2)))]
	yield 'closure', lambda c: [L('hm', F([], L('hc', I(0)), E(F([], A('hc', B('+', V('hc'), I(1))), L('cc', c), P(V('hc')), E(V('cc')))))), L('hf', C(V('hm'))), E(C(V('hf'))), P(C(V('hf')))]
	yield 'nested', lambda c: [P(STDC('catch', F([], L('in1', c), P(S('in'), V('in1')), E(V('in1')))))]
	yield 'twice', lambda c: [P(B('==', STDC('type', c), STDC('type', c)))]


HEAD = [
	L('t', F(['n', 'v'], P(S('t'), V('n'), V('v')), E(V('v')))),
	L('two', F(['a', 'b'], E(('arr', [V('a'), V('b')])))),
	L('three', F(['a', 'b', 'c'], L('s', V('a')), ('ret', ('arr', [V('s'), V('b'), V('c')])))),
]
PRE = [L('x', I(0)), L('y', S('y')), L('a', ('arr', [])), L('d', ('dict', [('k', I(0)), ('j', I(0))])), L('get', F([], E(x)))]
POST = [P(S('post'), x, V('y'), V('a'), D(V('d'), 'k'), D(V('d'), 'j'), C(V('get'))), A('x', I(100)), P(C(V('get')), C(V('three'), I(1), I(2), I(3))),
	('for', 'i', STDC('iter', ('arr', [I(1), I(2)])), [P(V('i'))]), E(C(V('two'), x, V('y')))]


def programs(quick):
	ins, outs, ks = list(inner()), list(outer()), list(kinds())
	for oname, o in outs:
		for k, kb in ks:
			for depth in (0, 1, 2, 3):
				if depth == 3 and (quick or k not in ('none', 'op', 'user', 'native')):
					continue
				if depth == 2 and quick and k in ('arity0', 'index', 'call', 'cond', 'pop', 'readonly'):
					continue
				for combo in itertools.product(ins, repeat=depth):
					if depth == 3 and oname not in ('args', 'fn', 'for', 'iter'):
						continue
					b = list(kb)
					for i, (n, w) in enumerate(reversed(combo)):
						if i:
							b = [E(('if', TRUE, b, None))]
						b = w(b)
					p = PRE + o(STDC('catch', F([], *b))) + POST
					try:
						block(p)
					except ValueError:
						continue
					yield p


RAW = [
	# (source, expected): panics that come from commands, modules and callbacks of other library functions.
	('let z = [1, 2]\nlet q = 1\nlet r = std.catch(function() q = 2 { true > $z } q = 3 end)\nstd.println(q, std.type(r))\n{ echo ok }', b'2\terror\nok\nR\tnil\n'),
	('let z = @[]\nlet r = std.catch(function() let c = ${ echo a; echo $z } c end)\nstd.println(std.type(r))\nstd.println(${ echo b }.stdout)', b'error\nb\n\nR\tnil\n'),
	('let j = &{ true }\nj.join()\nlet r = std.catch(j.join)\nstd.println(std.type(r))\nlet k = &{ echo x }\nk.join()', b'error\nx\nR\tnil\n'),
	('let r = std.catch(function() std.import("./nope.hsh") end)\nstd.println(std.type(r), r.context)', b'error\tpanic\nR\tnil\n'),
	('let r = std.catch(std.cwd)\nstd.println(std.type(r))', b'string\nR\tnil\n'),
	('let r = std.catch(std.len)\nstd.println(std.type(r), r.context)', b'error\tpanic\nR\tnil\n'),
	('let r = std.catch(std.bind(3, function() self + 1 end))\nr', b'R\t4\n'),
	('let e = std.error("own", 7)\nlet r = std.catch(function() e end)\nstd.println(r == e, r.context)', b'true\t7\nR\tnil\n'),
	('let r = std.catch(function() return 5 end)\nr', b'R\t5\n'),
	('let r = std.catch(function() std.error("q", 1)? std.println("NEVER") end)\nr.description', b'R\tq\n'),
	('let o = @[s: function() std.catch(function() std.type(self) end) end]\no.s()', b'R\tnil\n'),
	('let r = std.catch(function(a) a end)\nstd.type(r)', b'R\terror\n'),
	('let r = std.catch(5)\nstd.type(r)', b'P\tvalue (5) has unexpected type, expected function\n'),
	('let r = std.catch()\nstd.type(r)', b'P\tincorrect amount of function parameters -- supplied 0, expected 1\n'),
]


def overflow():
	"""The stack of the interpreter is exhausted below the catch (wide frames, so that the native stack is not)."""
	for w in (3000, 9000, 20000):
		lets = ''.join('let v%d = %d\n' % (i, i) for i in range(w))
		for body in ('1 + f(k + 1)', 'let r = f(k + 1)\nr', 'for i in std.range(0, 2, 1) do let z = f(k + 1)\nstd.println(z) end', 'let z = [ k, f(k + 1) ]\nz', 'std.push(a, f(k + 1))', 'let g = function() v0 + f(k + 1) end\n1 + g()', 'd.f(k + 1) + 1', 'let r = std.bind(d, f)(k + 1)\nr'):
			head = 'let n = 0\nlet a = []\nlet d = @[ v: 5 ]\nlet three = function(a, b, c) [ a, b, c ] end\nlet f = function(k)\nn = k\n%s%s\nend\nd["f"] = f\n' % (lets, body)
			yield (head + 'let once = function(q) let before = q * 2\nlet r = three(before, std.catch(function() f(0) end), q)\nstd.println(r[0], std.type(r[1]), r[1].context, r[2], before)\nn end\n'
				'let m1 = once(1)\nlet m2 = once(2)\nlet m3 = 0\nfor i in std.range(0, 3, 1) do m3 = once(10 + i) end\nstd.println(m1 == m2, m2 == m3, m1 > 0, a, d.v, n == m1)\n'
				'let h = function(k) if k == 0 then 0 else 1 + h(k - 1) end end\nh(30)',
				b''.join(b'%d\terror\tpanic\t%d\t%d\n' % (2 * v, v, 2 * v) for v in (1, 2, 10, 11, 12)) + b'true\ttrue\ttrue\t[ ]\t5\ttrue\nR\t30\n')


def check(ctx):
	n = explore.programs(ctx, programs(ctx.quick), size=120, head_prog=HEAD, fuel=4000)
	def tops():
		for i, p in enumerate(programs(True)):
			if i % (37 if ctx.quick else 5) == 0:
				yield HEAD + p
	m = explore.toplevel(ctx, tops())
	k = batch.sweep(ctx, [(s if len(s) < 3000 else 'stack overflow: ...' + s[-700:], s, e) for s, e in itertools.chain(RAW, overflow())], size=1)
	return {'exhaustive': True, 'programs': n, 'top_level_scripts': m, 'command_and_module_cases': k,
		'rule': 'all (place of the catch) x (panic kind) x (chains of up to 2, thorough 3, constructs between catch and panic)',
		'assumptions': ['in quick, chains of length 2 use 6 of the 12 panic kinds']}
