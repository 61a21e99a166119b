"""C10: error values and the try operator.

All nestings (depth 2, thorough 3) of expression and loop contexts around `v?` with every kind of value; propagation
through chains of functions; all accesses to and assignments on error values; std.has_error on all value trees."""
import itertools

from checks import c04
from vlib import batch, explore
from vlib.lang import *

e, v = V('e'), V('v')
ERR = STDC('error', S('msg'), ('arr', [I(1)]))
VALUES = [
	NIL, TRUE, FALSE, I(0), I(7), ('float', 0.5), ('byte', 65), S(''), S('error'), ('arr', []), ('arr', [I(1)]), ('dict', []), ('dict', [('description', S('x'))]), ('dict', [('context', I(1))]),
	('arr', [ERR]), ('dict', [('e', ERR)]), F([], E(ERR)), D(V('std'), 'error'),
	ERR, STDC('error', S(''), NIL), STDC('error', S('nested'), ERR), STDC('catch', F([], E(B('+', I(1), NIL)))), STDC('error', S('e'), ('dict', [('k', F([], E(I(1))))])),
]


def try_programs(quick):
	# Any value: the result is the value itself (same identity for collections), or the function ends.
	for val in VALUES:
		yield [L('v', val), L('f', F([], L('w', ('try', v)), P(S('continued')), E(B('==', V('w'), v)))), L('r', C(V('f'))), P(STDC('type', V('r'))), E(V('r'))]
		yield [L('v', val), L('f', F([], P(('try', v)), ('ret', S('end')))), L('r', C(V('f'))), E(V('r'))]
		yield [L('f', F(['p'], ('ret', ('try', V('p'))))), L('r', C(V('f'), val)), P(STDC('type', V('r'))), E(V('r'))]
		yield [L('f', F(['p'], E(('try', V('p'))), E(S('end')))), L('r', C(V('f'), val)), P(STDC('type', V('r'))), E(V('r'))]
		yield [L('f', F(['p'], E(('try', ('try', V('p')))))), L('r', C(V('f'), val)), P(STDC('type', V('r'))), E(V('r'))]
	# Aliasing is kept.
	for val in (('arr', [I(1)]), ):
		yield [L('v', val), L('f', F([], E(STDC('push', ('try', v), I(2))))), E(C(V('f'))), E(v)]
	yield [L('c', ('arr', [])), L('v', STDC('error', S('m'), V('c'))), L('f', F([], E(('try', v)), E(I(1)))), L('r', C(V('f'))), E(STDC('push', D(V('r'), 'context'), I(5))), P(V('c'), D(v, 'context')), E(B('==', V('r'), v))]
	# Depth: the error leaves exactly one function per ?.
	for depth in range(1, 6):
		for mask in range(1 << depth):
			body = [E(V('err'))]
			p = [L('err', ERR), L('f0', F([], P(S('f0')), E(V('err'))))]
			for i in range(depth):
				call = C(V('f%d' % i))
				inner = ('try', call) if mask >> i & 1 else call
				p.append(L('f%d' % (i + 1), F([], L('w', inner), P(S('f%d' % (i + 1)), STDC('type', V('w'))), E(('if', B('==', V('w'), NIL), [E(I(0))], [E(V('w'))])))))
			yield p + [L('r', C(V('f%d' % depth))), P(STDC('type', V('r'))), E(B('==', V('r'), V('err')))]
	# In loops, iterators, conditions, methods and nested functions.
	shapes = [
		lambda t: [('for', 'i', STDC('range', I(0), I(4), I(1)), [P(S('i'), V('i')), E(('if', B('==', V('i'), I(1)), [L('w', t), P(S('w'))], None)), P(S('next'))]), P(S('after')), E(S('end'))],
		lambda t: [L('k', I(0)), ('while', B('<', V('k'), I(3)), [A('k', B('+', V('k'), I(1))), P(V('k')), E(('if', B('==', V('k'), I(2)), [E(t), P(S('cont'))], None))]), E(S('end'))],
		lambda t: [('while', ('if', B('==', t, NIL), [E(FALSE)], [E(FALSE)]), []), E(S('end'))],
		lambda t: [('for', 'i', STDC('iter', ('arr', [t, t])), [P(S('it'))]), E(S('end'))],
		lambda t: [L('n', I(0)), ('for', 'i', F([], A('n', B('+', V('n'), I(1))), L('w', t), E(('dict', [('finished', B('>', V('n'), I(2))), ('value', V('n'))]))), [P(V('i'))]), E(S('end'))],
		lambda t: [L('g', F([], P(S('g')), E(t), P(S('g2')), E(I(3)))), L('w', C(V('g'))), P(STDC('type', V('w'))), E(S('end'))],
		lambda t: [L('o', ('dict', [('m', F(['a'], E(t), E(V('a'))))])), P(STDC('type', C(D(V('o'), 'm'), I(4)))), E(S('end'))],
		lambda t: [P(STDC('type', C(STDC('bind', NIL, F([], E(t), E(I(4))))))), E(S('end'))],
		lambda t: [P(STDC('type', STDC('catch', F([], E(t), E(I(4)))))), E(S('end'))],
		lambda t: [E(C(V('t3'), I(1), t, P(S('arg3'))[1])), E(S('end'))],
		lambda t: [P(('arr', [C(V('t1'), I(1)), t, C(V('t1'), I(2))])), E(S('end'))],
		lambda t: [L('w', ('dict', [('a', C(V('t1'), I(1))), ('b', t), ('c', C(V('t1'), I(2)))])), P(STDC('len', V('w'))), E(S('end'))],
		lambda t: [L('arr', ('arr', [I(0)])), A(('idx', V('arr'), I(0)), t), P(V('arr')), E(S('end'))],
		lambda t: [L('w', I(9)), A('w', t), P(V('w')), E(S('end'))],
		lambda t: [E(('if', B('==', t, NIL), [P(S('then'))], [P(S('else'))])), E(S('end'))],
		lambda t: [P(B('and', TRUE, B('==', t, NIL))), E(S('end'))],
		lambda t: [P(B('and', FALSE, B('==', t, NIL))), E(S('end'))],
		lambda t: [('ret', ('arr', [t]))],
		lambda t: [E(('if', TRUE, [E(('if', TRUE, [E(t)], None))], None)), P(S('after if')), E(S('end'))],
		lambda t: [P(D(('dict', [('a', t)]), 'a')), E(S('end'))],
		lambda t: [P(('un', 'not', B('==', t, I(1)))), E(S('end'))],
	]
	for sh in shapes:
		for val in VALUES:
			yield [L('v', val), L('f', F([], *sh(('try', v)))), L('r', C(V('f'))), P(STDC('type', V('r'))), P(C(V('t3'), I(1), I(2), I(3))), E(V('r'))]
			yield [L('v', val), L('g', F(['a', 'b'], L('l1', V('a')), L('f', F([], *sh(('try', v)))), L('r', C(V('f'))), P(V('a'), V('b'), V('l1')), ('ret', V('r')))), L('r', C(V('g'), I(1), I(2))), P(STDC('type', V('r'))), E(V('r'))]
	# Every expression context of C04, two (three) deep.
	ctxs = list(c04.contexts(None))
	for depth in (1, 2) if quick else (1, 2, 3):
		for combo in itertools.product(ctxs, repeat=depth):
			for val in (I(2), ERR):
				h = ('try', V('v'))
				for _, c in reversed(combo):
					h = c(h)
				body = [L('acc', I(0)), L('arr', ('arr', [I(1), I(2)])), P(S('start')), L('out', h), P(S('out'), V('out')), E(S('fv'))]
				p = [L('v', val), L('r', C(F([], *body))), P(STDC('type', V('r'))), E(V('r'))]
				try:
					block(p)
				except ValueError:
					continue
				if valid(body):
					yield p


def valid(body):
	s = Static()
	s.scopes.append({'t', 'f3', 'pick', 'id', 'ob', 'v', 't1', 't3'})
	s.fn([], body)
	return not s.errors


def field_programs():
	errs = [ERR, STDC('error', S(''), NIL), STDC('error', S('a\0b'), S('c')), STDC('error', S('n'), ERR), STDC('catch', F([], E(STDC('panic', I(1)))))]
	names = ['description', 'context', 'descriptio', 'Context', 'x', 'message', 'error']
	for er in errs:
		yield [L('e', er), E(('arr', [STDC('type', e), STDC('type', D(e, 'description')), STDC('type', D(e, 'context'))]))]
		for n in names:
			yield [L('e', er), L('w', D(e, n)), P(STDC('type', V('w'))), E(V('w'))]
			yield [L('e', er), L('w', ('idx', e, S(n))), P(STDC('type', V('w'))), E(V('w'))]
			yield [L('e', er), L('r', STDC('catch', F([], A(D(e, n), I(3))))), P(STDC('type', V('r'))), E(D(e, 'context'))]
			yield [L('e', er), A(D(e, n), I(3))]
			yield [L('e', er), A(('idx', e, S(n)), I(3))]
		for ix in (I(0), NIL, TRUE, ('arr', []), e):
			yield [L('e', er), E(('idx', e, ix))]
			yield [L('e', er), A(('idx', e, ix), I(1))]
		for op in ('+', '++', '<', 'and', '-'):
			yield [L('e', er), E(B(op, e, e))]
		for fn in ('len', 'iter', 'is_empty', 'pop', 'sort'):
			yield [L('e', er), E(STDC(fn, e))]
		yield [L('e', er), E(C(e))]
		yield [L('e', er), E(C(D(e, 'context')))]
		yield [L('e', er), E(('if', e, [], None))]
		for other in errs[:-1]:
			yield [L('e', er), E(('arr', [B('==', e, other), B('!=', e, other), B('==', e, e)]))]
	# std.error itself.
	for d in VALUES:
		for c in (NIL, I(1), ('arr', []), ERR):
			yield [L('d', d), L('r', STDC('catch', F([], E(STDC('error', V('d'), c))))), P(STDC('type', V('r'))), E(('if', B('==', STDC('type', V('d')), S('string')), [E(D(V('r'), 'description'))], None))]
	for n in range(4):
		yield [E(STDC('error', *[S('a')] * n))]
	# The context is shared, not copied.
	yield [L('c', ('arr', [I(1)])), L('e', STDC('error', S('m'), V('c'))), E(STDC('push', V('c'), I(2))), P(D(e, 'context')), E(STDC('push', D(e, 'context'), I(3))), P(V('c')), A(('idx', D(e, 'context'), I(0)), I(9)), E(V('c'))]
	yield [L('c', ('dict', [('k', I(1))])), L('e', STDC('error', S('m'), V('c'))), A(D(D(e, 'context'), 'k'), I(2)), E(D(V('c'), 'k'))]
	yield [L('e', STDC('error', S('m'), F(['q'], E(('arr', [V('q'), STDC('type', ('self',))]))))), E(C(D(e, 'context'), I(4)))]


def trees(depth):
	out = [I(1), NIL, S('error'), ERR]
	if depth:
		sub = trees(depth - 1)
		small = sub[:5] + sub[5::max(1, len(sub) // 6)]
		out += [('arr', []), ('dict', [])]
		out += [('arr', [a]) for a in sub] + [('dict', [('k', a)]) for a in sub] + [STDC('error', S('o'), a) for a in sub[:4]]
		out += [('arr', [a, b]) for a in small for b in small] + [('dict', [('k', a), ('j', b)]) for a in small for b in small]
	return out


def has_error_programs(quick):
	for t in trees(2 if quick else 3):
		yield [L('v', t), E(STDC('has_error', v))]
	# As a dict key, in a function, in a captured variable.
	yield [L('d', ('dict', [])), A(('idx', V('d'), ERR), I(1)), E(STDC('has_error', V('d')))]
	yield [L('d', ('dict', [])), A(('idx', V('d'), ('arr', [ERR])), I(1)), E(STDC('has_error', V('d')))]
	yield [L('d', ('dict', [])), A(('idx', V('d'), I(2)), ('arr', [I(1), ('dict', [('a', ERR)])])), E(STDC('has_error', V('d')))]
	yield [L('x', ERR), L('f', F([], E(V('x')))), E(STDC('has_error', V('f')))]
	yield [L('a', ('arr', [])), ('for', 'i', STDC('range', I(0), I(50), I(1)), [E(STDC('push', V('a'), V('i')))]), P(STDC('has_error', V('a'))), A(('idx', V('a'), I(49)), ERR), P(STDC('has_error', V('a'))), E(STDC('pop', V('a'))), E(STDC('has_error', V('a')))]
	for n in (0, 2):
		yield [E(STDC('has_error', *[ERR] * n))]


RAW = [
	('let f = function() { false }? std.println("NEVER") end\nlet r = f()\nstd.println(std.type(r), r.context.status)', b'error\t1\nR\tnil\n'),
	('let f = function() { true }? std.println("go on") 5 end\nf()', b'go on\nR\t5\n'),
	('let f = function() let o = ${ echo hi }? o.stdout end\nf()', b'R\thi\n\n'),
	('let f = function() let o = ${ echo hi; false }? "NEVER" end\nlet r = f()\nstd.println(r.context.stdout, r.context.error.status)', b'hi\n\t1\nR\tnil\n'),
	('let f = function() let j = &{ false } j.join()? "NEVER" end\nstd.type(f())', b'R\terror\n'),
	('let f = function() for i in std.range(0, 3, 1) do { false }? end end\nstd.type(f())', b'R\terror\n'),
	('let f = function() 1 + std.int("4")? end\nf()', b'R\t5\n'),
	('let f = function() std.json.decode("{")? "NEVER" end\nstd.type(f())', b'R\terror\n'),
]
HEAD = c04.HEAD + [L('t1', F(['n'], P(S('t1'), V('n')), E(V('n')))), L('t3', F(['a', 'b', 'c'], E(('arr', [V('a'), V('b'), V('c')]))))]


def check(ctx):
	n = explore.programs(ctx, itertools.chain(try_programs(ctx.quick), field_programs(), has_error_programs(ctx.quick)), size=150, head_prog=HEAD)
	k = batch.sweep(ctx, [(s, s, x) for s, x in RAW], size=3)
	return {'exhaustive': True, 'programs': n, 'command_cases': k,
		'rule': 'all values x all positions of ?; all chains of up to 5 functions with and without ?; all pairs (thorough: triples) of expression contexts around ?; '
			'all field reads and writes on errors; has_error on all value trees of depth 2 (3)'}
