"""C04: control flow, evaluation order and block values.

1. All nestings (depth 3) of expression contexts around an interrupter (break, return, ?, panic, or none), inside
   every kind of loop, with every operand traced.
2. All programs up to a size over loops, branches, break, return and traced expressions.
3. Block values: every kind of last statement in every kind of block.
4. Arities: every (supplied, declared) pair, in tail and non-tail position."""
import itertools

from vlib import explore
from vlib.lang import *


def T(n, e):
	return C(V('t'), I(n), e)


# An expression context takes an expression of any value and yields an expression.
def contexts(v):
	"""v: expected kind of value that the hole yields when it completes: an int, as every context below yields one."""
	yield 'arg1', lambda h: C(V('f3'), h, T(2, I(2)), T(3, I(3)))
	yield 'arg2', lambda h: C(V('f3'), T(1, I(1)), h, T(3, I(3)))
	yield 'arg3', lambda h: C(V('f3'), T(1, I(1)), T(2, I(2)), h)
	yield 'callee', lambda h: C(C(V('pick'), h), T(5, I(5)))
	yield 'elem', lambda h: STDC('len', ('arr', [T(1, I(1)), h, T(3, I(3))]))
	yield 'dictv', lambda h: D(('dict', [('a', T(1, I(1))), ('b', h), ('c', T(3, I(3)))]), 'b')
	yield 'left', lambda h: B('+', h, T(4, I(4)))
	yield 'right', lambda h: B('-', T(4, I(4)), h)
	yield 'neg', lambda h: ('un', '-', h)
	yield 'cond', lambda h: ('if', B('>', h, I(0)), [E(T(6, I(6)))], [E(T(7, I(7)))])
	yield 'then', lambda h: ('if', T(1, TRUE), [P(S('then')), E(h)], [E(T(7, I(7)))])
	yield 'else', lambda h: ('if', T(1, FALSE), [E(T(7, I(7)))], [P(S('else')), E(h)])
	yield 'andr', lambda h: ('if', B('and', T(1, TRUE), B('<', h, I(3))), [E(I(8))], [E(I(9))])
	yield 'orl', lambda h: ('if', B('or', B('<', h, I(-1000)), T(2, TRUE)), [E(I(8))], [E(I(9))])
	yield 'idx', lambda h: ('idx', V('arr'), B('%', h, I(1)))
	yield 'obj', lambda h: D(('dict', [('z', h)]), 'z')
	yield 'letin', lambda h: ('if', TRUE, [L('w', h), P(S('w'), V('w')), E(V('w'))], None)
	yield 'asgn', lambda h: ('if', TRUE, [A('acc', h), E(V('acc'))], None)
	yield 'seti', lambda h: ('if', TRUE, [A(('idx', V('arr'), T(10, I(0))), h), E(('idx', V('arr'), I(0)))], None)
	yield 'setx', lambda h: ('if', TRUE, [A(('idx', V('arr'), ('if', B('==', h, I(-999)), [E(I(1))], [E(I(0))])), T(11, I(11))), E(I(12))], None)
	yield 'tryok', lambda h: ('try', h)
	yield 'method', lambda h: C(D(V('ob'), 'm'), h)
	yield 'tail', lambda h: C(V('id'), h)
	yield 'wcond', lambda h: ('if', TRUE, [L('k', I(0)), ('while', B('<', B('+', V('k'), B('-', h, h)) if False else V('k'), I(2)), [A('k', B('+', V('k'), I(1))), E(h)]), E(V('k'))], None)
	yield 'wbody', lambda h: ('if', TRUE, [L('k', I(0)), ('while', B('<', V('k'), I(2)), [A('k', B('+', V('k'), I(1))), P(S('wb'), h)]), E(V('k'))], None)
	yield 'wtest', lambda h: ('if', TRUE, [L('k', I(0)), ('while', ('if', B('==', h, I(-999)), [E(TRUE)], [E(B('<', V('k'), I(2)))]), [A('k', B('+', V('k'), I(1)))]), E(V('k'))], None)
	yield 'fiter', lambda h: ('if', TRUE, [L('k', I(0)), ('for', 'q', STDC('range', I(0), B('+', B('*', h, I(0)), I(2)), I(1)), [A('k', B('+', V('k'), I(1)))]), E(V('k'))], None)
	yield 'fbody', lambda h: ('if', TRUE, [L('k', I(0)), ('for', 'q', STDC('range', I(0), I(2), I(1)), [P(S('fb'), V('q'), h), A('k', B('+', V('k'), I(1)))]), E(V('k'))], None)
	yield 'fn', lambda h: C(F([], E(h)))


def interrupters():
	yield 'none', T(20, I(2)), False
	yield 'break', ('if', B('==', T(20, V('i')), I(1)), [('break',)], [E(I(2))]), True
	yield 'ret', ('if', B('==', T(20, V('i')), I(1)), [('ret', I(77))], [E(I(2))]), False
	yield 'retnil', ('if', B('==', T(20, V('i')), I(1)), [('ret', None)], [E(I(2))]), False
	yield 'try', ('try', ('if', B('==', T(20, V('i')), I(1)), [E(STDC('error', S('e'), I(5)))], [E(I(2))])), False
	yield 'panic', ('if', B('==', T(20, V('i')), I(1)), [E(STDC('panic', S('p')))], [E(I(2))]), False


def shells(e):
	"""The loop around the expression statement."""
	head = [L('acc', I(0)), L('arr', ('arr', [I(1), I(2)]))]
	yield 'for', head + [('for', 'i', STDC('range', I(0), I(3), I(1)), [P(S('it'), V('i')), P(S('v'), e), P(S('after'))]), P(S('end'), V('acc'), V('arr')), E(S('fv'))]
	yield 'while', head + [L('i', I(-1)), ('while', B('<', V('i'), I(2)), [A('i', B('+', V('i'), I(1))), P(S('it'), V('i')), L('v', e), P(S('after'), V('v'))]), P(S('end'), V('acc'), V('arr')), ('ret', S('fv'))]
	yield 'stmt', head + [('for', 'i', STDC('range', I(0), I(3), I(1)), [E(('if', TRUE, [P(S('x')), E(e)], None))]), P(S('end'), V('acc'), V('arr'))]


def valid(body):
	s = Static()
	s.scopes.append({'t', 'f3', 'pick', 'id', 'ob'})
	s.fn([], body)
	return not s.errors


def nestings(depth, loops):
	ctxs = list(contexts(None))
	for combo in itertools.product(ctxs, repeat=depth):
		for iname, hole, _ in interrupters():
			e = hole
			for _, c in reversed(combo):
				e = c(e)
			for sname, body in shells(e):
				if sname not in loops:
					continue
				if not valid(body):
					continue
				try:
					block(body)
				except ValueError:
					continue
				yield [L('r', C(F([], *body))), P(S('r'), V('r')), P(C(V('f3'), I(7), I(8), I(9))), E(V('r'))]


def top_nestings():
	ctxs = list(contexts(None))
	for combo in itertools.chain(itertools.product(ctxs, repeat=1), itertools.product(ctxs, repeat=2)):
		for iname, hole, _ in interrupters():
			if iname not in ('none', 'break', 'panic'):
				continue
			e = hole
			for _, c in reversed(combo):
				e = c(e)
			for sname, body in shells(e):
				if sname == 'stmt' or body[-1][0] == 'ret':
					continue
				p = HEAD + body
				try:
					block(p)
				except ValueError:
					continue
				if not static_errors(p):
					yield p + [P(C(V('f3'), I(7), I(8), I(9)))]


HEAD = [
	L('t', F(['n', 'v'], P(S('t'), V('n')), E(V('v')))),
	L('f3', F(['a', 'b', 'c'], P(S('f3'), V('a'), V('b'), V('c')), E(B('+', V('a'), B('*', V('b'), V('c')))))),
	L('pick', F(['n'], P(S('pick'), V('n')), E(V('id')))),
	L('id', F(['x'], E(V('x')))),
	L('ob', ('dict', [('m', F(['x'], P(S('m'), V('x')), E(V('x'))))])),
]
# pick refers to id, which must be declared before it
HEAD = [HEAD[0], HEAD[1], HEAD[3], HEAD[2], HEAD[4]]


# ---------------------------------------------------------------------- programs by size
def blocks(size, loop, depth, n):
	if size == 0:
		yield []
		return
	leaves = [P(I(n), V('x')), A('x', B('+', V('x'), I(1)))]
	for s in leaves:
		for rest in blocks(size - 1, loop, depth, n + 1):
			yield [s] + rest
	ends = [('ret', V('x')), ('ret', None), E(B('*', V('x'), I(10)))]
	if loop:
		ends.append(('break',))
	if size == 1:
		for s in ends:
			yield [s]
	elif loop and size >= 2:
		for rest in blocks(size - 1, loop, depth, n + 1):
			yield [('break',)] + rest
	if depth:
		for inner in range(1, size):
			for body in blocks(inner, loop, depth - 1, n + 1):
				for cond in (B('<', V('x'), I(2)), B('==', B('%', V('x'), I(2)), I(0))):
					for rest in blocks(size - 1 - inner, loop, depth, n + 1 + inner):
						yield [E(('if', cond, body, None))] + rest
			for body in blocks(inner, True, depth - 1, n + 1):
				for rest in blocks(size - 1 - inner, loop, depth, n + 1 + inner):
					yield [('while', B('<', C(V('inc')), I(n + 3)), body)] + rest
					yield [('for', 'x', STDC('range', I(0), I(2), I(1)), body)] + rest
			for inner2 in range(1, size - inner):
				for b1 in blocks(inner, loop, depth - 1, n + 1):
					for b2 in blocks(inner2, loop, depth - 1, n + 1 + inner):
						for rest in blocks(size - 1 - inner - inner2, loop, depth, n + 1 + inner + inner2):
							yield [E(('if', B('<', V('x'), I(2)), b1, b2))] + rest


def sized(size):
	for k in range(1, size + 1):
		for body in blocks(k, False, 2, 0):
			yield [L('x', I(0)), L('c', I(0)), L('inc', F([], A('c', B('+', V('c'), I(1))), E(V('c')))),
				L('r', C(F([], *body))), P(V('x'), V('c')), E(V('r'))]


def block_values():
	lasts = [E(I(1)), L('z', I(1)), L('z'), A('g', I(2)), ('while', FALSE, [E(I(3))]), ('while', B('<', C(V('nx')), I(3)), [E(I(3))]),
		('for', 'q', STDC('range', I(0), I(2), I(1)), [E(V('q'))]), ('letfn', 'h', [], [E(I(4))]), E(('if', FALSE, [E(I(5))], None)),
		E(('if', TRUE, [E(I(5))], None)), E(('if', TRUE, [], [E(I(6))])), E(('if', FALSE, [E(I(6))], [])), E(NIL), E(V('g')),
		E(('if', FALSE, [E(I(1))], [E(('if', FALSE, [E(I(2))], [E(('if', TRUE, [E(I(7))], None))]))])), ('ret', I(8)), ('ret', None),
		A(('idx', V('ar'), I(0)), I(3)), E(STDC('println', S('p'))), E(('arr', [])), None]
	pre = [L('g', I(0)), L('cnt', I(0)), L('ar', ('arr', [I(0)])), L('nx', F([], A('cnt', B('+', V('cnt'), I(1))), E(V('cnt'))))]
	for s in lasts:
		last = [s] if s is not None else []
		for first in ([], [P(S('first'))], [E(I(99))]):
			if first and last and expr_starts_bracket(last[0]):
				continue
			b = first + last
			yield pre + [L('r', C(F([], *b))), P(V('r')), E(V('g'))]
			yield pre + [L('r', C(F([], E(('if', TRUE, b, None))))), P(V('r')), E(V('g'))]
			yield pre + [L('r', C(F([], L('u', ('if', FALSE, [E(I(50))], b)), E(V('u'))))), P(V('r')), E(V('g'))]
			yield pre + [L('r', C(F([], ('for', 'y', STDC('range', I(0), I(1), I(1)), b)))), P(V('r')), E(V('g'))]
			yield pre + [L('r', STDC('catch', F([], *b))), P(V('r')), E(V('g'))]


def expr_starts_bracket(s):
	return s[0] == 'expr' and s[1][0] == 'arr'


def arity():
	for declared in range(5):
		params = ['p%d' % i for i in range(declared)]
		fn = ('fn', params, [P(S('body')), ('ret', ('arr', [V(p) for p in params]))])
		for supplied in range(6):
			args = [T(i, I(i)) for i in range(supplied)]
			for form in range(5):
				call = C(V('f'), *args)
				if form == 1:
					call = C(D(('dict', [('f', V('f'))]), 'f'), *args)
				body = [L('f', fn)]
				if form == 0 or form == 1:
					body.append(P(call))
				elif form == 2:
					body.append(P(C(F([], ('ret', call)))))
				elif form == 3:
					body.append(P(C(F(['u', 'v'], E(call)), I(1), I(2))))
				else:
					body.append(P(C(V('f3'), I(1), ('if', TRUE, [E(call)], None), I(2)) if supplied != declared else call))
				yield body + [P(C(V('f3'), I(1), I(2), I(3)))]
				yield [L('r', STDC('catch', F([], *body))), P(STDC('type', V('r'))), P(C(V('f3'), I(1), I(2), I(3)))]


def tails():
	"""Tail calls: the callee's frame must not disturb the caller's, whatever their sizes and captures are."""
	for nl in range(4):
		for nargs in range(4):
			for cap in (0, 1):
				for form in range(4):
					loc = [L('l%d' % i, I(i + 10)) for i in range(nl)]
					params = ['a%d' % i for i in range(nargs)]
					g = ('fn', params, [L('m', I(1)), L('m2', I(2)), P(*([V(p) for p in params] + [V('m')])), E(B('+', V('m'), V('m2')))])
					args = [V('l%d' % (i % nl)) if nl else I(i) for i in range(nargs)]
					call = C(V('g'), *args)
					capture = [L('cl', F([], E(B('+', V('l0') if nl else I(0), V('p'))))), E(STDC('push', V('cs'), V('cl')))] if cap else []
					tail = [[E(call)], [('ret', call)], [E(('if', TRUE, [E(call)], None))], [('ret', ('if', V('yes'), [('ret', call)], None))]][form]
					f = F(['p'], *(loc + capture + tail))
					yield [L('cs', ('arr', [])), L('yes', TRUE), L('g', g), L('f', f), L('k1', I(5)), P(C(V('f'), I(100))), P(C(V('f'), I(200))),
						P(V('k1')), ('for', 'i', STDC('iter', V('cs')), [P(C(V('i')))]), E(C(V('f3'), C(V('f'), I(1)), C(V('f'), I(2)), V('k1')))]
	# countdown in tail position, deep
	for depth in (0, 1, 2, 10, 150):
		yield [('letfn', 'd', ['n', 'acc'], [E(('if', B('==', V('n'), I(0)), [('ret', V('acc'))], None)), ('ret', C(V('d'), B('-', V('n'), I(1)), B('+', V('acc'), V('n'))))]), E(C(V('d'), I(depth), I(0)))]
		yield [('letfn', 'd', ['n'], [E(('if', B('==', V('n'), I(0)), [E(I(0))], [E(B('+', V('n'), C(V('d'), B('-', V('n'), I(1)))))]))]), E(C(V('d'), I(depth)))]


def check(ctx):
	n = {}
	n['nest1'] = explore.programs(ctx, nestings(1, {'for', 'while', 'stmt'}), head_prog=HEAD)
	n['nest2'] = explore.programs(ctx, nestings(2, {'for', 'while', 'stmt'}), head_prog=HEAD)
	n['nest3'] = explore.programs(ctx, nestings(3, {'for'} if ctx.quick else {'for', 'while', 'stmt'}) , head_prog=HEAD)
	n['sized'] = explore.programs(ctx, sized(5 if ctx.quick else 6), size=300, fuel=1500)
	n['block_values'] = explore.programs(ctx, block_values())
	n['arity'] = explore.programs(ctx, arity(), head_prog=HEAD)
	n['tails'] = explore.programs(ctx, tails(), head_prog=HEAD, fuel=20000)
	n['toplevel'] = explore.toplevel(ctx, top_nestings())
	return {'exhaustive': True, 'programs': sum(n.values()), 'parts': n,
		'rule': 'all nestings of expression contexts x interrupters x loops; all control flow programs up to the size; all '
			'last-statement kinds; all arity pairs; all tail-call shapes'}
