"""C29: self is the object of the access, and bind fixes it.

All chains of up to three calls, each through every way to reach a function (plain, field, index, copied out, bound, bound twice,
bound and stored, through self, through a call, as a condition's value, handed to a caller, as an iterator, caught), from every
position in the calling method (statement, tail, argument, loop, nested function), print self before and after each call. The
reference model decides what self is; all traces are replayed on the real interpreter."""
import itertools

from vlib import explore
from vlib.lang import *

o1, o2, a1, er = V('o1'), V('o2'), V('a1'), V('er')
SELF = ('self',)
TAG = F(['x'],
	L('t', STDC('type', V('x'))),
	E(('if', B('==', V('t'), S('dict')), [E(('idx', V('x'), S('id')))], [E(('if', B('==', V('t'), S('array')), [E(('if', B('==', STDC('type', ('idx', V('x'), I(0))), S('string')), [E(('idx', V('x'), I(0)))], [E(S('temp'))]))], [E(V('t'))]))])))


def tag(e):
	return C(V('tag'), e)


def call(form, i):
	"""An expression that calls f<i> with one argument; or None."""
	f, n, arg = V('f%d' % i), 'f%d' % i, I(i)
	return {
		'plain': lambda: C(f, arg),
		'field': lambda: C(D(o1, n), arg),
		'index': lambda: C(('idx', o2, S(n)), arg),
		'array': lambda: C(('idx', a1, I(i)), arg),
		'self': lambda: C(D(SELF, n), arg),
		'bind': lambda: C(STDC('bind', o2, f), arg),
		'stored bind': lambda: C(D(o1, 'b%d' % i), arg),
		'copied': lambda: C(V('apply'), D(o1, n), arg),
		'twice': lambda: C(STDC('bind', o1, STDC('bind', o2, f)), arg),
		'bind self': lambda: C(STDC('bind', SELF, f), arg),
		'result': lambda: C(D(C(V('id'), o2), n), arg),
		'nested': lambda: C(D(D(o1, 'sub'), n), arg),
		'error': lambda: C(D(er, 'context'), arg),
		'temp': lambda: C(('idx', ('arr', [f, o1]), I(0)), arg),
		'cond': lambda: C(('if', TRUE, [E(D(o1, n))], [E(f)]), arg),
		'bind nil': lambda: C(STDC('bind', NIL, D(o1, n)), arg),
		'bind int': lambda: C(STDC('bind', I(5), D(o1, n)), arg),
		'field bind': lambda: C(D(SELF, 'b%d' % i), arg),
		'catch': lambda: STDC('catch', F([], E(C(D(o1, n), arg)))),
		'catch method': lambda: STDC('catch', D(o1, 'z%d' % i)),
		'closure': lambda: C(F([], E(C(D(SELF, n), arg)))),
		# The callee is itself the result of a call, an access of a result, or an access in a deeper expression.
		'call of method': lambda: C(C(D(o1, 'get%d' % i)), arg),
		'call of plain': lambda: C(C(V('id'), D(o2, n)), arg),
		'call of bound': lambda: C(C(STDC('bind', o1, F([], E(f)))), arg),
		'call of call': lambda: C(C(C(D(o2, 'getget%d' % i))), arg),
		'access of access': lambda: C(D(D(('dict', [('id', S('w')), ('o', o2)]), 'o'), n), arg),
		'index of call': lambda: C(('idx', C(D(o1, 'objs%d' % i)), I(0)), arg),
		'field of call': lambda: C(D(C(D(o1, 'me%d' % i)), n), arg),
		'try': lambda: C(('try', D(o1, n)), arg),
		'cond of access': lambda: C(('if', B('==', C(D(o2, 'z%d' % i)), I(0)), [E(D(o1, n))], None), arg),
		'arg': lambda: C(V('id'), C(D(o2, n), tag(SELF))),
	}[form]()


FORMS = ['plain', 'field', 'index', 'array', 'self', 'bind', 'stored bind', 'copied', 'twice', 'bind self', 'result', 'nested', 'error', 'temp', 'cond', 'bind nil', 'bind int', 'field bind', 'catch', 'catch method', 'closure', 'arg', 'call of method', 'call of plain', 'call of bound', 'call of call', 'access of access', 'index of call', 'field of call', 'try', 'cond of access']
POSITIONS = {
	'stmt': lambda c: [L('r', c), P(S('r'), tag(V('r')))],
	'tail': lambda c: [E(c)],
	'loop': lambda c: [('for', 'i', STDC('range', I(0), I(2), I(1)), [P(tag(SELF)), P(tag(c)), P(tag(SELF))])],
	'arg': lambda c: [P(tag(SELF), tag(c), tag(SELF))],
	'this': lambda c: [L('this', SELF), L('g', F([], P(tag(V('this')), tag(SELF)), E(c))), P(tag(C(V('g'))))],
	'field of self': lambda c: [L('t', ('dict', [('id', S('t')), ('g', F([], P(tag(SELF)), L('q', c), P(tag(SELF)), E(V('q'))))])), P(tag(C(D(V('t'), 'g')))), P(tag(V('t')))],
	'operand': lambda c: [P(B('==', tag(SELF), tag(c))), P(tag(SELF))],
	'cond': lambda c: [E(('if', B('==', c, NIL), [P(tag(SELF))], [P(tag(SELF), S('else'))]))],
	'iterator': lambda c: [L('n', I(0)), ('for', 'i', F([], A('n', B('+', V('n'), I(1))), P(tag(SELF)), E(('dict', [('finished', B('>', V('n'), I(1))), ('value', c)]))), [P(tag(SELF), tag(V('i')))])],
	'return': lambda c: [E(('if', TRUE, [('ret', c)], None)), P(S('not reached'))],
}


def program(levels, start):
	"""levels: [(position, form)] for f1 .. f(n-1), each calling the next; start: how f1 is called."""
	n = len(levels) + 1
	p = [L('tag', TAG), L('id', F(['x'], E(V('x')))), L('apply', F(['f', 'x'], P(S('apply')), E(C(V('f'), V('x'))))),
		L('o1', ('dict', [('id', S('o1')), ('sub', ('dict', [('id', S('sub'))]))])), L('o2', ('dict', [('id', S('o2'))])),
		L('a1', ('arr', [S('a1')] + [NIL] * n))]
	last = F(['x'], P(S('last'), V('x'), tag(SELF)), E(SELF))
	p += [L('f%d' % n, last), L('er', STDC('error', S('e'), V('f%d' % n)))]
	for i in range(n - 1, 0, -1):
		pos, form = levels[i - 1]
		body = POSITIONS[pos](call(form, i + 1))
		after = [] if pos in ('tail', 'return') else [P(S('after%d' % i), V('x'), tag(SELF)), E(tag(SELF))]
		p += [L('f%d' % i, F(['x'], P(S('f%d' % i), V('x'), tag(SELF)), *(body + after)))]
	for i in range(1, n + 1):
		f = V('f%d' % i)
		for o in (o1, D(o1, 'sub'), o2):
			p.append(A(('idx', o, S('f%d' % i)), f))
			p.append(A(('idx', o, S('get%d' % i)), F([], P(S('get'), tag(SELF)), E(f))))
			p.append(A(('idx', o, S('getget%d' % i)), F([], P(S('getget'), tag(SELF)), E(D(SELF, 'get%d' % i)))))
			p.append(A(('idx', o, S('me%d' % i)), F([], P(S('me'), tag(SELF)), E(SELF))))
			p.append(A(('idx', o, S('objs%d' % i)), F([], E(('arr', [f, SELF])))))
			p.append(A(('idx', o, S('z%d' % i)), F([], P(S('z'), tag(SELF)), E(I(0)))))
		p.append(A(('idx', a1, I(i)), f))
		for o in (o1, o2):
			p.append(A(('idx', o, S('b%d' % i)), STDC('bind', D(o1, 'sub'), f)))
	r = V('res')
	return p + [L('res', call(start, 1)), P(tag(r)), E(('if', B('==', STDC('type', r), S('dict')), [A(D(r, 'id'), S('changed')), P(tag(o1), tag(o2), tag(D(o1, 'sub')))], None))]


def special():
	ident = F([], E(SELF))
	show = F([], P(tag(SELF)), E(SELF))
	# Identity, not a copy: changes through self are seen in the object, by index and by field.
	for get in (lambda f: C(D(o1, 'm'), I(7)), lambda f: C(('idx', o1, S('m')), I(7)), lambda f: C(STDC('bind', o1, D(o1, 'm')), I(7))):
		yield [L('o1', ('dict', [('v', I(1)), ('m', F(['k'], A(D(SELF, 'v'), V('k')), E(SELF)))])), L('c', o1), P(D(get(0), 'v')), P(D(o1, 'v'), D(V('c'), 'v'))]
	yield [L('a1', ('arr', [F(['k'], STDC_push(SELF, V('k')), E(STDC('len', SELF)))])), P(C(('idx', a1, I(0)), I(5))), P(STDC('len', a1), ('idx', a1, I(1)))]
	# self is evaluated before the arguments, and keeps the object it had then.
	yield [L('tag', TAG), L('o1', ('dict', [('id', S('o1')), ('f', F(['x'], E(tag(SELF))))])), L('o2', ('dict', [('id', S('o2'))])), L('k', o1),
		L('sw', F([], A('k', o2), E(I(1)))), P(C(D(V('k'), 'f'), C(V('sw')))), P(tag(V('k')))]
	yield [L('tag', TAG), L('o1', ('dict', [('id', S('o1')), ('f', F(['x'], E(tag(SELF))))])), L('sw', F([], A(D(o1, 'f'), F(['x'], E(S('replaced')))), E(I(1)))), P(C(D(o1, 'f'), C(V('sw')))), P(C(D(o1, 'f'), I(1)))]
	# A method replaces itself, or removes its object from the variable, while it runs.
	yield [L('tag', TAG), L('o1', ('dict', [('id', S('o1')), ('f', F([], A(D(SELF, 'f'), NIL), P(tag(SELF)), E(STDC('type', D(SELF, 'f')))))])), P(C(D(o1, 'f'))), P(D(o1, 'f'))]
	yield [L('tag', TAG), L('o1', ('dict', [('id', S('o1'))])), A(('idx', o1, S('f')), F([], A('o1', NIL), P(tag(SELF)), E(SELF))), L('r', C(D(o1, 'f'))), P(tag(V('r')), o1)]
	# Recursion with alternating objects.
	for depth in range(1, 6):
		yield [L('tag', TAG), L('o1', ('dict', [('id', S('o1'))])), L('o2', ('dict', [('id', S('o2'))])),
			L('f', F(['k', 'other'], P(V('k'), tag(SELF)), L('me', SELF), E(('if', B('>', V('k'), I(0)), [E(C(D(V('other'), 'f'), B('-', V('k'), I(1)), V('me')))], None)), P(V('k'), tag(SELF)))),
			A(('idx', o1, S('f')), V('f')), A(('idx', o2, S('f')), V('f')), E(C(D(o1, 'f'), I(depth), o2))]
	# Method and variable of the same name; functions defined in methods; methods on values made in place.
	yield [L('tag', TAG), L('f', F([], E(tag(SELF)))), L('o1', ('dict', [('id', S('o1')), ('f', V('f'))])), P(C(V('f')), C(D(o1, 'f')), C(V('f')))]
	yield [P(C(D(('dict', [('v', I(3)), ('m', F([], E(D(SELF, 'v'))))]), 'm')))]
	yield [P(D(C(D(('dict', [('v', I(3)), ('m', ident)]), 'm')), 'v'))]
	# Binding: argument count, results, panics and errors pass through.
	for n in range(0, 4):
		for m in range(0, 4):
			f = F(['p%d' % i for i in range(n)], P(SELF, *[V('p%d' % i) for i in range(n)]), E(('arr', [V('p%d' % i) for i in range(n)])))
			yield [L('b', STDC('bind', I(9), f)), E(C(V('b'), *[I(i) for i in range(m)]))]
	for obj in (NIL, I(1), ('float', 1.5), S('s'), ('byte', 65), TRUE, ('arr', [I(1)]), ('dict', [('k', I(1))]), STDC('error', S('e'), I(1))):
		yield [L('b', STDC('bind', obj, F([], E(SELF)))), P(C(V('b'))), E(C(V('b')))]
		yield [L('b', STDC('bind', obj, F([], E(STDC('panic', SELF))))), E(C(V('b')))] if obj[0] != 'dict' else [L('b', STDC('bind', obj, F([], E(NIL)))), E(C(V('b')))]
		yield [L('b', STDC('bind', obj, F(['x'], E(('try', V('x'))), E(I(1))))), P(STDC('type', C(V('b'), STDC('error', S('e'), NIL)))), E(C(V('b'), I(0)))]
		yield [E(STDC('bind', I(1), obj))]
	# A bound function keeps its object, whatever it is, through every way to reach it.
	objs = [NIL, I(1), ('float', 1.5), S('s'), ('byte', 65), TRUE, FALSE, ('arr', [I(1)]), ('dict', [('k', I(1))]), STDC('error', S('e'), I(1)), STDC('bind', NIL, F([], E(I(3)))), F([], E(I(4)))]
	for ob in objs:
		for outer in objs:
			f = F(['x'], P(V('x'), STDC('type', SELF), B('==', SELF, V('want'))), E(STDC('type', SELF)))
			yield [L('want', ob), L('b', STDC('bind', V('want'), f)), L('o', ('dict', [('m', V('b')), ('sub', ('dict', [('m', V('b'))]))])), L('a', ('arr', [V('b')])),
				P(C(D(V('o'), 'm'), I(1))), P(C(('idx', V('o'), S('m')), I(2))), P(C(('idx', V('a'), I(0)), I(3))), P(C(D(D(V('o'), 'sub'), 'm'), I(4))), P(C(V('b'), I(5))),
				L('c', STDC('bind', outer, V('b'))), P(C(V('c'), I(6))), A(D(V('o'), 'm'), V('c')), P(C(D(V('o'), 'm'), I(7))), L('cb', F([], E(C(D(V('o'), 'm'), I(8))))), P(STDC('catch', V('cb'))),
				A(D(V('o'), 'm'), F(['x'], E(C(V('b'), V('x'))))), P(C(D(V('o'), 'm'), I(9)))]
	yield [L('b', STDC('bind', I(1), D(V('std'), 'len'))), E(C(V('b'), ('arr', [I(1), I(2)])))]
	yield [L('b', STDC('bind', I(1), D(V('std'), 'len'))), E(C(V('b'), I(3)))]
	yield [L('b', STDC('bind', I(1), D(V('std'), 'type'))), L('c', STDC('bind', I(2), V('b'))), E(C(V('c'), V('b')))]
	yield [L('o1', ('dict', [('len', D(V('std'), 'len'))])), E(C(D(o1, 'len'), ('arr', [I(1)])))]
	# A bound function is an iterator, a callback, a field.
	yield [L('o1', ('dict', [('n', I(0))])), L('it', STDC('bind', o1, F([], A(D(SELF, 'n'), B('+', D(SELF, 'n'), I(1))), E(('dict', [('finished', B('>', D(SELF, 'n'), I(3))), ('value', D(SELF, 'n'))]))))), ('for', 'i', V('it'), [P(V('i'), D(o1, 'n'))]), P(D(o1, 'n'))]
	yield [L('o1', ('dict', [('n', I(0)), ('it', F([], P(SELF), E(('dict', [('finished', TRUE)]))))])), ('for', 'i', D(o1, 'it'), [P(V('i'))]), P(D(o1, 'n'))]
	yield [L('o1', ('dict', [('n', I(0)), ('f', F([], E(SELF)))])), P(STDC('catch', D(o1, 'f')))]


def STDC_push(a, v):
	return E(STDC('push', a, v))


def check(ctx):
	q = ctx.quick
	progs = [program([], s) for s in FORMS]
	progs += [program([(p, f)], s) for p in POSITIONS for f in FORMS for s in FORMS]
	small = FORMS[:8]
	pos = list(POSITIONS)[:5]
	if q:
		progs += [program([(p1, f1), (p2, f2)], s) for p1 in pos[:3] for f1 in small for p2 in pos[:4] for f2 in small for s in ('field', 'plain')]
	else:
		progs += [program([(p1, f1), (p2, f2)], s) for p1 in POSITIONS for f1 in FORMS[:14] for p2 in POSITIONS for f2 in FORMS[:14] for s in ('field', 'plain', 'array')]
	n = explore.programs(ctx, itertools.chain(progs, special()), size=60)
	return {'exhaustive': True, 'rule': '%d programs: all chains of up to 2 calls over %d ways to reach a function x %d positions, chains of 3 over %s, and %d more' % (n, len(FORMS), len(POSITIONS), 'the first 8 ways and 4 positions' if q else 'the first 14 ways and all positions', len(list(special())))}
