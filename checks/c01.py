"""C01: operators. Every operator on every pair of a value domain that covers all types and the
integer/float boundary values, with traced operands (evaluation order and short circuit)."""
import math

from vlib import explore
from vlib.lang import *

LEVEL = 'model_checking'
OPS = ['+', '-', '*', '/', '%', '==', '!=', '<', '<=', '>', '>=', '++', 'and', 'or']


def values(quick):
	ints = [0, 1, -1, 2, -2, 3, 7, -7, 10, I64_MIN, I64_MIN + 1, I64_MAX, I64_MAX - 1, 3037000500, -3037000500,
		4294967296, (1 << 53) + 1]
	floats = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 7.0, -7.5, 1e308, -1e308, 5e-324, math.inf, -math.inf, math.nan,
		float(1 << 53), 9.3e18]
	strs = [b'', b'a', b'b', b'ab', b'aa', b'a\0', b'\xc3\xa9', b'1', b'true']
	v = [NIL, TRUE, FALSE]
	v += [('byte', n) for n in (0, 1, 97, 98, 127)]
	v += [I(n) for n in ints]
	v += [('float', x) for x in floats]
	v += [S(s) for s in strs]
	v += [('arr', []), ('arr', [I(1)]), ('arr', [('float', 1.0)]), ('arr', [I(1), I(2)]), ('arr', [('arr', [I(1)])]),
		('arr', [('float', math.nan)]), ('arr', [NIL])]
	v += [('dict', []), ('dict', [('a', I(1))]), ('dict', [('a', ('float', 1.0))]), ('dict', [('b', I(1))])]
	v += [STDC('error', S('a'), NIL), STDC('error', S('a'), I(1)), STDC('error', S('b'), NIL)]
	v += [F([], E(I(1))), D(V('std'), 'len')]
	if not quick:
		v += [I(n) for n in (4, 5, -3, 1 << 31, -(1 << 31), (1 << 31) - 1, 1 << 32, 1 << 62, -(1 << 62), 10 ** 18,
			I64_MAX // 2, I64_MIN // 2, I64_MAX // 3)]
		v += [('float', x) for x in (3.0, -3.0, 0.1, 0.2, 0.3, 1.5, 1e16, 1e-5, 1e-7, 123456.789, 2.0 ** 63, 1e300, 2.2250738585072014e-308)]
		v += [S(s) for s in (b'A', b'Z', b'\xff', b'ab\0', b'abc', b'nil', b'0')]
		v += [('byte', n) for n in (10, 32, 48, 65)]
	return v


def cases(quick):
	vs = values(quick)
	for op in OPS:
		for a in vs:
			for b in vs:
				# Traced operands: order of evaluation and short circuit are part of the outcome.
				yield [L('r', B(op, C(V('t'), I(1), a), C(V('t'), I(2), b))), P(STDC('type', V('r'))), E(V('r'))]
	for op in ('-', 'not'):
		for a in vs:
			yield [L('r', ('un', op, a)), P(STDC('type', V('r'))), E(V('r'))]
			yield [L('r', ('un', op, ('un', op, a))), P(STDC('type', V('r'))), E(V('r'))]
	# Operands through variables, with the same variable on both sides.
	for op in OPS:
		for a in vs:
			yield [L('x', a), L('r', B(op, V('x'), V('x'))), P(STDC('type', V('r'))), P(V('r')), E(V('x'))]
	# Chains of two operators on integers: no intermediate result may wrap.
	edge = [I(n) for n in (0, 1, -1, 2, I64_MAX, I64_MIN, I64_MAX - 1, I64_MIN + 1)]
	if quick:
		edge = edge[:6]
	for o1 in '+-*/%':
		for o2 in '+-*/%':
			for a in edge:
				for b in edge:
					for c in edge:
						yield [E(B(o2, B(o1, a, b), c))]
						if o2 == o1:
							yield [E(B(o1, a, B(o2, b, c)))]
	# Short circuit: the right side must not run, whatever it does.
	effects = [STDC('panic', I(1)), A('x', I(5)), I(3)]
	for op in ('and', 'or'):
		for a in (TRUE, FALSE, NIL, I(1), S('true')):
			for b in (STDC('panic', I(9)), TRUE, FALSE, NIL, I(0)):
				for c in (TRUE, FALSE):
					for op2 in ('and', 'or'):
						yield [E(B(op2, B(op, C(V('t'), I(1), a), C(V('t'), I(2), b)), C(V('t'), I(3), c)))]
						yield [E(B(op, C(V('t'), I(1), a), B(op2, C(V('t'), I(2), b), C(V('t'), I(3), c))))]


HEAD = [L('t', F(['n', 'v'], P(V('n')), E(V('v'))))]


def check(ctx):
	n = explore.programs(ctx, cases(ctx.quick), size=400, head_prog=HEAD)
	return {
		'exhaustive': True, 'programs': n, 'domain_values': len(values(ctx.quick)), 'operators': len(OPS) + 2,
		'rule': 'all (operator, left, right) triples over the value domain with traced operands; all two-operator '
			'integer chains over the edge values; all short-circuit combinations',
		'assumptions': ['values outside the domain behave like those of their type and boundary class'],
	}
