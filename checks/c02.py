"""C02: precedence, associativity, layout.

Part 1 enumerates flat operator sequences. The tree a sequence denotes is computed by splitting it at
the last operator of the lowest precedence level (not how the implementation parses). For each sequence the
operands are chosen, by exhaustive search over a small typed domain, such that every other tree over the same
sequence which can be told apart at all is told apart.
Part 2 takes a corpus of programs that uses every construct and puts every kind of blank in every gap between
two tokens, and redundant parentheses around every subexpression."""
import itertools
import re

from vlib import batch, explore
from vlib.core import chunks
from vlib.lang import *

OPS = ['or', 'and', '==', '!=', '<', '<=', '>', '>=', '++', '+', '-', '*', '/', '%']
DOM = [I(7), I(2), I(3), TRUE, FALSE, S('a'), S('b')]


def val(e):
	return e[1]


def tree(ops, lo, hi):
	"""Leaves lo..hi (inclusive), operator i sits between leaves i and i+1."""
	if lo == hi:
		return lo
	p = min(PREC[o] for o in ops[lo:hi])
	for i in range(hi - 1, lo - 1, -1):
		if PREC[ops[i]] == p:
			return (i, tree(ops, lo, i), tree(ops, i + 1, hi))


def all_trees(lo, hi):
	if lo == hi:
		return [lo]
	out = []
	for i in range(lo, hi):
		for a in all_trees(lo, i):
			for b in all_trees(i + 1, hi):
				out.append((i, a, b))
	return out


class Pan(Exception):
	pass


def ev(t, ops, vals, memo):
	"""Outcome: (value trace). Evaluation of the tree on plain values, with the order of evaluated leaves."""
	if isinstance(t, int):
		memo.append(t)
		return vals[t]
	op = ops[t[0]]
	a = ev(t[1], ops, vals, memo)
	if op in ('and', 'or'):
		if type(a) is not bool:
			raise Panic('')
		if a == (op == 'or'):
			return a
		b = ev(t[2], ops, vals, memo)
		if type(b) is not bool:
			raise Panic('')
		return b
	return binary(op, a, ev(t[2], ops, vals, memo))


def outcome(t, ops, vals):
	memo = []
	try:
		r = ev(t, ops, vals, memo)
		return (type(r).__name__, r, tuple(memo))
	except Panic as p:
		return ('panic', p.msg, tuple(memo))


def to_expr(t, ops, leaves):
	if isinstance(t, int):
		return leaves[t]
	return B(ops[t[0]], to_expr(t[1], ops, leaves), to_expr(t[2], ops, leaves))


def assignments(ops, dom, extra):
	"""Operand tuples that separate the right tree from the wrong ones (plus some more)."""
	n = len(ops)
	right = tree(ops, 0, n)
	wrong = [t for t in all_trees(0, n) if t != right]
	chosen, good = [], 0
	vals = [val(d) for d in dom]
	for ix in itertools.product(range(len(dom)), repeat=n + 1):
		vs = [vals[i] for i in ix]
		o = outcome(right, ops, vs)
		if o[0] == 'panic' and not wrong:
			continue
		left = [t for t in wrong if outcome(t, ops, vs) == o]
		if len(left) < len(wrong) and (o[0] != 'panic' or True):
			wrong = left
			chosen.append(ix)
		elif o[0] != 'panic' and good < extra:
			good += 1
			chosen.append(ix)
		if not wrong and good >= extra:
			break
	return chosen, len(wrong)


def flat_source(ops, leaves):
	"""The source as a flat sequence, no parentheses."""
	s = expr(leaves[0], POSTFIX)
	for o, l in zip(ops, leaves[1:]):
		s += ' ' + o + ' ' + expr(l, POSTFIX)
	return s


def flat_cases(ctx):
	depth = 3 if ctx.quick else 4
	seqs = [ops for n in range(1, depth + 1) for ops in itertools.product(OPS, repeat=n)]
	if not ctx.quick:
		# One representative per level is enough at depth 4 for <,<=.. (same level), keep all others.
		seqs = [s for s in seqs if len(s) < 4 or not set(s) & {'<=', '>', '>=', '!=', '/'}]

	def work(part):
		out, left = [], 0
		for ops in part:
			dom = DOM if len(ops) <= 3 else DOM[1:]
			chosen, undistinguished = assignments(ops, dom, 3)
			left += undistinguished
			t = tree(ops, 0, len(ops))
			for ix in chosen:
				leaves = [dom[i] for i in ix]
				it = Interp(5000)
				it.top(HEAD)
				traced = [C(V('t'), I(i), l) for i, l in enumerate(leaves)]
				for lv in (leaves, traced):
					it = Interp(5000)
					it.top(HEAD)
					prog = [E(to_expr(t, ops, lv))]
					exp = batch.predict(it, prog)
					src = flat_source(ops, lv)
					out.append((src, src, exp, it.steps))
		bad = batch.replay(ctx, [c[:3] for c in out], HEAD_SRC) if out else []
		return len(out), sum(c[3] for c in out), left, bad, set(explore.h(c[2]) for c in out), out[:1]

	states, n = set(), 0
	for k, steps, left, bad, hs, smp in ctx.pmap(work, chunks(seqs, 40 if ctx.quick else 200)):
		n += k
		ctx.add('transitions', steps)
		ctx.add('traces_validated_against_impl', k)
		ctx.add('indistinguishable_trees', left)
		states |= hs
		for c in smp:
			ctx.sample({'source': c[1], 'expected_and_observed': c[2].decode('latin-1')})
		for key, detail, files in bad:
			ctx.violation(key, detail, files)
	ctx.add('states', len(states))
	ctx.add('operator_sequences', len(seqs))
	return n


HEAD = [L('t', F(['n', 'v'], P(V('n')), E(V('v')))),
	L('o', ('dict', [('i', I(5)), ('b', FALSE), ('s', S('x')), ('f', F([], E(I(4)))), ('g', F([], E(TRUE))), ('a', ('arr', [I(6), TRUE]))])),
	L('er', STDC('error', S('bad'), I(1)))]
HEAD_SRC = block(HEAD) + '\n'


def prefix_postfix():
	"""All prefix/postfix decorations of the operands of all one- and two-operator sequences."""
	pre = [[], ['-'], ['not'], ['-', '-'], ['not', 'not'], ['not', '-'], ['-', 'not']]
	post = [I(3), TRUE, D(V('o'), 'i'), D(V('o'), 'b'), C(D(V('o'), 'f')), C(D(V('o'), 'g')), ('idx', D(V('o'), 'a'), I(0)),
		('idx', D(V('o'), 'a'), I(1)), ('try', D(V('o'), 'i')), ('try', C(D(V('o'), 'g'))), ('try', V('er')), C(V('t'), I(1), I(2))]

	def deco(p, e):
		for op in reversed(p):
			e = ('un', op, e)
		return e
	for p in pre:
		for e in post:
			yield [deco(p, e)], []
	for op in OPS:
		for p in pre:
			for e in post:
				yield [deco(p, e), I(2)], [op]
				yield [deco(p, e), TRUE], [op]
				yield [I(2), deco(p, e)], [op]
				yield [TRUE, deco(p, e)], [op]
	for o1 in OPS:
		for o2 in OPS:
			for p in (['-'], ['not']):
				for a, b in ((I(3), I(2)), (TRUE, FALSE), (I(4), TRUE), (FALSE, I(2))):
					yield [deco(p, a), b, b], [o1, o2]
					yield [b, deco(p, a), b], [o1, o2]
					yield [b, a, deco(p, b)], [o1, o2]


def flat2(e):
	"""Unary chains printed without parentheses."""
	if e[0] == 'un':
		return e[1] + ' ' + flat2(e[2])
	return expr(e, POSTFIX)


def deco_cases():
	for leaves, ops in prefix_postfix():
		prog = [E(to_expr(tree(ops, 0, len(ops)), ops, leaves))]
		src = flat2(leaves[0]) + ''.join(' %s %s' % (o, flat2(l)) for o, l in zip(ops, leaves[1:]))
		yield src, prog


# ---------------------------------------------------------------------- layout
TOK = re.compile(r'''"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])'|\d+\.\d+(?:e\d+)?|\w+|==|!=|<=|>=|\+\+|@\[|[^\s]''')


def corpus():
	x, y, f, o = V('x'), V('y'), V('f'), V('o')
	yield [L('x', I(1)), L('y', ('float', 2.5)), P(x, y, B('+', x, I(2))), E(B('*', y, ('float', 2.0)))]
	yield [L('x'), A('x', ('arr', [I(1), S('a b'), NIL, ('byte', 65)])), P(('idx', x, I(1))), A(('idx', x, I(0)), I(9)), E(x)]
	yield [L('x', ('dict', [('a', I(1)), ('b', ('dict', [('c', TRUE)]))])), P(D(D(x, 'b'), 'c')), A(D(x, 'a'), I(3)), E(D(x, 'a'))]
	yield [('letfn', 'f', ['a', 'b'], [P(V('a')), ('ret', B('-', V('a'), V('b')))]), E(C(f, I(5), ('un', '-', I(3))))]
	yield [L('f', F(['n'], E(('if', B('<=', V('n'), I(1)), [E(I(1))], [E(B('*', V('n'), C(f, B('-', V('n'), I(1)))))])))), E(C(f, I(5)))]
	yield [L('x', I(0)), ('while', B('<', x, I(5)), [A('x', B('+', x, I(1))), E(('if', B('==', x, I(3)), [('break',)], None))]), E(x)]
	yield [('for', 'i', STDC('range', I(0), I(3), I(1)), [P(V('i'))]), E(B('!=', I(1), I(2)))]
	yield [L('x', ('if', B('and', TRUE, ('un', 'not', FALSE)), [P(S('#no comment')), E(S('then'))], [E(S('else'))])), E(x)]
	yield [('letfn', 'f', [], [L('v', ('try', STDC('error', S('e'), I(1)))), P(S('never'))]), L('r', C(f)), E(D(V('r'), 'description'))]
	yield [L('o', ('dict', [('v', I(1)), ('m', F(['d'], A(D(('self',), 'v'), B('+', D(('self',), 'v'), V('d'))), E(D(('self',), 'v'))))])), P(C(D(o, 'm'), I(2))), E(D(o, 'v'))]
	yield [E(B('or', B('==', B('++', S('a'), S('b')), S('ab')), STDC('panic', I(1))))]
	yield [L('x', B('%', ('un', '-', I(7)), I(3))), P(x), E(B('/', I(7), I(0)))]
	yield [E(C(F(['a'], ('ret', None)), I(1)))]
	yield [L('x', I(1)), L('g', F([], A('x', B('+', x, I(1))), E(x))), P(C(V('g'))), P(C(V('g'))), E(B('>=', x, I(3)))]


BLANKS = [' ', '\r', '\n', '\t', '\r\n', '\n\n', ' # comment "x" \'\n', '\n#\n', '#end)]}\n', '\x0c']


def may_touch(a, b):
	"""Two tokens that remain two tokens when written without a blank in between."""
	w = lambda c: c.isalnum() or c == '_'
	if w(a[-1]) and w(b[0]):
		return False
	if a[0].isdigit() and b[0] == '.' or a[-1] == '.' and b[0].isdigit():
		return False
	if a + b[0] in ('==', '!=', '<=', '>=', '++', '@[') or a in ('+', '<', '>', '=', '!', '@') and b[0] in '=+[':
		return False
	return True


def layouts():
	for prog in corpus():
		toks = TOK.findall(block(prog))
		n = len(toks)
		yield prog, ' '.join(toks)
		for blank in BLANKS:
			yield prog, blank.join(toks)
			yield prog, blank + ' '.join(toks) + blank
			for g in range(n - 1):
				yield prog, ' '.join(toks[:g + 1]) + blank + ' '.join(toks[g + 1:])
		tight = toks[0]
		for a, b in zip(toks, toks[1:]):
			tight += ('' if may_touch(a, b) else ' ') + b
		yield prog, tight
		for g in range(n - 1):
			if may_touch(toks[g], toks[g + 1]):
				yield prog, ' '.join(toks[:g + 1]) + ' '.join([''] + toks[g + 1:])[1:]
	# Trailing separators are accepted in lists.
	yield [E(('arr', [I(1), I(2)]))], '[1, 2,]'
	yield [E(D(('dict', [('a', I(1))]), 'a'))], '@[a: 1,].a'
	yield [P(I(1), I(2))], 'std.println(1, 2,)'


def paren_variants(prog):
	"""Redundant parentheses around each subexpression that does not start a statement."""
	sites = []

	def count(e, path, start):
		k = e[0]
		if not start and not (k == 'dot' and False):
			sites.append(path)
		if k in ('arr',):
			for i, x in enumerate(e[1]):
				count(x, path + ((1, i),), False)
		elif k == 'dict':
			for i, (_, x) in enumerate(e[1]):
				count(x, path + ((1, i, 1),), False)
		elif k == 'un':
			count(e[2], path + ((2,),), False)
		elif k == 'bin':
			count(e[2], path + ((2,),), start)
			count(e[3], path + ((3,),), False)
		elif k == 'try':
			count(e[1], path + ((1,),), start)
		elif k == 'idx':
			count(e[1], path + ((1,),), start)
			count(e[2], path + ((2,),), False)
		elif k == 'dot':
			count(e[1], path + ((1,),), start)
		elif k == 'call':
			count(e[1], path + ((1,),), start)
			for i, x in enumerate(e[2]):
				count(x, path + ((2, i),), False)
		elif k == 'if':
			count(e[1], path + ((1,),), False)

	out = []
	for si, s in enumerate(prog):
		sites.clear()
		k = s[0]
		if k == 'let' and s[2] is not None:
			count(s[2], (), False)
			where = 2
		elif k == 'expr':
			count(s[1], (), True)
			where = 1
		elif k == 'assign' or k == 'ret' and s[1] is not None:
			where = 2 if k == 'assign' else 1
			count(s[where], (), False)
		else:
			continue
		for path in list(sites):
			for times in (1, 2):
				def sub(e, path):
					if not path:
						return ('raw', '(' * times + expr(e) + ')' * times)
					head, rest = path[0], path[1:]
					e = list(e)
					if len(head) == 1:
						e[head[0]] = sub(e[head[0]], rest)
					elif len(head) == 2:
						l = list(e[head[0]])
						l[head[1]] = sub(l[head[1]], rest)
						e[head[0]] = l
					else:
						l = list(e[head[0]])
						n, v = l[head[1]]
						l[head[1]] = (n, sub(v, rest))
						e[head[0]] = l
					return tuple(e)
				s2 = list(s)
				s2[where] = sub(s[where], path)
				out.append(block(list(prog[:si]) + [tuple(s2)] + list(prog[si + 1:])))
	return out


COMMANDS = [
	# tokens of a command block, and what it must capture
	(['{', 'echo', 'a', 'b', ';', 'echo', '"c d"', ';', '}'], b'a b\nc d\n'),
	(['{', 'printf', '"%s:"', 'a', "'b c'", '|', 'cat', '-', ';', 'echo', 'd', '?', ';', '}'], b'a:b c:d\n'),
	(['{', 'A=1', 'printenv', 'A', ';', 'sh', '-c', '"echo x >&2"', '2', '>', '1', ';', '}'], b'1\nx\n'),
	(['{', 'cat', '<<', '"q r"', '|', 'cat', '|', 'cat', '}'], b'q r\n'),
]


def command_layouts():
	for toks, exp in COMMANDS:
		toks = ['$' + toks[0]] + toks[1:]
		want = b'R\t' + exp + b'\n'
		for blank in BLANKS:
			# A word that is followed by a comment needs a blank before the comment.
			b2 = ' ' + blank if blank.startswith('#') else blank
			yield want, b2.join(toks) + '.stdout'
			for g in range(len(toks) - 1):
				yield want, ' '.join(toks[:g + 1]) + b2 + ' '.join(toks[g + 1:]) + '.stdout'


def postfix_cases(n):
	"""All chains of up to n postfix operators that the types allow, with prefix and binary operators around them, in three layouts."""
	# d: a dict with d (itself a dict), f (a function that gives the dict), n (an integer), b (a bool), a (an array)
	steps = {
		'd': [('.d', 'd'), ('["d"]', 'd'), ('.f', 'f'), ('["f"]', 'f'), ('.n', 'n'), ('.a', 'a'), ('?', 'd')],
		'f': [('(1)', 'd'), ('(2, 3)', 'd2'), ('?', 'f')],
		'd2': [('.f', 'f'), ('.n', 'n'), ('?', 'd')],
		'a': [('[0]', 'd'), ('[1]', 'f'), ('[0 + 1]', 'f'), ('?', 'a')],
		'n': [('?', 'n')],
	}
	sem = {'.d': lambda e: D(e, 'd'), '["d"]': lambda e: ('idx', e, S('d')), '.f': lambda e: D(e, 'f'), '["f"]': lambda e: ('idx', e, S('f')), '.n': lambda e: D(e, 'n'), '.a': lambda e: D(e, 'a'), '?': lambda e: ('try', e),
		'(1)': lambda e: C(e, I(1)), '(2, 3)': lambda e: C(e, I(2), I(3)), '[0]': lambda e: ('idx', e, I(0)), '[1]': lambda e: ('idx', e, I(1)), '[0 + 1]': lambda e: ('idx', e, B('+', I(0), I(1)))}
	head = [L('o', ('dict', [('n', I(1))])), L('f', F(['x'], P(S('call'), V('x')), A(D(V('o'), 'n'), B('+', D(V('o'), 'n'), V('x'))), E(V('o')))), A(('idx', V('o'), S('d')), V('o')), A(('idx', V('o'), S('f')), V('f')), A(('idx', V('o'), S('a')), ('arr', [V('o'), V('f')]))]
	hsrc = block(head)
	todo = [('d', ('o',), V('o'))]
	for _ in range(n):
		nxt = []
		for ty, toks, e in todo:
			for t, ty2 in steps[ty]:
				nxt.append((ty2, toks + (t,), sem[t](e)))
		for ty, toks, e in nxt:
			for sep in ('', ' ', '\n'):
				src = sep.join(toks)
				yield hsrc + '\nlet r = ' + src + '\nstd.println(std.type(r), o.n)', head + [L('r', e), P(STDC('type', V('r')), D(V('o'), 'n'))]
			if ty == 'n':
				src = ''.join(toks)
				yield hsrc + '\nlet r = 7 - ' + src + ' * 2\nr', head + [L('r', B('-', I(7), B('*', e, I(2)))), E(V('r'))]
				yield hsrc + '\nlet r = - ' + src + ' + 5\nr', head + [L('r', B('+', ('un', '-', e), I(5))), E(V('r'))]
				yield hsrc + '\nlet r = not ' + src + ' == 1\nr', head + [L('r', B('==', ('un', 'not', e), I(1))), E(V('r'))]
		todo = nxt


def src_cases(ctx):
	for src, prog in postfix_cases(5 if ctx.quick else 6):
		yield src, prog
	for src, prog in deco_cases():
		yield src, prog
	for prog, src in layouts():
		yield src, prog
	for prog in corpus():
		for src in paren_variants(prog):
			yield src, prog


def check(ctx):
	n1 = flat_cases(ctx)

	def work(part):
		out, steps = [], 0
		for src, prog in part:
			it = Interp(20000)
			it.top(HEAD)
			out.append((src, src, batch.predict(it, prog)))
			steps += it.steps
		return len(out), steps, batch.replay(ctx, out, HEAD_SRC), set(explore.h(c[2]) for c in out)
	n2, states = 0, set()
	for k, steps, bad, hs in ctx.pmap(work, chunks(src_cases(ctx), 100)):
		n2 += k
		states |= hs
		ctx.add('transitions', steps)
		ctx.add('traces_validated_against_impl', k)
		for key, detail, files in bad:
			ctx.violation(key, detail, files)
	ctx.add('states', len(states))
	n3 = batch.sweep(ctx, ((src, src, want) for want, src in command_layouts()), size=25)
	return {
		'exhaustive': True, 'flat_sequences_replayed': n1, 'decorated_and_layout_cases': n2, 'command_layouts': n3,
		'rule': 'all operator sequences up to the depth with operands that separate the denoted tree from the others; '
			'all prefix/postfix decorations; every blank kind in every token gap; parentheses around every subexpression',
	}
