"""C03: lexical scoping and closures.

1. All programs up to a number of statements over declarations, assignments, reads, capturing closures, nested
   functions, parameters, loops and deferred calls on two variable names.
2. All capture chains: nested functions up to a depth, each level choosing parameters, locals, shadowing and use.
3. All orders of capture / assignment / recursive call inside recursive and mutually recursive functions."""
import itertools

from vlib import explore, lang
from vlib.lang import *

a, b, fs = V('a'), V('b'), V('fs')


def last():
	return C(('idx', fs, B('-', STDC('len', fs), I(1))))


class Gen:
	"""Blocks with exactly `size` statements (composites count their bodies)."""

	def __init__(self, kinds):
		self.kinds = kinds

	def leafs(self, decl, n):
		k = I(100 + n)
		yield ('let', 'a', k)
		yield ('let', 'b', k)
		if 'a' in decl:
			yield A('a', B('+', a, I(n + 1)))
			yield P(I(n), a)
			yield E(STDC('push', fs, F([], A('a', B('+', a, I(10))), E(a))))
		if 'b' in decl:
			yield A('b', B('+', b, I(n + 1)))
			yield P(I(n), b)
		if 'a' in decl and 'b' in decl:
			yield A('a', b)
			yield E(STDC('push', fs, F([], P(a, b), A('b', a))))
		if 'fs' in self.kinds:
			yield E(('if', B('>', STDC('len', fs), I(0)), [P(S('l'), last())], None))

	def block(self, size, decl, n):
		"""decl: (names visible, names declared in the current scope)"""
		if size == 0:
			yield []
			return
		vis, cur = decl
		for s in self.leafs(vis, n):
			if s[0] == 'let':
				if s[1] in cur:
					continue
				d2 = (vis | {s[1]}, cur | {s[1]})
			else:
				d2 = decl
			for rest in self.block(size - 1, d2, n + 1):
				yield [s] + rest
		for inner in range(1, size):
			for wrap, params in self.wraps():
				inner_decl = (vis | set(params), frozenset(params))
				for body in self.block(inner, inner_decl, n + 1):
					for rest in self.block(size - 1 - inner, decl, n + 1 + inner):
						yield [wrap(body)] + rest

	def wraps(self):
		yield (lambda body: E(('if', TRUE, body, None))), ()
		yield (lambda body: E(C(V('cl'), ('fn', [], body)))), ()
		yield (lambda body: E(C(V('cl1'), ('fn', ['a'], body)))), ('a',)
		yield (lambda body: E(STDC('push', fs, ('fn', [], body)))), ()
		yield (lambda body: ('for', 'a', STDC('range', I(50), I(52), I(1)), body)), ('a',)


def enum_programs(size):
	for s in range(1, size + 1):
		# 'a' is always declared first, otherwise most programs are invalid.
		for body in Gen({'fs'}).block(s, (frozenset('a'), frozenset('a')), 0):
			decl_b = any(x[0] == 'let' and x[1] == 'b' for x in body)
			yield ([L('fs', ('arr', [])), L('a', I(1))] + body + [P(S('top'), a)] + ([P(S('topb'), b)] if decl_b else [])
				+ [L('n', STDC('len', fs)),
					('for', 'i', STDC('range', I(0), V('n'), I(1)), [P(S('f'), C(('idx', fs, V('i')))), P(S('g'), C(('idx', fs, V('i'))))]),
					E(a)])


def chain(levels):
	"""levels: list of (nparams, nlocals, shadow, use), outermost first; x declared in level 0."""
	def level(i):
		body = []
		if i < len(levels):
			nparams, nlocals, shadow, use = levels[i]
			for j in range(nlocals):
				body.append(L('p%d_%d' % (i, j), I(1000 * i + j)))
			if shadow == 1:
				body.append(L('x', I(10 * i)))
			if 'r' in use:
				body.append(P(I(i), V('x'), V('y')))
			if 'w' in use:
				body.append(A('x', B('+', V('x'), I(1))))
				body.append(A('y', B('*', V('y'), I(2))))
			inner = level(i + 1)
			params = ['q%d_%d' % (i + 1, j) for j in range(levels[i + 1][0])] if i + 1 < len(levels) else []
			if i + 1 < len(levels) and levels[i + 1][2] == 2:
				params.append('x')
			if i + 1 < len(levels):
				call = [I(7 + j) for j in range(len(params))]
				body.append(L('f', ('fn', params, inner)))
				body.append(P(S('c%d' % i), C(V('f'), *call)))
				body.append(P(S('d%d' % i), C(V('f'), *call)))
				body.append(P(S('x%d' % i), V('x'), V('y')))
			for j in range(nlocals):
				body.append(P(V('p%d_%d' % (i, j))))
			if i:
				for j in range(nparams):
					body.append(P(V('q%d_%d' % (i, j))))
			body.append(E(V('x')))
		return body
	return [L('x', I(1)), L('y', I(3))] + level(0)


def chains(depth, shape):
	for levels in itertools.product(shape, repeat=depth):
		yield chain([(0, 0, 0, '')] + list(levels))


def recursion():
	"""Recursive functions with locals, captures and calls in every order."""
	n, v, r = V('n'), V('v'), V('r')
	actions = {
		'cap': E(STDC('push', fs, F([], A('v', B('+', v, I(1))), E(B('+', B('*', n, I(100)), v))))),
		'set': A('v', B('+', v, I(10))),
		'rec': E(('if', B('>', n, I(0)), [P(S('rv'), C(r, B('-', n, I(1))))], None)),
		'prn': P(S('p'), n, v),
		'cal': E(('if', B('>', STDC('len', fs), I(0)), [P(S('l'), last())], None)),
		'shn': A('n', B('+', n, I(0))),
		'out': A('total', B('+', V('total'), v)),
	}
	for k in range(2, 6):
		for seq in itertools.permutations(actions, k):
			if 'rec' not in seq:
				continue
			body = [L('v', B('*', n, I(2)))] + [actions[x] for x in seq] + [E(v)]
			tail = [P(V('total')), ('for', 'i', STDC('range', I(0), STDC('len', fs), I(1)), [P(C(('idx', fs, V('i')))), P(C(('idx', fs, V('i'))))])]
			pre = [L('fs', ('arr', [])), L('total', I(0))]
			yield pre + [('letfn', 'r', ['n'], body), P(C(r, I(2)))] + tail
			# mutual recursion through a variable that is assigned later
			yield pre + [L('r'), L('s', F(['n'], E(C(r, n)))), A('r', F(['n'], *(body[:1] + [actions[x] for x in seq] + [E(v)]))), P(C(V('s'), I(2)))] + tail


def late():
	"""Closures over variables that are declared, assigned or reused after the closure was made; returned closures."""
	x, g = V('x'), V('g')
	inc = F([], A('x', B('+', x, I(1))), E(x))
	get = F([], E(x))
	mk = ('letfn', 'mk', ['x'], [('ret', ('arr', [inc, get]))])
	call = lambda e, i: C(('idx', e, I(i)))
	for seq in itertools.product([('p', 0), ('p', 1), ('q', 0), ('q', 1), ('np', 0), ('al', 0)], repeat=4):
		body = [mk, L('p', C(V('mk'), I(10))), L('q', C(V('mk'), I(20)))]
		for who, i in seq:
			if who == 'np':
				body.append(A('p', C(V('mk'), I(30))))
			elif who == 'al':
				body.append(A('q', V('p')))
			else:
				body.append(P(call(V(who), i)))
		yield body + [P(call(V('p'), 1), call(V('q'), 1))]
	# Sibling closures, nested to different depths, over the same variable; after the declaring call returned.
	for d1 in range(4):
		for d2 in range(4):
			for order in itertools.permutations(range(4)):
				def nest(e, d):
					for _ in range(d):
						e = F([], ('ret', C(e)) if False else E(C(F([], E(C(e))))))
					return e
				acts = [P(S('1'), call(V('t'), 0)), P(S('2'), call(V('t'), 1)), P(S('3'), call(V('t'), 0)), P(S('4'), call(V('t'), 2))]
				yield [('letfn', 'mk', [], [L('z', I(5)), L('x', I(1)), L('w', I(6)),
						L('t', ('arr', [nest(inc, d1), nest(get, d2), F([], A('x', B('*', x, I(2))), E(B('+', x, V('w'))))])),
						A('x', I(3)), ('ret', V('t'))]),
					L('t', C(V('mk')))] + [acts[i] for i in order]
	# Loop variables and closures.
	for kind in ('for', 'while'):
		for where in range(3):
			for upd in range(2):
				push = E(STDC('push', fs, F([], A('v', B('+', V('v'), I(1))), E(B('+', V('v'), B('*', V('i'), I(100)))))))
				body = [L('v', V('i'))] if where != 2 else [L('v')]
				if where == 2:
					body.append(A('v', V('i')))
				if where == 0:
					body.insert(1, push)
				else:
					body.append(push)
				if upd:
					body.append(A('v', B('+', V('v'), I(7))))
				loop = ('for', 'i', STDC('range', I(0), I(3), I(1)), body) if kind == 'for' else \
					('while', B('<', V('i'), I(3)), body + [A('i', B('+', V('i'), I(1)))])
				pre = [L('fs', ('arr', []))] + ([L('i', I(0))] if kind == 'while' else [])
				yield pre + [loop] + [P(C(('idx', fs, I(k)))) for k in (0, 1, 2, 0)]


def inits():
	"""Declarations whose initialiser mentions the name itself, in every form of expression and in every place."""
	x, y = V('x'), V('y')
	rec = F(['n'], E(('if', B('<', V('n'), I(1)), [E(I(0))], [E(B('+', I(1), C(x, B('-', V('n'), I(1)))))])))
	forms = [
		x, y, ('arr', [x, y]), ('dict', [('k', x)]), C(V('id'), x), B('==', x, NIL), ('un', 'not', B('==', x, y)), F([], E(x)), C(F([], E(x))), C(F(['x'], E(x)), I(8)),
		('if', TRUE, [E(x)], None), ('if', FALSE, [E(y)], [E(x)]), ('if', B('==', x, NIL), [E(I(1))], [E(I(2))]), ('if', TRUE, [E(F([], E(x)))], None),
		('if', TRUE, [A('x', I(5)), E(B('+', x, I(1)))], None), ('if', TRUE, [L('x', I(6)), E(x)], None), ('if', TRUE, [L('q', x), E(V('q'))], None),
		rec, ('if', TRUE, [E(rec)], None), ('arr', [rec, x]), C(V('id'), rec), C(D(('dict', [('m', F([], E(x)))]), 'm')), ('idx', ('arr', [x, y]), I(0)),
		B('and', B('==', x, NIL), B('==', y, I(2))), STDC('type', x), STDC('catch', F([], E(B('+', x, I(1))))), ('if', TRUE, [E(('if', TRUE, [E(x)], None))], None),
		('if', TRUE, [('while', B('==', x, NIL), [A('x', I(9)), ('break',)]), E(x)], None), ('if', TRUE, [('for', 'x', STDC('iter', ('arr', [I(4)])), [A('y', x)]), E(x)], None),
	]
	for f in forms:
		use = [P(S('t'), STDC('type', x), y), E(('if', B('==', STDC('type', x), S('function')), [P(STDC('catch', F([], E(STDC('type', C(x)))))), P(STDC('catch', F([], E(C(x, I(3))))))], [P(x)]))]
		decl = [('let', 'x', f)] + use
		pre = [L('id', F(['v'], E(V('v')))), L('y', I(2))]
		yield pre + decl + [E(y)]
		for outer in (I(7), NIL, F([], E(I(70)))):
			o = pre + [L('x', outer)]
			end = [P(STDC('type', x)), E(y)]
			yield o + [E(('if', TRUE, decl, None))] + end
			yield o + [('for', 'i', STDC('range', I(0), I(2), I(1)), decl)] + end
			yield o + [L('g', F([], *decl)), E(C(V('g'))), E(C(V('g')))] + end
			yield o + [L('g', F([], E(('if', TRUE, decl, None)), E(STDC('type', x)))), P(C(V('g')))] + end
			yield o + [L('g', F([], E(C(F([], *decl))), A('x', I(11)))), E(C(V('g')))] + end


def valued():
	"""Variables are shared whatever they hold: values of all types, captured early, late and twice, and reassigned from everywhere."""
	x = V('x')
	vals = [NIL, TRUE, I(1), ('float', 1.5), ('byte', 65), S('str'), S(''), ('arr', []), ('arr', [I(1), I(2)]), ('dict', []), ('dict', [('k', I(1))]), STDC('error', S('e'), I(1)), F([], E(I(3))), F(['p'], E(V('p'))), STDC('iter', ('arr', [])), V('std')]
	show = lambda e: E(C(V('sh'), e))
	sh = L('sh', F(['v'], P(STDC('type', V('v')), ('if', B('or', B('==', STDC('type', V('v')), S('function')), B('==', STDC('type', V('v')), S('dict'))), [E(I(0))], [E(V('v'))]))))
	get = lambda: F([], E(x))
	setter = F(['v'], A('x', V('v')))
	acts = {
		'g1': [L('g1', get())], 'g2': [L('g2', get())], 's1': [L('s1', setter)], 'n': [L('n', F([], E(F([], E(x)))))], 'w': [A('x', V('b'))], 's': [E(C(V('s1'), V('b')))], 'c': [E(C(V('s1'), V('a')))],
	}
	orders = [('g1', 's1', 'g2', 'n', 'w'), ('g1', 'w', 'g2', 's1', 'n', 'c'), ('s1', 'g1', 's', 'g2', 'n'), ('s1', 's', 'g1', 'n', 'g2', 'c'), ('n', 'w', 'g1', 's1', 'c', 'g2'), ('w', 'g1', 'g2', 'n', 's1', 'c', 's')]
	look = [show(x), show(C(V('g1'))), show(C(V('g2'))), show(C(C(V('n'))))]
	for va in vals:
		for vb in vals:
			for o in orders:
				body = [sh, L('a', va), L('b', vb), L('x', V('a'))] + [st for k in o for st in acts[k]] + look + [A('x', V('b'))] + look + [E(C(V('s1'), V('a')))] + look
				yield body
				if o is orders[1]:
					# The same as parameters of a call, seen after it has returned.
					f = F(['x', 'b', 'a'], *([st for k in o for st in acts[k]] + [E(('arr', [V('g1'), V('g2'), V('n'), V('s1')]))]))
					yield [sh, L('a', va), L('b', vb), L('t', C(f, V('a'), V('b'), V('a'))), L('u', C(f, V('b'), V('a'), V('b')))] + [
						st for t in ('t', 'u') for st in (show(C(('idx', V(t), I(0)))), show(C(('idx', V(t), I(1)))), E(C(('idx', V('t'), I(3)), V('b'))), show(C(('idx', V(t), I(1)))), show(C(C(('idx', V(t), I(2))))))]


def deep_nesting():
	"""A variable of each nesting level, up to 40 levels of functions or blocks, is reached from the innermost one."""
	for depth in list(range(1, 21)) + [25, 31, 32, 33, 40]:
		for kind in ('if', 'fn', 'mixed', 'for', 'fn in if'):
			for same in (False, True):
				for target in sorted({0, min(1, depth - 1), depth // 2, depth - 1}):
					name = lambda i: 'x' if same and i != target else 'v%d' % i
					body = [A('v%d' % target, B('+', V('v%d' % target), I(1000))), P(*[V(n) for n in sorted({name(i) for i in range(depth)})])]
					for i in range(depth - 1, -1, -1):
						body = [L(name(i), I(i))] + body + [P(V(name(i)))]
						if i:
							k = {'mixed': ('if', 'fn', 'for')[i % 3]}.get(kind, kind)
							if k == 'if':
								body = [E(('if', TRUE, body, None))]
							elif k == 'for':
								body = [('for', 'i%d' % i, STDC('range', I(0), I(1), I(1)), body)]
							elif k == 'fn':
								body = [L('g%d' % i, F([], *body)), E(C(V('g%d' % i)))]
							else:
								body = [E(('if', TRUE, [L('g%d' % i, F([], *body)), E(C(V('g%d' % i)))], None))]
					yield body + [P(V(name(0)))]


def many_vars():
	"""Many variables, parameters and captures in one frame: no two of them may be mixed up."""
	for n in (1, 2, 3, 8, 9, 33, 300):
		names = ['v%d' % i for i in range(n)]
		decl = [L(x, I(i)) for i, x in enumerate(names)]
		for pick in ({0}, {n - 1}, set(range(n)), set(range(0, n, 2))):
			sel = [names[i] for i in sorted(pick)]
			f = F([], *([A(x, B('+', V(x), I(1000))) for x in sel] + [('ret', ('arr', [V(x) for x in reversed(sel)]))]))
			yield decl + [L('f', f), P(C(V('f'))), P(C(V('f'))), ('ret', ('arr', [V(x) for x in names]))]
			yield [L('g', ('fn', names, [L('f', f), P(C(V('f'))), P(C(V('f'))), ('ret', ('arr', [V(x) for x in names]))])),
				E(C(V('g'), *[I(i) for i in range(n)]))]


def cases(i):
	"""Names that differ in the case of letters only."""
	return ''.join(c.upper() if i >> k & 1 else c for k, c in enumerate('abcdefghij'))


WORDS = ['end_', 'if1', 'selfish', '_nil', 'functions', 'ors', 'In', 'let2', 'stds', 'do_', 'TRUE', 'breaks', 'returned', 'whiles', 'forx', 'NIL', 'Self', 'elsewhere', 'then1', 'andand', 'not_', 'falsey', 'trues', 'asd', 'Std', '_std', 'std1']
SCHEMES = {
	'long common prefix': lambda i: 'x' * 70 + '%d' % i,
	'common prefix': lambda i: 'identifier_%d_' % i,
	'prefixes of one another': lambda i: 'ab' * (i + 1),
	'common suffix': lambda i: 'v%d' % i + '_suffix' * 9,
	'case': cases,
	'underscores': lambda i: '_' * (i + 1),
	'digits': lambda i: 'a' + '1' * i,
	'keyword-like': lambda i: WORDS[i] if i < len(WORDS) else 'w%d' % i,
	'256 apart': lambda i: 'q' * 256 + '_' * i,
}


def renamed(progs):
	for p in progs:
		for s in SCHEMES.values():
			names = {}
			yield lang.rename(HEAD + p, lambda n: names.setdefault(n, s(len(names))))


HEAD = [L('cl', F(['f'], E(C(V('f'))))), L('cl1', F(['f'], E(C(V('f'), I(40)))))]
SHAPES_Q = [(p, l, s, u) for p in (0, 1) for l in (0, 1) for s in (0, 1) for u in ('', 'r', 'w')]
SHAPES_T = [(p, l, s, u) for p in (0, 2) for l in (0, 2) for s in (0, 1, 2) for u in ('', 'rw')]


def check(ctx):
	size = 5 if ctx.quick else 6
	n = {}
	n['enumerated'] = explore.programs(ctx, enum_programs(size), size=300, fuel=2000, head_prog=HEAD)
	n['chains'] = explore.programs(ctx, chains(3, SHAPES_Q), size=150)
	n['chains_shadow'] = explore.programs(ctx, chains(2 if ctx.quick else 3, SHAPES_T), size=150)
	if not ctx.quick:
		n['chains4'] = explore.programs(ctx, chains(4, [s for s in SHAPES_Q if s[0] == s[1]]), size=100, fuel=20000)
	n['recursion'] = explore.programs(ctx, recursion(), size=100)
	n['late'] = explore.programs(ctx, itertools.chain(late(), inits(), many_vars()), size=100, fuel=50000)
	n['valued'] = explore.programs(ctx, itertools.chain(valued(), deep_nesting()), size=100, fuel=50000)
	# The meaning does not depend on how the variables are called.
	n['renamed'] = explore.programs(ctx, renamed(itertools.chain(enum_programs(3 if ctx.quick else 4), chains(2, SHAPES_Q[:24] if ctx.quick else SHAPES_Q), recursion(), late())), size=200, fuel=50000)
	n['toplevel'] = explore.toplevel(ctx, (HEAD + p for p in enum_programs(3 if ctx.quick else 4)), fuel=2000)
	n['toplevel_late'] = explore.toplevel(ctx, itertools.chain(late(), inits(), many_vars(), chains(2, SHAPES_Q)), fuel=50000)
	return {'exhaustive': True, 'programs': sum(n.values()), 'parts': n, 'max_statements': size,
		'rule': 'all valid programs of the grammar up to the size; all capture chains; all action orders in recursion'}
