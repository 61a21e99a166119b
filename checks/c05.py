"""C05: static errors are found exactly, before anything is executed.

All chains of nesting contexts x all probes (statements that are valid or invalid depending on the context) become
scripts of their own, which are run and run with --check. The static rules model decides the verdict, the reference
interpreter the output of accepted scripts."""
import itertools

from vlib import batch, explore
from vlib.core import chunks
from vlib.lang import *

x, y = V('x'), V('y')
SELF = ('self',)
ERR = STDC('error', S('e'), I(1))


def seq(b, e):
	# A return ends its block.
	if b[-1][0] == 'ret':
		b = [E(('if', TRUE, b, None))]
	return b + [E(e)]


def contexts():
	"""Statement -> statement."""
	yield 'then', lambda b: E(('if', TRUE, b, None))
	yield 'else', lambda b: E(('if', FALSE, [E(I(0))], b))
	yield 'skip', lambda b: E(('if', FALSE, b, None))
	yield 'while', lambda b: E(('if', TRUE, [L('k', I(0)), ('while', B('<', V('k'), I(1)), [A('k', I(1))] + b)], None))
	yield 'for', lambda b: ('for', 'i', STDC('range', I(0), I(1), I(1)), b)
	yield 'fn', lambda b: E(('if', TRUE, [('letfn', 'g', [], b), E(C(V('g')))], None))
	yield 'lambda', lambda b: E(C(V('call'), ('fn', ['p'], b)))
	yield 'method', lambda b: E(C(D(('dict', [('m', ('fn', [], b))]), 'm')))
	yield 'arg', lambda b: E(C(V('id'), ('if', TRUE, seq(b, I(1)), None)))
	yield 'elem', lambda b: L('z', ('arr', [('if', TRUE, seq(b, I(1)), None)]))
	yield 'dictv', lambda b: L('z', ('dict', [('a', ('if', TRUE, seq(b, I(1)), None))]))
	yield 'wcond', lambda b: ('while', ('if', TRUE, seq(b, FALSE), None), [])
	yield 'fiter', lambda b: ('for', 'i', ('if', TRUE, seq(b, STDC('iter', ('arr', []))), None), [])
	yield 'index', lambda b: L('z', ('idx', ('arr', [I(5)]), ('if', TRUE, seq(b, I(0)), None)))
	yield 'right', lambda b: L('z', B('+', I(1), ('if', TRUE, seq(b, I(1)), None)))
	yield 'asgn', lambda b: A(('idx', V('ar'), ('if', TRUE, seq(b, I(0)), None)), I(2))


CORE = [
	[('break',)], [('ret', None)], [('ret', I(1))], [L('q', ('try', I(1)))], [P(STDC('type', SELF))], [P(V('u'))], [P(x)],
]
MORE = [
	[E(('try', ERR))], [A('u', I(1))], [A('x', I(5)), P(x)],
	[L('f', F([], ('break',)))], [L('f', F([], ('ret', I(1)))), P(C(V('f')))], [L('f', F([], E(SELF))), P(C(V('f')))],
	[L('f', F([], E(('try', ERR)))), P(STDC('type', C(V('f'))))],
	[('while', FALSE, [('break',)])], [('while', TRUE, [('break',)])], [('for', 'j', STDC('iter', ('arr', [I(1), I(2)])), [P(V('j')), ('break',)])],
	[('while', FALSE, [L('f', F([], ('break',)))])], [('while', TRUE, [E(('if', TRUE, [('break',)], None))])],
	[P(V('w')), L('w', I(1))], [L('w', I(1)), P(V('w'))], [L('w', V('w')), P(V('w'))], [L('w', F([], E(V('w')))), P(STDC('type', C(V('w'))))],
	[L('w', I(1)), L('w', I(2))], [L('x', I(7)), P(x)], [L('x', x), P(x)], [L('w'), E(('if', TRUE, [L('w', I(3)), P(V('w'))], None)), P(V('w'))],
	[L('w', F(['w'], E(V('w')))), P(C(V('w'), I(3)))], [L('f', F(['c', 'c'], E(I(1))))], [L('f', F(['c', 'd', 'c'], E(I(1))))],
	[L('f', F(['c'], L('c', I(2)), E(V('c'))))], [L('f', F(['c'], E(('if', TRUE, [L('c', I(2)), E(V('c'))], None)))), P(C(V('f'), I(1)))],
	[L('f', F(['c'], E(F(['c'], E(V('c')))))), P(C(C(V('f'), I(1)), I(2)))],
	[P(V('f2')), L('f2', I(1))], [('letfn', 'w', [], [E(I(1))]), ('letfn', 'w', [], [E(I(2))])], [('letfn', 'w', [], [E(I(1))]), L('w')],
	[E(('if', TRUE, [L('w', I(1))], None)), P(V('w'))], [('for', 'w', STDC('iter', ('arr', [])), []), P(V('w'))],
	[('for', 'w', STDC('iter', ('arr', [I(1)])), [L('w', I(2)), P(V('w'))])], [('for', 'w', V('w'), [])],
	[('for', 'x', STDC('iter', ('arr', [I(4)])), [P(x)]), P(x)],
	[L('d', ('dict', [('a', I(1)), ('b', I(2)), ('a', I(3))]))], [L('d', ('dict', [('a', I(1)), ('b', ('dict', [('a', I(3))]))])), P(D(D(V('d'), 'b'), 'a'))],
	[L('d', ('dict', [('a', ('dict', [('b', I(1)), ('b', I(2))]))]))], [L('d', ('arr', [('dict', [('a', I(1))]), ('dict', [('a', I(2))])])), P(D(('idx', V('d'), I(1)), 'a'))],
	[L('d', ('dict', [('a', F([], E(('dict', [('a', I(1))]))))])), P(D(C(D(V('d'), 'a')), 'a'))],
	[A(I(1), I(2))], [A(C(V('id'), I(1)), I(2))], [A(S('s'), I(2))], [A(B('+', x, I(1)), I(2))], [A(('if', TRUE, [E(x)], None), I(2))], [A(NIL, I(1))],
	[A(('dict', []), I(2))], [A(('un', 'not', x), I(2))], [A(('try', x), I(2))], [A(SELF, I(2))],
	[A(('idx', V('ar'), I(0)), I(3)), P(V('ar'))], [A(D(V('dc'), 'k'), I(3)), P(D(V('dc'), 'k'))], [A(D(V('u'), 'k'), I(3))], [A(('idx', V('ar'), V('u')), I(3))],
	[A(D(D(V('dc'), 'inn'), 'k'), I(4)), P(D(D(V('dc'), 'inn'), 'k'))], [A(('idx', C(V('id'), V('ar')), I(0)), I(9)), P(V('ar'))],
	[E(C(V('u')))], [E(C(V('id'), V('u')))], [P(B('+', I(1), V('u')))], [P(D(V('u'), 'a'))], [P(('arr', [V('u')]))], [P(B('and', FALSE, V('u')))],
	[E(('if', FALSE, [P(V('u'))], None))], [L('f', F([], E(V('u'))))], [('while', V('u'), [])], [('while', FALSE, [P(V('u'))])],
	[P(STDC('type', V('std')))], [L('std', I(1)), P(V('std'))], [P(D(V('dc'), 'u') if False else STDC('type', D(V('dc'), 'k')))],
	[P(V('X'))], [P(V('xx'))], [L('_', I(1)), P(V('_'))], [L('x2', I(1)), P(V('x2'))],
]
HEAD = [P(S('effect')), L('x', I(1)), L('ar', ('arr', [I(0)])), L('dc', ('dict', [('k', I(1)), ('inn', ('dict', [('k', I(2))]))])),
	L('id', F(['v'], E(V('v')))), L('call', F(['f'], E(C(V('f'), I(1)))))]


def scripts(quick):
	ctxs = list(contexts())
	for depth in range(4):
		probes = CORE + MORE if depth < (3 if not quick else 2) else CORE
		if quick and depth == 2:
			probes = CORE + MORE[::2]
		combos = list(itertools.product(ctxs, repeat=depth))
		if quick and depth == 3:
			# Contexts that matter for break/return/self, once each.
			keep = {'then', 'while', 'for', 'fn', 'lambda', 'arg', 'wcond', 'fiter'}
			combos = [c for c in combos if all(n in keep for n, _ in c)]
		for combo in combos:
			for probe in probes:
				body = list(probe)
				for _, wrap in reversed(combo):
					body = [wrap(body)]
				yield HEAD + body + [P(S('end'))]


def pairs():
	"""Two independent probes: one valid, one invalid, in either order, at different depths."""
	bad = [[('break',)], [P(V('u'))], [L('f', F(['c', 'c']))], [L('d', ('dict', [('a', I(1)), ('a', I(3))]))], [A(I(1), I(2))], [('ret', I(1))]]
	good = [[P(x)], [L('f9', F([], ('ret', I(1))))], [('while', TRUE, [('break',)])]]
	wraps = [c for n, c in contexts() if n in ('then', 'skip', 'while', 'fn', 'lambda', 'elem')]
	for b in bad:
		for g in good:
			for w1 in wraps:
				for w2 in wraps:
					yield HEAD + [w1(b), E(('if', TRUE, [w2(g)], None)), P(S('end'))]
					yield HEAD + [E(('if', TRUE, [w2(g)], None)), P(S('mid')), w1(b)]


def fix_names(p):
	"""Two 'let z' in one scope would be a duplicate of our own making."""
	return p


def positions_ok(err, src):
	import re
	ms = re.findall(rb'\(line (\d+), column (\d+)\)', err)
	lines = src.split('\n')
	return bool(ms) and all(1 <= int(l) <= len(lines) and 0 <= int(c) <= len(lines[int(l) - 1]) for l, c in ms)


def one(ctx, p, src):
	"""Returns None or a description of the disagreement."""
	errors = static_errors(p)
	r = ctx.run(src)
	c = ctx.run(src, flags=['--check'])
	if errors:
		want = 'rejection (status 2, no output) because of %s' % errors
		ok = r.rc == 2 and r.out == b'' and r.err.startswith(b'Error:') and positions_ok(r.err, src)
		okc = c.rc == 2 and c.out == b'' and c.err.startswith(b'Error:')
		steps = 0
	else:
		it = Interp(20000)
		try:
			it.top(p)
			rc, msg = 0, ''
		except Panic as e:
			rc, msg = 127, e.msg
		steps = it.steps
		out = b''.join(l + b'\n' for l in it.out)
		want = 'acceptance: rc=%d %r %s' % (rc, out, msg)
		ok = r.rc == rc and batch.same(batch.norm(r.out), out)
		okc = c.rc == 0 and c.out == b'' and c.err == b''
	if ok and okc:
		return None, steps, bool(errors)
	return 'expected: %s\nrun: %s\n--check: %s' % (want, r.brief(), c.brief()), steps, bool(errors)


def dict_trees():
	"""Every small dict literal over two keys with every kind of nesting: only keys of one and the same literal can collide."""
	def dicts(n):
		if n == 0:
			yield ('dict', [])
			return
		for k in range(1, n + 1):
			for sizes in compositions(n - k, k):
				for keys in itertools.product('ab', repeat=k):
					for vals in itertools.product(*[list(values(m)) for m in sizes]):
						yield ('dict', list(zip(keys, vals)))

	def values(m):
		if m == 0:
			yield I(1)
			return
		for d in dicts(m):
			yield d
			yield ('arr', [d, I(2)])
			yield F([], E(d))
			yield ('if', TRUE, [E(d)], None)

	def compositions(total, parts):
		if parts == 1:
			yield (total,)
			return
		for first in range(total + 1):
			for rest in compositions(total - first, parts - 1):
				yield (first,) + rest
	for n in range(1, 5):
		for d in dicts(n):
			yield HEAD[:1] + [L('d', d), P(STDC('len', V('d')))]
			if n < 4:
				yield HEAD[:1] + [L('d', ('arr', [d, ('dict', [('a', I(1)), ('b', I(2))])])), P(STDC('len', V('d')))]
				yield HEAD[:1] + [L('d', ('dict', [('a', d), ('b', I(2))])), P(STDC('len', V('d')))]


ERRORS = ['break', 'return 1', 'std.println(u%d)', 'let f%d = function(c, c) end', 'let d%d = @[a: 1, a: 2]', '1 = 2', 'u%d = 1', 'std.println(self)', 'let q%d = 1?', '{ echo $u%d }', '{ cd . | cat }']
SYNTAX = ['end', 'else', 'elseif', ')', ']', 'then', 'do', '5 = = 5', 'let', 'x +', '$', '!', '"\\q"', "''", '1.', '{ echo \\q }', '{ | }', 'let 5 = 1', 'for in x do end', '@[1: 2]', 'function (a b) end']
VALID = ['let v%d = 1', 'std.println("effect")', 'if true then end', 'while false do end', 'function h%d() end', '{ true }', 'for i in std.iter([1]) do end']


def many():
	"""(source): scripts with any number of errors, of one rule or of several, and any number of valid statements around them."""
	for e in ERRORS + SYNTAX:
		fmt = lambda i: e.replace('%d', str(i))
		for k in (1, 2, 19, 20, 21, 22, 40, 64, 256):
			yield 'std.println("effect")\n' + '\n'.join(fmt(i) for i in range(k)) + '\nstd.println("effect")\n'
			if k > 2:
				yield 'std.println("effect")\nlet f = function()\n' + '\n'.join(('if true then %s end' if e in ERRORS else '%s') % fmt(i) for i in range(k)) + '\nu0 end\nf()\n'
		for before in range(0, 7):
			for after in range(0, 3):
				yield '\n'.join(VALID[i % len(VALID)].replace('%d', 'b%d' % i) for i in range(before)) + '\n' + fmt(0) + '\n' + '\n'.join(VALID[i % len(VALID)].replace('%d', 'a%d' % i) for i in range(after)) + '\nstd.println("effect")\n'
		for wrap in ('if true then %s end', 'let f = function() %s end', 'while false do %s end' if e != 'break' else 'let f = function() %s end', 'function g() function h() %s end end'):
			if e in ('return 1', 'std.println(self)', 'let q%d = 1?') and 'function' in wrap or e == 'return 1' or e in ('end', 'else', 'elseif'):
				continue
			yield 'std.println("effect")\n' + wrap % fmt(0) + '\nstd.println("effect")\n'
	for a, b in itertools.product(ERRORS + SYNTAX, repeat=2):
		yield 'std.println("effect")\n%s\nstd.println("effect")\n%s\n' % (a.replace('%d', '1'), b.replace('%d', '2'))
	# Nothing may follow a return in its block.
	for stmt in ('break', 'let q = 1', 'x = 2', 'std.println(1)', 'while false do end', 'for i in std.iter([]) do end', 'return', 'return 2', 'if true then end', 'function g() end', '{ true }', '${ true }', '&{ true }', '"s"', '5', 'nil', 'true', 'self', '@[]', 'function() end', 'x'):
		for ret in ('return 1', 'return x', 'return nil', 'return function() end', 'return { true }', 'return "s"', 'return self', 'return (1)'):
			for wrap in ('%s', 'if true then %s end', 'if false then 1 else %s end', 'while true do %s end', 'for i in std.iter([1]) do %s end', 'let g = function() %s end'):
				yield 'std.println("effect")\nlet f = function(x)\n%s\nend\nf(1)\n' % (wrap % ('%s\n%s' % (ret, stmt)))


	# The rules hold in scopes of any size: the k-th of n names declared again, or one name too many used.
	for n in list(range(1, 70)) + [127, 128, 129, 255, 256, 257, 300]:
		lets = lambda sep: sep.join('let v%d = %d' % (i, i) for i in range(n))
		for k in sorted({0, n // 2, n - 1}):
			yield 'std.println("effect")\n%s\nlet v%d = 1\n' % (lets('\n'), k)
			yield 'std.println("effect")\nlet f = function()\n%s\nlet v%d = 1\nend\n' % (lets('\n'), k)
			yield 'std.println("effect")\nlet f = function(%s, v%d) end\n' % (', '.join('v%d' % i for i in range(n)), k)
			yield 'std.println("effect")\nlet d = @[%s, v%d: 1]\n' % (', '.join('v%d: %d' % (i, i) for i in range(n)), k)
		yield 'std.println("effect")\n%s\nstd.println(v%d)\n' % (lets('\n'), n)
		yield 'std.println("effect")\nif true then\n%s\nend\nstd.println(v%d)\n' % (lets('\n'), n - 1)
		yield 'std.println("effect")\n%s\nlet f = function()\nv%d = 1\nend\n' % (lets('\n'), n)


def stray_ok():
	"""The same shapes without the error are accepted (otherwise the rejections above would mean nothing)."""
	for before in range(0, 7):
		yield '\n'.join(VALID[i % len(VALID)].replace('%d', 'b%d' % i) for i in range(before)) + '\nstd.println("effect")\n'
	for n in list(range(1, 70)) + [127, 128, 129, 255, 256, 257, 300]:
		lets = '\n'.join('let v%d = %d' % (i, i) for i in range(n))
		yield '%s\nlet x = v%d\nstd.println("effect")\nlet f = function(%s)\n%s\nv0 = 1\nend\nlet d = @[%s]\nif true then\n%s\nend\nlet v%d = 5\n' % (lets, n - 1, ', '.join('v%d' % i for i in range(n)), '\n'.join('let w%d = v%d' % (i, i) for i in range(n)), ', '.join('v%d: %d' % (i, i) for i in range(n)), lets, n)
	for ret in ('return 1', 'return x', 'return', 'return nil', 'return function() end', 'return { true }', 'return "s"', 'return self', 'return (1)'):
		for wrap in ('%s', 'if true then %s end', 'if false then 1 else %s end', 'while true do %s end', 'for i in std.iter([1]) do %s end', 'let g = function() %s end'):
			yield 'std.println("effect")\nlet f = function(x)\n%s\nend\nf(1)\n' % (wrap % ret)


# ---------------------------------------------------------------------- shell builtins and names in commands
def command_scripts():
	"""(source, static error?)"""
	pre = 'std.println("effect")\nlet v = "."\n'
	for b in ('cd', 'exec', 'exec0', 'spawn0', 'alias', 'cdx', 'CD', '"cd"', 'true'):
		is_b = b in ('cd', 'exec', 'exec0', 'spawn0', 'alias', '"cd"')
		for kind in ('', '$', '&'):
			for form, rule in (
				('%s .', kind != ''), ('true; %s .', kind != ''), ('%s . ; true', kind != ''),
				('%s . | cat', True), ('true | %s .', True), ('true | %s . | cat', True), ('true | cat | %s .', True),
				('%s . > /dev/null', True), ('%s . 2> /dev/null', True), ('%s . < /dev/null', True), ('%s . << x', True), ('true; %s . | cat', True),
				('%s . ?', kind != ''), ('echo %s', False), ('true %s . ; true', False), ('true | true %s', False),
			):
				text = '%s%s{ %s }' % (pre, kind, form % b)
				yield 'function unused()\n%s%s{ %s }\nend\n' % (pre, kind, form % b), is_b and rule, is_b
	# Variables in commands are resolved like everywhere else.
	for form in ('echo $%s', 'echo ${%s}', 'echo "a $%s"', 'echo "${%s}b"', 'echo a$%s', '$%s', 'A=$%s true', 'A="${%s}" true', 'true > $%s', 'true >> "$%s"',
			'true < $%s', 'true << $%s', 'true | echo $%s', 'true; true $%s', 'true $%s ?', 'true *$%s', 'true ${%s}*', 'true 2> $%s'):
		for kind in ('', '$', '&'):
			for name, bad in (('v', False), ('u', True), ('inner', True), ('std', False), ('later', True)):
				yield pre + 'if true then let inner = 1 end\nlet f = function()\n%s{ %s }\nend\nlet later = 1\n' % (kind, form % name), bad, False
				yield pre + 'if true then let inner = 1 end\nlet f = function(%s)\n%s{ %s }\nend\nlet later = 1\n' % (name, kind, form % name), False, False
		yield pre + 'let f = function()\n{ %s }\nend' % (form % 'self'), True, False
	# In a single quoted word nothing is a variable.
	yield pre + "let f = function() { echo '$u' '${u}' \\$u } end", False, False


def check(ctx):
	def work(part):
		bad, steps, rejected, n = [], 0, 0, 0
		for p in part:
			try:
				src = block(p)
			except ValueError:
				continue
			n += 1
			d, k, rej = one(ctx, p, src)
			steps += k + 1
			rejected += rej
			if d:
				bad.append((src, d, {'t.hsh': src}))
				if len(bad) > 3:
					break
		return n, steps, rejected, bad

	n = rej = 0
	for k, steps, r, bad in ctx.pmap(work, chunks(itertools.chain(scripts(ctx.quick), pairs(), dict_trees()), 40)):
		n += k
		rej += r
		ctx.add('transitions', steps)
		ctx.add('traces_validated_against_impl', 2 * k)
		for key, d, files in bad:
			ctx.violation(key, d, files)

	def work2(part):
		bad = []
		for src, wrong, _ in part:
			r = ctx.run(src)
			c = ctx.run(src, flags=['--check'])
			if wrong:
				ok = r.rc == 2 and r.out == b'' and r.err.startswith(b'Error:') and c.rc == 2 and c.out == b''
			else:
				ok = r.rc == 0 and (r.out.endswith(b'effect\n') or src.startswith('function') or r.out.startswith(b'effect\n'))
				ok = ok and c.rc == 0 and c.out == b'' and c.err == b''
			if not ok:
				bad.append((src, 'expected: %s\nrun: %s\n--check: %s' % ('rejection' if wrong else 'acceptance', r.brief(), c.brief()), {'t.hsh': src}))
		return len(part), sum(1 for s in part if s[1]), bad
	m = 0
	for k, r, bad in ctx.pmap(work2, chunks(itertools.chain(command_scripts(), ((t, True, False) for t in many()), ((t, False, False) for t in stray_ok())), 30)):
		m += k
		rej += r
		ctx.add('traces_validated_against_impl', 2 * k)
		for key, d, files in bad:
			ctx.violation(key, d, files)
	ctx.sample({'script': block(HEAD + [('break',)]), 'verdict': 'rejected: break outside loop'})
	return {'exhaustive': True, 'programs': n + m, 'states': n + m, 'rejected': rej,
		'rule': 'all chains of up to 3 nesting contexts x probes; all pairs of a valid and an invalid probe; all builtins x command positions; '
			'all variable occurrences in commands; all dict literals of up to 4 entries over 2 keys; any number of errors among any number of valid statements; every statement after a return. Each script is one state (verdict, output).'}
