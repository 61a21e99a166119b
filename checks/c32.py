"""C32: the dumps show the program that is run, and asking for them does not change how it runs.

Every expression and statement shape up to a nesting depth is dumped (--lex, --ast, --program) and run. Independent oracles:
the token list with positions from a tokenizer of its own, the fully parenthesised tree of the generated program, and a resolver
of variables to (function, declaration) that the slots and captures of the --program dump have to agree with. The run part of the
output, the error output and the status have to be those of a run without the options."""
import itertools
import re

from vlib import multirun
from vlib.core import chunks
from vlib.lang import *

TECHNIQUE = 'exhaustive enumeration of programs up to a nesting depth; dumps compared with independently computed token lists, trees and variable resolution'
RULE = '-' * 50

TOKEN = re.compile(r'''\s+|\#[^\n\d][^\n]*|(?P<t>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|\#\d+|@\[|\+\+|==|!=|<=|>=|[A-Za-z_]\w*|\d+(?:\.\d+)?(?:e-?\d+)?|[-+*/%<>=.,:()\[\]?;{}])''')


def tokens(text):
	text = re.sub(r'\b(then|else|do)(end|else)\b', r'\1 \2', text)  # empty inlined blocks
	out, pos = [], 0
	while pos < len(text):
		m = TOKEN.match(text, pos)
		if not m:
			return out + ['?? ' + text[pos:pos + 20]]
		if m.group('t') and m.group('t') != ';':
			out.append(m.group('t'))
		pos = m.end()
	return out


def canon(t):
	"""A literal as the dumps show it."""
	if t[0] == '"':
		body = re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(1), m.group(1)), t[1:-1], flags=re.S)
		return show_str(body.encode())
	if re.match(r'\d+(\.|e)', t):
		return show_float(float(t))
	return t


def positioned(text):
	"""(line, column, token) of a program without commands."""
	pos, line, start = 0, 1, 0
	while pos < len(text):
		m = TOKEN.match(text, pos)
		if m.group('t'):
			yield line, pos - start, m.group('t')
		nl = text.count('\n', pos, m.end())
		if nl:
			line += nl
			start = text.rindex('\n', 0, m.end()) + 1
		pos = m.end()


# ------------------------------------------------------------------ the tree
def comma(parts):
	out = []
	for i, p in enumerate(parts):
		out += ([','] if i else []) + p
	return out


class Tree:
	"""Tokens of the dump of a program. Variables are emitted as ('v', frame, declaration, name)."""

	def __init__(self):
		self.frames = [None]  # parent
		self.scopes = [(0, {})]
		self.decls = 0
		self.owner, self.selfs, self.params, self.clash = {}, {}, {}, set()
		self.declare('std')

	def declare(self, name):
		f, scope = self.scopes[-1]
		for g, other in self.scopes:
			if g == f:
				self.clash.update((f, d, self.decls) for d in other.values())
		scope[name] = self.decls
		self.owner[self.decls] = f
		self.decls += 1
		return ('v', f, scope[name], name)

	def use(self, name):
		for f, scope in reversed(self.scopes):
			if name in scope:
				return ('v', self.scopes[-1][0], scope[name], name)
		raise KeyError(name)

	def block(self, b, scope=True):
		if scope:
			self.scopes.append((self.scopes[-1][0], {}))
		out = []
		for i, s in enumerate(b):
			# As lang.block prints it.
			if i and stmt(s)[0] in '([-':
				s = E(('if', TRUE, [s], None))
			out += self.stmt(s)
		if scope:
			self.scopes.pop()
		return out

	def fn(self, params, body):
		self.frames.append(self.scopes[-1][0])
		f = len(self.frames) - 1
		self.scopes.append((f, {}))
		ps = [self.declare(p) for p in params]
		self.params[f] = [p[2] for p in ps]
		out = ['function', ('params', f, [p[3] for p in ps])] + self.block(body, False) + ['end']
		self.scopes.pop()
		return out

	def stmt(self, s):
		k = s[0]
		if k == 'let':
			v = self.declare(s[1])
			return [('let', v)] + (['nil'] if s[2] is None else self.expr(s[2]))
		if k == 'letfn':
			v = self.declare(s[1])
			return [('let', v)] + self.fn(s[2], s[3])
		if k == 'assign':
			if s[1][0] == 'dot':  # The program has only one kind of element assignment.
				return self.expr(s[1][1]) + [('field', s[1][2]), '='] + self.expr(s[2])
			return self.expr(s[1]) + ['='] + self.expr(s[2])
		if k == 'ret':
			return ['return'] + (['nil'] if s[1] is None else self.expr(s[1]))
		if k == 'break':
			return ['break']
		if k == 'while':
			return ['while'] + self.expr(s[1]) + ['do'] + self.block(s[2]) + ['end']
		if k == 'for':
			it = self.expr(s[2])
			self.scopes.append((self.scopes[-1][0], {}))
			v = self.declare(s[1])
			out = ['for', v, 'in'] + it + ['do'] + self.block(s[3], False) + ['end']
			self.scopes.pop()
			return out
		return self.expr(s[1])

	def expr(self, e):
		k = e[0]
		if k == 'var':
			return [self.use(e[1])]
		if k == 'self':
			self.selfs.setdefault(self.scopes[-1][0], True)
			return [('self', self.scopes[-1][0])]
		if k in ('nil', 'bool', 'int', 'byte', 'str'):
			return [canon(expr(e))]
		if k == 'float':
			return [show_float(e[1])]
		if k == 'arr':
			return ['['] + comma([self.expr(x) for x in e[1]]) + [']']
		if k == 'dict':
			return ['@['] + comma([[n, ':'] + self.expr(x) for n, x in e[1]]) + [']']
		if k == 'fn':
			return self.fn(e[1], e[2])
		if k == 'un':
			return ['(', e[1]] + self.expr(e[2]) + [')']
		if k == 'try':
			return ['('] + self.expr(e[1]) + ['?', ')']
		if k == 'bin':
			return ['('] + self.expr(e[2]) + [e[1]] + self.expr(e[3]) + [')']
		if k == 'if':
			return ['if'] + self.expr(e[1]) + ['then'] + self.block(e[2]) + (['else'] + self.block(e[3]) if e[3] else []) + ['end']
		if k == 'idx':
			return self.expr(e[1]) + ['['] + self.expr(e[2]) + [']']
		if k == 'dot':
			return self.expr(e[1]) + ['.', e[2]]
		if k == 'call':
			return self.expr(e[1]) + ['('] + comma([self.expr(x) for x in e[2]]) + [')']
		raise ValueError(k)


def ast_tokens(tree):
	out = []
	for t in tree:
		if isinstance(t, str):
			out.append(t)
		elif t[0] == 'v':
			out.append(t[3])
		elif t[0] == 'self':
			out.append('self')
		elif t[0] == 'let':
			out += ['let', t[1][3], '=']
		elif t[0] == 'field':
			out += ['.', t[1]]
		else:
			out += ['('] + comma([[n] for n in t[2]]) + [')']
	return out


def match_program(model, tree, got):
	"""None, or why the --program dump does not agree with the tree and the resolution of its variables."""
	slot, capture, head = {}, {}, {}
	pos = 0

	def peek(n=0):
		return got[pos + n] if pos + n < len(got) else None

	def header(f):
		nonlocal pos
		head[f] = {}
		while peek() == 'let' and str(peek(1)).startswith('#') and peek(2) == ':':
			s, kind = peek(1), peek(3)
			pos += 4
			frm = None
			if kind == 'capture':
				frm = peek()
				pos += 1
			me = peek() == 'self' and True
			if me:
				pos += 1
			if s in head[f]:
				return 'slot %s is listed twice in function %d' % (s, f)
			head[f][s] = (frm, me)
		return None

	def at(f, d, s):
		if slot.setdefault((f, d), s) != s:
			return 'one variable (%d) has two slots, %s and %s, in function %d' % (d, slot[f, d], s, f)
		return None
	why = header(0)
	if why:
		return why
	selfslot = {}
	for t in tree:
		if isinstance(t, str):
			if peek() != t:
				return 'expected %r, found %r after %s' % (t, peek(), ' '.join(got[max(0, pos - 12):pos]))
			pos += 1
		elif t[0] in ('v', 'let'):
			v = t if t[0] == 'v' else t[1]
			if not str(peek()).startswith('#'):
				return 'expected the slot of %s, found %r' % (v[3], peek())
			why = at(v[1], v[2], peek())
			if why:
				return why
			pos += 1
			if t[0] == 'let':
				if peek() != '=':
					return 'expected =, found %r' % peek()
				pos += 1
		elif t[0] == 'self':
			if selfslot.setdefault(t[1], peek()) != peek():
				return 'self has two slots'
			pos += 1
		elif t[0] == 'field':
			if peek() == '.' and peek(1) == t[1]:
				pos += 2
			elif got[pos:pos + 3] in (['[', '"%s"' % t[1], ']'], ['[', t[1], ']']):
				pos += 3
			else:
				return 'expected the field %s, found %r' % (t[1], got[pos:pos + 3])
		else:
			if [peek(), peek(1), peek(2)] != ['(', str(len(t[2])), ')']:
				return 'expected (%d), found %r' % (len(t[2]), got[pos:pos + 3])
			pos += 3
			why = header(t[1])
			if why:
				return why
			for i, d in enumerate(model.params[t[1]]):
				at(t[1], d, '#%d' % i)
	if pos != len(got):
		return 'unexpected at the end: %s' % ' '.join(got[pos:pos + 12])
	# Captures lead, function by function, to the slot of the declaration.
	todo = list(slot.items())
	while todo:
		(f, d), s = todo.pop()
		if s not in head[f]:
			return 'slot %s is not listed in function %d' % (s, f)
		frm, me = head[f][s]
		if me:
			return 'the slot of a variable is that of self'
		if model.owner[d] == f:
			if frm:
				return 'slot %s of function %d is a capture, but the variable belongs to the function' % (s, f)
			continue
		if not frm:
			return 'slot %s of function %d is not a capture, but the variable belongs to another function' % (s, f)
		parent = model.frames[f]
		if (parent, d) not in slot:
			todo.append(((parent, d), frm))
		why = at(parent, d, frm)
		if why:
			return why
	for f, s in selfslot.items():
		if s not in head[f] or head[f][s] != (None, True):
			return 'self is slot %s of function %d, which is listed as %r' % (s, f, head[f].get(s))
	for f, hs in head.items():
		if sum(m for _, m in hs.values()) != (1 if f in selfslot else 0):
			return 'wrong number of self slots in function %d' % f
	for f, a, b in model.clash:
		if (f, a) in slot and slot[f, a] == slot.get((f, b)):
			return 'two variables of function %d share slot %s' % (f, slot[f, a])
	return None


# ------------------------------------------------------------------ programs
x, y, k = V('x'), V('y'), V('k')
LEAVES = [NIL, TRUE, FALSE, I(1), I(12345678901), ('float', 2.0), ('float', 0.5), ('float', 1e300), ('float', 123456789.0), ('byte', 99), ('byte', 10), S('s'), S('a\n"\\\'\t'), S(''), x, y, k, V('top'), ('self',), V('std')]
OPS = ['+', '-', '*', '/', '%', '==', '!=', '<', '<=', '>', '>=', 'and', 'or', '++']


def shapes():
	"""(name, number of sub-expressions, constructor)"""
	yield 'neg', 1, lambda a: ('un', '-', a)
	yield 'not', 1, lambda a: ('un', 'not', a)
	yield 'try', 1, lambda a: ('try', a)
	for op in OPS:
		yield op, 2, lambda a, b, op=op: B(op, a, b)
	yield 'arr0', 0, lambda: ('arr', [])
	yield 'arr1', 1, lambda a: ('arr', [a])
	yield 'arr3', 3, lambda a, b, c: ('arr', [a, b, c])
	yield 'dict0', 0, lambda: ('dict', [])
	yield 'dict1', 1, lambda a: ('dict', [('n', a)])
	yield 'dot', 1, lambda a: D(a, 'field')
	yield 'idx', 2, lambda a, b: ('idx', a, b)
	yield 'idxname', 1, lambda a: ('idx', a, S('field'))
	yield 'call0', 1, lambda a: C(a)
	yield 'call2', 3, lambda a, b, c: C(a, b, c)
	yield 'method', 2, lambda a, b: C(D(a, 'm'), b)
	yield 'if1', 2, lambda a, b: ('if', a, [E(b)], None)
	yield 'if2', 3, lambda a, b, c: ('if', a, [E(b)], [E(c)])
	yield 'ifempty', 1, lambda a: ('if', a, [], None)
	yield 'ifelse', 2, lambda a, b: ('if', a, [], [E(b)])
	yield 'iflet', 2, lambda a, b: ('if', a, [L('q', b), E(V('q'))], [L('q', I(7)), A('q', b), E(V('q'))])
	yield 'fn0', 1, lambda a: F([], E(a))
	yield 'fn2', 1, lambda a: F(['p', 'q'], L('r', V('p')), E(a), E(B('+', V('q'), V('r'))))
	yield 'fnshadow', 1, lambda a: F(['x'], L('y', x), E(a), F2(a))
	yield 'fnempty', 0, lambda: F([])
	yield 'fnfn', 1, lambda a: F(['p'], ('ret', F(['q'], ('ret', F([], A('p', V('q')), E(a), E(V('p')))))))


def F2(a):
	return E(F([], L('x', V('y')), E(a)))


SHAPES = list(shapes())


def exprs(depth, leaves):
	if depth == 0:
		yield from leaves
		return
	dflt = [x, I(3), S('z')]
	inner = list(exprs(depth - 1, leaves if depth == 1 else leaves[:1]))
	for _, n, mk in SHAPES:
		if n == 0:
			yield mk()
		for i in range(n):
			for e in inner:
				args = dflt[:n]
				args[i] = e
				yield mk(*args)


def stmts():
	"""(constructor from an expression)"""
	yield lambda e: [L('n', e)]
	yield lambda e: [L('n'), A('n', e)]
	yield lambda e: [L('n', NIL), L('m', F([], A('n', e))), E(C(V('m'))), ('ret', V('n'))]
	yield lambda e: [A(('idx', y, I(0)), e)]
	yield lambda e: [A(('idx', V('top'), e), I(0))]
	yield lambda e: [A(D(y, 'n'), e)]
	yield lambda e: [('ret', e)]
	yield lambda e: [E(('if', TRUE, [('ret', e)], None)), ('ret', None)]
	yield lambda e: [('while', e, [E(I(1)), ('break',)])]
	yield lambda e: [('while', TRUE, [L('x', e), ('break',)])]
	yield lambda e: [('while', FALSE, [])]
	yield lambda e: [('for', 'i', e, [E(V('i'))])]
	yield lambda e: [('for', 'x', STDC('range', I(0), I(2), I(1)), [L('n', B('==', x, e)), E(('if', V('n'), [('break',)], None))])]
	yield lambda e: [('for', 'i', STDC('iter', ('arr', [])), [])]
	yield lambda e: [('letfn', 'g', ['a', 'b'], [E(e), ('ret', V('a'))]), E(C(V('g'), I(1), x))]
	yield lambda e: [('letfn', 'g', [], []), E(C(V('g')))]
	yield lambda e: [L('n', ('if', e, [L('n', I(1)), E(V('n'))], [('ret', e)])), E(V('n'))]
	yield lambda e: [L('n', ('if', B('==', x, e), [E(I(1))], [E(('if', B('!=', y, e), [E(I(2))], [E(I(3))]))]))]


def program(body):
	return [L('top', I(9)), L('f', F(['x', 'y'], L('k', ('dict', [])), *body)), P(STDC('type', STDC('catch', F([], E(C(V('f'), I(1), ('arr', [I(5)]))))))), L('o', ('dict', [('f', V('f'))])),
		P(STDC('type', STDC('catch', F([], E(C(D(V('o'), 'f'), S('a'), ('dict', [])))))))]


def space(quick):
	for e in exprs(1, LEAVES):
		yield [E(e)]
	for e in exprs(2, LEAVES[-6:-5]):
		yield [E(e)]
	for mk in stmts():
		for e in LEAVES:
			yield mk(e)
		for e in exprs(1, LEAVES[-6:-5]):
			yield mk(e)
	ss = list(stmts())
	for a, b in itertools.product(ss, repeat=2):
		inner = b(I(4))
		yield a(C(F(['w'] , *inner), I(1)))
		if inner[-1][0] != 'ret':
			yield [E(('if', TRUE, inner, inner))] + a(x)
	if not quick:
		for e in exprs(3, LEAVES[-6:-5]):
			yield [E(e)]


# ------------------------------------------------------------------ commands
# (source, dump of the tree; %s is the variable)
WORDS = [('a', 'a'), ("'q r'", 'q r'), ('"d e"', 'd e'), ('$v', '${%s}'), ('"$v"', '${%s}'), ('${v}', '${%s}'), ('*', '*'), ('%', '%'), ('\\n', '\\n'), ("'\\''", "\\'"), ('"x${v}y"', 'x${%s}y'), ('1', '1')]
REDIRS = [('> f', '1>"f"'), ('>> f', '1>>"f"'), ('2> f', '2>"f"'), ('2>> "f g"', '2>>"f g"'), ('2>1', '2>1'), ('1>2', '1>2'), ('< f', '<"f"'), ('<< $v', '<<"${%s}"'), ("<< 'f'", '<<"f"')]


BUILTINS = ['cd', 'exec', 'exec0', 'spawn0', 'alias']


def commands(quick):
	"""(source of the block, its dump as a list of lines)"""
	words = [(a, b) for a, b in WORDS] + [(a[0] + b[0], a[1] + b[1]) for a, b in itertools.product(WORDS, repeat=2) if not (a[0] == '$v' and b[0][0] in 'a1') and not (a[0] in '*%' and b[0] in '*%') and not (a[0] == '1' and b[0] == '1')]
	simple = [('echo ' + a, '"echo" "%s"' % b) for a, b in words] + [('echo ~/x' + a, '"echo" "~/x%s"' % b) for a, b in words[:10]]
	simple += [('echo a ' + a, '"echo" "a" ' + b) for a, b in REDIRS] + [('echo a %s %s' % (a, c), '"echo" "a" %s %s' % (b, d)) for (a, b), (c, d) in itertools.product(REDIRS, repeat=2)]
	simple += [('K=%s echo a' % a, 'K="%s" "echo" "a"' % b) for a, b in WORDS] + [('K=1 L=$v echo', 'K="1" L="${%s}" "echo"')]
	for kind in ('{', '${', '&{'):
		for a, b in simple:
			yield kind + ' ' + a + ' }', [kind, b, '}']
		for (a, b), (c, d) in itertools.product(simple[::9], repeat=2):
			for g in ('', ' ?'):
				yield '%s %s%s; %s }' % (kind, a, g, c), [kind, b + g + ';', d, '}']
				yield '%s %s | %s%s }' % (kind, a, c, g), [kind, '%s | %s%s' % (b, d, g), '}']
	for name in BUILTINS:
		for (a, b), (c, d) in itertools.product(words[:14], repeat=2):
			for g in ('', ' ?'):
				yield '{ %s %s %s%s }' % (name, a, c, g), ['{', '"%s" "%s" "%s"%s' % (name, b, d, g), '}']
		yield '{ %s; echo a ?; %s ? }' % (name, name), ['{', '"%s";' % name, '"echo" "a" ?;', '"%s" ?' % name, '}']


def check(ctx):
	exe = multirun.build(ctx)
	cwd = ctx.mkdir('cwd')

	def sections(out):
		parts = re.split(r'(?m)^%s\n' % RULE, out.decode('utf-8', 'replace'))
		return parts

	def judge(p, src, dumps, plain, lexed):
		st, out, err = dumps
		parts = sections(out)
		if len(parts) != 5:
			return 'expected two dumps and the output of the program'
		if (st, parts[4].encode(), err) != plain:
			return 'the dumps change the outcome: without them %r' % (plain,)
		if parts[0] or parts[2]:
			return 'unexpected text around the dumps'
		model = Tree()
		tree = model.block(p, False)
		name, _, ast = parts[1].partition('\n')
		want = ast_tokens(tree)
		got = tokens(ast)
		if name != 'AST for <stdin>' or got != want:
			i = next((i for i, (a, b) in enumerate(itertools.zip_longest(got, want)) if a != b), 0)
			return 'wrong tree: expected ... %s, found ... %s' % (' '.join(want[max(0, i - 6):i + 8]), ' '.join(got[max(0, i - 6):i + 8]))
		name, _, prog = parts[3].partition('\n')
		why = match_program(model, tree, tokens(prog))
		if name != 'Program for <stdin>' or why:
			return 'program dump: %s' % why
		lst, lout, lerr = lexed
		lparts = sections(lout)
		toks = [re.match(r'<stdin> \(line (\d+), column (\d+)\):\t(.*)\Z', l) for l in lparts[1].splitlines()] if len(lparts) == 3 else [None]
		want = [(l, c, canon(t)) for l, c, t in positioned(src)]
		if lst != 0 or lerr or None in toks:
			return 'unexpected token dump: status %s, %r' % (lst, lerr)
		got = [(int(m.group(1)), int(m.group(2)), m.group(3)) for m in toks]
		if got != want:
			i = next((i for i, (a, b) in enumerate(itertools.zip_longest(got, want)) if a != b), 0)
			return 'wrong tokens: expected %r, found %r' % (want[i:i + 2], got[i:i + 2])
		return None

	def work(part):
		progs = [program(b) for b in part]
		lay = [lambda s: s, lambda s: s.replace('\n', '\n\n\t'), lambda s: s.replace(' ', '  ').replace('\n', ' # c\n'), lambda s: '# first\n' + s.replace('\n', '\r\n'), lambda s: s.replace(', ', ' ,\n')]
		srcs = [lay[i % 5](block(p)) if '"' not in block(p) else block(p) for i, p in enumerate(progs)]
		data = [s.encode() for s in srcs]
		a = multirun.run(ctx, exe, [ctx.hush, '--ast', '--program'], data, cwd=cwd)
		b = multirun.run(ctx, exe, [ctx.hush], data, cwd=cwd)
		c = multirun.run(ctx, exe, [ctx.hush, '--check', '--lex'], data, cwd=cwd)
		bad = []
		for p, s, r1, r2, r3 in zip(progs, srcs, a, b, c):
			try:
				why = judge(p, s, r1, r2, r3)
			except Exception as e:
				why = 'the dump cannot be read: %r' % e
			if why:
				bad.append((s, '%s\nwith --ast --program: status %s\n%s\n%s\nwith --lex: status %s\n%s' % (why, r1[0], r1[1].decode('latin-1'), r1[2].decode('latin-1'), r3[0], r3[1].decode('latin-1')), {'input': s}))
		return len(part), bad[:3]
	n = 0
	for m, bad in ctx.pmap(work, chunks(space(ctx.quick), 100)):
		n += m
		for v in bad:
			ctx.violation(*v)
	ctx.add('programs', n)

	def cmds(part):
		pre = 'let u\nlet v = "V"\nlet f = function()\n\tlet w = 1\n\tlet b = '
		srcs = [(pre + s + '\n\tb\nend\nstd.println("end")\n').encode() for s, _ in part]
		bad = []
		for (s, lines), src, (st, out, err), (st2, out2, err2) in zip(part, srcs, multirun.run(ctx, exe, [ctx.hush, '--ast', '--program'], srcs, cwd=cwd), multirun.run(ctx, exe, [ctx.hush], srcs, cwd=cwd)):
			parts = sections(out)
			text = lambda var: '\n'.join('\t' * (2 if 0 < i < len(lines) - 1 else 1 if i else 0) + l.replace('%s', var) for i, l in enumerate(lines))
			if len(parts) != 5 or (st, parts[4].encode(), err) != (st2, out2, err2):
				why = 'the dumps change the outcome'
			elif parts[1] != 'AST for <stdin>\nlet u = nil\nlet v = "V"\nlet f = function()\n\tlet w = 1\n\tlet b = %s\n\tb\nend\nstd.println("end")\n' % text('v'):
				why = 'wrong tree, expected %s' % text('v')
			else:
				got = parts[3].split(' = ', 5)[-1] if '${v}' in s or '$v' in s else None
				m = re.search(r'let (#\d+): capture #(\d+)', parts[3])
				if ('%s' in ''.join(lines)) != bool(m) or m and m.group(2) != '2':
					why = 'wrong captures'
				elif ' = ' + re.sub(r'(?m)^(\t+)"(%s)"' % '|'.join(BUILTINS), r'\1\2', text(m.group(1) if m else '')) + '\n' not in parts[3]:
					why = 'program dump: expected %s' % text(m.group(1) if m else '')
				else:
					continue
			bad.append((s, '%s\n%s\n%r' % (why, out.decode('latin-1'), err), {'input': src}))
		return len(part), bad[:3]
	c = 0
	for m, bad in ctx.pmap(cmds, chunks(commands(ctx.quick), 100)):
		c += m
		for v in bad:
			ctx.violation(*v)
	ctx.add('command_blocks', c)

	# Rejected programs stay rejected, with the same messages; --check with dumps runs nothing; every combination of the options.
	srcs = [b'std.println("run")\n', b'let x = 1\nlet x = 2\n', b'let = 3\n', b'std.println("run")\nend\n', b'std.println("a")\nstd.panic(1)\n', b'std.println("a")\nstd.exit(5)\n', b'', b'# c', b'{ echo run }\n', b'{ echo $u }\n', b'"\xff"\n', b'std.println(std.args())\n', b'{ | }\n', b'x +', b'@[a: 1, a: 2]', b'std.println("run") $\n']
	opts = ['--lex', '--ast', '--program', '--check']
	o = 0
	for k in range(1, 16):
		flags = [f for i, f in enumerate(opts) if k >> i & 1]
		ref = multirun.run(ctx, exe, [ctx.hush] + (['--check'] if '--check' in flags else []), srcs, cwd=cwd)
		for order in (flags, flags[::-1]):
			for s, (st, out, err), (st2, out2, err2) in zip(srcs, multirun.run(ctx, exe, [ctx.hush] + order, srcs, cwd=cwd), ref):
				o += 1
				parts = re.split(rb'(?m)^%s\n' % RULE.encode(), out)
				# The token and tree dumps come for every program, the program dump only if there is one.
				sem = st2 == 2 and err2 and (b'duplicate' in err2 or b'undeclared' in err2)
				want = 2 * (('--lex' in flags) + ('--ast' in flags)) + 1
				ok = len(parts) in (want, want + 2 * ('--program' in flags)) and (st == 2 or len(parts) == want + 2 * ('--program' in flags)) and not (sem and len(parts) != want)
				if (st, parts[-1], err) != (st2, out2, err2) or not ok:
					ctx.violation('%s on %r' % (' '.join(order), s), 'expected status %s, output %r, stderr %r after the dumps\nobserved %s\n%r\n%r' % (st2, out2, err2, st, out, err))
	return {'exhaustive': True, 'states': n + c + o, 'transitions': 3 * n + 2 * c + 2 * o, 'traces_validated_against_impl': n + c + o, 'shapes': len(SHAPES), 'option_cases': o,
		'rule': 'all expressions of nesting depth 2 (thorough 3) over %d shapes, all statements over all of depth 1, all pairs of nested statements; all command blocks of one word of 2 parts, 2 redirections, 2 commands or stages; all combinations of the options x 16 programs' % len(SHAPES),
		'assumptions': ['layout of the dumps (whitespace and the separators of inlined blocks) is not judged, except in command blocks', 'string literals are ASCII']}
