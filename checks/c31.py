"""C31: regular expressions match what the pattern denotes.

All patterns up to a bounded size over literals (one of them multi-byte), dot, classes, anchors, word boundaries, groups, greedy and
lazy repetition, concatenation and alternation, on all subjects up to a bounded length that contain newlines, multi-byte and
invalid UTF-8; all replacement templates up to a bounded length. Oracle: the patterns are compiled to a small automaton that is
explored in order of preference (leftmost first). Validity of a pattern: all texts up to a bounded length over the
metacharacters, against a recogniser of the grammar."""
import itertools
import re

from vlib import batch, core
from vlib.lang import lit_str

TECHNIQUE = 'exhaustive enumeration of patterns, subjects and templates up to a bound, replayed on the real interpreter and decided by an explicit-state automaton model'


# --- the model -------------------------------------------------------------------------------------------------------------------
def scalar(s, i):
	"""(code point, length) at byte i, or None."""
	for n in (1, 2, 3, 4):
		try:
			t = s[i:i + n].decode('utf-8')
		except UnicodeDecodeError:
			continue
		if len(t) == 1 and len(s[i:i + n]) == n:
			return ord(t), n
	return None


def before(s, i):
	for n in (1, 2, 3, 4):
		if i - n >= 0:
			c = scalar(s, i - n)
			if c and c[1] == n:
				return c[0]
	return None


def is_word(c):
	return c is not None and (chr(c).isalnum() or c == 95)


# Pattern trees: ('c', text, predicate), ('a', text, assertion), ('cat', x, y), ('alt', x, y), ('rep', x, text, lo, hi, greedy),
# ('grp', x, name or None)
def text(p, prec=0):
	k = p[0]
	if k in 'ca':
		return p[1]
	if k == 'cat':
		t = text(p[1], 1) + text(p[2], 1)
		return t if prec < 2 else '(?:%s)' % t
	if k == 'alt':
		t = text(p[1], 0) + '|' + text(p[2], 0)
		return t if prec < 1 else '(?:%s)' % t
	if k == 'rep':
		t = text(p[1], 2) + p[2]
		return t if prec < 2 else '(?:%s)' % t
	return '(%s%s)' % ('?P<%s>' % p[2] if p[2] else '', text(p[1], 0))


def nullable(p):
	k = p[0]
	if k in 'ca':
		return k == 'a'
	if k == 'cat':
		return nullable(p[1]) and nullable(p[2])
	if k == 'alt':
		return nullable(p[1]) or nullable(p[2])
	if k == 'rep':
		return p[3] == 0 or nullable(p[1])
	return nullable(p[1])


class Prog:
	def __init__(self, p):
		self.ops = []
		self.groups = 0
		self.names = {}
		self.emit(p)
		self.ops.append(('match',))

	def emit(self, p):
		ops, k = self.ops, p[0]
		if k in 'ca':
			ops.append((k, p[2]))
		elif k == 'cat':
			self.emit(p[1])
			self.emit(p[2])
		elif k == 'alt':
			at = len(ops)
			ops.append(None)
			self.emit(p[1])
			jmp = len(ops)
			ops.append(None)
			ops[at] = ('split', at + 1, len(ops))
			self.emit(p[2])
			ops[jmp] = ('jmp', len(ops))
		elif k == 'grp':
			if not hasattr(self, 'fixed') or id(p) not in self.fixed:
				self.groups += 1
				n = self.groups
				if not hasattr(self, 'fixed'):
					self.fixed = {}
				self.fixed[id(p)] = n
				if p[2]:
					self.names[p[2]] = n
			n = self.fixed[id(p)]
			ops.append(('save', 2 * n))
			self.emit(p[1])
			ops.append(('save', 2 * n + 1))
		else:
			_, x, _, lo, hi, greedy = p
			for _ in range(lo):
				self.emit(x)
			order = (lambda a, b: (a, b)) if greedy else (lambda a, b: (b, a))
			if hi is None:
				at = len(ops)
				ops.append(None)
				self.emit(x)
				ops.append(('jmp', at))
				ops[at] = ('split',) + order(at + 1, len(ops))
			else:
				ats = []
				for _ in range(hi - lo):
					ats.append(len(ops))
					ops.append(None)
					self.emit(x)
				for at in ats:
					ops[at] = ('split',) + order(at + 1, len(ops))

	def at(self, s, i):
		"""The preferred match that starts exactly at i, as a list of slots, or None."""
		seen = set()
		stack = [(0, i, (('s', 0, i),))]
		while stack:
			pc, i, slots = stack.pop()
			while True:
				if (pc, i) in seen:
					break
				seen.add((pc, i))
				op = self.ops[pc]
				if op[0] == 'match':
					d = {}
					for _, n, v in slots:
						d[n] = v
					d[1] = i
					return d
				if op[0] == 'c':
					c = scalar(s, i) if i < len(s) else None
					if c is None or not op[1](c[0]):
						break
					i += c[1]
					pc += 1
				elif op[0] == 'a':
					if not op[1](s, i):
						break
					pc += 1
				elif op[0] == 'save':
					slots = slots + (('s', op[1], i),)
					pc += 1
				elif op[0] == 'jmp':
					pc = op[1]
				else:
					stack.append((op[2], i, slots))
					pc = op[1]
		return None

	def all(self, s):
		"""Successive leftmost matches; an empty match at the end of the one before does not count."""
		i, last, out = 0, None, []
		while i <= len(s):
			m = None
			for j in range(i, len(s) + 1):
				m = self.at(s, j)
				if m:
					break
			if not m:
				break
			a, b = m[0], m[1]
			if a == b:
				i = b + 1
				if last == b:
					continue
			else:
				i = b
			last = b
			out.append(m)
		return out


def split(ms, s):
	out, at = [], 0
	for m in ms:
		out.append(s[at:m[0]])
		at = m[1]
	return out + [s[at:]]


NAME = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')


def expand(tpl, prog, m, s):
	out, i = b'', 0

	def group(n):
		return s[m[2 * n]:m[2 * n + 1]] if 2 * n in m and 2 * n + 1 in m else b''
	while i < len(tpl):
		if tpl[i] != 36:
			out += tpl[i:i + 1]
			i += 1
			continue
		if tpl[i + 1:i + 2] == b'$':
			out += b'$'
			i += 2
			continue
		j = i + 1
		braced = tpl[j:j + 1] == b'{'
		if braced:
			j += 1
		k = j
		while k < len(tpl) and tpl[k] in NAME:
			k += 1
		if k == j or (braced and tpl[k:k + 1] != b'}'):
			out += b'$'
			i += 1
			continue
		name = tpl[j:k].decode()
		i = k + 1 if braced else k
		if name.isdigit():
			out += group(int(name))
		elif name in prog.names:
			out += group(prog.names[name])
	return out


def replace(prog, ms, s, tpl):
	out, at = b'', 0
	for m in ms:
		out += s[at:m[0]] + expand(tpl, prog, m, s)
		at = m[1]
	return out + s[at:]


# --- the space -------------------------------------------------------------------------------------------------------------------
def lit(c):
	return ('c', c, lambda x, c=ord(c): x == c)


A, B, E = lit('a'), lit('b'), lit('é')
DOT = ('c', '.', lambda x: x != 10)
NOTA = ('c', '[^a]', lambda x: x != 97)
AB = ('c', '[ab]', lambda x: x in (97, 98))
WORD = ('c', '\\w', is_word)
SPACE = ('c', '\\s', lambda x: chr(x).isspace() and x not in (0x1c, 0x1d, 0x1e, 0x1f))
START = ('a', '^', lambda s, i: i == 0)
END = ('a', '$', lambda s, i: i == len(s))
WB = ('a', '\\b', lambda s, i: is_word(before(s, i)) != is_word((scalar(s, i) or (None,))[0] if i < len(s) else None))
MSTART = ('a', '(?m:^)', lambda s, i: i == 0 or s[i - 1] == 10)
SDOT = ('c', '(?s:.)', lambda x: True)
NOTW = ('c', '\\W', lambda x: not is_word(x))
DIGIT = ('c', '\\d', lambda x: chr(x).isdecimal())
STAR_LIT = ('c', '\\*', lambda x: x == 42)
ATOMS = [A, B, DOT, NOTA, E, START, END, WB, AB, WORD, SPACE]
EXTRA = [MSTART, SDOT, NOTW, DIGIT, STAR_LIT]
REPS = [('*', 0, None, True), ('+', 1, None, True), ('?', 0, 1, True), ('*?', 0, None, False), ('{2}', 2, 2, True), ('{1,2}?', 1, 2, False), ('+?', 1, None, False), ('??', 0, 1, False), ('{2,}', 2, None, True)]


def patterns(quick):
	def rep(x, reps):
		if x[0] == 'a' or nullable(x):
			return
		for r in reps:
			yield ('rep', x, *r)
	one = ATOMS + EXTRA
	one_r = one + [y for x in one for y in rep(x, REPS)]
	yield from one_r
	g = lambda x, name=None: ('grp', x, name)
	unit = [x for x in ATOMS[:8]] + [y for x in (A, DOT, AB) for y in rep(x, REPS[:6])]
	pairs = [(k, x, y) for k in ('cat', 'alt') for x in (one_r if not quick else unit) for y in unit]
	yield from pairs
	# Groups, repeated pairs.
	small = [(k, x, y) for k in ('cat', 'alt') for x in (A, B, DOT, ('rep', A, *REPS[0]), ('rep', A, *REPS[3]), END) for y in (A, B, ('rep', B, *REPS[2]), NOTA)]
	for p in small:
		yield g(p)
		yield from rep(p, REPS)
		for r in REPS:
			if not nullable(p):
				yield ('rep', g(p), *r)
				yield ('cat', ('rep', g(p), *r), B)
				yield ('cat', ('rep', g(p), *r), g(DOT, 'x'))
		yield ('cat', g(p), g(A, 'n'))
		yield ('alt', g(p), g(B))
		yield ('cat', g(g(p)), ('rep', A, *REPS[2]))
	three = [A, B, DOT, END, ('rep', A, *REPS[0]), ('rep', B, *REPS[3]), ('rep', AB, *REPS[1])]
	if not quick:
		three += [START, NOTA, WB, E, ('rep', DOT, *REPS[0])]
	for x in three:
		for y in three:
			for z in three:
				yield ('cat', x, ('cat', y, z))
				yield ('alt', x, ('cat', y, z))
				yield ('cat', x, g(('alt', y, z)))
				yield ('alt', x, ('alt', y, z))
				if not quick:
					yield ('cat', g(('alt', x, y)), z)
					yield ('cat', ('rep', g(x), *REPS[2]), g(('alt', y, z)))


def subjects(quick):
	out = [bytes(t) for k in range(4 if quick else 5) for t in itertools.product(b'ab', repeat=k)]
	toks = [b'a', b'\n', 'é'.encode(), b'\xff', b' ']
	out += [b''.join(t) for k in range(1, 3 if quick else 4) for t in itertools.product(toks, repeat=k)]
	out += [b'a*b', b'a1_b', b'\xc3', b'\xa9a', 'aéb'.encode(), b'abbbab', b'aaaaaa', b'a\xffb', b'a\0b', 'a٣'.encode()]
	return list(dict.fromkeys(out))


TPLS = [b'', b'<$0>', b'$1', b'${n}x', b'$$1', b'$1a', b'${1}a', b'$', b'a$', b'$x-', b'\xff${0}\n', b'${', b'$ 1', b'$2$1$0']

HEAD = '''let regex = function(p)
	let r = std.regex(p)
	if std.type(r) == "error" then std.panic(r.description) end
	r
end
let show = function(r, s, i)
	let m = r.match(s)
	let parts = r.split(s)
	let x = r.replace(s, tpls[i % std.len(tpls)])
	let y = r.replace(s, "<$0>")
	std.print(m, "", std.len(parts), "")
	for p in std.iter(parts) do std.print(std.len(p), "") std.print(p, "") end
	std.println("", std.len(x), x, y, s, r.match(s) == m)
end
'''


def check(ctx):
	q = ctx.quick
	subs = subjects(q)
	head = 'let tpls = [%s]\nlet subjects = [%s]\n' % (', '.join(map(lit_str, TPLS)), ', '.join(map(lit_str, subs))) + HEAD
	pats = {}
	for p in patterns(q):
		pats.setdefault(text(p), p)
	pats = list(pats.values())

	def work(part):
		cases = []
		for n in part:
			p = pats[n]
			prog = Prog(p)
			t = text(p).encode()
			out = b''
			for k, s in enumerate(subs):
				ms = prog.all(s)
				parts = split(ms, s)
				x, y = replace(prog, ms, s, TPLS[(k + n) % len(TPLS)]), replace(prog, ms, s, b'<$0>')
				out += b'%s\t\t%d\t' % (b'true' if ms else b'false', len(parts))
				out += b''.join(b'%d\t%s\t' % (len(z), z) for z in parts)
				out += b'\t%d\t%s\t%s\t%s\ttrue\n' % (len(x), x, y, s)
			src = 'let r = regex(%s)\nlet i = %d\nfor s in std.iter(subjects) do show(r, s, i) i = i + 1 end' % (lit_str(t), n % len(TPLS))
			cases.append((t.decode(), src, out + b'R\tnil\n'))
		return len(part), batch.replay(ctx, cases, head)
	for k, bad in ctx.pmap(work, core.chunks(range(len(pats)), 40)):
		ctx.add('traces_validated_against_impl', k)
		ctx.add('states', k * len(subs))
		ctx.add('transitions', 5 * k * len(subs))
		for b in bad:
			ctx.violation(*b)
	n = batch.sweep(ctx, itertools.chain(template_cases(q), valid_cases(q), misc_cases(q)), 150)
	ctx.add('states', n)
	return {'exhaustive': True, 'rule': '%d patterns x %d subjects x match, split and replace with %d templates; all templates of up to %d of 9 pieces; validity of all texts of up to %d characters over 7 metacharacters' % (len(pats), len(subs), len(TPLS), 3 if q else 4, 4 if q else 5),
		'assumptions': ['loops over patterns that match the empty string are left out: engines differ in what they denote']}


def template_cases(q):
	p = ('cat', ('grp', ('rep', A, *REPS[0]), None), ('alt', ('grp', B, 'n'), ('grp', E, None)))
	prog = Prog(p)
	pieces = [b'$', b'$$', b'{', b'}', b'0', b'1', b'n', b'\xff', b'-']
	subs = [b'aab', 'é b'.encode(), b'x', b'']
	for tpl in dict.fromkeys(b''.join(t) for k in range(4 if q else 5) for t in itertools.product(pieces, repeat=k)):
		# The engine has changed what counts as a name in braces over its versions: only plain names are modelled.
		if re.search(rb'\$\{(?![0-9n]+\})', tpl.replace(b'$$', b'--')):
			continue
		out = b''
		src = 'let r = std.regex(%s)\nlet t = %s\nlet x = nil\n' % (lit_str(text(p).encode()), lit_str(tpl))
		for s in subs:
			src += 'x = r.replace(%s, t)\nstd.println(std.len(x), x)\n' % lit_str(s)
			x = replace(prog, prog.all(s), s, tpl)
			out += b'%d\t%s\n' % (len(x), x)
		yield ('template %r' % tpl, src + 'std.println(std.len(t), t)', out + b'%d\t%s\nR\tnil\n' % (len(tpl), tpl))


def valid(t):
	"""Recogniser for texts over ( ) * | a \\ ?."""
	i, depth, operand = 0, 0, False
	while i < len(t):
		c = t[i]
		if c == '(':
			if t[i + 1:i + 2] == '?':
				return None  # Flags and names: decided elsewhere.
			depth += 1
			operand = False
		elif c == ')':
			if depth == 0:
				return False
			depth -= 1
			operand = True
		elif c in '*?':
			if not operand:
				return False
		elif c == '|':
			operand = False
		elif c == '\\':
			i += 1
			if i == len(t):
				return False
			operand = True
		else:
			operand = True
		i += 1
	return depth == 0


GOOD = ['', 'a', '[]a]', '[^]a]', '(?i-u:a)', '(?x: a b )', 'a{2}', 'a{0,2}', '\\x61', '\\u{e9}', '(?P<n>a)', '[a-b]', '[[:alpha:]]', '\\.', '\\s', '(?-u:\\xff)', '\\A\\z']
BAD = ['[', '[a', '[b-a]', 'a{', 'a{2', 'a{3,2}', '{2}', '(?P<n', '(?P<n>a)(?P<n>b)', '(?P<1>a)', '\\', '\\q', '\\1', '(?=a)', '(?!a)', '(?<=a)', '*', '+', '?', '(', ')', 'a)', '(a', '(?z:a)', '\\x{110000}', '\\pZZ', 'a{99999999}', '(?']


def valid_cases(q):
	for k in range(5 if q else 6):
		for t in itertools.product('()*|a\\?', repeat=k):
			t = ''.join(t)
			v = valid(t)
			if v is not None:
				yield valid_case(t.encode(), v)
	for t in GOOD:
		yield valid_case(t.encode(), True)
	for t in BAD + ['a' + b for b in ('[', '(', '\\', ')')]:
		yield valid_case(t.encode(), False)
	for t in [b'\xff', b'a\xff', b'[\xff]', b'\xc3', b'(\xa9)', b'a\xc3(']:
		yield valid_case(t, False)


def valid_case(t, v):
	src = 'let p = %s\nlet r = std.regex(p)\nstd.println(std.type(r), p)\n' % lit_str(t)
	out = (b'dict' if v else b'error') + b'\t' + t + b'\n'
	if v:
		src += 'std.println(std.len(r), std.type(r.match), std.type(r.split), std.type(r.replace), std.type(r.match("")))'
		out += b'3\tfunction\tfunction\tfunction\tbool\n'
	else:
		src += 'std.println(r.description, std.type(r.context), std.len(r.context) > 0)'
		out += b'invalid regex\tstring\ttrue\n'
	return (repr(t), src, out + b'R\tnil\n')


def misc_cases(q):
	# Types and numbers of arguments.
	vals = ['nil', '1', '1.5', "'a'", '"a"', '["a"]', '@[a: 1]', 'std.error("e", nil)', 'function() nil end', 'true']
	ts = 'nil int float char string array dict error function bool'.split()
	for f, n in (('std.regex', 1), ('std.regex("a").match', 1), ('std.regex("a").split', 1), ('std.regex("a").replace', 2)):
		for k in range(4):
			if k == n:
				continue
			src = 'let f = %s\nlet r = std.catch(function() f(%s) end)\nstd.println(std.type(r), std.type(r.context))' % (f, ', '.join(['"a"'] * k))
			yield ('%s with %d arguments' % (f, k), src, b'error\tstring\nR\tnil\n')
		for vs in itertools.product(range(len(vals)), repeat=n):
			bad = [i for i in vs if i != 4]
			src = 'let f = %s\nlet r = std.catch(function() f(%s) end)\nstd.println(std.type(r), std.type(r) == "error" and r.context == "panic")' % (f, ', '.join(vals[i] for i in vs))
			good = {'std.regex': b'dict', 'h': b'bool'}.get(f if f == 'std.regex' else f[-1]) or (b'array' if f.endswith('split') else b'string')
			yield ('%s of %s' % (f, [vals[i] for i in vs]), src, (b'error\ttrue' if bad else good + b'\tfalse') + b'\nR\tnil\n')
	# Subjects with many matches: every number of matches in a range, and large ones.
	for k in list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 100000]:
		src = 'let s = ""\nfor i in std.range(0, %d, 1) do s = s ++ "-x" end\n' % k if k < 2000 else 'let s = ""\nlet u = "-x"\nlet k = %d\nwhile k > 0 do\nif k %% 2 == 1 then s = s ++ u end\nu = u ++ u\nk = k / 2\nend\n' % k
		src += ('let r = std.regex("-")\nlet p = r.split(s)\nlet bad = 0\nfor i in std.range(1, std.len(p), 1) do if p[i] != "x" then bad = bad + 1 end end\n'
			'let q = r.replace(s, "+++")\nstd.println(std.len(p), p[0] == "", bad, std.len(q), r.match(q), r.match(s), std.regex("^(?:-x){%d}$").match(s), std.regex("-y").match(s))' % min(k, 1000))
		yield ('%d matches' % k, src, b'%d\ttrue\t0\t%d\tfalse\t%s\t%s\tfalse\nR\tnil\n' % (k + 1, 4 * k, b'true' if k else b'false', b'true' if k <= 1000 else b'false'))
	# Objects are independent of one another and of earlier uses: every order of three uses of two objects.
	uses = [('%s.match("%s")' % (r, s), ('m', r, s)) for r in 'xy' for s in ('ab', 'ba', '')] + [('std.len(%s.split("%s"))' % (r, s), ('s', r, s)) for r in 'xy' for s in ('abab', 'bb')] + [('%s.replace("%s", "%s")' % (r, s, t), ('r', r, s, t)) for r in 'xy' for s in ('aab', 'b') for t in ('', '[$0]')]
	progs = {'x': Prog(('cat', START, ('rep', A, *REPS[1]))), 'y': Prog(('grp', ('cat', B, ('rep', A, *REPS[2])), None))}

	def value(u):
		prog, s = progs[u[1]], u[2].encode()
		ms = prog.all(s)
		if u[0] == 'm':
			return b'true' if ms else b'false'
		if u[0] == 's':
			return b'%d' % len(split(ms, s))
		return replace(prog, ms, s, u[3].encode())
	for us in itertools.product(uses, repeat=2 if q else 3):
		src = 'let x = std.regex("^a+")\nlet y = std.regex("(ba?)")\n' + ''.join('std.println(%s)\n' % u[0] for u in us)
		src += 'let m = x.match\nlet s = y.split\nstd.println(m("a"), m("b"), std.len(s("aba")))'
		yield (' '.join(u[0] for u in us), src, b''.join(value(u[1]) + b'\n' for u in us) + b'true\tfalse\t2\nR\tnil\n')
