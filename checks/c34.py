"""C34: library functions answer as documented, and a rejected call says what is wrong with it.

(a) Every function of the library is called with every tuple of up to four arguments from a domain with all types: the panic of
a rejected call must name the numbers of arguments, or one of the wrong arguments and the accepted types. (b) The small
functions (type, len, contains, typecheck, ...) are called on all pairs from a larger domain, including all value trees to a
depth, and compared with the reference model. (c) All histories of seeding and drawing random numbers are replayed, and must
be a function of the seed and the draws since; ranges are exact. (d) Sleeping takes at least the time asked for."""
import itertools
import re

from vlib import batch, explore, lang
from vlib.core import chunks
from vlib.lang import *

TECHNIQUE = 'exhaustive enumeration of argument tuples, value trees and operation histories up to a bound, executed on the real interpreter against a reference model'

# (type, source, text)
DOM = [
	('nil', 'nil', 'nil'), ('bool', 'true', 'true'), ('int', '-7', '-7'), ('int', '3', '3'), ('float', '1.5', '1.5'), ('char', "'c'", 'c'), ('string', '"s t"', '"s t"'), ('string', '""', '""'),
	('array', '[ 1, "x" ]', '[ 1, "x" ]'), ('array', '[]', '[ ]'), ('dict', '@[ k: nil ]', '@[ "k": nil ]'), ('function', 'function() 1 end', 'function'), ('error', 'std.error("e", 2)', 'error: "e" (2)'),
]
SMALL = [0, 3, 5, 6, 8, 12]
# The accepted types of every parameter; 'int?' etc. marks functions whose valid calls are left out here (other checks own them).
SIG = {
	'args': [], 'assert': ['bool'], 'bind': ['*', 'function'], 'bytes': ['string'], 'catch': ['function'], 'contains': ['string|array|dict', '*'], 'cwd': [], 'env': ['string'], 'error': ['string', '*'],
	'float': ['int|float|string'], 'int': ['int|float|string'], 'glob': ['string'], 'has_error': ['*'], 'import': ['string'], 'is_empty': ['string|array|dict'], 'len': ['string|array|dict'], 'iter': ['string|array|dict'],
	'panic': ['*'], 'pop': ['array'], 'push': ['array', '*'], 'rand': [], 'randint': ['int', 'int'], 'randseed': ['int'], 'range': ['int|float'] * 3, 'replace': ['string'] * 3, 'regex': ['string'], 'sleep': ['int'], 'sort': ['array'],
	'split': ['string', 'string'], 'substr': ['string', 'int', 'int'], 'to_string': ['*'], 'trim': ['string'], 'type': ['*'], 'typecheck': ['*', 'string'], 'try_typecheck': ['*', 'string'],
	'json.encode': ['*'], 'json.decode': ['string'], 'base64.encode': ['string'], 'base64.decode': ['string'], 'hex.encode': ['string'], 'hex.decode': ['string'], 'cd': ['string'], 'export': ['string', 'string'], 'exit': ['int'],
}
DERIVED = {
	'std.regex("a").match': ['string'], 'std.regex("a").split': ['string'], 'std.regex("a").replace': ['string', 'string'], 'std.iter([ 1 ])': [], 'std.iter("a")': [], 'std.iter(@[ a: 1 ])': [], 'std.range(0, 9, 1)': [],
	'function() 2 end': [], 'function(a) a end': ['*'], 'function(a, b) a end': ['*', '*'], 'function(a, b, c) a end': ['*', '*', '*'], 'std.bind(1, function(a) a end)': ['*'], 'std.bind(nil, std.split)': ['string', 'string'],
}


def wrong(params, args):
	"""The acceptable complaints about the call; None if the types are fine."""
	if len(args) != len(params):
		return ['n %d %d' % (len(args), len(params))]
	bad = []
	for p, a in zip(params, args):
		if p != '*' and DOM[a][0] not in p.split('|'):
			bad.append('t %s %s' % (DOM[a][2], '|'.join(sorted(p.split('|')))))
	return bad or None


ARITY = re.compile(r'incorrect amount of function parameters -- supplied (\d+), expected (\d+)$')
TYPE = re.compile(r'value \((.*)\) has unexpected type, expected ([a-z ,]+)$')


def complaint(text):
	m = ARITY.match(text)
	if m:
		return 'n %s %s' % m.groups()
	m = TYPE.match(text)
	if m:
		return 't %s %s' % (m.group(1), '|'.join(sorted(w for w in re.findall('[a-z]+', m.group(2)) if w != 'or')))
	return text


def check_calls(ctx, q):
	every = range(len(DOM))
	tups = [t for k in range(4) for t in itertools.product(every, repeat=k)] + list(itertools.product(SMALL if not q else SMALL[::2], repeat=4))
	jobs = [('std.' + n, p, t) for n, p in SIG.items() for t in tups if wrong(p, t)] + [(n, p, t) for n, p in DERIVED.items() for t in tups if wrong(p, t)]

	# Far too many arguments.
	many = [(3,) * k for k in list(range(5, 21)) + [31, 32, 33, 63, 64, 65, 127, 128, 129] + list(range(254, 262)) + [512, 513, 1025]]
	jobs += [(n, p, t) for n, p in [('std.' + n, p) for n, p in SIG.items()] + list(DERIVED.items()) for t in many]
	jobs += [('std.' + n, SIG[n], (3,) * (65536 + len(SIG[n]))) for n in ('cwd', 'len', 'push', 'substr')] + [(n, p, (3,) * (65536 + len(p))) for n, p in DERIVED.items() if n.startswith('function')]

	def work(part):
		src = ['let mk = [\n%s\n]\n' % ',\n'.join('\tfunction() %s end' % s for _, s, _ in DOM)]
		for name, _, t in part:
			args = ', '.join('mk[%d]()' % a for a in t)
			if name.startswith('std.') and '(' not in name:
				call = '%s(%s)' % (name, args)
			else:
				call = '(function() let f = %s f(%s) end)()' % (name, args)
			src.append('std.println(std.catch(function() %s end))\n' % call)
		r = ctx.run(''.join(src).encode(), timeout=120)
		lines = batch.norm(r.out).decode('utf-8', 'replace').split('\n')
		bad = []
		for k, (name, params, t) in enumerate(part):
			got = lines[k] if k < len(lines) else '(nothing)'
			m = re.match(r'error: "(.*)" \("panic"\)$', got)
			text = complaint(re.sub(r'\\(.)', r'\1', m.group(1))) if m else got
			ok = text in wrong(params, t)
			if not ok:
				call = '%s(%s)' % (name, ', '.join(DOM[a][1] for a in t))
				bad.append(('rejected call ' + call, 'expected one of: %r\nobserved: %s\n%s' % (wrong(params, t), got, r.brief() if k >= len(lines) - 1 else ''), {'t.hsh': 'let f = %s\nf(%s)\n' % (name, ', '.join(DOM[a][1] for a in t))}))
				if len(bad) > 2 or k >= len(lines) - 1:
					break
		return len(part), bad

	n = 0
	for k, bad in ctx.pmap(work, chunks(jobs, 400)):
		n += k
		ctx.add('traces_validated_against_impl', k)
		for b in bad:
			ctx.violation(*b)
	ctx.add('states', n)
	return n


# ---------------------------------------------------------------------- the small functions
TYPES = ['nil', 'bool', 'int', 'float', 'char', 'string', 'array', 'dict', 'function', 'error']


def parse_type(t):
	return t.decode('latin-1') if t.decode('latin-1') in TYPES else None


def checked(it, v, t):
	if type(t) is not bytes:
		raise type_error(t, 'string')
	if parse_type(t) is None:
		raise Panic('invalid value (%s), expected valid type' % show(t))
	return typ(v) == parse_type(t)


@args_n(2)
def n_typecheck(it, v, t):
	if checked(it, v, t):
		return v
	raise type_error(v, parse_type(t))


@args_n(2)
def n_try_typecheck(it, v, t):
	if checked(it, v, t):
		return None
	return Err(('type error: expected %s, got %s (%s)' % (parse_type(t), typ(v), show(v))).encode(), v)


@args_n(1)
def n_to_string(it, v):
	return text(v)


class Interp(lang.Interp):
	def __init__(self, fuel):
		super().__init__(fuel, std=dict(lang.STD, typecheck=n_typecheck, try_typecheck=n_try_typecheck, to_string=n_to_string))


def ERR(d, c):
	return STDC('error', S(d), c)


def leaves():
	return [NIL, TRUE, I(0), ('float', 0.0), ('byte', 97), S(''), S('a'), ('arr', []), ('dict', []), F([], E(I(1))), ERR('e', NIL), ERR('', ('arr', [ERR('in', I(1))]))]


def trees(q):
	"""Values: leaves, and containers of leaves, and containers of those."""
	l = leaves()
	yield from l
	one = [('arr', [x]) for x in l] + [('dict', [('k', x)]) for x in l] + [ERR('x', x) for x in l] + [STDC('bind', x, F([], E(SELF_))) for x in l[:3]]
	one += [('arr', [x, y]) for x in l for y in l]
	yield from one
	for x in one[:len(l) * 3]:
		yield ('arr', [I(1), x])
		yield ('dict', [('k', x)])
		yield ERR('y', x)
		if not q:
			for y in one[:len(l) * 3]:
				yield ('arr', [y, x])


SELF_ = ('self',)
PRED = ['type', 'len', 'is_empty', 'has_error', 'to_string', 'assert']


def small_programs(q):
	vals = list(trees(q))
	for v in vals:
		yield [L('v', v)] + [P(S(f), STDC('catch', F([], E(STDC(f, V('v')))))) for f in PRED]
	names = TYPES + ['byte', 'Int', 'int ', ' int', '', 'str', 'number', 'any', 'None', 'integer', 'nil\0', 'boolean', 'func', 'list', 'object']
	for v in vals[:60]:
		for f in ('typecheck', 'try_typecheck'):
			# The answer is the value itself, not a copy; the error's context is the value itself.
			yield [L('v', v)] + [st for t in names for st in (L('r', STDC('catch', F([], E(STDC(f, V('v'), S(t)))))), P(S(t), V('r'), B('==', V('r'), V('v'))))] if False else \
				[L('v', v), ('for', 't', STDC('iter', ('arr', [S(t) for t in names])), [L('r', STDC('catch', F([], E(STDC(f, V('v'), V('t')))))), P(V('t'), V('r'), B('==', V('r'), V('v')))])]
	for push in (lambda o: E(STDC('push', o, I(9))),):
		yield [L('v', ('arr', [I(1)])), L('r', STDC('typecheck', V('v'), S('array'))), push(V('r')), P(V('v'))]
		yield [L('v', ('arr', [I(1)])), L('r', STDC('try_typecheck', V('v'), S('int'))), push(D(V('r'), 'context')), P(V('v'), V('r'))]
		yield [L('v', ('arr', [I(1)])), L('r', ERR('d', V('v'))), push(D(V('r'), 'context')), P(V('v'), V('r'))]
		yield [L('v', ('arr', [I(1)])), L('r', STDC('bind', V('v'), F([], push(SELF_), E(SELF_)))), L('w', C(V('r'))), push(V('w')), P(V('v'), V('w'))]
	# Membership: every container of up to three leaves, every item.
	l = leaves()
	items = l + [('arr', [NIL]), ('dict', [('a', NIL)]), ('byte', 0), S('ab'), I(1), ('float', 1.0), FALSE, S('k')]
	conts = [('arr', list(c)) for k in range(0, 3 if q else 4) for c in itertools.product(l[:9], repeat=k)]
	conts += [S(bytes(c)) for k in range(0, 4) for c in itertools.product([0, 97, 98, 255], repeat=k)]
	conts += [('dict', [(k, NIL) for k in c]) for n in range(0, 3) for c in itertools.combinations(['a', 'k', 'z'], n)]
	for c in conts:
		yield [L('c', c), L('out', ('arr', []))] + [E(STDC('push', V('out'), STDC('catch', F([], E(STDC('contains', V('c'), x)))))) for x in items] + [P(V('out'), STDC('len', V('c')), STDC('is_empty', V('c')))]
	# Dicts with keys of every type.
	for k in l[:9] + [ERR('e', NIL), ('arr', [NIL])]:
		yield [L('d', ('dict', [])), A(('idx', V('d'), k), I(1)), P(STDC('len', V('d')), STDC('is_empty', V('d')), STDC('has_error', V('d')))] + [P(STDC('contains', V('d'), x)) for x in items]
	# Size of every small string and array; every byte.
	for n in range(0, 40):
		yield [P(STDC('len', S('x' * n)), STDC('is_empty', S('x' * n)), STDC('len', ('arr', [NIL] * n)), STDC('is_empty', ('arr', [NIL] * n)))]
	for b in range(256):
		yield [P(STDC('len', S(bytes([b]))), STDC('contains', S(bytes([b, 65])), ('byte', b)), STDC('contains', S('A'), ('byte', b)))]


# ---------------------------------------------------------------------- random numbers
DRAWS = ['std.rand()', 'std.randint(0, 9)', 'std.randint(%d, %d)' % (-2 ** 63 + 1, 2 ** 63 - 1), 'std.randint(5, 5)']
SEEDS = [0, 1, -1, 2 ** 63 - 1]


def check_rand(ctx, q):
	"""Histories of seeding and drawing: what a draw returns is a function of the last seed and the draws since."""
	alpha = list(range(len(DRAWS))) + ['s%d' % s for s in SEEDS]
	depth = 4 if q else 5
	hist = [h for k in range(1, depth + 1) for h in itertools.product(alpha, repeat=k)]
	memo = {}
	bad = []

	def stmt(a, form):
		if isinstance(a, str):
			return 'std.randseed(%s)\n' % a[1:]
		e = DRAWS[a]
		return 'std.print(%s, "")\n' % (e if form == 0 else '(function() %s end)()' % e if form == 1 else 'std.catch(function() %s end)' % e)

	def work(part):
		src, n = [], 0
		for i, h in part:
			src.append('std.randseed(42)\n' + ''.join(stmt(a, (i + j) % 3) for j, a in enumerate(h)) + 'std.println()\n')
		r = ctx.run(''.join(src).encode(), timeout=120)
		return part, r.out.decode().split('\n'), r.brief()

	for part, lines, brief in ctx.pmap(work, chunks(list(enumerate(hist)), 500)):
		for k, (_, h) in enumerate(part):
			ctx.add('traces_validated_against_impl')
			got = lines[k].split('\t')[:-1] if k < len(lines) else []
			key, j = ('s42',), 0
			for a in h:
				if isinstance(a, str):
					key = (a,)
					continue
				key += (a,)
				v = got[j] if j < len(got) else None
				j += 1
				why = None
				try:
					if a == 0 and not 0.0 <= float(v) < 1.0:
						why = 'std.rand() is not in [0, 1)'
					elif a == 1 and not 0 <= int(v) <= 9:
						why = 'out of range'
					elif a == 2 and not -2 ** 63 < int(v) < 2 ** 63:
						why = 'out of range'
					elif a == 3 and v != '5':
						why = 'out of range'
					elif memo.setdefault(key, v) != v:
						why = 'the same history gave %s before' % memo[key]
				except (TypeError, ValueError):
					why = 'not a number\n' + brief
				if why and len(bad) < 4:
					bad.append(('random history %s' % (key,), '%s: observed %s' % (why, v), {'t.hsh': 'std.randseed(42)\n' + ''.join(stmt(a, 0) for a in h)}))
	# Different seeds give different streams.
	first = {}
	for key, v in memo.items():
		if key[1:] == (2, 2):
			if v in first and first[v] != key:
				bad.append(('random streams of %s and %s' % (first[v], key), 'both give %s' % v, {}))
			first[v] = key
	for b in bad:
		ctx.violation(*b)
	ctx.add('states', len(memo))
	return len(hist)


def check_ranges(ctx, q):
	"""Bounds are inclusive and exact: small ranges are covered fully, large ones never exceeded; streams of all seeds differ."""
	top = 2 ** 63 - 1
	low = -top - 1
	starts = [low, low + 1, -10, -2, -1, 0, 1, 2, 10, 2 ** 31, 2 ** 32 - 1, 2 ** 53, top - 8]
	widths = list(range(0, 9))
	pairs = [(a, a + w) for a in starts for w in widths if a + w <= top] + [(low, top), (low, 0), (0, top), (-1, top), (low, -1), (low + 1, top), (-top, top - 1), (-2 ** 62, 2 ** 62), (0, 2 ** 32), (0, 255), (0, 256)]

	def lit(n):
		return str(n) if n > low else '(-%d - 1)' % top

	def work(ab):
		a, b = ab
		w = b - a + 1
		n = 400 if w <= 9 else 64
		src = 'std.randseed(7)\nfor i in std.range(0, %d, 1) do std.println(std.randint(%s, %s)) end\n' % (n, lit(a), lit(b))
		r = ctx.run(src.encode())
		try:
			got = [int(x) for x in r.out.split()]
		except ValueError:
			got = []
		if r.rc or len(got) != n:
			why = 'no result'
		elif any(not a <= x <= b for x in got):
			why = 'out of range: %r' % [x for x in got if not a <= x <= b][:5]
		elif w <= 9 and len(set(got)) != w:
			why = 'never drawn in %d draws: %r' % (n, sorted(set(range(a, b + 1)) - set(got)))
		elif w > 2 ** 60 and (len(set(got)) != n or not any(x > a + w // 2 for x in got) or not any(x < a + w // 2 for x in got)):
			why = 'not spread over the range: %r' % sorted(got)
		else:
			return None
		return ('std.randint(%d, %d)' % ab, why + '\n' + r.brief(), {'t.hsh': src})
	n = 0
	for b in ctx.pmap(work, pairs):
		n += 1
		if b:
			ctx.violation(*b)
	# Empty ranges are rejected, whatever their bounds.
	empty = [(b + w, b) for b in starts for w in (1, 2, 1000) if b + w <= top] + [(top, low), (0, low), (top, -1)]
	src = ''.join('std.println(std.type(std.catch(function() std.randint(%s, %s) end)))\n' % (lit(a), lit(b)) for a, b in empty)
	r = ctx.run(src.encode())
	if r.rc or r.out != b'error\n' * len(empty):
		ctx.violation('std.randint with an empty range', r.brief(), {'t.hsh': src})
	# Different seeds: all small ones, and those that differ in one bit only.
	seeds = sorted(set(list(range(-64, 65)) + [1 << k for k in range(63)] + [low, top] + [-(1 << k) for k in range(63)]))
	src = ''.join('std.randseed(%s) std.println(std.randint(%d, %d), std.rand())\n' % (lit(s), -top, top) for s in seeds)
	outs = [ctx.run(src.encode()).out for _ in range(2)]
	if outs[0] != outs[1]:
		ctx.violation('seeded streams of two processes', 'differ', {'t.hsh': src})
	lines = outs[0].split(b'\n')[:-1]
	if len(lines) != len(seeds) or len(set(lines)) != len(seeds):
		ctx.violation('streams of %d seeds' % len(seeds), 'only %d are different' % len(set(lines)), {'t.hsh': src})
	# Without a seed, processes differ from each other and draws from each other.
	src = 'for i in std.range(0, 4, 1) do std.println(std.randint(%d, %d)) end\n' % (-top, top)
	vals = [x for _ in range(8) for x in ctx.run(src.encode()).out.split()]
	if len(set(vals)) != 32:
		ctx.violation('unseeded draws', 'repeated values: %r' % vals, {'t.hsh': src})
	# std.rand: all of [0, 1), with the resolution of a float.
	src = 'std.randseed(3)\nfor i in std.range(0, 3000, 1) do std.println(std.rand()) end\n'
	got = [float(x) for x in ctx.run(src.encode()).out.split()]
	cells = {int(x * 100) for x in got}
	if len(got) != 3000 or any(not 0 <= x < 1 for x in got) or len(cells) != 100 or len(set(got)) < 2999 or sum((x * 2 ** 40).is_integer() for x in got) > 1500:
		ctx.violation('std.rand', '%d values, %d of 100 cells, range %r' % (len(got), len(cells), (min(got + [9]), max(got + [-9]))), {'t.hsh': src})
	# The streams are shared by all modules of a script, and commands and panics do not disturb them.
	with open(ctx.path('m.hsh'), 'w') as f:
		f.write('@[ draw: function() std.randint(0, 1000000) end, seed: function(x) std.randseed(x) end ]\n')
	base = None
	for k, form in enumerate(('std.randint(0, 1000000)', 'm.draw()', 'std.catch(std.bind(nil, m.draw))', '(function() { true } std.randint(0, 1000000) end)()', '(function() std.catch(function() std.panic(1) end) std.randint(0, 1000000) end)()',
			'(function() let j = &{ true } j.join() std.randint(0, 1000000) end)()')):
		for seed in ('std.randseed(5)', 'm.seed(5)'):
			src = 'let m = std.import("m.hsh")\n%s\nfor i in std.range(0, 6, 1) do std.println(%s) end\n' % (seed, form)
			with open(ctx.path('r%d.hsh' % k), 'w') as f:
				f.write(src)
			r = ctx.run(script='r%d.hsh' % k, cwd=ctx.dir)
			n += 1
			base = base or r.out
			if r.out != base or r.rc or not r.out:
				ctx.violation('seeded draws through %s after %s' % (form, seed), 'expected: %r\n%s' % (base, r.brief()), {'t.hsh': src, 'm.hsh': open(ctx.path('m.hsh')).read()})
	ctx.add('traces_validated_against_impl', n + len(empty) + len(seeds))
	ctx.add('states', n + len(empty) + len(seeds))
	return n + len(empty) + len(seeds)


def check_sleep(ctx, q):
	"""Elapsed time, measured outside, for sleeps in every context."""
	import time
	# name, program, milliseconds it takes at least, and what it prints
	progs = [('sleep %d' % ms, 'std.println(std.sleep(%d))\n' % ms, ms, b'nil\n') for ms in (0, 1, 2, 50, 300, 1000, 1500)]
	progs += [('negative %d' % ms, 'std.println(std.type(std.catch(function() std.sleep(%s) end)))\n' % lit, 0, b'error\n') for ms, lit in ((-1, '-1'), (-1000, '-1000'), (-2 ** 63, '(-9223372036854775807 - 1)'))]
	progs += [
		('loop', 'for i in std.range(0, 4, 1) do std.sleep(100) end std.println(1)\n', 400, b'1\n'),
		('in a function', 'let f = function(x) std.sleep(x) x end std.println(f(150) + f(150))\n', 300, b'300\n'),
		('caught', 'std.println(std.catch(function() std.sleep(200) end))\n', 200, b'nil\n'),
		('bound', 'let s = std.bind(1, std.sleep) std.println(s(200))\n', 200, b'nil\n'),
	]
	# While the script sleeps its asynchronous blocks run, and a child that ends does not cut the sleep short.
	progs += [('children end', 'let j = [ &{ sh -c "sleep 0.05" }, &{ sh -c "sleep 0.1" } ]\nstd.sleep(400)\nstd.println(j[0].join(), j[1].join())\n', 400, b'nil\tnil\n')]

	def work(p):
		name, src, ms, out = p
		t = time.monotonic()
		r = ctx.run(src.encode())
		dt = (time.monotonic() - t) * 1000
		if r.rc or r.out != out or dt < ms or (ms and dt > ms + 8000):
			return ('sleep: ' + name, 'took %d ms, at least %d expected\n%s' % (dt, ms, r.brief()), {'t.hsh': src})
	n = 0
	for b in ctx.pmap(work, progs):
		n += 1
		if b:
			ctx.violation(*b)
	# Signals that a process ignores or that stop and continue it do not shorten the sleep.
	import os
	import signal
	import subprocess
	for k, sigs in enumerate(itertools.product((signal.SIGCHLD, signal.SIGWINCH, signal.SIGCONT, signal.SIGSTOP), repeat=2)):
		p = subprocess.Popen([ctx.hush, '-'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
		t = time.monotonic()
		p.stdin.write(b'std.sleep(400)\nstd.println("ok")\n')
		p.stdin.close()
		for s in sigs:
			time.sleep(0.08)
			p.send_signal(s)
		time.sleep(0.05)
		p.send_signal(signal.SIGCONT)
		out = p.stdout.read()
		p.wait()
		dt = (time.monotonic() - t) * 1000
		n += 1
		if out != b'ok\n' or dt < 400:
			ctx.violation('sleep under signals %r' % (sigs,), 'took %d ms, output %r, status %r' % (dt, out, p.returncode), {})
		if q and k >= 7:
			break
	ctx.add('traces_validated_against_impl', n)
	ctx.add('states', n)
	return n


def check(ctx):
	q = ctx.quick
	n = check_calls(ctx, q)
	m = explore.programs(ctx, small_programs(q), size=60, interp=Interp)
	k = check_rand(ctx, q)
	r = check_ranges(ctx, q)
	s = check_sleep(ctx, q)
	return {'exhaustive': True, 'rule': '%d rejected calls: every library function x all tuples of 0..3 arguments from %d values (4 over %d); %d programs of the small functions over value trees to depth 3; %d histories of seeding and drawing (%d operations, depth %d); %d random ranges, seeds and forms; %d sleeps' % (
		n, len(DOM), len(SMALL), m, k, len(DRAWS) + len(SEEDS), 4 if q else 5, r, s)}
