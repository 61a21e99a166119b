"""C07: literals denote exactly the written value.

Every byte and every pair of bytes in string literals, every escape, every byte literal, every digit/point/exponent
spelling up to a length, all powers of ten and two with their neighbours, and all small array and dict literals."""
import itertools
import re

from vlib import batch, explore, multirun
from vlib.core import chunks
from vlib.lang import *

ESC = {b'\\"': b'"', b"\\'": b"'", b'\\n': b'\n', b'\\t': b'\t', b'\\0': b'\0', b'\\\\': b'\\'}
NUMBER = re.compile(r'\d+(\.\d+)?([eE]\d+)?\Z')
ODD = re.compile(r'\d+\.[eE]\d+\Z')


def printed(parts):
	"""One case printing several literals: parts are (literal text, printed bytes)."""
	src = b'\n'.join(b'std.print(%s, "|")' % lit for lit, _ in parts) + b'\nstd.println()'
	exp = b''.join(val + b'\t|' for _, val in parts) + b'\nR\tnil\n'
	return src, exp


def case(name, parts):
	src, exp = printed(parts)
	return (name, src.decode('latin-1'), exp)


def string_cases(quick):
	raw = [bytes([c]) for c in range(256) if c not in b'"\\']
	esc = list(ESC)
	val = lambda b: ESC.get(b, b)
	# All single bytes and escapes with their length, and all pairs.
	yield case('single bytes', [(b'"%s"' % b, b) for b in raw + [b'']] + [(b'"%s"' % b, val(b)) for b in esc])
	parts = [(b'std.len("%s")' % b, b'%d' % len(val(b))) for b in raw + esc + [b'']]
	yield case('lengths', parts)
	firsts = raw + esc
	for a in firsts:
		yield case('string literals starting with %r' % a, [(b'"%s%s"' % (a, b), val(a) + val(b)) for b in raw + esc])
		yield case('string literal length 2 starting with %r' % a, [(b'std.len("%s%s")' % (a, b), b'%d' % len(val(a) + val(b))) for b in raw + esc])
	# Longer mixtures.
	mix = esc + [b'a', b"'", b'\n', b'#', b'$x', b'{', b'\xff', b'0', b'n', b' ']
	for k in ((3,) if quick else (3, 4)):
		for part in chunks(itertools.product(mix, repeat=k), 200):
			yield case('string literal %r' % b''.join(part[0]), [(b'"%s"' % b''.join(t), b''.join(val(x) for x in t)) for t in part])
	for n in (7, 8, 9, 15, 16, 17, 255, 256, 257, 4096):
		s = bytes(97 + i % 26 for i in range(n))
		yield case('string literal of %d bytes' % n, [(b'"%s"' % s, s), (b'std.len("%s")' % s, b'%d' % n)])


def byte_cases():
	raw = [bytes([c]) for c in range(256) if c not in b"'\\"]
	yield case('byte literals', [(b"'%s'" % b, b) for b in raw])
	yield case('byte literal escapes', [(b"'%s'" % b, v) for b, v in ESC.items()])
	yield case('byte literal types', [(b"std.type('%s')" % b, b'char') for b in raw] + [(b"std.type('%s')" % b, b'char') for b in ESC])
	yield case('byte literals in a string', [(b"\"x%s\"[1] == '%s'" % (b, b), b'true') for b in raw if b != b'"'])
	yield case('byte literal order', [(b"'%s' < '%s'" % (a, b), b'true' if a < b else b'false') for a in raw[::5] for b in raw[::5]])


def int_cases():
	ns = set(range(0, 1100))
	for k in range(64):
		ns |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
	for k in range(20):
		ns |= {10 ** k - 1, 10 ** k, 10 ** k + 1, 7 * 10 ** k, 123456789 * 10 ** max(0, k - 9)}
	ns = sorted(n for n in ns if n <= I64_MAX)
	yield case('integer literals', [(b'%d' % n, b'%d' % n) for n in ns])
	yield case('integer literals with leading zeros', [(b'0' * z + b'%d' % n, b'%d' % n) for n in ns[::7] for z in (1, 2, 30)])
	yield case('negated integers', [(b'-%d' % n, b'%d' % -n) for n in ns])
	yield case('types of integers', [(b'std.type(%d)' % n, b'int') for n in ns])


def float_cases(quick):
	def lits():
		for m in range(1, 100 if quick else 1000):
			for e in range(-330, 310):
				yield m, e

	def txt(m, e, form):
		s = str(m)
		if e >= 0:
			if form == 0:
				return '%de%d' % (m, e)
			if form == 1:
				return '%d.0E%d' % (m, e)
			return s + '0' * e + '.0'
		if -e >= len(s):
			return '0.' + '0' * (-e - len(s)) + s
		return s[:e] + '.' + s[e:]
	for i, part in enumerate(chunks(lits(), 600)):
		parts = []
		for j, (m, e) in enumerate(part):
			t = txt(m, e, (i + j) % 3)
			if t.endswith('.'):
				t += '0'
			parts.append((t.encode(), show_float(float(t)).encode()))
		yield case('float literals %dE%d...' % part[0], parts)
	# Values that need exact rounding.
	hard = ['9007199254740993.0', '9007199254740992.5', '9007199254740991.5', '0.1', '0.2', '0.3', '123456789012345680.0', '17976931348623157e292', '1.7976931348623157e308', '2.2250738585072014e0',
		'0.' + '0' * 307 + '22250738585072014', '0.' + '0' * 307 + '22250738585072011', '0.' + '0' * 323 + '3', '0.' + '0' * 323 + '2', '0.' + '0' * 323 + '494', '4503599627370496.5', '4503599627370497.5',
		'1.0000000000000002', '1.00000000000000011102230246251565404236316680908203125', '1.00000000000000011102230246251565404236316680908203126', '8.5e0', '1e22', '1e23', '6.02214076e23', '00.5', '007.250', '1e05', '1e+'[:2] + '0']
	for k in range(0, 60):
		hard += ['%d.%d' % (2 ** k, k), '%d.0' % (2 ** k + 1), '%d.5' % (2 ** k), '0.%s' % ('0' * k + '15')]
	yield case('float literals, rounding', [(t.encode(), show_float(float(t)).encode()) for t in hard])
	yield case('float literal types', [(b'std.type(%s)' % t.encode(), b'float') for t in hard + ['1e3', '1E3', '0e0', '1.0']])


def trees(depth):
	leaves = [I(1), S('a'), NIL]
	if depth == 0:
		return leaves
	sub = trees(depth - 1)
	out = list(leaves)
	small = sub if len(sub) < 12 else sub[::max(1, len(sub) // 12)]
	for n in range(0, 4):
		for t in itertools.product(sub if n <= 1 else small[:9 if n == 2 else 5], repeat=n):
			out.append(('arr', list(t)))
	for n in range(0, 3):
		for t in itertools.product(sub if n <= 1 else small[:7], repeat=n):
			out.append(('dict', list(zip('kj', t))))
	return out


def probe(name, e):
	"""Statements printing everything about the value of e, reached through the variable name."""
	k = e[0]
	if k == 'arr':
		yield P(STDC('type', name), STDC('len', name))
		for i, x in enumerate(e[1]):
			yield from probe(('idx', name, I(i)), x)
	elif k == 'dict':
		yield P(STDC('type', name), STDC('len', name))
		for n, x in e[1]:
			yield from probe(D(name, n), x)
	else:
		yield P(name)


def collection_programs(quick):
	for t in trees(2 if quick else 3):
		yield [L('v', t)] + list(probe(V('v'), t))
	# Each evaluation builds a new collection; elements are evaluated in order.
	tr = lambda i: C(V('t'), I(i), I(i * 10))
	for mk, touch in (
		(('arr', [tr(1), tr(2)]), lambda o: STDC('push', o, I(7))),
		(('arr', [('arr', [tr(1)]), tr(2)]), lambda o: STDC('push', ('idx', o, I(0)), I(7))),
		(('dict', [('a', ('arr', [tr(1)])), ('b', tr(2))]), lambda o: STDC('push', D(o, 'a'), I(7))),
		(('arr', [('dict', [('a', ('arr', [tr(1), tr(2)]))])]), lambda o: STDC('push', D(('idx', o, I(0)), 'a'), I(7))),
	):
		plain = mk
		yield [L('m', F([], E(mk))), L('p', C(V('m'))), E(touch(V('p'))), L('q', C(V('m'))), P(B('==', V('p'), V('q')))] + list(probe(V('q'), plain_of(plain))) + [P(B('==', V('q'), C(V('m'))))]
		yield [L('p', ('arr', [])), ('for', 'i', STDC('range', I(0), I(3), I(1)), [L('q', mk), E(touch(V('q'))), E(STDC('push', V('p'), V('q')))]),
			P(B('==', ('idx', V('p'), I(0)), ('idx', V('p'), I(2))))] + list(probe(('idx', V('p'), I(2)), plain_of(plain)))
	for names in itertools.permutations('abcd', 3):
		yield [L('d', ('dict', [(n, C(V('t'), I(i), S(n))) for i, n in enumerate(names)]))] + [P(D(V('d'), n)) for n in 'abcd' if n in names] + [P(STDC('len', V('d')))]


def plain_of(e):
	if e[0] == 'call':
		return e[2][1]
	if e[0] == 'arr':
		return ('arr', [plain_of(x) for x in e[1]])
	if e[0] == 'dict':
		return ('dict', [(n, plain_of(x)) for n, x in e[1]])
	return e


def key_cases():
	kw = {'let', 'if', 'then', 'else', 'elseif', 'end', 'for', 'in', 'do', 'while', 'function', 'return', 'break', 'self', 'not', 'and', 'or', 'nil', 'true', 'false'}
	first = 'azAZ_m'
	rest = first + '059'
	names = [a for a in first] + [a + b for a in first for b in rest] + [a + b + c for a in 'aZ_' for b in 'aZ_0' for c in 'aZ_0'] + ['a' * 40, 'lett', 'ends', 'nill', 'truee', 'selfy', '_', '__', 'iff', 'std']
	parts = [(b'@[%s: 5]["%s"]' % (n.encode(), n.encode()), b'5') for n in names if n not in kw]
	parts += [(b'@[%s: 6].%s' % (n.encode(), n.encode()), b'6') for n in names if n not in kw]
	return [case('dict literal keys', parts)]


HEADP = [L('t', F(['n', 'v'], P(V('n')), E(V('v'))))]


def comment_cases():
	"""A comment ends at the end of its line and nowhere else, whatever bytes it contains; in programs and in commands."""
	for c in range(256):
		if c == 10:
			continue
		b = bytes([c])
		for k in (b, b + b, b'a' + b, b + b'x = 2', b' ' + b + b' x = 2', b'"' + b, b"'" + b, b'\\' + b, b + b'end'):
			yield b'let x = 1 #' + k + b'\nx = x + 10\nstd.println(x)', b'11\n'
		yield b'#' + b + b'\nstd.println(1)#' + b, b'1\n'
		yield b'let x = [ 1, # ' + b + b' 7, \n2 # ' + b + b'\n]\nstd.println(x)', b'[ 1, 2 ]\n'
		yield b'{ echo a #' + b + b' b; echo c\n d # ' + b + b' e\n}', b'a d\n'
		yield b'{ # ' + b + b' echo no\n echo a; # ' + b + b'\n }', b'a\n'


def spellings(n):
	for k in range(1, n + 1):
		for t in itertools.product('019.eE', repeat=k):
			yield ''.join(t)


def rejected():
	"""Texts that must not be accepted as a literal."""
	ok = {ord(e[1:]) for e in ESC}
	for c in range(256):
		if c not in ok:
			yield b'let x = "\\%c"' % c
			yield b'let x = "a\\%cb"' % c
			yield b"let x = '\\%c'" % c
		if c not in b"'\\":
			yield b"let x = '%cb'" % c
			yield b"let x = 'b%c'" % c
			yield b"let x = '%c" % c
			yield b'let x = "%c' % c if c != 34 else b'let x = "\\"'
	yield from (b"let x = ''", b"let x = '", b"let x = '''", b"let x = '\\", b"let x = '\\'", b'let x = "', b'let x = "\\', b'let x = "a\nb')
	for n in (I64_MAX + 1, I64_MAX + 2, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 10 ** 19, 10 ** 20, 10 ** 30, 2 ** 128, 99999999999999999999):
		yield b'let x = %d' % n
		yield b'let x = -%d' % n
		yield b'let x = 000%d' % n


def check(ctx):
	exe = multirun.build(ctx)
	q = ctx.quick
	cases = itertools.chain(string_cases(q), byte_cases(), int_cases(), float_cases(q), key_cases())
	lits = [0]

	def counted():
		for c in cases:
			lits[0] += c[1].count('std.print(')
			yield c
	n = batch.sweep(ctx, counted(), size=12)
	p = explore.programs(ctx, collection_programs(q), size=100, head_prog=HEADP)

	def work(part):
		srcs = [('let x = %s\nstd.println(std.type(x), x)' % s).encode() for s in part]
		bad = []
		for s, src, (st, out, err) in zip(part, srcs, multirun.run(ctx, exe, [ctx.hush], srcs)):
			if ODD.match(s):
				continue
			if NUMBER.match(s):
				if s.isdigit():
					want = b'int\t%d\n' % int(s)
				else:
					want = b'float\t' + show_float(float(s)).encode() + b'\n'
				ok = st == 0 and out == want
			else:
				want = 'no value'
				ok = st in (2, 127) and out == b''
			if not ok:
				bad.append(('number spelling ' + s, 'expected %r, observed status %s %r %r' % (want, st, out, err), {'input': src}))
		return len(part), bad[:3]

	def work2(part):
		bad = []
		for src, (st, out, err) in zip(part, multirun.run(ctx, exe, [ctx.hush], part)):
			if st != 2 or out or not err.startswith(b'Error'):
				bad.append(('must be rejected: %r' % src, 'status %s %r %r' % (st, out, err), {'input': src}))
		return len(part), bad[:3]

	m = 0
	def work3(part):
		bad = []
		for (src, want), (st, out, err) in zip(part, multirun.run(ctx, exe, [ctx.hush], [s for s, _ in part])):
			if st != 0 or out != want or err:
				bad.append(('comment: %r' % src, 'expected %r, observed status %s %r %r' % (want, st, out, err), {'input': src}))
		return len(part), bad[:3]
	for fn, space in ((work, spellings(5 if q else 7)), (work2, rejected()), (work3, comment_cases())):
		for k, bad in ctx.pmap(fn, chunks(space, 300)):
			m += k
			ctx.add('traces_validated_against_impl', k)
			for key, d, files in bad:
				ctx.violation(key, d, files)
	ctx.add('states', lits[0] + m)
	ctx.add('transitions', lits[0] + m)
	ctx.sample({'literal': '"\\n\\xff"', 'value': 'bytes 0a ff'})
	return {'exhaustive': True, 'literals_in_batches': lits[0], 'collection_programs': p, 'spellings_and_rejections': m,
		'rule': 'all bytes and pairs of bytes/escapes in string literals; all byte literals; all numbers over {0,1,9,.,e,E} up to the length bound; all 2-digit mantissas (3 in thorough) '
			'x all decimal exponents; integer boundaries; all array/dict literal trees of the bounded shape. One literal = one state.'}
