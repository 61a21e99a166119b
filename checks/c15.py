"""C15: string functions are byte-exact.

All subjects x patterns x replacements over small alphabets that contain NUL, newline, invalid and multi-byte UTF-8, all
substring ranges including negative and huge ones, all single bytes and byte pairs, all Unicode white space, long strings.
Oracle: Python byte strings. Every case checks afterwards that the operands are unchanged."""
import itertools

from vlib import batch
from vlib.lang import lit_byte, lit_str

I64_MAX = (1 << 63) - 1
WS = [bytes([c]) for c in (9, 10, 11, 12, 13, 32)] + [chr(c).encode() for c in [0x85, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000]]


def trim(s):
	again = True
	while again:
		again = False
		for w in WS:
			if s.startswith(w):
				s, again = s[len(w):], True
			if s.endswith(w) and s:
				s, again = s[:-len(w)], True
	return s


def split(s, p):
	if not p:
		return [b''] + [s[i:i + 1] for i in range(len(s))] + [b'']
	return s.split(p)


def words(alphabet, n):
	for k in range(n + 1):
		for t in itertools.product(alphabet, repeat=k):
			yield bytes(t)


def line(*parts):
	return b'\t'.join(parts) + b'\n'


def n(x):
	return b'%d' % x


def show_list(xs):
	return line(n(len(xs)), b'') + b''.join(b'<' + b'\t' + n(len(x)) + b'\t' + x + b'\t>\n' for x in xs)


HEAD = '''let show = function(a)
	std.println(std.len(a), "")
	for x in std.iter(a) do std.println("<", std.len(x), x, ">") end
end
'''
NIL = b'R\tnil\n'


def case(src, out):
	return (src, src, out + NIL)


def split_cases(quick):
	spaces = [(b'ab', 6 if quick else 8, 3), (b'a\0\n\xc3\xa9', 3 if quick else 4, 2), (b'\xe2\x82\xac', 3 if quick else 5, 3), (b'a ,\xff', 3 if quick else 4, 2)]
	for alphabet, ns, np in spaces:
		for p in words(alphabet, np):
			for s in words(alphabet, ns):
				src = 'let s = %s\nlet p = %s\nshow(std.split(s, p))\n' % (lit_str(s), lit_str(p))
				out = show_list(split(s, p))
				for i, r in enumerate((b'', b'a', b'aab', p + p)):
					let = '' if i else 'let '
					src += '%sr = %s\n%sx = std.replace(s, p, r)\n' % (let, lit_str(r), let)
					src += 'std.println(std.len(x), x)\n'
					x = s.replace(p, r)
					out += line(n(len(x)), x)
				src += 'std.println(s, p, r, std.len(s), std.len(p))'
				out += line(s, p, p + p, n(len(s)), n(len(p)))
				yield case(src, out)


def substr_cases(quick):
	for s in list(words(b'ab\xff', 3)) + [b'abcdef', b'\0\0', b'\xc3\xa9x', b'01234567']:
		src, out = 'let s = %s\n' % lit_str(s), b''
		lim = [-I64_MAX - 1, -I64_MAX, -2, -1, *range(len(s) + 3), 1 << 32, I64_MAX - 1, I64_MAX]
		for a in lim:
			for l in lim:
				ok = a >= 0 and l >= 0 and a + l <= len(s)
				lit = lambda v: str(v) if v >= 0 else '(0 - %d)' % -v if v > -I64_MAX - 1 else '(0 - %d - 1)' % I64_MAX
				src += 'let x%d = std.substr(s, %s, %s)\n' % (lim.index(a) * 100 + lim.index(l), lit(a), lit(l))
				src += 'std.println(std.type(x{0}), x{0})\n'.format(lim.index(a) * 100 + lim.index(l))
				out += line(b'string', s[a:a + l]) if ok else line(b'nil', b'nil')
		src += 'std.println(s)'
		yield case(src, out + line(s))


def elementwise(quick):
	for s in itertools.chain(words(b'a\0\n\xff', 4 if quick else 5), [bytes(range(256)), bytes(range(255, -1, -1)), b'ab' * 300, '€é𝄞'.encode()]):
		src = 'let s = %s\nlet t = s\nstd.println(std.len(s), std.is_empty(s), std.type(s))\nlet b = std.bytes(s)\nstd.println(std.len(b), std.type(b))\n' % lit_str(s)
		out = line(n(len(s)), b'true' if not s else b'false', b'string') + line(n(len(s)), b'array')
		src += 'let k = 0\nfor c in std.iter(s) do\n\tstd.println(c, s[k], b[k], std.type(s[k]), c == s[k], c == b[k])\n\tk = k + 1\nend\nstd.println(k)\n'
		for c in s:
			x = bytes([c])
			out += line(x, x, x, b'char', b'true', b'true')
		out += line(n(len(s)))
		src += 'std.println(s, t == s, s ++ "" == s, "" ++ s == s)'
		out += line(s, b'true', b'true', b'true')
		yield case(src, out)
		src, out = 'let s = %s\n' % lit_str(s), b''
		for j in (-1, len(s), len(s) + 1, I64_MAX):
			src += 'std.println(std.type(std.catch(function() s[%s] end)))\n' % ('(0 - 1)' if j < 0 else j)
			out += line(b'error')
		yield case(src, out)
		for c in (97, 0, 10, 255, 98):
			yield case('let s = %s\nstd.println(std.contains(s, %s))' % (lit_str(s), lit_byte(c)), line(b'true' if c in s else b'false'))
	for c in range(256):
		every = bytes(range(256)) + b'a'
		x = bytes([c])
		src = 'let s = %s\nlet p = s[%d]\nlet q = std.substr(s, %d, 1)\nstd.println(std.contains(s, p), std.contains("", p), std.contains("q", p))\nlet a = std.split(s, q)\nstd.println(std.len(a), std.len(a[0]), a[0])\n' % (lit_str(every), c, c)
		out = line(b'true', b'false', b'true' if c == 113 else b'false') + line(n(len(every.split(x))), n(c), every[:c])
		src += 'let r = std.replace(s, q, "")\nstd.println(std.len(r), r)\nstd.println(std.trim(q), std.len(std.trim(q)))\nstd.println(q ++ q, q == q ++ "", std.len(q ++ q))'
		out += line(n(len(every.replace(x, b''))), every.replace(x, b'')) + line(trim(x), n(len(trim(x)))) + line(x + x, b'true', b'2')
		yield case(src, out)


def concat_cases(quick):
	ws = list(words(b'a\0\xff', 2)) + [b'\xc3', b'\xa9', b'long' * 50]
	for a in ws:
		for b in ws:
			s = a + b
			src = 'let a = %s\nlet b = %s\nlet s = a ++ b\nstd.println(std.len(s), s)\ns = s ++ a\nstd.println(std.len(s), s, a, b)\nstd.println(a ++ b == std.substr(s, 0, %d), a ++ b ++ a == s)' % (lit_str(a), lit_str(b), len(s))
			yield case(src, line(n(len(s)), s) + line(n(len(s + a)), s + a, a, b) + line(b'true', b'true'))


def trim_cases(quick):
	def one(ss):
		src = 'let t = function(s) let x = std.trim(s) std.println(std.len(x), x, std.len(s)) end\n'
		out = b''
		for s in ss:
			src += 't(%s)\n' % lit_str(s)
			out += line(n(len(trim(s))), trim(s), n(len(s)))
		return case(src, out)
	todo = list(words(b' \n\tx', 4 if quick else 6)) + list(words(b'\xc2\xa0\x85x ', 4 if quick else 5)) + list(words(b'\xe2\x80\x80\xa8x', 4 if quick else 5)) + list(words(b'\r\x0b\x0c\x1c\xe3', 3))
	points = list(range(0, 0x3100)) + [0xFEFF, 0x180E, 0xFFFD, 0x1F600] if quick else [c for c in range(0x10000) if not 0xD800 <= c < 0xE000]
	for c in points:
		e = chr(c).encode()
		todo += [e + b'x' + e, e]
	for i in range(0, len(todo), 60):
		yield one(todo[i:i + 60])
	if not quick:
		pairs = [bytes([a, b]) for a in range(256) for b in range(256)]
		for i in range(0, len(pairs), 64):
			yield one([p + b'x' + p for p in pairs[i:i + 64]])


def long_cases():
	for k in (100, 1000, 100000):
		grow = 'let s = "ab"\nwhile std.len(s) < %d do s = s ++ s end\nlet n = std.len(s)\n' % k
		m = 2
		while m < k:
			m *= 2
		yield case(grow + 'std.println(n, std.len(std.split(s, "b")), std.len(std.replace(s, "ab", "xyz")), std.len(std.bytes(s)), std.substr(s, n - 3, 3), std.len(std.trim("  " ++ s ++ "\n")))',
			line(n(m), n(m // 2 + 1), n(m // 2 * 3), n(m), b'bab', n(m)))
	# Every position of a string whose length passes 2^16.
	k = 7 << 14
	yield case('let b = "0123456"\nlet s = b\nwhile std.len(s) < 100000 do s = s ++ s end\nlet n = std.len(s)\nlet bs = std.bytes(s)\n'
		'for i in std.range(0, n, 1) do\nlet c = b[i % 7]\nif s[i] != c or bs[i] != c then std.println("index", i) end\n'
		'if i % 5 == 0 then let t = std.substr(s, i, 2)\nif t[0] != c or (std.len(t) == 2 and t[1] != b[(i + 1) % 7]) then std.println("substr", i) end end\nend\n'
		'let parts = std.split(s, "0")\nlet bad = 0\nfor i in std.range(1, std.len(parts), 1) do if parts[i] != "123456" then bad = bad + 1 end end\n'
		'std.println(n, std.len(parts), parts[0] == "", bad, s == std.replace(std.replace(s, "3", "xx"), "xx", "3"), s ++ "" == s, std.contains(s, b[6]), s == s ++ "a")',
		line(n(k), n(k // 7 + 1), b'true', b'0', b'true', b'true', b'true', b'false'))


def check(ctx):
	q = ctx.quick
	total = 0
	for name, gen, size in (('split_replace', split_cases(q), 150), ('substr', substr_cases(q), 8), ('elementwise', elementwise(q), 40), ('concat', concat_cases(q), 60), ('trim', trim_cases(q), 10), ('long', long_cases(), 1)):
		k = batch.sweep(ctx, gen, size=size, head=HEAD)
		ctx.add(name, k)
		total += k
	return {'exhaustive': True, 'states': total, 'transitions': total, 'rule': 'all subjects x patterns x replacements over {a,b} up to length 6x3 and over alphabets with NUL, newline and (in)valid UTF-8 up to 3x2; '
		'all substring ranges incl. limits; all 256 bytes; all strings of length 4 over 4 bytes elementwise; trim around every code point below U+3100 (thorough: the whole BMP and all byte pairs)'}
