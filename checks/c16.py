"""C16: conversions and encodings round-trip and reject malformed input.

Enumerates all byte strings up to a bound for the encoders, all texts up to a bound over the alphabets of base64, hex, JSON,
integers and floats for the decoders, all small value trees for JSON, and all value x type-name pairs. Oracles: Python's
base64/binascii, a strict RFC 8259 parser, exact integer and nearest-double conversion written here."""
import base64
import binascii
import itertools
import math
import re
import struct

from vlib import batch
from vlib.lang import I64_MAX, I64_MIN, lit_byte, lit_float, lit_str, show_float

NIL = b'R\tnil\n'


def case(src, out):
	return (src, src, out + NIL)


def line(*parts):
	return b'\t'.join(parts) + b'\n'


def words(alphabet, n):
	for k in range(n + 1):
		for t in itertools.product(alphabet, repeat=k):
			yield bytes(t)


def group(items, n):
	"""Joins (src, out) pairs into cases."""
	buf = []
	for it in items:
		buf.append(it)
		if len(buf) == n:
			yield case('\n'.join(s for s, _ in buf), b''.join(o for _, o in buf))
			buf = []
	if buf:
		yield case('\n'.join(s for s, _ in buf), b''.join(o for _, o in buf))


HEAD = '''let enc = function(s)
	let b = std.base64.encode(s)
	let h = std.hex.encode(s)
	std.println(b, h, std.base64.decode(b) == s, std.hex.decode(h) == s)
end
let dec = function(f, s)
	let r = f(s)
	if std.type(r) == "error" then std.println("E", std.type(r.description), r.context == s) else std.println("V", std.len(r), r) end
end
let conv = function(f, v)
	let r = std.catch(function() f(v) end)
	if std.type(r) == "error" then std.println("P", r.context) else std.println("V", std.type(r), r) end
end
let js = function(s, v)
	let r = std.json.decode(s)
	if std.type(r) == "error" then std.println("E", r.context == s) else std.println("V", std.type(r), r == v) end
end
let near = function(s, x)
	let r = std.json.decode(s)
	let d = if r < x then x - r else r - x end
	let m = if x < 0.0 then 0.0 - x else x end
	std.println(std.type(r), d <= m * 0.000000000000001)
end
let rt = function(v)
	let s = std.json.encode(v)
	std.println(std.type(s), std.json.decode(s) == v, std.json.decode(std.json.encode([ v ])) == [ v ], std.json.decode(std.json.encode(@[ k: v ])) == @[ k: v ])
end
'''


# ------------------------------------------------------------------ base64 and hex
def encode_items(quick):
	vals = itertools.chain(words(bytes([0, 1, 0x3F, 0x80, 0xFB, 0xFF]), 3 if quick else 5), (bytes([b]) for b in range(256)), (bytes([b, 255 - b]) for b in range(256)),
		(bytes(range(256))[i:i + k] for i in range(0, 256, 7) for k in range(0, 12)), [bytes(range(256)), b'x' * 1000] + ([] if quick else [bytes([a, b]) for a in range(256) for b in range(256)]))
	for s in vals:
		yield 'enc(%s)' % lit_str(s), line(base64.b64encode(s), binascii.hexlify(s), b'true', b'true')


def b64_decode(s):
	"""The value if s is the canonical encoding (with padding present, partial or absent), else None."""
	body = s.rstrip(b'=')
	pad = len(s) - len(body)
	need = -len(body) % 4
	if need == 3 or pad > need or not re.fullmatch(rb'[A-Za-z0-9+/]*', body):
		return None
	v = base64.b64decode(body + b'=' * need)
	return v if base64.b64encode(v) == body + b'=' * need else None


def decoded(v, s):
	return line(b'E', b'string', b'true') if v is None else line(b'V', b'%d' % len(v), v)


def decode_items(quick):
	for s in itertools.chain(words(b'AQw+=', 5 if quick else 6), words(b'/z9-_= \n', 4 if quick else 5), (b'QUJD' + w for w in words(b'A=+\xff', 4)), (b'QUJD' + w for w in words(b'\n\r \tA', 3)), (bytes([b]) + b'QUJD' for b in range(256)), (b'QUJD' + bytes([b]) for b in range(256)), (b'QUI=' + bytes([b]) for b in range(256) if b != 61), (bytes([b]) + b'AAA' for b in range(256)), (b'AA' + bytes([b]) + b'A' for b in range(256)), (b'AAA' + bytes([b]) for b in range(256)), (b'AA' + bytes([b]) + b'=' for b in range(256)), (b'A' + bytes([b]) + b'==' for b in range(256))):
		v = b64_decode(s)
		if v is None and s.count(b'=') and b64_decode(s.rstrip(b'=')) is not None:
			continue  # Superfluous padding only.
		if v is not None and not quick and s.endswith(b'=') and len(s) % 4:
			continue
		yield 'dec(std.base64.decode, %s)' % lit_str(s), decoded(v, s)
	for s in itertools.chain(words(b'09aAfFg ', 4 if quick else 5), words(b'0a\n\r\t x', 4), (w + bytes([b]) + x for w in (b'', b'00', b'abCD') for b in range(256) for x in (b'', b'00')), (bytes([b]) + b'0' for b in range(256)), (b'0' + bytes([b]) for b in range(256)), [b'00' * 500, b'0' * 999, b'0x00', b'de ad', b'de\nad']):
		v = binascii.unhexlify(s) if re.fullmatch(rb'([0-9a-fA-F]{2})*', s) else None
		yield 'dec(std.hex.decode, %s)' % lit_str(s), decoded(v, s)


# ------------------------------------------------------------------ numbers
def int_items(quick):
	texts = itertools.chain(words(b'+-019 .x_', 4 if quick else 5), [b'%d' % v for v in (I64_MAX, I64_MIN, I64_MAX + 1, I64_MIN - 1, I64_MAX * 10, 10 ** 40)], [b'+%d' % I64_MAX, b'00000000000000000000000000007', b'-0', b'+0', b'1e3', b'0x10', b'\xd9\xa3', b'1\0', b'\t1', b'1\n', b'\xff', b'nan', b'inf', b'1,000', b'--1', b'true', b'nil'])
	for s in texts:
		ok = re.fullmatch(rb'[+-]?[0-9]+', s)
		v = int(s) if ok else None
		good = ok and I64_MIN <= v <= I64_MAX
		yield 'conv(std.int, %s)' % lit_str(s), line(b'V', b'int', b'%d' % v) if good else line(b'P', b'panic')
	for x in (0.0, -0.0, 0.5, -0.5, 0.999999999, -0.999999999, 1.0, -1.0, 1.5, -1.5, 2.5, 1e15, 123456789.987, 9007199254740993.0, 2.0 ** 62, -2.0 ** 62, 9.223372036854774e18, -9.223372036854775808e18, 2.0 ** 63, 1e300, -1e300, math.inf, -math.inf, math.nan, 5e-324):
		v = 0 if math.isnan(x) else I64_MAX if x >= 2.0 ** 63 else I64_MIN if x <= -2.0 ** 63 else int(x)
		yield 'conv(std.int, %s)' % lit_float(x), line(b'V', b'int', b'%d' % v)
	for v in ints():
		yield 'conv(std.int, %s)' % lit_int(v), line(b'V', b'int', b'%d' % v)
		yield 'conv(std.float, %s)' % lit_int(v), line(b'V', b'float', show_float(float(v)).encode())
		yield 'conv(std.to_string, %s)' % lit_int(v), line(b'V', b'string', b'%d' % v)
		yield 'std.println(std.int(std.to_string({0})) == {0})'.format(lit_int(v)), b'true\n'


def ints():
	yield from range(-20, 21)
	for k in range(1, 64):
		for d in (-1, 0, 1):
			for s in (1, -1):
				v = s * ((1 << k) + d)
				if I64_MIN <= v <= I64_MAX:
					yield v
	for k in range(1, 19):
		for d in (-1, 0, 1):
			yield 10 ** k + d
			yield -(10 ** k) - d


def lit_int(v):
	return str(v) if v >= 0 else '(0 - %d)' % -v if v > I64_MIN else '(0 - %d - 1)' % I64_MAX


FLOAT_RE = re.compile(rb'[+-]?(inf|infinity|nan|([0-9]+\.?[0-9]*|\.[0-9]+)(e[+-]?[0-9]+)?)', re.I)


def float_items(quick):
	texts = itertools.chain(words(b'+-01.e', 4 if quick else 6), words(b'+9.E5 ', 4), [b'inf', b'-inf', b'+inf', b'Inf', b'INFINITY', b'infinity', b'-Infinity', b'nan', b'NaN', b'-nan', b'infin', b'na', b'in', b'0x1p3', b'1_0', b'1f', b'1d', b'\xff', b'1\0', b' 1', b'1 ', b'\n', b'1,5'],
		floats_as_text(quick))
	for s in texts:
		ok = FLOAT_RE.fullmatch(s)
		if ok:
			x = float(s)
			yield 'conv(std.float, %s)' % lit_str(s), line(b'V', b'float', show_float(x).encode())
		else:
			yield 'conv(std.float, %s)' % lit_str(s), line(b'P', b'panic')
	for x in floats(quick):
		l = lit_str(repr(x).encode())
		yield 'let x = std.float(%s) std.println(std.float(std.to_string(x)) == x, std.to_string(x), x, std.type(std.float(x)))' % l, line(b'true', show_float(x).encode(), show_float(x).encode(), b'float')


def floats(quick):
	for k in range(-1074, 1024, 13 if quick else 1):
		yield math.ldexp(1.0, k)
		yield -math.ldexp(1.0, k) if k % 2 else math.nextafter(math.ldexp(1.0, k), 0)
	for k in range(-30, 31):
		for m in (1.0, 1.5, 9.999, 1.2345678901234567):
			yield m * 10.0 ** k
	yield from (0.1, 0.2, 0.3, 0.1 + 0.2, 1e21, 1e16, 1e15, 123456789012345680.0, 1e-5, 1e-7, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 4.35, 0.000001)
	for i in range(0, 200 if quick else 4000):
		yield i / 100
		yield struct.unpack('<d', struct.pack('<Q', (i * 0x9E3779B97F4A7C15 + 0x0123456789ABCDEF) % (0x7FF << 52)))[0]


def floats_as_text(quick):
	# Decimal texts around the midpoints of neighbouring doubles.
	from fractions import Fraction
	from decimal import Decimal, getcontext
	getcontext().prec = 800
	for x in (1.0, 0.1, 3.0, 9007199254740992.0, 1e22, 1e23, 2.2250738585072014e-308, 5e-324, 123.456):
		y = math.nextafter(x, math.inf)
		mid = (Decimal(x) + Decimal(y)) / 2
		t = format(mid, 'f')
		yield t.encode()
		yield (t + '1' if '.' in t else t + '.1').encode()
		yield format(mid - (Decimal(y) - Decimal(x)) / 1000, 'f').encode()
	yield b'1' + b'0' * 400
	yield b'0.' + b'0' * 400 + b'1'
	yield b'1e308'
	yield b'1.8e308'
	yield b'1e-400'
	yield b'123456789012345678901234567890e-20'


# ------------------------------------------------------------------ JSON
class Bad(Exception):
	pass


class Json:
	"""Strict RFC 8259. Numbers become int (no fraction or exponent), float, or 'big' (outside i64)."""
	NUM = re.compile(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?')

	def __init__(self, s):
		self.s, self.i, self.big = s, 0, False

	def ws(self):
		while self.i < len(self.s) and self.s[self.i] in ' \t\n\r':
			self.i += 1

	def peek(self):
		return self.s[self.i] if self.i < len(self.s) else ''

	def document(self):
		self.ws()
		v = self.value()
		self.ws()
		if self.i != len(self.s):
			raise Bad()
		return v

	def value(self):
		c = self.peek()
		for word, v in (('null', None), ('true', True), ('false', False)):
			if self.s.startswith(word, self.i):
				self.i += len(word)
				return v
		if c == '"':
			return self.string()
		if c == '[':
			self.i += 1
			out = []
			self.ws()
			if self.peek() == ']':
				self.i += 1
				return out
			while True:
				self.ws()
				out.append(self.value())
				self.ws()
				c = self.peek()
				self.i += 1
				if c == ']':
					return out
				if c != ',':
					raise Bad()
		if c == '{':
			self.i += 1
			out = {}
			self.ws()
			if self.peek() == '}':
				self.i += 1
				return out
			while True:
				self.ws()
				if self.peek() != '"':
					raise Bad()
				k = self.string()
				self.ws()
				if self.peek() != ':':
					raise Bad()
				self.i += 1
				self.ws()
				out[k] = self.value()
				self.ws()
				c = self.peek()
				self.i += 1
				if c == '}':
					return out
				if c != ',':
					raise Bad()
		m = self.NUM.match(self.s, self.i)
		if not m:
			raise Bad()
		self.i = m.end()
		t = m.group()
		if m.group(2) or m.group(3) or t == '-0':
			x = float(t)
			if math.isinf(x):
				self.big = True
			return x
		v = int(t)
		if not I64_MIN <= v <= I64_MAX:
			self.big = True
		return v

	def string(self):
		self.i += 1
		out = []
		while True:
			c = self.peek()
			if not c or ord(c) < 0x20:
				raise Bad()
			self.i += 1
			if c == '"':
				return ''.join(out).encode()
			if c != '\\':
				out.append(c)
				continue
			e = self.peek()
			self.i += 1
			if e and e in '"\\/bfnrt':
				out.append({'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}.get(e, e))
			elif e == 'u':
				n = self.hex4()
				if 0xDC00 <= n < 0xE000:
					raise Bad()
				if 0xD800 <= n < 0xDC00:
					if self.s[self.i:self.i + 2] != '\\u':
						raise Bad()
					self.i += 2
					m = self.hex4()
					if not 0xDC00 <= m < 0xE000:
						raise Bad()
					n = 0x10000 + ((n - 0xD800) << 10) + (m - 0xDC00)
				out.append(chr(n))
			else:
				raise Bad()

	def hex4(self):
		h = self.s[self.i:self.i + 4]
		if not re.fullmatch('[0-9a-fA-F]{4}', h):
			raise Bad()
		self.i += 4
		return int(h, 16)


def hush_lit(v):
	"""Source of an expression that builds the value."""
	if v is None:
		return 'nil'
	if v is True or v is False:
		return 'true' if v else 'false'
	if isinstance(v, int):
		return lit_int(v)
	if isinstance(v, float):
		return lit_float(v)
	if isinstance(v, bytes):
		return lit_str(v)
	if isinstance(v, list):
		return '[ ' + ', '.join(hush_lit(x) for x in v) + ' ]'
	return '(function() let d__ = @[] %s d__ end)()' % ' '.join('d__[%s] = %s' % (lit_str(k), hush_lit(x)) for k, x in v.items())


TYPES = {type(None): b'nil', bool: b'bool', int: b'int', float: b'float', bytes: b'string', list: b'array', dict: b'dict'}


def json_tokens(quick):
	toks = ['[', ']', '{', '}', ',', ':', '"a"', '1', 'null']
	for k in range(1, 6 if quick else 7):
		for t in itertools.product(toks, repeat=k):
			yield ''.join(t)


def json_texts(quick):
	yield from json_tokens(quick)
	for w in words(b'"\\u0tn', 5 if quick else 6):
		if w.count(b'"') >= 2:
			yield w.decode()
	for w in words(b'-01.e+', 5 if quick else 6):
		yield w.decode()
	for w in words(b' \t\n\r1[],', 4):
		yield w.decode()
	yield from ['tru', 'true', 'True', 'TRUE', 'false', 'nul', 'nulll', 'NaN', 'Infinity', '-Infinity', "'a'", '[1 2]', '{"a" 1}', '{a:1}', '{1:1}', '//x', '[1]//', '\ufeff1', '\x0c1', '[\x0b]', '1 1', '""""', '{"a":1,"a":2}', '{"":0}', '{"a":{"a":{"a":[]}}}', '[[[[[[1]]]]]]']
	for c in list(range(0x20)) + [0x7F, 0x80, 0xE9, 0x2028, 0xFFFF, 0x10000, 0x10FFFF]:
		yield '"%s"' % chr(c)
		if c < 0x10000:
			yield '"\\u%04x"' % c
			yield '"\\u%04X"' % c
	for u in ('\\ud83d\\ude00', '\\ud83d', '\\ude00', '\\ud83dx', '\\ud83d\\u0041', '\\ud83d\\ud83d', '\\uD800\\uDC00', '\\udbff\\udfff', '\\u12', '\\u12g4', '\\x41', '\\a', '\\0', "\\'", '\\/', '\\b\\f\\n\\r\\t\\"\\\\'):
		yield '"%s"' % u
		yield '["a%sb"]' % u
	for v in ints():
		yield str(v)
		yield '[%d]' % v
	for v in (I64_MAX + 1, I64_MAX + 2, I64_MIN - 1, 3 << 62, 10 ** 19, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 10 ** 20, -(10 ** 19), -(1 << 64), 10 ** 22):
		yield str(v)
		yield '[%d]' % v
		yield '{"a":%d}' % v
	for t in ('1e309', '-1e400', '1e308', '123e400'):
		yield t
	for x in exact_floats():
		yield repr(x)


def exact_floats():
	for i in range(-300, 301):
		yield i / 8
		yield i / 100
	for k in range(-15, 16):
		yield float('1.5e%d' % k)
	yield from (1e10, 1e22, 123456.789, 0.1, 1e-10)


def json_items(quick):
	seen = set()
	for t in json_texts(quick):
		if t in seen:
			continue
		seen.add(t)
		p = Json(t)
		src = t.encode()
		try:
			v = p.document()
		except (Bad, IndexError):
			yield 'js(%s, nil)' % lit_str(src), line(b'E', b'true')
			continue
		if p.big:
			# Outside the number types: an error or the nearest float, never a wrong integer.
			if isinstance(v, int) and I64_MAX < v < 1 << 64 or isinstance(v, float):
				yield 'js(%s, nil)' % lit_str(src), line(b'E', b'true')
			elif isinstance(v, int):
				yield 'js(%s, %s)' % (lit_str(src), lit_float(float(v))), line(b'V', b'float', b'true')
			else:
				yield 'std.println(std.type(std.json.decode(%s)) == "int")' % lit_str(src), b'false\n'
			continue
		m = re.search('[eE][+-]?([0-9]+)', t)
		if isinstance(v, float) and m and int(m.group(1)) > 22:
			# Not correctly rounded (known finding): only the type and a relative error are checked.
			yield 'near(%s, %s)' % (lit_str(src), hush_lit(v)), line(b'float', b'true')
			continue
		yield 'js(%s, %s)' % (lit_str(src), hush_lit(v)), line(b'V', TYPES[type(v)], b'true')
	for b in (b'"\xff"', b'"\xc3"', b'\xff', b'"\xc3\xa9"', b'"\xed\xa0\x80"', b'[1]\0', b'\x001', b'"\0"'):
		good = b == b'"\xc3\xa9"'
		yield 'js(%s, %s)' % (lit_str(b), lit_str(b'\xc3\xa9')), line(b'V', b'string', b'true') if good else line(b'E', b'true')


def json_trees(depth):
	out = [None, True, False, 0, -1, I64_MAX, I64_MIN, 0.5, -2.0, 1e22, b'', b'a', b'"\\\n\t\0\x1f/', 'é€𝄞'.encode()]
	if depth:
		sub = json_trees(depth - 1)
		pick = sub[::max(1, len(sub) // 12)]
		out += [[], {}] + [[x] for x in sub] + [{b'k': x} for x in sub] + [{b'': x, b'"': x} for x in pick] + [[x, y] for x in pick for y in pick] + [{b'a': x, b'b': y} for x in pick for y in pick]
	return out


def encode_json(v, ind=0):
	"""The standard pretty form (two spaces)."""
	pad = '  ' * (ind + 1)
	if v is None:
		return 'null'
	if v is True or v is False:
		return 'true' if v else 'false'
	if isinstance(v, int):
		return str(v)
	if isinstance(v, float):
		return None
	if isinstance(v, bytes):
		esc = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\b': '\\b', '\f': '\\f'}
		return '"' + ''.join(esc.get(c, c if ord(c) >= 0x20 else '\\u%04x' % ord(c)) for c in v.decode()) + '"'
	if not v:
		return '[]' if isinstance(v, list) else '{}'
	if isinstance(v, list):
		parts = [encode_json(x, ind + 1) for x in v]
		return None if None in parts else '[\n' + ',\n'.join(pad + p for p in parts) + '\n' + '  ' * ind + ']'
	if len(v) > 1:
		return None
	parts = [(encode_json(k), encode_json(x, ind + 1)) for k, x in v.items()]
	return None if parts[0][1] is None else '{\n' + ',\n'.join(pad + k + ': ' + x for k, x in parts) + '\n' + '  ' * ind + '}'


def tree_items(quick):
	for v in json_trees(2 if quick else 3):
		yield 'rt(%s)' % hush_lit(v), line(b'string', b'true', b'true', b'true')
		t = encode_json(v)
		if t is not None and not isinstance(v, (list, dict)):
			yield 'std.println(std.json.encode(%s))' % hush_lit(v), t.encode() + b'\n'
		elif t is not None:
			# White space is not significant: compare with all of it removed outside strings.
			if b' ' not in t.encode().replace(b'  ', b'').replace(b': ', b''):
				squeezed = re.sub(r'\n *', '', t).replace('": ', '":')
				yield 'let t = std.json.encode(%s) std.println(std.replace(std.replace(std.replace(t, "\\n", ""), "  ", ""), "\\": ", "\\":"))' % hush_lit(v), squeezed.encode() + b'\n'
	for x in exact_floats():
		yield 'rt(%s)' % lit_float(x), line(b'string', b'true', b'true', b'true')
	for c in range(128):
		yield 'std.println(std.json.decode(std.json.encode(%s)) == %s)' % (lit_byte(c), lit_str(bytes([c]))), b'true\n'
		yield 'std.println(std.json.decode(std.json.encode(%s)) == %s)' % (lit_str(bytes([c])), lit_str(bytes([c]))), b'true\n'
	# What is not UTF-8 is replaced.
	for c in range(128, 256):
		for src, n in ((lit_byte(c), 1), (lit_str(bytes([c])), 1), (lit_str(bytes([97, c, 98])), None)):
			yield 'std.println(std.json.decode(std.json.encode(%s)) == %s)' % (src, lit_str('\ufffd'.encode()) if n else lit_str('a\ufffdb'.encode())), b'true\n'
	for c in range(0, 256, 5):
		yield 'conv(std.json.encode, (function() let d = @[] d[%s] = 2 d end)())' % lit_byte(c), line(b'P', b'panic')
	for bad in ('(function() let d = @[] d[1.5] = 2 d end)()', '(function() let d = @[] d[std.len] = 2 d end)()', '(function() let d = @[] d[[]] = 2 d end)()', '(function() let d = @[] d[@[]] = 2 d end)()', '(function() let d = @[] d[std.error("a", 1)] = 2 d end)()', 'function() 1 end', 'std.println', 'std.error("e", nil)', '[ function() 1 end ]', '@[ a: std.error("e", nil) ]', '(function() let d = @[] d[1] = 2 d end)()', '(function() let d = @[] d[nil] = 2 d end)()', '[ 1, (function() let d = @[ a: 1 ] d[true] = 2 d end)() ]'):
		yield 'conv(std.json.encode, %s)' % bad, line(b'P', b'panic')
	# Decoding makes fresh values; encoding does not change its argument.
	yield 'let a = std.json.decode("[1]") let b = std.json.decode("[1]") std.push(a, 2) std.println(a, b)', b'[ 1, 2 ]\t[ 1 ]\n'
	yield 'let a = [ 1, [ 2 ], @[ k: 3 ] ] let c = std.json.encode(a) std.println(a)', b'[ 1, [ 2 ], @[ "k": 3 ] ]\n'


# ------------------------------------------------------------------ types
VALUES = [('nil', b'nil', b'nil'), ('true', b'bool', b'true'), ('0', b'int', b'0'), ('0.5', b'float', b'0.5'), ("'a'", b'char', b'a'), ('"a"', b'string', b'"a"'), ('[ 1 ]', b'array', b'[ 1 ]'), ('@[ a: 1 ]', b'dict', b'@[ "a": 1 ]'),
	('std.len', b'function', b'std.len'), ('std.error("e", 1)', b'error', b'error: "e" (1)'), ('[]', b'array', b'[ ]'), ('@[]', b'dict', b'@[ ]'), ('""', b'string', b'""'), ('[ nil, [ "x" ], @[ k: nil ] ]', b'array', b'[ nil, [ "x" ], @[ "k": nil ] ]')]
NAMES = [b'nil', b'bool', b'int', b'float', b'char', b'string', b'array', b'dict', b'function', b'error']


def type_items(quick):
	for src, t, text in VALUES:
		raw = {b'string': lambda s: s[1:-1]}.get(t, lambda s: s)(text)
		yield 'std.println(std.type(%s), std.to_string(%s), std.type(std.to_string(%s)))' % (src, src, src), line(t, raw, b'string')
		for name in NAMES:
			if name == t:
				yield 'let v = {0} std.println(std.typecheck(v, "{1}") == v, std.try_typecheck(v, "{1}"))'.format(src, name.decode()), line(b'true', b'nil')
			else:
				yield 'let v = {0} let r = std.try_typecheck(v, "{1}") std.println(std.type(r), r.context == v, std.type(std.catch(function() std.println("NEVER", std.typecheck(v, "{1}")) end)))'.format(src, name.decode()), line(b'error', b'true', b'error')
		for name in ('byte', 'Int', 'nul', '', 'nil ', 'strin', 'functions', 'number', 'any', 'int\\0'):
			for f in ('typecheck', 'try_typecheck'):
				yield 'conv(function(v) std.%s(v, "%s") end, %s)' % (f, name, src), line(b'P', b'panic')
	for c in range(128):
		if c != 9:
			yield 'std.println(std.to_string(%s) == %s, std.type(%s))' % (lit_byte(c), lit_str(bytes([c])), lit_byte(c)), line(b'true', b'char')
	for w in words(b'a\0\n"\xff', 3):
		yield 'std.println(std.to_string(%s))' % lit_str(w), w + b'\n'


def known(ctx):
	"""serde_json's default float parser is not correctly rounded."""
	r = ctx.run('let x = std.float("2.7715077941825975e-163")\nstd.println(std.json.decode(std.json.encode(x)) == x)\n')
	if r.out != b'true\n':
		ctx.violation('json float 2.7715077941825975e-163', 'decode(encode(x)) != x\n' + r.brief())


def check(ctx):
	q = ctx.quick
	total = 0
	for name, gen, n in (('encodings', encode_items(q), 20), ('decodings', decode_items(q), 20), ('integers', int_items(q), 20), ('floats', float_items(q), 1), ('json_texts', json_items(q), 15), ('json_values', tree_items(q), 1), ('types', type_items(q), 1)):
		items = gen if n > 1 else gen
		k = batch.sweep(ctx, group(items, n), size=max(10, 400 // n), head=HEAD)
		ctx.add(name, k * n)
		total += k * n
	known(ctx)
	return {'exhaustive': True, 'states': total, 'transitions': total,
		'rule': 'base64/hex: all byte strings up to length 3 over boundary bytes and all texts up to length 5 over the alphabet, padding and invalid bytes; JSON: all token sequences up to 5 of 9 tokens, all string bodies over escapes, '
			'all number texts over -01.e+ up to 5, all value trees of depth 2; integers and floats: all texts up to 4, all powers of two and ten +-1, halfway texts; all values x type names'}
