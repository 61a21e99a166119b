"""An independent lexer and recogniser of the Hush syntax (without command blocks).

lex() gives a token list, None for a lexical error, or Unknown when a command block occurs.
parse() gives a program in the AST of lang.py, or None."""
import re

KEYWORDS = {'let', 'if', 'then', 'else', 'elseif', 'end', 'for', 'in', 'do', 'while', 'function', 'return', 'break', 'self',
	'nil', 'true', 'false', 'not', 'and', 'or'}


class Unknown(Exception):
	pass


SPEC = re.compile(rb'''
	(?P<ws>[ \t\r\n\x0c]+) | (?P<comment>\#[^\n]*) |
	(?P<str>"(?:[^"\\]|\\["'nt0\\])*") | (?P<byte>'(?:[^'\\]|\\["'nt0\\])') |
	(?P<float>[0-9]+\.[0-9]+(?:[eE][0-9]+)?|[0-9]+[eE][0-9]+) | (?P<int>[0-9]+) |
	(?P<word>[A-Za-z_][A-Za-z0-9_]*) |
	(?P<sym>>=|<=|\+\+|==|!=|@\[|[-*/%.?:,()\[\]><+=]) |
	(?P<cmd>\{|\$\{|&\{)
''', re.X | re.S)


def lex(src):
	toks, pos = [], 0
	while pos < len(src):
		m = SPEC.match(src, pos)
		if not m:
			return None
		kind, text = m.lastgroup, m.group()
		pos = m.end()
		if kind in ('ws', 'comment'):
			continue
		if kind == 'cmd':
			raise Unknown()
		if kind in ('int', 'float'):
			nxt = src[pos:pos + 2]
			# A dot or exponent without digits: malformed ("1.e5" is a border case nobody documents).
			if kind == 'int' and nxt[:1] in (b'.',):
				if nxt[1:2] in (b'e', b'E'):
					raise Unknown()
				return None
			if nxt[:1] in (b'e', b'E') and not (kind == 'float' and re.search(rb'[eE]', text)):
				return None
			if kind == 'int' and int(text) > (1 << 63) - 1:
				return None
		if kind == 'word':
			t = text.decode()
			toks.append(t if t in KEYWORDS else ('id', t))
		elif kind == 'sym':
			toks.append(text.decode())
		else:
			toks.append((kind, text))
	return toks


class Fail(Exception):
	pass


ENDS = {'end', 'else', 'elseif'}
LEVELS = [{'or'}, {'and'}, {'==', '!='}, {'<', '<=', '>', '>='}, {'++'}, {'+', '-'}, {'*', '/', '%'}]


class Parser:
	def __init__(self, toks):
		self.t, self.i = toks, 0

	def peek(self, k=0):
		return self.t[self.i + k] if self.i + k < len(self.t) else None

	def eat(self, what):
		if self.peek() != what:
			raise Fail()
		self.i += 1

	def ident(self):
		t = self.peek()
		if not (isinstance(t, tuple) and t[0] == 'id'):
			raise Fail()
		self.i += 1
		return t[1]

	def block(self):
		out = []
		while self.peek() is not None and self.peek() not in ENDS:
			s = self.stmt()
			out.append(s)
			if s[0] == 'ret':
				break
		return out

	def stmt(self):
		t = self.peek()
		if t == 'let':
			self.i += 1
			n = self.ident()
			if self.peek() == '=':
				self.i += 1
				return ('let', n, self.expr())
			return ('let', n, None)
		if t == 'function' and isinstance(self.peek(1), tuple) and self.peek(1)[0] == 'id':
			self.i += 1
			n = self.ident()
			p, b = self.function()
			return ('letfn', n, p, b)
		if t == 'return':
			self.i += 1
			if self.peek() in ENDS:
				return ('ret', None)
			return ('ret', self.expr())
		if t == 'break':
			self.i += 1
			return ('break',)
		if t == 'while':
			self.i += 1
			c = self.expr()
			self.eat('do')
			b = self.block()
			self.eat('end')
			return ('while', c, b)
		if t == 'for':
			self.i += 1
			n = self.ident()
			self.eat('in')
			e = self.expr()
			self.eat('do')
			b = self.block()
			self.eat('end')
			return ('for', n, e, b)
		e = self.expr()
		if self.peek() == '=':
			self.i += 1
			return ('assign', e, self.expr())
		return ('expr', e)

	def function(self):
		self.eat('(')
		params = self.items(self.ident, ')')
		b = self.block()
		self.eat('end')
		return params, b

	def items(self, parse, close):
		out = []
		while self.peek() != close:
			out.append(parse())
			if self.peek() != ',':
				break
			self.i += 1
		self.eat(close)
		return out

	def expr(self, level=0):
		if level == len(LEVELS):
			return self.prefix()
		e = self.expr(level + 1)
		while isinstance(self.peek(), str) and self.peek() in LEVELS[level]:
			op = self.peek()
			self.i += 1
			e = ('bin', op, e, self.expr(level + 1))
		return e

	def prefix(self):
		if self.peek() in ('-', 'not'):
			op = self.peek()
			self.i += 1
			return ('un', op, self.prefix())
		e = self.primary()
		while True:
			t = self.peek()
			if t == '(':
				self.i += 1
				e = ('call', e, self.items(self.expr, ')'))
			elif t == '[':
				self.i += 1
				f = self.expr()
				self.eat(']')
				e = ('idx', e, f)
			elif t == '.':
				self.i += 1
				e = ('dot', e, self.ident())
			elif t == '?':
				self.i += 1
				e = ('try', e)
			else:
				return e

	def pair(self):
		n = self.ident()
		self.eat(':')
		return (n, self.expr())

	def primary(self):
		t = self.peek()
		self.i += 1
		if isinstance(t, tuple):
			return ('var', t[1]) if t[0] == 'id' else ('lit',) + t
		if t == 'self':
			return ('self',)
		if t in ('nil', 'true', 'false'):
			return ('lit', t)
		if t == '[':
			return ('arr', self.items(self.expr, ']'))
		if t == '@[':
			return ('dict', self.items(self.pair, ']'))
		if t == 'function':
			p, b = self.function()
			return ('fn', p, b)
		if t == 'if':
			e = self.cond()
			self.eat('end')
			return e
		if t == '(':
			e = self.expr()
			self.eat(')')
			return e
		self.i -= 1
		raise Fail()

	def cond(self):
		c = self.expr()
		self.eat('then')
		b = self.block()
		t = self.peek()
		if t == 'elseif':
			self.i += 1
			return ('if', c, b, [('expr', self.cond())])
		if t == 'else':
			self.i += 1
			return ('if', c, b, self.block())
		return ('if', c, b, None)


def parse(toks):
	p = Parser(toks)
	try:
		out = p.block()
		while out and out[-1][0] == 'ret' and p.peek() is not None:
			out += p.block() or [p.eat(None)]
		if p.peek() is not None:
			return None
		return out
	except Fail:
		return None


def verdict(src):
	"""True: accepted, False: rejected, None: this model does not say (command blocks)."""
	from . import lang
	try:
		toks = lex(src)
	except Unknown:
		return None
	if toks is None:
		return False
	ast = parse(toks)
	if ast is None:
		return False
	return not lang.static_errors(ast)
