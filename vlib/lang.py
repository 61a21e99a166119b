"""Hush core language: AST, source printer, static rules and reference interpreter.

The reference interpreter is deliberately boring: environments are dicts of cells, evaluation is
structural recursion. It does not share anything with the implementation's design (no slots, no
capture lists, no stack), only the language rules.

Expressions (tuples):
  ('nil',) ('bool',b) ('int',n) ('float',x) ('byte',n) ('str',bytes) ('arr',[e]) ('dict',[(k,e)])
  ('fn',[params],block) ('var',name) ('self',) ('un',op,e) ('bin',op,a,b) ('try',e)
  ('if',c,then,else|None) ('idx',o,e) ('dot',o,name) ('call',f,[args])
Statements:
  ('let',name,e|None) ('letfn',name,[params],block) ('assign',target,e) ('ret',e|None) ('break',)
  ('while',c,block) ('for',name,e,block) ('expr',e)
A block is a list of statements.
"""
import math
import struct

I64_MIN, I64_MAX = -(1 << 63), (1 << 63) - 1


# ---------------------------------------------------------------------- values
class Byte:
	__slots__ = ('n',)

	def __init__(self, n):
		self.n = n


class Arr:
	__slots__ = ('v',)

	def __init__(self, v):
		self.v = v


class Dict:
	"""An association list: equality is the language's, so no hashing is involved."""
	__slots__ = ('v',)

	def __init__(self, v=None):
		self.v = v if v is not None else []

	def find(self, k):
		for i, (a, _) in enumerate(self.v):
			if eq(a, k):
				return i
		return -1

	def get(self, k):
		i = self.find(k)
		return (True, self.v[i][1]) if i >= 0 else (False, None)

	def set(self, k, x):
		i = self.find(k)
		if i >= 0:
			self.v[i] = (self.v[i][0], x)
		else:
			self.v.append((k, x))


class Fn:
	__slots__ = ('params', 'body', 'env', 'node')

	def __init__(self, params, body, env, node):
		self.params, self.body, self.env, self.node = params, body, env, node


class Native:
	__slots__ = ('name', 'fn', 'state')

	def __init__(self, name, fn, state=None):
		self.name, self.fn, self.state = name, fn, state


class Err:
	__slots__ = ('desc', 'ctx')

	def __init__(self, desc, ctx):
		self.desc, self.ctx = desc, ctx


def typ(v):
	if v is None:
		return 'nil'
	t = type(v)
	return {bool: 'bool', int: 'int', float: 'float', Byte: 'char', bytes: 'string', Arr: 'array',
		Dict: 'dict', Fn: 'function', Native: 'function', Err: 'error'}[t]


def eq(a, b):
	ta, tb = typ(a), typ(b)
	if ta != tb:
		return False
	if ta == 'char':
		return a.n == b.n
	if ta == 'array':
		return a is b and not has_nan(a) or len(a.v) == len(b.v) and all(eq(x, y) for x, y in zip(a.v, b.v))
	if ta == 'dict':
		if len(a.v) != len(b.v):
			return False
		for k, x in a.v:
			ok, y = b.get(k)
			if not ok or not eq(x, y):
				return False
		return True
	if ta == 'function':
		return a is b
	if ta == 'error':
		return a.desc == b.desc and eq(a.ctx, b.ctx)
	return a == b


def has_nan(v):
	t = typ(v)
	if t == 'float':
		return math.isnan(v)
	if t == 'array':
		return any(has_nan(x) for x in v.v)
	if t == 'dict':
		return any(has_nan(k) or has_nan(x) for k, x in v.v)
	if t == 'error':
		return has_nan(v.ctx)
	return False


ORDER = ['nil', 'bool', 'char', 'int', 'float', 'string', 'array', 'dict', 'function', 'error']


def cmp(a, b):
	"""The total order used by std.sort on values of any type."""
	ta, tb = typ(a), typ(b)
	if ta != tb:
		return -1 if ORDER.index(ta) < ORDER.index(tb) else 1
	if ta == 'nil':
		return 0
	if ta == 'char':
		return (a.n > b.n) - (a.n < b.n)
	if ta == 'float':
		if math.isnan(a):
			return -1
		if math.isnan(b):
			return 1
		return (a > b) - (a < b)
	if ta == 'array':
		for x, y in zip(a.v, b.v):
			c = cmp(x, y)
			if c:
				return c
		return (len(a.v) > len(b.v)) - (len(a.v) < len(b.v))
	if ta == 'error':
		return (a.desc > b.desc) - (a.desc < b.desc) or cmp(a.ctx, b.ctx)
	if ta == 'dict':
		from functools import cmp_to_key
		key = cmp_to_key(cmp)
		xs = sorted(a.v, key=lambda p: key(p[0]))
		ys = sorted(b.v, key=lambda p: key(p[0]))
		for (k1, v1), (k2, v2) in zip(xs, ys):
			c = cmp(k1, k2) or cmp(v1, v2)
			if c:
				return c
		return (len(xs) > len(ys)) - (len(xs) < len(ys))
	return (a > b) - (a < b)


def show_float(x):
	"""Rust's {:?} formatting of f64: shortest digits that round trip."""
	if math.isnan(x):
		return 'NaN'
	if math.isinf(x):
		return 'inf' if x > 0 else '-inf'
	if x == 0:
		return '-0.0' if math.copysign(1, x) < 0 else '0.0'
	a = abs(x)
	r = repr(a)
	if 'e' in r:
		mant, exp = r.split('e')
		exp = int(exp)
	else:
		mant, exp = r, 0
	ip, _, fp = mant.partition('.')
	if fp == '0':
		fp = ''
	digits = ip + fp
	point = len(ip) + exp
	stripped = digits.lstrip('0')
	point -= len(digits) - len(stripped)
	digits = stripped.rstrip('0') or '0'
	# value = 0.digits * 10^point
	if 1e-4 <= a < 1e16:
		if point <= 0:
			s = '0.' + '0' * (-point) + digits
		elif point >= len(digits):
			s = digits + '0' * (point - len(digits)) + '.0'
		else:
			s = digits[:point] + '.' + digits[point:]
	else:
		e = point - 1
		s = digits[0] + ('.' + digits[1:] if len(digits) > 1 else '') + 'e' + str(e)
	return ('-' if x < 0 else '') + s


def show_str(b):
	out = ['"']
	for ch in b.decode('utf-8', errors='replace'):
		o = ord(ch)
		if ch == '\t':
			out.append('\\t')
		elif ch == '\r':
			out.append('\\r')
		elif ch == '\n':
			out.append('\\n')
		elif ch == '\0':
			out.append('\\0')
		elif ch in '\\\'"':
			out.append('\\' + ch)
		elif o < 0x20 or o == 0x7f:
			out.append('\\u{%x}' % o)
		else:
			out.append(ch)
	out.append('"')
	return ''.join(out)


def show(v):
	"""How a value nested in another one (or in a message) is displayed. Dicts: sorted by key text."""
	t = typ(v)
	if t == 'nil':
		return 'nil'
	if t == 'bool':
		return 'true' if v else 'false'
	if t == 'int':
		return str(v)
	if t == 'float':
		return show_float(v)
	if t == 'char':
		return chr(v.n)
	if t == 'string':
		return show_str(v)
	if t == 'array':
		return '[ ' + ', '.join(show(x) for x in v.v) + ' ]' if v.v else '[ ]'
	if t == 'dict':
		return '@[ ' + ', '.join(show(k) + ': ' + show(x) for k, x in v.v) + ' ]' if v.v else '@[ ]'
	if t == 'error':
		return 'error: %s (%s)' % (show_str(v.desc), show(v.ctx))
	if type(v) is Native:
		return v.name
	return 'function'


def text(v):
	"""std.print / std.println of one argument."""
	if type(v) is bytes:
		return v
	if type(v) is Byte:
		return bytes([v.n])
	return show(v).encode()


# ---------------------------------------------------------------------- printing source
PREC = {'or': 1, 'and': 2, '==': 3, '!=': 3, '<': 4, '<=': 4, '>': 4, '>=': 4, '++': 5, '+': 6, '-': 6,
	'*': 7, '/': 7, '%': 7}
UNARY, POSTFIX = 8, 9


def lit_str(b):
	out = ['"']
	for c in b:
		ch = chr(c)
		if ch == '"' or ch == '\\':
			out.append('\\' + ch)
		elif ch == '\n':
			out.append('\\n')
		elif ch == '\t':
			out.append('\\t')
		elif ch == '\0':
			out.append('\\0')
		else:
			out.append(ch)
	out.append('"')
	return ''.join(out)


def lit_byte(n):
	ch = chr(n)
	return "'" + {"'": "\\'", '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\0': '\\0'}.get(ch, ch) + "'"


def lit_float(x):
	"""Source text of a float literal. Hush has no literal for NaN, infinities and negatives."""
	if math.isnan(x):
		return '(0.0 / 0.0)'
	if math.isinf(x):
		return '(1.0 / 0.0)' if x > 0 else '(-1.0 / 0.0)'
	if math.copysign(1, x) < 0:
		return '(-%s)' % lit_float(-x)
	r = repr(x)
	if 'e' in r:
		m, e = r.split('e')
		if int(e) < 0:  # There are no negative exponents in literals.
			from decimal import Decimal
			return format(Decimal(r), 'f')
		if '.' not in m:
			m += '.0'
		return m + 'e' + str(int(e))
	return r


def expr(e, prec=0):
	k = e[0]
	if k == 'nil':
		return 'nil'
	if k == 'bool':
		return 'true' if e[1] else 'false'
	if k == 'int':
		if e[1] == I64_MIN:
			return '(-%d - 1)' % I64_MAX
		return '(-%d)' % -e[1] if e[1] < 0 else str(e[1])
	if k == 'float':
		return lit_float(e[1])
	if k == 'byte':
		return lit_byte(e[1])
	if k == 'str':
		return lit_str(e[1])
	if k == 'arr':
		return '[' + ', '.join(expr(x) for x in e[1]) + ']'
	if k == 'dict':
		return '@[' + ', '.join('%s: %s' % (n, expr(x)) for n, x in e[1]) + ']'
	if k == 'fn':
		return 'function(%s) %s end' % (', '.join(e[1]), block(e[2]))
	if k == 'var':
		return e[1]
	if k == 'self':
		return 'self'
	if k == 'raw':
		return e[1]
	if k == 'un':
		s = ('not ' if e[1] == 'not' else '-') + expr(e[2], UNARY)
		return '(%s)' % s if prec > UNARY else s
	if k == 'bin':
		p = PREC[e[1]]
		s = '%s %s %s' % (expr(e[2], p), e[1], expr(e[3], p + 1))
		return '(%s)' % s if prec > p else s
	if k == 'try':
		return expr(e[1], POSTFIX) + '?'
	if k == 'if':
		s = 'if %s then %s' % (expr(e[1]), block(e[2]))
		if e[3] is not None:
			s += ' else ' + block(e[3])
		return s + ' end'
	if k == 'idx':
		return '%s[%s]' % (expr(e[1], POSTFIX), expr(e[2]))
	if k == 'dot':
		if e[1][0] == 'int':  # 1.x is a malformed float.
			return '(%s).%s' % (expr(e[1]), e[2])
		return '%s.%s' % (expr(e[1], POSTFIX), e[2])
	if k == 'call':
		return '%s(%s)' % (expr(e[1], POSTFIX), ', '.join(expr(x) for x in e[2]))
	raise ValueError(k)


def stmt(s):
	k = s[0]
	if k == 'let':
		return 'let %s' % s[1] + (' = ' + expr(s[2]) if s[2] is not None else '')
	if k == 'letfn':
		return 'function %s(%s) %s end' % (s[1], ', '.join(s[2]), block(s[3]))
	if k == 'assign':
		return '%s = %s' % (expr(s[1]), expr(s[2]))
	if k == 'ret':
		return 'return' + (' ' + expr(s[1]) if s[1] is not None else '')
	if k == 'break':
		return 'break'
	if k == 'while':
		return 'while %s do %s end' % (expr(s[1]), block(s[2]))
	if k == 'for':
		return 'for %s in %s do %s end' % (s[1], expr(s[2]), block(s[3]))
	if k == 'expr':
		return expr(s[1])
	raise ValueError(k)


def block(b):
	parts = [stmt(s) for s in b]
	for i, p in enumerate(parts):
		# It would be read as a call, an access or an operand of the previous statement.
		if i and p[0] in '([-':
			parts[i] = 'if true then %s end' % p
	return '\n'.join(parts)


def rename(x, f):
	"""The program x with every variable and parameter n (except std) called f(n)."""
	if isinstance(x, list):
		return [rename(y, f) for y in x]
	if not isinstance(x, tuple) or not x:
		return x
	k = x[0]
	if k == 'var':
		return x if x[1] == 'std' else ('var', f(x[1]))
	if k == 'fn':
		return ('fn', [f(n) for n in x[1]], rename(x[2], f))
	if k == 'letfn':
		return ('letfn', f(x[1]), [f(n) for n in x[2]], rename(x[3], f))
	if k == 'let':
		return ('let', f(x[1]), rename(x[2], f))
	if k == 'for':
		return ('for', f(x[1]), rename(x[2], f), rename(x[3], f))
	if k == 'dot':
		return ('dot', rename(x[1], f), x[2])
	if k == 'dict':
		return ('dict', [(n, rename(y, f)) for n, y in x[1]])
	return (k,) + tuple(rename(y, f) if isinstance(y, (list, tuple)) else y for y in x[1:])


# ---------------------------------------------------------------------- static rules
class Static:
	"""The language's static rules, reported as a list of (kind, name)."""

	def __init__(self):
		self.errors = []
		self.scopes = [{'std'}]
		self.in_fn = self.in_loop = 0

	def err(self, kind, name=''):
		self.errors.append((kind, name))

	def declare(self, name):
		if name in self.scopes[-1]:
			self.err('duplicate variable', name)
		self.scopes[-1].add(name)

	def block(self, b, new=True):
		if new:
			self.scopes.append(set())
		for s in b:
			self.stmt(s)
		if new:
			self.scopes.pop()

	def fn(self, params, body):
		saved = self.in_fn, self.in_loop
		self.in_fn, self.in_loop = 1, 0
		self.scopes.append(set())
		for p in params:
			self.declare(p)
		self.block(body, False)
		self.scopes.pop()
		self.in_fn, self.in_loop = saved

	def stmt(self, s):
		k = s[0]
		if k == 'let':
			self.declare(s[1])
			if s[2] is not None:
				self.expr(s[2])
		elif k == 'letfn':
			self.declare(s[1])
			self.fn(s[2], s[3])
		elif k == 'assign':
			if s[1][0] not in ('var', 'idx', 'dot'):
				self.err('invalid assignment')
			else:
				self.expr(s[1])
			self.expr(s[2])
		elif k == 'ret':
			if not self.in_fn:
				self.err('return outside function')
			if s[1] is not None:
				self.expr(s[1])
		elif k == 'break':
			if not self.in_loop:
				self.err('break outside loop')
		elif k == 'while':
			self.expr(s[1])
			saved, self.in_loop = self.in_loop, 1
			self.block(s[2])
			self.in_loop = saved
		elif k == 'for':
			self.expr(s[2])
			saved, self.in_loop = self.in_loop, 1
			self.scopes.append({s[1]})
			self.block(s[3], False)
			self.scopes.pop()
			self.in_loop = saved
		elif k == 'expr':
			self.expr(s[1])

	def expr(self, e):
		k = e[0]
		if k == 'var':
			if not any(e[1] in s for s in self.scopes):
				self.err('undeclared variable', e[1])
		elif k == 'self':
			if not self.in_fn:
				self.err('self outside function')
		elif k == 'arr':
			for x in e[1]:
				self.expr(x)
		elif k == 'dict':
			seen = set()
			for n, x in e[1]:
				if n in seen:
					self.err('duplicate key', n)
				seen.add(n)
				self.expr(x)
		elif k == 'fn':
			self.fn(e[1], e[2])
		elif k == 'un':
			self.expr(e[2])
		elif k == 'bin':
			self.expr(e[2])
			self.expr(e[3])
		elif k == 'try':
			if not self.in_fn:
				self.err('try outside function')
			self.expr(e[1])
		elif k == 'if':
			self.expr(e[1])
			self.block(e[2])
			if e[3] is not None:
				self.block(e[3])
		elif k == 'idx':
			self.expr(e[1])
			self.expr(e[2])
		elif k == 'dot':
			self.expr(e[1])
		elif k == 'call':
			self.expr(e[1])
			for x in e[2]:
				self.expr(x)


def static_errors(program):
	s = Static()
	s.block(program, False)
	return s.errors


# ---------------------------------------------------------------------- reference interpreter
class Panic(Exception):
	def __init__(self, msg):
		self.msg = msg


class Fuel(Exception):
	pass


class _Break(Exception):
	pass


class _Return(Exception):
	def __init__(self, v):
		self.v = v


class Cell:
	__slots__ = ('v',)

	def __init__(self):
		self.v = None


class Env:
	"""A lexical scope of one function activation.

	frame: the activation's cells, keyed by the declaring statement: a declaration that is executed
	again in the same activation (loop body) denotes the same variable."""
	__slots__ = ('vars', 'parent', 'frame', 'self')

	def __init__(self, parent, frame, self_):
		self.vars, self.parent, self.frame, self.self = {}, parent, frame, self_

	def lookup(self, name):
		e = self
		while e is not None:
			c = e.vars.get(name)
			if c is not None:
				return c
			e = e.parent
		raise KeyError(name)

	def declare(self, name, node):
		key = (id(node), name)
		c = self.frame.get(key)
		if c is None:
			c = self.frame[key] = Cell()
		self.vars[name] = c
		return c


def type_error(v, expected):
	return Panic('value (%s) has unexpected type, expected %s' % (show(v), expected))


def index_error(v):
	return Panic('index (%s) out of bounds' % show(v))


def frem(a, b):
	if math.isnan(a) or math.isnan(b) or math.isinf(a) or b == 0:
		return math.nan
	return math.fmod(a, b)


def fdiv(a, b):
	if b == 0:
		if a == 0 or math.isnan(a):
			return math.nan
		return math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))
	try:
		return a / b
	except OverflowError:
		return math.inf


def fmul(a, b):
	return a * b


class Interp:
	def __init__(self, fuel=20000, std=None):
		self.out = []
		self.fuel = fuel
		self.steps = 0
		self.depth = 0
		self.std = Dict()
		self.std.v = [(k.encode(), Native('std.' + k, f)) for k, f in (std or STD).items()]
		self.globals = Env(None, {}, None)
		self.globals.vars['std'] = Cell()
		self.globals.vars['std'].v = self.std

	# statements ------------------------------------------------------------
	def block(self, b, env):
		v = None
		for s in b:
			if s[0] == 'let' or s[0] == 'letfn':
				# What precedes the declaration keeps referring to the outer variable.
				env = Env(env, env.frame, env.self)
			v = self.stmt(s, env)
		return v

	def top(self, b):
		"""Execute top level statements, keeping their declarations for what follows."""
		for s in b:
			if s[0] == 'let' or s[0] == 'letfn':
				self.globals = Env(self.globals, self.globals.frame, None)
			self.stmt(s, self.globals)

	def sub(self, b, env):
		return self.block(b, Env(env, env.frame, env.self))

	def tick(self):
		self.steps += 1
		if self.steps > self.fuel:
			raise Fuel()

	def stmt(self, s, env):
		self.tick()
		k = s[0]
		if k == 'expr':
			return self.expr(s[1], env)
		if k == 'let':
			c = env.declare(s[1], s)
			c.v = self.expr(s[2], env) if s[2] is not None else None
			return None
		if k == 'letfn':
			c = env.declare(s[1], s)
			c.v = Fn(s[2], s[3], env, s)
			return None
		if k == 'assign':
			v = self.expr(s[2], env)
			t = s[1]
			if t[0] == 'var':
				env.lookup(t[1]).v = v
				return None
			o = self.expr(t[1], env)
			f = t[2].encode() if t[0] == 'dot' else self.expr(t[2], env)
			self.set(o, f, v)
			return None
		if k == 'ret':
			raise _Return(self.expr(s[1], env) if s[1] is not None else None)
		if k == 'break':
			raise _Break()
		if k == 'while':
			while True:
				self.tick()
				c = self.expr(s[1], env)
				if type(c) is not bool:
					raise Panic('condition (%s) is not a boolean' % show(c))
				if not c:
					return None
				try:
					self.sub(s[2], env)
				except _Break:
					return None
		if k == 'for':
			it = self.expr(s[2], env)
			if typ(it) != 'function':
				raise type_error(it, 'function')
			scope = Env(env, env.frame, env.self)
			cell = scope.declare(s[1], s)
			while True:
				self.tick()
				r = self.call(it, [], None)
				if typ(r) != 'dict':
					raise type_error(r, 'dict')
				ok, fin = r.get(b'finished')
				if not ok:
					raise index_error(b'finished')
				if type(fin) is not bool:
					raise type_error(fin, 'bool')
				if fin:
					return None
				ok, v = r.get(b'value')
				if not ok:
					raise index_error(b'value')
				cell.v = v
				try:
					self.block(s[3], Env2(scope))
				except _Break:
					return None
		raise ValueError(k)

	def set(self, o, f, v):
		t = typ(o)
		if t == 'dict':
			o.set(f, v)
		elif t == 'array':
			if type(f) is not int:
				raise type_error(f, 'int')
			if not 0 <= f < len(o.v):
				raise index_error(f)
			o.v[f] = v
		elif t == 'error':
			raise Panic('attempt to assign field (%s), which is readonly' % show(f))
		else:
			raise type_error(o, 'array, dict or error')

	# expressions -----------------------------------------------------------
	def expr(self, e, env):
		self.tick()
		return getattr(self, 'e_' + e[0])(e, env)

	def e_nil(self, e, env):
		return None

	def e_bool(self, e, env):
		return e[1]

	e_int = e_float = e_str = e_bool

	def e_byte(self, e, env):
		return Byte(e[1])

	def e_arr(self, e, env):
		return Arr([self.expr(x, env) for x in e[1]])

	def e_dict(self, e, env):
		d = Dict()
		for n, x in e[1]:
			d.set(n.encode(), self.expr(x, env))
		return d

	def e_fn(self, e, env):
		return Fn(e[1], e[2], env, e)

	def e_var(self, e, env):
		return env.lookup(e[1]).v

	def e_self(self, e, env):
		return env.self

	def e_un(self, e, env):
		v = self.expr(e[2], env)
		return unary(e[1], v)

	def e_try(self, e, env):
		v = self.expr(e[1], env)
		if type(v) is Err:
			raise _Return(v)
		return v

	def e_bin(self, e, env):
		op = e[1]
		a = self.expr(e[2], env)
		if op in ('and', 'or'):
			if type(a) is not bool:
				raise type_error(a, 'bool')
			if a == (op == 'or'):
				return a
			b = self.expr(e[3], env)
			if type(b) is not bool:
				raise type_error(b, 'bool')
			return b
		return binary(op, a, self.expr(e[3], env))

	def e_if(self, e, env):
		c = self.expr(e[1], env)
		if type(c) is not bool:
			raise Panic('condition (%s) is not a boolean' % show(c))
		if c:
			return self.sub(e[2], env)
		return self.sub(e[3], env) if e[3] is not None else None

	def access(self, e, env):
		o = self.expr(e[1], env)
		f = e[2].encode() if e[0] == 'dot' else self.expr(e[2], env)
		return o, self.get(o, f)

	def get(self, o, f):
		t = typ(o)
		if t == 'dict':
			ok, v = o.get(f)
			if not ok:
				raise index_error(f)
			return v
		if t in ('array', 'string'):
			if type(f) is not int:
				raise type_error(f, 'int')
			seq = o.v if t == 'array' else o
			if not 0 <= f < len(seq):
				raise index_error(f)
			return seq[f] if t == 'array' else Byte(seq[f])
		if t == 'error':
			if f == b'description':
				return o.desc
			if f == b'context':
				return o.ctx
			raise index_error(f)
		raise type_error(o, 'string, array, dict or error')

	def e_idx(self, e, env):
		return self.access(e, env)[1]

	e_dot = e_idx

	def e_call(self, e, env):
		obj = None
		if e[1][0] in ('idx', 'dot'):
			obj, f = self.access(e[1], env)
		else:
			f = self.expr(e[1], env)
		if typ(f) != 'function':
			raise Panic('attempt to call (%s), which is not a function' % show(f))
		args = [self.expr(x, env) for x in e[2]]
		return self.call(f, args, obj)

	def call(self, f, args, obj):
		self.tick()
		if type(f) is Native:
			return f.fn(self, args, obj, f.state)
		if len(args) != len(f.params):
			raise Panic('incorrect amount of function parameters -- supplied %d, expected %d' % (len(args), len(f.params)))
		env = Env(f.env, {}, obj)
		for p, a in zip(f.params, args):
			env.declare(p, f.params).v = a
		self.depth += 1
		if self.depth > 400:
			raise Fuel()
		try:
			return self.block(f.body, env)
		except _Return as r:
			return r.v
		finally:
			self.depth -= 1

	def run(self, program):
		"""Run as a top level program: returns ('ok', value) or ('panic', message)."""
		try:
			return ('ok', self.block(program, self.globals))
		except Panic as p:
			return ('panic', p.msg)


def Env2(scope):
	# The loop variable and the body's own declarations share one scope.
	return scope


def unary(op, v):
	if op == '-':
		if type(v) is float:
			return -v
		if type(v) is int:
			if v == I64_MIN:
				raise Panic('integer overflow')
			return -v
		raise type_error(v, 'int or float')
	if type(v) is not bool:
		raise type_error(v, 'bool')
	return not v


def binary(op, a, b):
	if op == '==':
		return eq(a, b)
	if op == '!=':
		return not eq(a, b)
	if op == '++':
		if type(a) is not bytes:
			raise type_error(a, 'string')
		if type(b) is not bytes:
			raise type_error(b, 'string')
		return a + b
	if op in '+-*/%':
		if type(a) is int:
			if type(b) is not int:
				raise type_error(b, 'int')
			if op in '/%':
				if b == 0 or (a == I64_MIN and b == -1):
					raise Panic('division by zero')
				q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
				return q if op == '/' else a - q * b
			r = a + b if op == '+' else a - b if op == '-' else a * b
			if not I64_MIN <= r <= I64_MAX:
				raise Panic('integer overflow')
			return r
		if type(a) is float:
			if type(b) is not float:
				raise type_error(b, 'float')
			if op == '+':
				return a + b
			if op == '-':
				return a - b
			if op == '*':
				return fmul(a, b)
			return fdiv(a, b) if op == '/' else frem(a, b)
		raise type_error(a, 'int or float')
	# comparison
	ta, tb = typ(a), typ(b)
	if ta not in ('int', 'float', 'char', 'string'):
		raise type_error(a, 'int, float, byte or string')
	if ta != tb:
		raise type_error(b, ta)
	c = cmp(a, b)
	return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]


# ---------------------------------------------------------------------- a minimal std
def args_n(n):
	def deco(f):
		def g(it, args, obj, st):
			if len(args) != n:
				raise Panic('incorrect amount of function parameters -- supplied %d, expected %d' % (len(args), n))
			return f(it, *args)
		return g
	return deco


def n_println(it, args, obj, st):
	it.out.append(b'\t'.join(text(a) for a in args))
	return None


@args_n(1)
def n_catch(it, f):
	if typ(f) != 'function':
		raise type_error(f, 'function')
	depth = it.depth
	try:
		return it.call(f, [], None)
	except Panic as p:
		it.depth = depth
		return Err(b'caught panic: ' + p.msg.encode(), b'panic')


@args_n(2)
def n_error(it, d, c):
	if type(d) is not bytes:
		raise type_error(d, 'string')
	return Err(d, c)


@args_n(1)
def n_type(it, v):
	return typ(v).encode()


@args_n(1)
def n_len(it, v):
	t = typ(v)
	if t == 'array' or t == 'dict':
		return len(v.v)
	if t == 'string':
		return len(v)
	raise type_error(v, 'string, array or dict')


@args_n(2)
def n_push(it, a, v):
	if typ(a) != 'array':
		raise type_error(a, 'array')
	a.v.append(v)
	return None


@args_n(1)
def n_pop(it, a):
	if typ(a) != 'array':
		raise type_error(a, 'array')
	if not a.v:
		raise Panic('collection is empty')
	return a.v.pop()


@args_n(1)
def n_panic(it, v):
	raise Panic('std.panic(%s)' % show(v))


@args_n(1)
def n_assert(it, v):
	if type(v) is not bool:
		raise type_error(v, 'bool')
	if not v:
		raise Panic('assertion failed')
	return None


def _iteration(v=None, fin=False):
	d = Dict()
	d.set(b'finished', fin)
	if not fin:
		d.set(b'value', v)
	return d


def _range_next(it, args, obj, st):
	if args:
		raise Panic('incorrect amount of function parameters -- supplied %d, expected 0' % len(args))
	cur, to, step = st
	if cur is None or (not cmp(cur, to) < 0 if cmp(step, type(step)(0)) > 0 else not cmp(cur, to) > 0):
		return _iteration(fin=True)
	nxt = cur + step
	if type(nxt) is int and not I64_MIN <= nxt <= I64_MAX:
		nxt = None
	st[0] = nxt
	return _iteration(cur)


def n_range(it, args, obj, st):
	if len(args) != 3:
		raise Panic('incorrect amount of function parameters -- supplied %d, expected 3' % len(args))
	for a in args:
		if typ(a) not in ('int', 'float'):
			raise type_error(a, 'int or float')
	if any(type(a) is float for a in args):
		args = [float(a) for a in args]
	return Native('std.range<impl>', _range_next, list(args))


def _iter_next(it, args, obj, st):
	if args:
		raise Panic('incorrect amount of function parameters -- supplied %d, expected 0' % len(args))
	kind, src, ix = st
	n = len(src.v) if kind == 'array' else len(src)
	if ix >= n:
		return _iteration(fin=True)
	st[2] += 1
	if kind == 'array':
		return _iteration(src.v[ix])
	if kind == 'string':
		return _iteration(Byte(src[ix]))
	return _iteration(Dict([(b'key', src[ix][0]), (b'value', src[ix][1])]))


@args_n(1)
def n_iter(it, v):
	t = typ(v)
	if t == 'array':
		return Native('std.iter<impl>', _iter_next, ['array', v, 0])
	if t == 'string':
		return Native('std.iter<impl>', _iter_next, ['string', v, 0])
	if t == 'dict':
		return Native('std.iter<impl>', _iter_next, ['dict', list(v.v), 0])
	raise type_error(v, 'string, array or dict')


@args_n(2)
def n_bind(it, obj, f):
	if typ(f) != 'function':
		raise type_error(f, 'function')
	return Native('std.bind<impl>', lambda it, args, _, st: it.call(f, args, obj))


def has_error(v):
	t = typ(v)
	if t == 'array':
		return any(has_error(x) for x in v.v)
	if t == 'dict':
		return any(has_error(k) or has_error(x) for k, x in v.v)
	return t == 'error'


@args_n(1)
def n_has_error(it, v):
	return has_error(v)


@args_n(2)
def n_contains(it, c, x):
	t = typ(c)
	if t == 'array':
		return any(eq(y, x) for y in c.v)
	if t == 'dict':
		return c.find(x) >= 0
	if t == 'string':
		if typ(x) != 'char':
			raise type_error(x, 'char')
		return x.n in c
	raise type_error(c, 'string ,array or dict')


@args_n(1)
def n_is_empty(it, c):
	t = typ(c)
	if t in ('array', 'dict'):
		return not c.v
	if t == 'string':
		return not c
	raise type_error(c, 'string, array or dict')


@args_n(1)
def n_sort(it, a):
	import functools
	if typ(a) != 'array':
		raise type_error(a, 'array')
	a.v.sort(key=functools.cmp_to_key(cmp))
	return None


STD = {
	'bind': n_bind, 'has_error': n_has_error, 'contains': n_contains, 'is_empty': n_is_empty, 'sort': n_sort,
	'println': n_println, 'catch': n_catch, 'error': n_error, 'type': n_type, 'len': n_len,
	'push': n_push, 'pop': n_pop, 'panic': n_panic, 'assert': n_assert, 'range': n_range, 'iter': n_iter,
}


# ---------------------------------------------------------------------- AST shorthands
def V(n):
	return ('var', n)


def I(n):
	return ('int', n)


def S(b):
	return ('str', b if isinstance(b, bytes) else b.encode())


def B(op, a, b):
	return ('bin', op, a, b)


def C(f, *a):
	return ('call', f, list(a))


def D(o, n):
	return ('dot', o, n)


def STDC(n, *a):
	return ('call', ('dot', ('var', 'std'), n), list(a))


def P(*a):
	"""Trace statement."""
	return ('expr', STDC('println', *a))


def E(e):
	return ('expr', e)


def L(n, e=None):
	return ('let', n, e)


def A(t, e):
	return ('assign', t if isinstance(t, tuple) else V(t), e)


def F(params, *body):
	return ('fn', list(params), list(body))


NIL, TRUE, FALSE = ('nil',), ('bool', True), ('bool', False)
