"""C14: library calls never crash; wrong arity or types give a catchable panic without side effects.

Every function reachable from std (and every function returned by one) is called with every tuple of up to three arguments
(four over a smaller domain) from a domain that has every type and boundary values. A signature table written from the
documentation predicts for every tuple: panic, or a result of one of the listed types; a panic must leave all arguments as
they were."""
import itertools
import re

from vlib.core import chunks
from vlib.lang import I64_MAX

# (tag, source); the tag's first word is the type.
DOM = [
	('nil', 'nil'), ('bool t', 'true'), ('bool f', 'false'), ('int 0', '0'), ('int 1', '1'), ('int -1', '0 - 1'), ('int max', str(I64_MAX)), ('int min', '0 - %d - 1' % I64_MAX), ('int 300', '300'), ('float', '0.5'),
	('float nan', '0.0 / 0.0'), ('float inf', '1.0 / 0.0'), ('float -0', '0.0 - 0.0'), ('char', "'a'"), ('string empty', '""'), ('string a', '"a"'), ('string nul', '"\\0="'), ('string type', '"int"'), ('string rx', '"("'), ('string b64', '"YQ=="'),
	('string num', '"12"'), ('string json', '"[1]"'), ('string ff', '"\xff\xfe"'), ('array empty', '[]'), ('array', '[ 2, 1 ]'), ('array mixed', '[ nil, [ 1 ], "x" ]'), ('array error', '[ std.error("e", nil) ]'), ('array fun', '[ std.len ]'), ('dict empty', '@[]'), ('dict', '@[ a: 1 ]'),
	('dict nonstr', '(function() let d = @[] d[1] = 2 d end)()'), ('function 0', 'function() 1 end'), ('function 1', 'function(x) x end'), ('function panic', 'function() std.panic("p") end'), ('function std', 'std.len'), ('error', 'std.error("e", 1)'),
]
SMALL = [0, 1, 4, 9, 13, 15, 24, 29, 31, 35]
TINY = [0, 4, 15, 24]
TYPES = {'nil', 'bool', 'int', 'float', 'char', 'string', 'array', 'dict', 'function', 'error'}
NAMES = TYPES
P = 'P'


def ty(a):
	return a.split()[0]


def fixed(*params, ret):
	"""A function of exactly these parameter types ('a|b', '*' for any); ret is a set of types or a predicate on the arguments."""
	sets = [None if p == '*' else set(p.split('|')) for p in params]

	def spec(args):
		if len(args) != len(sets) or any(s is not None and ty(a) not in s for a, s in zip(args, sets)):
			return P
		return ret(*args) if callable(ret) else set(ret.split('|'))
	return spec


def int_of(a):
	if ty(a) == 'string':
		return {'int'} if a == 'string num' else P
	return {'int'}


def json_enc(a):
	return P if a in ('array error', 'array fun', 'dict nonstr', 'error') or ty(a) == 'function' else {'string'}


def contains(c, x):
	return P if ty(c) == 'string' and ty(x) != 'char' else {'bool'}


def num3(a, b, c):
	return {'function'}


def typecheck(v, t):
	if t != 'string type':
		return P
	return {'int'} if ty(v) == 'int' else P


def catch(f):
	return {'error'} if f in ('function panic', 'function 1', 'function std') else {'int'}


SPECS = {
	'args': fixed(ret='array'), 'assert': fixed('bool', ret=lambda b: {'nil'} if b == 'bool t' else P), 'bind': fixed('*', 'function', ret='function'), 'bytes': fixed('string', ret='array'), 'catch': fixed('function', ret=catch),
	'contains': fixed('array|dict|string', '*', ret=contains), 'cwd': fixed(ret='string'), 'env': fixed('string', ret='string|nil'), 'error': fixed('string', '*', ret='error'), 'float': fixed('int|float|string', ret=lambda a: int_of(a) if int_of(a) == P else {'float'}),
	'int': fixed('int|float|string', ret=int_of), 'glob': fixed('string', ret='array|error'), 'has_error': fixed('*', ret='bool'), 'import': fixed('string', ret=lambda a: P), 'is_empty': fixed('string|array|dict', ret='bool'),
	'len': fixed('string|array|dict', ret='int'), 'iter': fixed('string|array|dict', ret='function'), 'panic': fixed('*', ret=lambda a: P), 'pop': fixed('array', ret=lambda a: P if a == 'array empty' else TYPES), 'push': fixed('array', '*', ret='nil'), 'rand': fixed(ret='float'),
	'randint': fixed('int', 'int', ret=lambda a, b: {'int'} if val(a) <= val(b) else P), 'randseed': fixed('int', ret='nil'), 'range': fixed('int|float', 'int|float', 'int|float', ret=num3), 'replace': fixed('string', 'string', 'string', ret='string'),
	'regex': fixed('string', ret=lambda a: {'error'} if a in ('string rx', 'string ff') else {'dict'}), 'sleep': fixed('int', ret=lambda a: {'nil'} if val(a) >= 0 else P), 'sort': fixed('array', ret='nil'), 'split': fixed('string', 'string', ret='array'),
	'substr': fixed('string', 'int', 'int', ret='string|nil'), 'to_string': fixed('*', ret='string'), 'trim': fixed('string', ret='string'), 'type': fixed('*', ret='string'), 'typecheck': fixed('*', 'string', ret=typecheck),
	'try_typecheck': fixed('*', 'string', ret=lambda v, t: P if t != 'string type' else {'nil'} if ty(v) == 'int' else {'error'}),
	'json.encode': fixed('*', ret=json_enc), 'json.decode': fixed('string', ret=lambda a: {'array'} if a == 'string json' else {'int'} if a == 'string num' else {'error'}),
	'base64.encode': fixed('string', ret='string'), 'base64.decode': fixed('string', ret='string|error'), 'hex.encode': fixed('string', ret='string'), 'hex.decode': fixed('string', ret='string|error'),
	'cd': fixed('string', ret='error'), 'export': fixed('string', 'string', ret=lambda k, v: {'error'} if k in ('string empty', 'string nul', 'string b64') or v == 'string nul' else {'nil'}),
	'exit': fixed('int', ret=lambda a: P), 'read': None, 'print': None, 'println': None,
}
# std.read takes an optional string.
SPECS['read'] = lambda args: {'string'} if not args or len(args) == 1 and ty(args[0]) == 'string' else P
DERIVED = {
	'std.regex("a").match': fixed('string', ret='bool'), 'std.regex("a").split': fixed('string', ret='array'), 'std.regex("a").replace': fixed('string', 'string', ret='string'),
	'std.iter([ 1 ])': lambda a: {'dict'} if not a else P, 'std.iter("a")': lambda a: {'dict'} if not a else P, 'std.iter(@[ a: 1 ])': lambda a: {'dict'} if not a else P, 'std.range(0, 9, 1)': lambda a: {'dict'} if not a else P, 'std.range(0.5, 9, 1)': lambda a: {'dict'} if not a else P,
	'std.bind(nil, std.len)': fixed('string|array|dict', ret='int'), 'std.bind(nil, function(a, b) [ a, b ] end)': fixed('*', '*', ret='array'), 'std.bind(std, std.bind(1, std.split))': fixed('string', 'string', ret='array'), 'std.bind(1, function() 2 end)': fixed(ret='int'),
	'function() 2 end': fixed(ret='int'), 'function(a) a end': lambda a: TYPES if len(a) == 1 else P, 'function(a, b, c) nil end': fixed('*', '*', '*', ret='nil'),
}
MUTATORS = {'push', 'pop', 'sort'}


def val(a):
	return {'0': 0, '1': 1, '-1': -1, 'max': I64_MAX, 'min': -I64_MAX - 1, '300': 300}[a.split()[1]]


def allowed(name, args):
	"""Calls that end the process or take long are not part of the sweep."""
	if name == 'sleep' and len(args) == 1 and args[0] == 'int max':
		return False
	if name == 'exit' and len(args) == 1 and args[0] in ('int 0', 'int 1'):
		return False
	return True


def tuples(name, quick):
	n = len(DOM)
	yield ()
	for k in (1, 2):
		yield from itertools.product(range(n), repeat=k)
	yield from itertools.product(range(n), repeat=3)
	yield from itertools.product(SMALL if not quick else TINY, repeat=4)


def script(access, tups):
	src = ['let mk = [\n' + ',\n'.join('\tfunction() %s end' % s for _, s in DOM) + '\n]\n']
	src.append('''let go = function(ix, f)
	let a = []
	for i in std.iter(ix) do
		let m = mk[i]
		std.push(a, m())
	end
	let n = std.len(a)
	let before = std.to_string(a)
	let ok = false
	let r = std.catch(function()
		let v = if n == 0 then f()
			else if n == 1 then f(a[0])
			else if n == 2 then f(a[0], a[1])
			else if n == 3 then f(a[0], a[1], a[2])
			else f(a[0], a[1], a[2], a[3]) end end end end
		ok = true
		v
	end)
	std.println("\\n@", ok, std.type(r), std.to_string(a) == before, ok or std.typecheck(r.description, "string") != "")
end
''')
	src.append('let todo = [\n' + ',\n'.join('[' + ', '.join(map(str, t)) + ']' for t in tups) + '\n]\nfor t in std.iter(todo) do go(t, %s) end\n' % access)
	return ''.join(src).encode('latin-1')


def sweep_function(ctx, item):
	name, access, tups = item
	spec = SPECS.get(name) or DERIVED[name]
	r = ctx.run(script(access, tups), timeout=300)
	got = re.findall(rb'@\t(true|false)\t(\w+)\t(true|false)\t(true|false)\n', r.out)
	bad = []
	for t, g in zip(tups, got):
		args = [DOM[i][0] for i in t]
		ok, rt, same = g[0] == b'true', g[1].decode(), g[2] == b'true'
		want = spec(args)
		if want == P and ok:
			bad.append((name, t, 'returned %s, a panic was expected' % rt))
		elif want != P and not ok:
			bad.append((name, t, 'panicked, expected a result of type %s' % sorted(want)))
		elif want != P and rt not in want:
			bad.append((name, t, 'returned %s, expected %s' % (rt, sorted(want))))
		elif not same and (not ok or name not in MUTATORS):
			bad.append((name, t, 'changed its arguments'))
		if len(bad) > 3:
			break
	if not bad and (r.rc != 0 or len(got) != len(tups)):
		t = tups[len(got)] if len(got) < len(tups) else ()
		bad.append((name, t, 'the interpreter did not survive: ' + r.brief()))
	return len(tups), bad


CYCLIC = {
	'std.to_string': 'std.to_string(a)', 'std.println': 'std.println(a)', '==': 'let b = [ ] std.push(b, b) std.println(a == b)', 'dict key': 'let d = @[] d[a] = 1', 'std.has_error': 'std.has_error(a)', 'std.json.encode': 'std.json.encode(a)',
	'panic message': 'std.catch(function() a + 1 end)',
}


def check(ctx):
	q = ctx.quick

	def items():
		for name, spec in SPECS.items():
			if spec:
				yield from one(name, 'std.' + name, spec)
		for name, spec in DERIVED.items():
			yield from one(name, '(%s)' % name if name.startswith('function') else name, spec)

	def one(name, access, spec):
		todo = [t for t in tuples(name, q) if allowed(name, [DOM[i][0] for i in t])]
		for part in chunks(todo, 6000):
			yield (name, access, part)
	n = 0
	for k, bad in ctx.pmap(lambda it: sweep_function(ctx, it), items()):
		n += k
		for name, t, what in bad:
			args = ', '.join(DOM[i][1] for i in t)
			ctx.violation('%s(%s)' % (name, args), what, {'t.hsh': script('std.' + name if name in SPECS else name, [t])})
	# Every library function is in the table.
	r = ctx.run('for e in std.iter(std) do if std.type(e.value) == "dict" then for g in std.iter(e.value) do std.println(e.key ++ "." ++ g.key) end else std.println(e.key) end end')
	listed = set(r.out.decode().split())
	for missing in sorted(set(SPECS) - listed):
		ctx.violation('std.%s' % missing, 'the function is gone: ' + r.brief())
	ctx.add('functions_in_std', len(listed))
	ctx.add('functions_not_in_table', len(listed - set(SPECS)))
	# Values that contain themselves.
	cyc = [(name, c, src) for name, src in CYCLIC.items() for c in ('let a = [ ] std.push(a, a)', 'let a = @[ ] a.a = a', 'let a = [ @[] ] a[0].k = a')]
	for (name, c, src), r in zip(cyc, ctx.pmap(lambda it: ctx.run(it[1] + '\n' + it[2] + '\n', timeout=60), cyc)):
		n += 1
		if r.crashed:
			ctx.violation('cyclic value: ' + name, c + '; ' + src + '\n' + r.brief())
	for src in ('let a = @[ ] a[a] = 1', 'let a = @[ ] a[[a]] = 1', 'let a = @[ b: 2 ] a[@[ k: a ]] = 1', 'let a = @[ ] let k = [ ] a[k] = 1 std.push(k, a) for i in std.range(0, 64, 1) do a[i] = 1 end'):
		r = ctx.run(src + '\n', timeout=60)
		n += 1
		if r.crashed:
			ctx.violation('cyclic value: dict in its own key', src + '\n' + r.brief())
	for src in ('std.len(a)', 'std.type(a)', 'std.is_empty(a)', 'std.push(a, a)', 'for x in std.iter(a) do x end', 'a[0] = a'):
		r = ctx.run('let a = [ ] std.push(a, a)\n' + src + '\n', timeout=20)
		if r.rc != 0:
			ctx.violation('cyclic: ' + src, r.brief())
	return {'exhaustive': True, 'states': n, 'transitions': n, 'traces_validated_against_impl': n, 'functions': len(SPECS) + len(DERIVED), 'domain': len(DOM),
		'rule': 'all functions x all argument tuples of length 0-3 over 36 values, length 4 over 4 (thorough 10) values'}
