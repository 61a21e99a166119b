"""C08: an uncaught panic stops the program with status 127 and a correct position.

All panic kinds x all chains of up to two (thorough: three) nesting contexts x layouts that move the construct. The
marker ^ in a kind stands for the place the message has to name; the traces around the construct tell what has to have
been executed, and that nothing is executed afterwards."""
import itertools
import os
import re

from vlib import multirun
from vlib.core import chunks

# (source with marker, message or None). Variables are prefixed to stay clear of those of the contexts.
KINDS = [
	('let z = 1 + ^"a"', 'value ("a") has unexpected type, expected int'),
	('let z = ^nil + 1', 'value (nil) has unexpected type, expected int or float'),
	('let z = 1.5 * ^1', 'value (1) has unexpected type, expected float'),
	('let z = 1 ^/ 0', 'division by zero'),
	('let z = 7 ^% 0', 'division by zero'),
	('let z = 9223372036854775807 ^+ 1', 'integer overflow'),
	('let z = (1 - 2) - 9223372036854775807 ^- 1', 'integer overflow'),
	('let z = 1 +\n\t 2 * ^nil', 'value (nil) has unexpected type, expected int'),
	('let z = (2 ^+ 3) ++ "b"', 'value (5) has unexpected type, expected string'),
	('let z = -^"a"', 'value ("a") has unexpected type, expected int or float'),
	('let z = not ^1', 'value (1) has unexpected type, expected bool'),
	('let z = ^5 and true', 'value (5) has unexpected type, expected bool'),
	('let z = false or ^5', 'value (5) has unexpected type, expected bool'),
	('let z = 1 < ^"a"', 'value ("a") has unexpected type, expected int'),
	('let z = ^true < 1', 'value (true) has unexpected type, expected int, float, byte or string'),
	('let z = "a" ++ ^1', 'value (1) has unexpected type, expected string'),
	('let z = [1] z[^5]', 'index (5) out of bounds'),
	('let z = [1] z[^5] = 3', 'index (5) out of bounds'),
	('let z = [1] z^[-1] = 3', 'index (-1) out of bounds'),
	('let z = [1] z[^-2]', 'index (-2) out of bounds'),
	('let z = [1] z[^"x"]', 'value ("x") has unexpected type, expected int'),
	('let z = @[] z.^foo', 'index ("foo") out of bounds'),
	('let z = @[a: @[]] z.a.^foo.bar', 'index ("foo") out of bounds'),
	('let z = 1 ^z.x = 3', 'value (1) has unexpected type, expected array, dict or error'),
	('let z = 1 let y = ^z.x', 'value (1) has unexpected type, expected string, array, dict or error'),
	('let z = 5 ^z(1)', 'attempt to call (5), which is not a function'),
	('let z = function(x) x end z^()', 'incorrect amount of function parameters -- supplied 0, expected 1'),
	('let z = function() 1 end z^(\n1, 2)', 'incorrect amount of function parameters -- supplied 2, expected 0'),
	('std.panic^(1)', 'std.panic(1)'),
	('std.panic^("a\\nb")', 'std.panic("a\\nb")'),
	('std.assert^(false)', 'assertion failed'),
	('std.assert^(1)', 'value (1) has unexpected type, expected bool'),
	('std.len^(5)', 'value (5) has unexpected type, expected string, array or dict'),
	('std.len^()', 'incorrect amount of function parameters -- supplied 0, expected 1'),
	('std.pop^([])', 'collection is empty'),
	('if ^5 then 1 end', 'condition (5) is not a boolean'),
	('if false then 1 elseif ^nil then 2 end', 'condition (nil) is not a boolean'),
	('while ^5 do 1 end', 'condition (5) is not a boolean'),
	('for q in ^5 do 1 end', 'value (5) has unexpected type, expected function'),
	('for q in ^function() 5 end do 1 end', 'value (5) has unexpected type, expected dict'),
	('for q in ^function() @[] end do 1 end', 'index ("finished") out of bounds'),
	('for q in function() 1 + ^nil end do 1 end', 'value (nil) has unexpected type, expected int'),
	('for q in std.iter([1, 2]) do if q == 2 then std.panic^(q) end end', 'std.panic(2)'),
	('let z = std.error("a", 1)  z.^description = 3', 'attempt to assign field ("description"), which is readonly'),
	('let z = function()\n\t1 + ^nil\nend\n z()', 'value (nil) has unexpected type, expected int'),
	('let z = function(f) f() end z(function() std.len^(1) end)', 'value (1) has unexpected type, expected string, array or dict'),
	('let z = std.bind(1, function() std.len^(self) end) z()', 'value (1) has unexpected type, expected string, array or dict'),
	('std.catch(function() 1 + nil end).^x', 'index ("x") out of bounds'),
	('let z = [1, 2] { true > ^$z }', 'redirection expansion resulted in 2 items'),
	('let z = [] { ^$z a }', 'program expansion resulted in 0 items'),
	('let z = @[] { echo a; echo b | echo y ^$z }', 'value (@[ ]) has unexpected type, expected nil, bool, int, float, byte or string'),
	('let z = @[] let y = ${ echo y ^$z }', 'value (@[ ]) has unexpected type, expected nil, bool, int, float, byte or string'),
	('let z = &{ true } z.join() z.join^()', 'attempt to call join more than once'),
	# What a command's words, targets and variables expand to has to be one item.
	*(('%s{ %scd %s }' % (pre, '^', w), 'argument expansion resulted in %d items' % n) for pre, w, n in (
		('', '', 0), ('', 'a b', 2), ('', 'a b c', 3), ('let z = [] ', '$z', 0), ('let z = [1, 2, 3] ', '$z', 3), ('let z = [] ', '$z a $z b', 2), ('let z = [1, 2] ', 'x $z', 3))),
	('{ true; ^exec }', 'argument expansion resulted in 0 items'),
	('let z = [] { true; ^exec $z }', 'argument expansion resulted in 0 items'),
	('{ ^exec0 }', 'argument expansion resulted in 0 items'),
	('{ ^exec0 a }', 'arg0 expansion resulted in 0 items'),
	('let z = [] { ^exec0 a $z }', 'arg0 expansion resulted in 0 items'),
	('{ ^spawn0 }', 'argument expansion resulted in 0 items'),
	('let z = [] { true\n; ^spawn0 a $z }', 'arg0 expansion resulted in 0 items'),
	('let z = [] { cat << ^$z }', 'redirection expansion resulted in 0 items'),
	('let z = [1, 2, 3] { cat < ^$z }', 'redirection expansion resulted in 3 items'),
	('let z = [] { true >> ^$z }', 'redirection expansion resulted in 0 items'),
	('let z = [] { ^A=$z env }', 'env expansion resulted in 0 items'),
	('let z = [1, 2] { A=1 ^B=$z env }', 'env expansion resulted in 2 items'),
	('let z = @[] { cat << ^$z }', 'value (@[ ]) has unexpected type, expected nil, bool, int, float, byte or string'),
	('{ true; ^echo 5>6 }', 'unsupported file descriptor (6)'),
	('{ true | ^echo 2>3 }', 'unsupported file descriptor (3)'),
	('let z = ${ ^echo 2>255 }', 'unsupported file descriptor (255)'),
	('std.sleep^(-1)', 'invalid value (-1), expected positive integer'),
	('std.import^("does-not-exist")', 'No such file or directory (os error 2)'),
	('std.range^(1, 2, "a")', None),
	('std.json.decode^(5)', None),
	('std.sort^([1, 2], 3)', None),
]

# One value per type (and a few more): (text, type, as the messages print it).
VALUES = [('nil', 'nil', 'nil'), ('true', 'bool', 'true'), ('7', 'int', '7'), ('(-3)', 'int', '-3'), ('1.5', 'float', '1.5'), ("'c'", 'char', 'c'), ('"s"', 'string', '"s"'), ('""', 'string', '""'),
	('[]', 'array', '[ ]'), ('[0]', 'array', None), ('@[]', 'dict', '@[ ]'), ('function() 1 end', 'function', None), ('std.len', 'function', None), ('std.error("e", 1)', 'error', None)]


def typed_kinds():
	"""Every construct with an operand of every wrong type."""
	def bad(msg, v, expected):
		return None if v[2] is None else msg % v[2] + expected

	unexpected = 'value (%s) has unexpected type, expected '
	for a in VALUES:
		pre = 'let pa = %s let z = ' % a[0]
		if a[1] not in ('int', 'float'):
			yield pre + '-^pa', bad(unexpected, a, 'int or float')
		if a[1] != 'bool':
			yield pre + 'not ^pa', bad(unexpected, a, 'bool')
			for op in ('and', 'or'):
				yield pre + '^pa %s true' % op, bad(unexpected, a, 'bool')
			yield pre + 'true and ^pa', bad(unexpected, a, 'bool')
			yield pre + 'false or\n ^pa', bad(unexpected, a, 'bool')
			yield pre + '1 if ^pa then 1 end', bad('condition (%s)', a, ' is not a boolean')
			yield pre + '1 if false then 1 elseif ^pa then 1 end', bad('condition (%s)', a, ' is not a boolean')
			yield pre + '1 while ^pa do 1 end', bad('condition (%s)', a, ' is not a boolean')
		if a[1] != 'function':
			yield pre + '^pa(1, 2)', bad('attempt to call (%s)', a, ', which is not a function')
			yield pre + '1 for q in ^pa do 1 end', bad(unexpected, a, 'function')
			yield pre + '@[f: pa]^.f(1)', bad('attempt to call (%s)', a, ', which is not a function')
		if a[1] not in ('string', 'array', 'dict', 'error'):
			yield pre + '^pa.x', bad(unexpected, a, 'string, array, dict or error')
			yield pre + '^pa[\n0]', bad(unexpected, a, 'string, array, dict or error')
		if a[1] not in ('array', 'dict', 'error'):
			yield pre + '1 ^pa.x = 3', bad(unexpected, a, 'array, dict or error')
		if a[1] != 'int':
			for o in ('[1]', '"abc"'):
				yield pre + o + '[^pa]', bad(unexpected, a, 'int')
			yield pre + '[1] z[^pa] = 2', bad(unexpected, a, 'int')
		else:
			for o in ('[1]', '"abc"', '""'):
				yield pre + o + '[^pa]', 'index (%s) out of bounds' % a[2]
		yield pre + '@[]\nz[^pa]', None if a[2] is None else 'index (%s) out of bounds' % a[2]
		yield pre + 'std.error("x", nil)[^pa]', None if a[2] is None else 'index (%s) out of bounds' % a[2]
		yield pre + 'std.error("x", nil) z[^pa] = 1', None if a[2] is None else 'attempt to assign field (%s), which is readonly' % a[2]
		if a[1] != 'dict':
			yield pre + '1 for q in ^function() pa end do 1 end', bad(unexpected, a, 'dict')
		for b in VALUES:
			both = 'let pa = %s let pb = %s let z = ' % (a[0], b[0])
			for op, types in (('+', ('int', 'float')), ('-', ('int', 'float')), ('*', ('int', 'float')), ('/', ('int', 'float')), ('%', ('int', 'float')), ('++', ('string',)), ('<', ORD), ('<=', ORD), ('>', ORD), ('>=', ORD)):
				if a[1] not in types:
					yield both + '^pa\n%s pb' % op, None if op == '++' else bad(unexpected, a, ' or '.join((', '.join(types[:-1]), types[-1])).replace('char', 'byte') if len(types) > 1 else types[0])
				elif a[1] != b[1]:
					yield both + 'pa %s\n^pb' % op, None if a[1] == 'char' else bad(unexpected, b, a[1])


NATIVES = ['assert', 'base64.decode', 'base64.encode', 'bytes', 'catch', 'cd', 'contains', 'env', 'error', 'export', 'float', 'glob', 'has_error', 'hex.decode', 'hex.encode', 'import', 'int', 'is_empty', 'iter', 'json.decode', 'json.encode', 'len', 'pop', 'push', 'randint', 'range', 'read', 'regex', 'replace', 'sleep', 'sort', 'split', 'substr', 'to_string', 'trim', 'type', 'args', 'cwd', 'rand', 'bind']


ARITY = {'contains': 2, 'error': 2, 'export': 2, 'push': 2, 'randint': 2, 'range': 3, 'replace': 3, 'split': 2, 'substr': 3, 'args': 0, 'cwd': 0, 'rand': 0, 'bind': 2}


def native_kinds():
	"""Every library function called with more arguments than any of them accepts, through every way to reach it."""
	for f in NATIVES:
		for form in ('std.%s^(1, 2, 3, 4, 5, 6)', 'let z = std.%s z^(1, 2, 3, 4, 5, 6)', 'let z = @[m: std.%s] z.m^(1, 2, 3, 4, 5, 6)', 'let z = [std.%s] z[0]^(1,\n2, 3, 4, 5, 6)', 'let z = std.bind(1, std.%s) z^(1, 2, 3, 4, 5, 6)',
				'let z = std.bind(1, std.bind(nil, std.%s)) z^(1, 2, 3, 4, 5, 6)', 'let z = @[m: std.bind("o", std.%s)] z.m^(\n1, 2, 3, 4, 5, 6)', 'std.bind(1, std.%s)^(1, 2, 3, 4, 5, 6)', 'let z = function(f) let r = f^(1, 2, 3, 4, 5, 6) r end z(std.%s)',
				'let z = function(f) f^(1, 2, 3, 4, 5, 6) end z(std.bind(z, std.%s))'):
			yield form % f, 'incorrect amount of function parameters -- supplied 6, expected %d' % ARITY.get(f, 1)
	# Bound and nested calls of functions of the program.
	for bind in ('f', 'std.bind(1, f)', 'std.bind(1, std.bind(2, f))'):
		for call in ('z^()', 'z^(1, 2)', 'let y = @[m: z] y.m^()', 'let y = [z] y[0]^(1, 2, 3)', 'let y = function() z^() end y()', 'let y = std.bind(3, function() z^() end) y()'):
			yield 'let f = function(a) a end let z = %s %s' % (bind, call), 'incorrect amount of function parameters -- supplied %d, expected 1' % (0 if '()' in call.replace('function()', '') and ', ' not in call.replace('bind(3, ', '') else call.count(', ', call.index('^')) + 1)
		for body, msg in (('1 + ^nil', 'value (nil) has unexpected type, expected int'), ('std.len^(a)', 'value (1) has unexpected type, expected string, array or dict'), ('a^()', None), ('[1][^a]', 'index (1) out of bounds'), ('std.panic^(a)', 'std.panic(1)')):
			for call in ('z(1)', 'let y = @[m: z] y.m(1)', 'let y = [z] y[0](1)', 'let y = function(g) let r = g(1) r end y(z)'):
				if body == 'a^()':
					body = '^a()'
				yield 'let f = function(a)\n %s end let z = %s %s' % (body, bind, call), msg


ORD = ('int', 'float', 'char', 'string')
# (name, text before, text after, output before)
T = 'std.println("%s") '
CONTEXTS = [
	('stmt', 'std.println("s")\n', '\nstd.println("NEVER")', 's\n'),
	('print', 'std.print("no newline")\n', '\nstd.print("NEVER")', 'no newline'),
	('then', 'if true then ', ' end std.println("NEVER")', ''),
	('else', 'if false then std.println("NEVER") else ', ' end std.println("NEVER")', ''),
	('elseif', 'if false then std.println("NEVER") elseif true then ', ' else std.println("NEVER") end', ''),
	('while', 'while true do std.println("w") ', ' std.println("NEVER") end std.println("NEVER")', 'w\n'),
	('for', 'for i in std.range(0, 3, 1) do std.println(i) if i == 1 then ', ' end end std.println("NEVER")', '0\n1\n'),
	('fn', 'function f()\n', '\nstd.println("NEVER")\nend f() std.println("NEVER")', ''),
	('tail', 'function f() ', ' end function g() f() end g() std.println("NEVER")', ''),
	('ret', 'function f() let v = if true then\n', '\nend return v end let u = 1 + f() std.println("NEVER")', ''),
	('lambda', 'let u = [0, (function(a, b) std.println(a, b) ', ' end)(1, 2), std.println("NEVER")]', '1\t2\n'),
	('arg', 'std.println("NEVER", if true then ', ' end)', ''),
	('arg2', 'let p = function(a, b) std.println("NEVER") end p(std.println("a1"), if true then ', ' end)', 'a1\n'),
	('dict', 'let u = @[a: std.println("k"), b: if true then ', ' end, c: std.println("NEVER")]', 'k\n'),
	('index', 'let u = [1] let w = u[if true then ', ' end] std.println("NEVER")', ''),
	('assign', 'let u = 1 u = if true then ', ' end std.println("NEVER")', ''),
	('cond', 'if (if true then ', ' end) then std.println("NEVER") end', ''),
	('iterable', 'for i in (if true then ', ' end) do std.println("NEVER") end', ''),
	('iterator', 'let n = 0 for i in function() n = n + 1 if n == 2 then ', ' end @[finished: false, value: n] end do std.println(i) end std.println("NEVER")', '1\n'),
	('method', 'let o = @[v: "o", m: function() std.println(self.v) ', ' end] o.m() std.println("NEVER")', 'o\n'),
	('bound', 'let o = std.bind(@[v: "b"], function(x) std.println(self.v, x) ', ' end) o(1) std.println("NEVER")', 'b\t1\n'),
	('closure', 'let k = 0 function mk() let c = 0 function() c = c + 1 k = k + c if c == 2 then ', ' end end end let g = mk() g() std.println(k) g() std.println("NEVER")', '1\n'),
	('recursive', 'function r(n) if n == 0 then ', ' else r(n - 1) std.println("NEVER") end end r(20)', ''),
	('after catch', 'std.println(std.type(std.catch(function() let u = [1] u[\n\n3] end)))\n', '', 'error\n'),
	('after caught call', 'let h = function(x) std.println(x, std.type(std.catch(function() std.len(x) end))) end h(1)\n', ' std.println("NEVER")', '1\terror\n'),
	('caught and raised', 'let e = std.catch(function() nil + 1 end) if std.type(e) == "error" then ', ' end', ''),
	('short', 'let u = true and (if true then ', ' end)', ''),
	('operand', 'let u = "x" ++ (if true then ', ' end) std.println("NEVER")', ''),
	('command', '{ echo cmd }\n', '\n{ echo NEVER }', 'cmd\n'),
	('capture', 'let u = ${ echo hidden }.stdout ', ' { echo NEVER }', ''),
	('comment', '# 1 + nil\n', ' # std.println("NEVER")\n', ''),
	('string', 'let u = "a\nb\n\\n" ', '', ''),
]
# Text put before everything.
LAYOUTS = ['', '\n', '\n\n\n', '   ', '\t\t', '\n  \t', '# comment\n', 'std.print("")\n', 'let s0 = "multi\nline" ', '{ true }\n', '\n' * 300, ' ' * 300,
	'let s1 = "\xc3\xa9\xff" ', '# \xc3\xa9\n', 'let s2 = "\\n\\n" ', "let s3 = '\n' ", '{ true "\n\n" }\n', '{ true \'\n\' ; true # c\n }\n', 'function f0(a,\n\tb) end\n', '\r\n']
MSG = re.compile(rb'Panic in (.*?) \(line (\d+), column (\d+)\): (.*)\n\Z', re.S)


def place(text):
	at = text.index('^')
	src = text[:at] + text[at + 1:]
	pre = src[:at].encode('latin-1')
	line = pre.count(b'\n') + 1
	col = len(pre) - (pre.rfind(b'\n') + 1)
	return src.encode('latin-1'), line, col


def build(kind, combo, layout):
	text, out = kind[0], ''
	for i, (name, pre, post, o) in enumerate(reversed(combo)):
		if i:
			text = 'if true then ' + text + ' end'  # A scope of its own.
		text = pre + text + post
		out = o + out
	src, line, col = place(layout + text)
	return src, line, col, out.encode('latin-1'), kind[1]


def space(quick):
	for k in KINDS:
		for lay in LAYOUTS:
			yield build(k, (), lay)
			for c in CONTEXTS:
				yield build(k, (c,), lay)
		for i, c in enumerate(itertools.product(CONTEXTS, repeat=2)):
			yield build(k, c, LAYOUTS[i % len(LAYOUTS)])
	for i, k in enumerate(itertools.chain(typed_kinds(), native_kinds())):
		yield build(k, (), LAYOUTS[i % len(LAYOUTS)])
		for c in CONTEXTS if not quick else (CONTEXTS[i % len(CONTEXTS)],):
			yield build(k, (c,), LAYOUTS[i * 7 % len(LAYOUTS)])
	if not quick:
		for j, k in enumerate(KINDS):
			for i, c in enumerate(itertools.product(CONTEXTS, repeat=3)):
				if (i + j) % 3 == 0:
					yield build(k, c, LAYOUTS[i % len(LAYOUTS)])


def judge(src, line, col, out, msg, st, got, err, path=b'<stdin>'):
	if st != 127:
		return 'exit status %s instead of 127' % st
	if got != out:
		return 'wrong output: expected %r' % out
	m = MSG.match(err)
	if not m:
		return 'no proper message'
	if m.group(1) != path:
		return 'wrong script name %r, expected %r' % (m.group(1), path)
	if (int(m.group(2)), int(m.group(3))) != (line, col):
		return 'wrong position: expected line %d, column %d' % (line, col)
	text = m.group(4).decode('utf-8', 'replace')
	if msg is not None and text != msg:
		return 'wrong message: expected %s' % msg
	return None


def check(ctx):
	exe = multirun.build(ctx)
	cwd = ctx.mkdir('cwd')

	def work(part):
		bad = []
		for (src, line, col, out, msg), (st, got, err) in zip(part, multirun.run(ctx, exe, [ctx.hush], [p[0] for p in part], cwd=cwd)):
			why = judge(src, line, col, out, msg, st, got, err)
			if why:
				bad.append((repr(src)[2:-1], '%s\nstatus %s\nstdout %r\nstderr %r' % (why, st, got, err), {'input': src}))
		return len(part), sum(p[3].count(b'\n') + 1 for p in part), bad[:4]

	n = 0
	for k, steps, bad in ctx.pmap(work, chunks(space(ctx.quick), 200)):
		n += k
		ctx.add('transitions', steps)
		ctx.add('traces_validated_against_impl', k)
		for key, d, files in bad:
			ctx.violation(key, d, files)

	# The script's name as it was given; panics in imported modules name the module.
	m = 0
	d = ctx.mkdir('names', 'sub dir')
	base = os.path.dirname(d)
	src, line, col = place('std.println("x")\n  let z = 1 + ^nil')
	for rel in ('a.hsh', './a.hsh', 'sub dir/a.hsh', '../names/a.hsh', os.path.join(base, 'a.hsh'), '\xe9.hsh', 'noext'):
		with open(os.path.join(base, rel).encode(), 'wb') as f:
			f.write(src)
		r = ctx.run(script=rel, cwd=base)
		why = judge(src, line, col, b'x\n', None, r.rc, r.out, r.err, rel.encode())
		m += 1
		if why:
			ctx.violation('script name ' + rel, why + '\n' + r.brief())
	for wrap in ('std.import("mod.hsh")', 'let m = std.import("mod.hsh") m.f()', 'function g() std.import("mod.hsh").f() std.println("NEVER") end g()'):
		modsrc, line, col = place('let a = 1\nlet f = function()\n  a + ^"x"\nend\n%s@[f: f]' % ('f()\n' if wrap.startswith('std') else ''))
		with open(os.path.join(base, 'mod.hsh'), 'wb') as f:
			f.write(modsrc)
		with open(os.path.join(base, 'main.hsh'), 'w') as f:
			f.write('std.println("x")\n\n' + wrap + '\nstd.println("NEVER")')
		r = ctx.run(script='main.hsh', cwd=base)
		m += 1
		mm = MSG.match(r.err)
		ok = r.rc == 127 and r.out == b'x\n' and mm and os.path.basename(mm.group(1)) == b'mod.hsh' and (int(mm.group(2)), int(mm.group(3))) == (line, col)
		if not ok:
			ctx.violation('panic in a module: ' + wrap, 'expected mod.hsh line %d column %d\n%s' % (line, col, r.brief()))
	# Deep recursion: a panic at the bottom of 150 frames, and runaway recursion.
	src, line, col = place('function f(n) if n == 0 then std.panic^(n) else 1 + f(n - 1) end end\nf(150)')
	r = ctx.run(src)
	m += 1
	why = judge(src, line, col, b'', None, r.rc, r.out, r.err, b't.hsh')
	if why:
		ctx.violation('panic below 150 frames', why + '\n' + r.brief(), {'t.hsh': src})
	r = ctx.run('function f(n) 1 + f(n + 1) end\nstd.println("x")\nf(0)')
	m += 1
	if r.rc != 127 or r.out != b'x\n':
		ctx.violation('runaway recursion', r.brief())
	# Recursion that exhausts the interpreter's stack long before the native one: wide frames.
	for w in (3000, 9000, 20000):
		lets = ''.join('let v%d = %d\n' % (i, i) for i in range(w))
		for body in ('1 + f^(k + 1)', 'let r = f^(k + 1)\nr', 'for i in std.range(0, 2, 1) do let z = f^(k + 1)\nstd.println(z) end', 'if f^(k + 1) then end\nnil', 'let z = [ k, f^(k + 1) ]\nz', 'd.g^(k + 1) + 1'):
			src, line, col = place('std.println("x")\nlet d = @[]\nlet f = function(k)\n%s%s\nend\nd["g"] = f\nf(0)\nstd.println("NEVER")' % (lets, body))
			r = ctx.run(src)
			m += 1
			why = judge(src, line, col, b'x\n', None, r.rc, r.out, r.err, b't.hsh')
			if why:
				ctx.violation('runaway recursion with %d variables: %s' % (w, body), why + '\n' + r.brief(), {'t.hsh': src})
	ctx.add('traces_validated_against_impl', m)
	ctx.sample({'script': build(KINDS[1], (CONTEXTS[5],), '')[0].decode(), 'expected': 'status 127, message at line 1, column 38'})
	return {'exhaustive': True, 'programs': n + m, 'states': n + m, 'kinds': len(KINDS), 'typed_kinds': sum(1 for _ in typed_kinds()), 'native_kinds': sum(1 for _ in native_kinds()), 'contexts': len(CONTEXTS), 'layouts': len(LAYOUTS),
		'rule': 'all panic kinds x all contexts x all layouts, all kinds x all pairs of contexts (thorough: a third of all triples), all constructs x all wrong operand types. One program = one state, one executed trace '
			'statement = one transition.'}
