"""C37: whether its streams are terminals changes nothing but colors.

Every script of a set that covers all kinds of messages, values, commands and dumps is run with every combination of standard
input, output and error being a terminal (a pseudo terminal of its own each, and a shared one) or a pipe. Exit status, output,
errors, and everything the script hands to commands or writes to files must be what it is without any terminal, once color
sequences are taken out of what is shown on terminals."""
import itertools
import os
import re
import select
import shutil
import subprocess
import termios
import time

from checks import c08
from vlib import core

TECHNIQUE = 'exhaustive enumeration of scripts x terminal/pipe combinations of the three streams on the real interpreter (pseudo terminals), compared with the run without terminals'
COLOR = re.compile(rb'\x1b\[[0-9;]*m')
OPEN = re.compile(rb'\x1b\[(38;5;\d+|1|3|4)m')

VALUES = [
	'nil', '1.5', '"a\\n\\x1b\\xff"', "'c'", '[ 1, "x" ]', '@[ k: nil ]', 'function() 1 end', 'function(a)\n a end', '[ function() 1 end ]', '@[ f: function() 1 end ]', 'std.len', 'std.regex("a").match', 'std.bind(1, function() 2 end)', 'std.iter([])',
	'std.error("e", function() 1 end)', 'std.error("e", [ std.error("f", 1) ])', '{ false }', '${ sh -c "echo o; echo e >&2; exit 3" }', '{ nosuch }', '{ false | true; false ?; sh -c "kill -9 \\$\\$" }', '&{ false }.join()', '{ true }', 'std.catch(function() nil + 1 end)',
	'std.catch(function() std.panic(function() 1 end) end)', 'std.try_typecheck(function() 1 end, "int")', 'std.catch(function() std.typecheck(std.len, "int") end)', 'std.catch(function() std.import("bad.hsh") end)', 'std.catch(function() std.import("syn.hsh") end)', 'std.catch(function() std.import("no.hsh") end)',
	'std.catch(function() std.import("pan.hsh") end)', 'std.import("fun.hsh")', 'std.json.decode("{")', 'std.regex("(")', 'std.cd("/nonexistent")', 'std.cwd()', 'std.glob("*")', 'std.args()', 'std.env("HOME")',
]
SINKS = [
	('file', 'put("a", std.to_string(v))'),
	('argument', 'let s = std.to_string(v) { printf "%s" $s > b }'),
	('fields', 'if std.type(v) == "error" then put("a", v.description) put("b", std.to_string(v.context)) end'),
	('capture', 'let s = std.to_string(v) put("a", ${ printf "%s" $s }.stdout)'),
	('concatenation', 'put("a", "<" ++ std.to_string([ v, v ]) ++ ">") std.print(std.len(std.to_string(v)))'),
	('typecheck', 'let r = std.try_typecheck(v, "byte") put("a", std.to_string(r)) put("b", std.to_string(std.catch(function() std.typecheck(v, "byte") end)))'),
	('json', 'put("a", std.to_string(std.catch(function() std.json.encode(v) end)))'),
	('environment', 'std.export("VV", std.replace(std.to_string(v), "\\0", "")) { printenv VV }'),
	('println', 'std.println(v, v) std.print([ v ])'),
	('panic', 'std.panic(v)'),
	('caught', 'let r = std.catch(function() std.panic(v) end) put("a", r.description)'),
	('operator', 'let r = std.catch(function() v + [] end) put("a", r.description) v + []'),
	('index', 'let r = std.catch(function() [][v] end) put("a", std.to_string(r)) @[][v]'),
	('nested catch', 'let r = std.catch(function() std.panic(std.catch(function() std.panic(v) end)) end) put("a", std.to_string(r)) std.panic(r)'),
]
PRE = 'let put = function(f, s) { cat << $s > $f } end\nlet v = %s\n%s\n'
FILES = {'bad.hsh': 'undeclared\nbreak\nlet x = 1 let x = 2\n', 'syn.hsh': 'let = 1\n)\n', 'pan.hsh': 'std.println("pan")\nnil + 1\n', 'fun.hsh': 'function() 1 end\n', 'two.hsh': 'std.println("imported")\n{ sh -c "test -t 1 && echo tty" }\n2\n'}

STATIC = ['x', 'break', 'return 1', 'self', 'let a = 1 let a = 2', '1 = 2', 'let d = @[ a: 1, a: 2 ]', '{ cd / | cat }', '&{ cd / }', 'let f = function(a, a) a end', '{ echo $u "${w}" }', '(1)?', '\n'.join('u%d' % i for i in range(25)), '\n'.join(')' for i in range(25)), 'let', 'if true', '"abc', "'ab'", '1 +', '\x01', '{ echo "a }', '{ echo [', '{ }',
	'{ echo | }', '"\\q"', '99999999999999999999', 'function(', 'for x', '@[ a 1 ]', '{ echo "\\q" }', '{ echo ${} }', '{ echo > }', '{ echo 3> x }', 'é', '&{ alias a=b }', 'std.println(1) end']
DUMPED = 'let f = function(a, b) let c = [ a, nil, true, 1.5, \'c\', "s\\n" ] if self == nil and not a or b < 2 then c[0] = -b else return @[ k: c, l: f ] end end\nfor i in std.range(0, 2, 1) do while false do break end std.println(i) end\nlet x = "v"\nlet r = ${ A=1 B="$x" echo a"b$x"\'c\' ~/ * % [ab] {1..3} {a,$x} 2>1 >>"o" <<"in" | cat ? ; cat < "/dev/null" }\n&{ echo > o2 }.join()\n{ cd / }\nlet g = function() f(x, 1)? .k end\n'
COMMANDS = [
	'{ sh -c "for i in 0 1 2; do test -t \\$i && echo \\$i; done; true" }', '{ echo plain; echo err 1>2 }', '{ echo a | cat }', '{ nosuch }', '{ sh -c "echo e >&2" | cat }', 'let c = ${ sh -c "test -t 1 || echo no; test -t 2 || echo no2" } std.println(c)', 'let j = &{ echo async } j.join()', '{ exec sh -c "echo exec; exit 4" }', '{ spawn0 sh zero -c "echo $0" }',
	'{ echo x > f; cat f; cat < f }', '{ cat << "literal" }', 'std.println(std.read(), std.read("prompt "), std.read(), std.read())', 'std.print("no newline")', 'std.println("a") { echo b } std.print("c") { echo d 1>2 } std.println("e")', '{ cat }', '{ head -n 1 } std.println(1)', '${ cat }.stdout', 'std.exit(3)', 'std.print("x") std.exit(3)', 'std.println(std.import("two.hsh"))',
	'std.import("bad.hsh")', 'std.import("syn.hsh")', 'std.import("pan.hsh")', '{ echo "\\x1b" ; printf "\\\\033[1mbold\\\\033[0m" }' , 'std.print("\\x1b[1mbold\\x1b[0m", 1)', '{ cd /nonexistent }', 'let z = [] { echo > $z }', 'let z = std.len { echo $z }', '{ echo 3>1 }', '{ cat < "no" ?; echo on }',
]
STDIN = b'first\nsecond \xc3\xa9\nlast\n'


def raw(fd, keep_lines):
	a = termios.tcgetattr(fd)
	a[0] &= ~(termios.ICRNL | termios.IXON | termios.ISTRIP)
	a[1] &= ~termios.OPOST
	a[3] &= ~(termios.ECHO | termios.ISIG | termios.IEXTEN)
	if not keep_lines:
		a[3] &= ~termios.ICANON
	termios.tcsetattr(fd, termios.TCSANOW, a)


def run(argv, cwd, env, tty, shared=False, timeout=60):
	"""tty: three booleans. Returns (status, stdout, stderr); with shared, stdout and stderr are the same stream."""
	ours, theirs = [], []
	for i in range(3):
		if i == 2 and shared:
			theirs.append(theirs[1])
			continue
		if tty[i]:
			m, s = os.openpty()
			raw(s, i == 0)
		elif i == 0:
			s, m = os.pipe()
		else:
			m, s = os.pipe()
		ours.append(m)
		theirs.append(s)
	p = subprocess.Popen(argv, stdin=theirs[0], stdout=theirs[1], stderr=theirs[2], cwd=cwd, env=env, start_new_session=True)
	if not tty[0]:
		os.write(ours[0], STDIN)
		os.close(ours[0])
	else:
		os.write(ours[0], STDIN + b'\x04' * 32)
	for s in set(theirs):
		os.close(s)
	data = {m: [] for m in ours[1:]}
	live, end = set(data), time.time() + timeout
	while live:
		r, _, _ = select.select(list(live), [], [], max(0, end - time.time()))
		if not r:
			break
		for m in r:
			try:
				d = os.read(m, 65536)
			except OSError:
				d = b''
			if d:
				data[m].append(d)
			else:
				live.discard(m)
	if live:
		core.kill_group(p)
	st = p.wait()
	for m in data:
		os.close(m)
	if tty[0]:
		os.close(ours[0])
	out = [b''.join(data[m]) for m in ours[1:]]
	return 'timeout' if live else st, out[0], out[1] if len(out) > 1 else None


def balanced(data):
	depth = 0
	for m in COLOR.finditer(data):
		depth += 1 if OPEN.fullmatch(m.group()) else -1
		if depth < 0:
			return False
	return depth == 0


def check(ctx):
	q = ctx.quick
	cases = []
	for i, v in enumerate(VALUES):
		for j, (name, sink) in enumerate(SINKS):
			cases.append(('value', PRE % (v, sink), []))
	kinds = list(c08.KINDS) + (list(itertools.chain(c08.typed_kinds(), c08.native_kinds()))[::40 if q else 4])
	for k in kinds:
		body = k[0].replace('^', '')
		cases.append(('panic', body, []))
		cases.append(('caught panic', 'let put = function(f, s) { cat << $s > $f } end\nlet caught = std.catch(function()\n%s\nend)\nput("a", std.to_string(caught))\nstd.println(caught)\n' % body, []))
	for s in STATIC:
		for flags in ([], ['--check']):
			cases.append(('static', s, flags))
		cases.append(('static in function', 'let f = function()\n%s\nend\n' % s, []))
	for n in range(1, 5):
		for flags in itertools.combinations(['--lex', '--ast', '--program', '--check'], n):
			for src in [DUMPED] + (STATIC if n == 1 else STATIC[:3]):
				cases.append(('dump', src, list(flags)))
	for s in COMMANDS:
		cases.append(('command', s, []))
		cases.append(('command in function', 'let f = function()\n%s\nend\nf()\nnil + 1\n' % s, []))
	for a, b in itertools.product(COMMANDS, COMMANDS if not q else COMMANDS[:6]):
		if 'exec' not in a and not a.startswith('{ head'):  # head reads ahead from a pipe, but not from a terminal
			cases.append(('commands', a + '\n' + b, []))
	for flags in (['--help'], ['--version'], ['--nonsense'], ['--check', '--nonsense']):
		cases.append(('options', '', flags))
	combos = [c for c in itertools.product((False, True), repeat=3)]
	env = dict(os.environ)
	for k in ('VERIF_SEED', 'VERIF_TIER', 'LD_PRELOAD', 'NO_COLOR', 'CLICOLOR', 'CLICOLOR_FORCE'):
		env.pop(k, None)
	env.update(TERM='xterm', HOME='/nonexistent/home')

	def one(src, flags, tty, shared=False):
		d = ctx.tmpdir()
		# The name of the directory may show in messages and must not differ.
		w = os.path.join(d, 'w')
		os.mkdir(w)
		for n, t in FILES.items():
			with open(os.path.join(w, n), 'w') as o:
				o.write(t)
		with open(os.path.join(w, 't.hsh'), 'wb') as o:
			o.write(src.encode('utf-8', 'surrogateescape'))
		st, out, err = run([ctx.hush] + flags + ['t.hsh', 'arg'], w, env, tty, shared)
		files = {}
		for n in sorted(os.listdir(w)):
			if n not in FILES and n != 't.hsh':
				with open(os.path.join(w, n), 'rb') as o:
					files[n] = o.read().replace(d.encode(), b'DIR')
		shutil.rmtree(d, ignore_errors=True)
		fix = lambda x: x if x is None else x.replace(d.encode(), b'DIR')
		return st, fix(out), fix(err), files

	def unordered(b):
		# Dicts print in any order.
		return sorted(b) if b is not None else None

	def work(case):
		what, src, flags = case
		# A child that looks at its streams tells the difference; what it says is judged separately.
		looks = 'test -t' in src or 'two.hsh' in src
		base = one(src, flags, (False, False, False))
		n, bad = 1, None
		if b'\x1b[' in base[2] and '\\x1b' not in src and '\\033' not in src:
			return n, 0, ('%s: colors without a terminal' % what, 'stderr %r' % base[2])
		colored = 0
		shared = one(src, flags, (False, False, False), True)
		for tty in combos + ['shared']:
			if tty == 'shared':
				got, want = one(src, flags, (True, True, True), True), shared
			else:
				if not any(tty):
					continue
				got, want = one(src, flags, tty), base
			n += 1
			both = tty == 'shared' or (tty[1] and tty[2])
			name = tty if tty == 'shared' else '+'.join(s for s, t in zip(('stdin', 'stdout', 'stderr'), tty) if t)
			tell = 'with %s on a terminal:' % name
			if what != 'options' and 'bold' not in src:
				if not both and (COLOR.search(got[1]) or COLOR.search(got[2] or b'')) and not (COLOR.search(want[1]) or COLOR.search(want[2] or b'')):
					bad = (tell + ' colors although not both outputs are terminals', got)
				elif not balanced(got[1]) or not balanced(got[2] or b''):
					if not (COLOR.search(want[1]) or COLOR.search(want[2] or b'')):
						bad = (tell + ' a color is not reset', got)
			colored += bool(COLOR.search(got[1]) or COLOR.search(got[2] or b''))
			if looks:
				lit = b''.join(b'%d\n' % i for i in range(3) if tty == 'shared' or tty[i])
				if src == COMMANDS[0] and got[1] != lit:
					bad = (tell + ' the command sees %r, expected %r' % (got[1], lit), got)
				if bad is None and got[0] != want[0]:
					bad = (tell + ' status %r instead of %r' % (got[0], want[0]), got)
			elif bad is None:
				for k, part in enumerate(('status', 'output', 'errors', 'files')):
					a, b = got[k], want[k]
					if k in (1, 2) and a is not None:
						a, b = COLOR.sub(b'', a), COLOR.sub(b'', b)
					if a != b and not (k in (1, 2) and a is not None and unordered(a) == unordered(b) and b'@[' in b) and not (k == 3 and {x: unordered(y) for x, y in a.items()} == {x: unordered(y) for x, y in b.items()}):
						bad = (tell + ' different %s: %r, expected %r' % (part, a, b), got)
						break
			if bad:
				return n, colored, ('%s %s' % (what, ' '.join(flags)), bad[0] + '\n%r\n\n%s' % (bad[1], src))
		return n, colored, None

	runs, colored, seen = 0, 0, set()
	for case, (n, c, bad) in zip(cases, ctx.pmap(work, cases)):
		runs += n
		colored += c
		if bad and bad[0] not in seen:
			seen.add(bad[0])
			ctx.violation(bad[0], bad[1], {'t.hsh': case[1]})
	ctx.add('states', len(cases))
	ctx.add('transitions', runs)
	ctx.add('traces_validated_against_impl', runs)
	return {'exhaustive': True, 'runs_with_colors': colored, 'rule': '%d scripts (%d values x %d uses, %d kinds of panic, %d static errors, all combinations of the dumps, %d commands and their pairs) x all 8 combinations of terminals and pipes and a shared terminal' % (len(cases), len(VALUES), len(SINKS), len(kinds), len(STATIC), len(COMMANDS))}
