"""C17: commands receive exactly the arguments that were written.

Words are built from all sequences of parts (unquoted text, escapes, both quotings, variables of every type, arrays); the
model expands them to an argument vector, and a recording child process reports the vector it was really started with.
The working directory holds files that would betray any accidental globbing or splitting."""
import itertools
import os

from vlib import core
from vlib.lang import lit_str

HEAD_VARS = {
	# name: (source, list of argument texts; a scalar is a list of one, arrays are marked)
	'vnil': ('nil', b''), 'vtrue': ('true', b'true'), 'vint': ('0 - 42', b'-42'), 'vfloat': ('1.5', b'1.5'), 'vchar': ("'*'", b'*'), 'vs': ('"a b"', b'a b'), 'vglob': ('"*"', b'*'), 'vweird': (lit_str(b'\'"\\ $vs ${vs}; rm\n#\t~/ %'), b'\'"\\ $vs ${vs}; rm\n#\t~/ %'),
	'vempty': ('""', b''), 'vff': ('"\xff\xfe"', b'\xff\xfe'),
	'a0': ('[]', []), 'a1': ('[ "one" ]', [b'one']), 'a2': ('[ "x y", "*" ]', [b'x y', b'*']), 'a3': ('[ nil, 7, "" ]', [b'', b'7', b'']),
}


class Part:
	def __init__(self, src, lit=None, var=None):
		self.src, self.lit, self.var = src, lit, var


def expand(parts):
	"""The model: adjacent literal text concatenates, arrays multiply, an empty array contributes nothing."""
	args, empty = [], True
	for p in parts:
		v = p.lit if p.var is None else HEAD_VARS[p.var][1]
		for unit in (v if isinstance(v, tuple) else (v,)):
			if isinstance(unit, list):
				if unit:
					args = [a + x for x in unit for a in (args or [b''])]
			else:
				if p.var is None and unit == b'':
					continue
				args = [a + unit for a in (args or [b''])]
	if not args and not any(p.var is not None or isinstance(p.lit, tuple) for p in parts):
		return [b'']
	return args


def ambiguous(parts):
	"""An empty quoted text next to nothing but empty arrays."""
	return not expand(parts) and len(parts) > 1


# ------------------------------------------------------------------ words
BARE = [Part('a', b'a'), Part('-x', b'-x'), Part('=', b'='), Part('./', b'./'), Part('\xc3\xa9', b'\xc3\xa9')]
ESC = [Part('\\ ', b' '), Part('\\\\', b'\\'), Part('\\$', b'$'), Part('\\"', b'"'), Part('\\n', b'\n'), Part('\\#', b'#'), Part('\\;', b';')]
QUOTED = [Part("''", b''), Part("'* $vs'", b'* $vs'), Part("'\\''", b"'"), Part('""', b''), Part('"~/ \'%"', b"~/ '%"), Part('"\\"\\$\\\\\\t"', b'"$\\\t')]
VARS = [Part('$' + v, var=v) for v in ('vnil', 'vint', 'vs', 'vglob', 'vweird', 'a0', 'a1', 'a2', 'a3')] + [Part('${vs}', var='vs'), Part('${a2}', var='a2')]
MIXED = [Part('"<$vs>"', (b'<', b'a b', b'>')), Part('"${a2}-$vglob"', ([b'x y', b'*'], b'-', b'*'))]
ALL = BARE + ESC + QUOTED + VARS + MIXED


def joins(a, b):
	"""Whether writing b after a keeps both parts intact ($name followed by a name character does not)."""
	return not (a.src.startswith('$') and not a.src.endswith('}') and (b.src[0].isalnum() or b.src[0] == '_' or ord(b.src[0]) > 127))


def words(parts, n):
	for k in range(1, n + 1):
		for t in itertools.product(parts, repeat=k):
			if all(joins(a, b) for a, b in zip(t, t[1:])) and not ambiguous(t):
				yield ''.join(p.src for p in t), expand(t)


SPECIAL_ESC = {0x23: '\\#', 0x27: "\\'", 0x22: '\\"', 0x3E: '\\>', 0x3C: '\\<', 0x3F: '\\?', 0x3B: '\\;', 0x24: '\\$', 0x3D: '\\=', 0x20: '\\ ', 0x09: '\\\t', 0x0C: '\\\x0c', 0x0D: '\\\r', 0x0A: '\\\n', 0x5C: '\\\\'}


def bare(c):
	if c in SPECIAL_ESC:
		return SPECIAL_ESC[c]
	if chr(c) in '{}[*%~|':  # No unquoted literal form at the start of a word.
		return None
	return chr(c)


def single(c):
	return {0x27: "\\'", 0x5C: '\\\\'}.get(c, chr(c))


def double(c):
	return {0x22: '\\"', 0x24: '\\$', 0x5C: '\\\\'}.get(c, chr(c))


def byte_words(quick):
	for c in range(1, 256):
		b = bytes([c])
		if bare(c) is not None:
			yield bare(c), [b]
			yield 'x' + bare(c) + 'y', [b'x' + b + b'y']
			yield bare(c) * 3, [b * 3]
		elif chr(c) == '~' or chr(c) == '|':
			yield 'x' + chr(c) + '/y', [b'x' + b + b'/y']
		for q, f in (("'", single), ('"', double)):
			yield q + f(c) + q, [b]
			yield q + 'x' + f(c) + 'y' + q, [b'x' + b + b'y']
			yield 'p' + q + f(c) + f(c) + q + 's', [b'p' + b + b + b's']
	spec = sorted(set(SPECIAL_ESC) | set(b'{}[]*%~|a0=\x7f\xff&()!`^,:@'))
	for a in spec:
		for b in spec:
			s = bytes([a, b])
			yield "'" + single(a) + single(b) + "'", [s]
			yield '"' + double(a) + double(b) + '"', [s]
			if bare(a) and bare(b):
				yield bare(a) + bare(b), [s]
	for src, out in (("'\\n\\t\\\\'", b'\n\t\\'), ('"\\n\\t\\\\"', b'\n\t\\'), ('\\n\\t', b'\n\t'), ("'a'b\"c\"d", b'abcd'), ("a'b'c", b'abc'), ('"$"', None), ("'$vs'", b'$vs'), ('"\\$vs"', b'$vs'), ('\\$vs', b'$vs'), ('~', b'~'), ('~x/', b'~x/'), ('x~/', b'x~/'), ('a=~/b', b'a=~/b'), ('"~"/x', b'~/x'), ("'~/'x", b'~/x'), ('1', b'1'), ('2', b'2'), ('x>', None)):
		if out is not None:
			yield src, [out]


LENGTHS = (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 4095, 4096, 4097, 20000)


def long_words(quick):
	"""Words of up to 3 parts of all kinds in which one part has each of many lengths."""
	kinds = (
		lambda t: (t, t), lambda t: ("'%s'" % t, t), lambda t: ('"%s"' % t, t), lambda t: ('"%s$vs"' % t, t + 'a b'), lambda t: ('"${vs}%s"' % t, 'a b' + t),
		lambda t: ('${vs}' + t, 'a b' + t), lambda t: (''.join('\\' + c if c == '$' else c for c in t.replace('z', '$')), t.replace('z', '$')), lambda t: ('"%s${vs}%s"' % (t, t), t + 'a b' + t))
	short = [lambda: ('s', 's'), lambda: ("'q r'", 'q r'), lambda: ('"d"', 'd'), lambda: ('${vs}', 'a b'), lambda: ('"$vglob-"', '*-'), lambda: ('\\ ', ' ')]
	for i, n in enumerate(LENGTHS):
		t = ''.join('xyz'[(j * 7 + j // 5) % 3] for j in range(n))
		for k in kinds:
			src, val = k(t)
			yield src, [val.encode()]
			for s in short:
				ss, sv = s()
				yield src + ss, [(val + sv).encode()]
				yield ss + src, [(sv + val).encode()]
				yield ss + src + ss, [(sv + val + sv).encode()]
				if n < 300:
					for s2 in short:
						yield ss + s2()[0] + src, [(sv + s2()[1] + val).encode()]
						yield ss + s2()[0] + src + ss, [(sv + s2()[1] + val + sv).encode()]


def var_words(quick):
	"""Variables holding every string of up to 3 (4) special characters, alone, adjacent to text, quoted, in arrays."""
	alpha = b' *$"\'\\\n;~/%?#a{['
	for k in range(0, 3 if quick else 4):
		for t in itertools.product(alpha, repeat=k):
			yield bytes(t)
	for c in range(1, 256):
		yield bytes([c])
		yield b'x' + bytes([c]) + b'y'
	yield from (b'$(ls)', b'`ls`', b'${vs}', b'$vs', b'|cat', b'> f', b'-n', b'--', b'a' * 5000, b'/*', b'./*', b'a b  c\td', b'\n\n', b'{a,b}', b'[ab]', b'&')


# ------------------------------------------------------------------ running
def frame(args):
	return b'A%d\n' % len(args) + b''.join(b'%d:%s\n' % (len(a), a) for a in args)


def head(prog):
	return 'let p = %s\n' % lit_str(prog.encode()) + ''.join('let %s = %s\n' % (n, s) for n, (s, _) in HEAD_VARS.items())


def group_words(ws, n):
	for part in core.chunks(ws, n):
		yield [w for w, _ in part], part


def text(prog, groups):
	out = [head(prog)]
	for words_, _ in groups:
		out.append('{ $p ' + ' -- '.join(words_) + ' }\n')
	return ''.join(out).encode('latin-1')


def want(part):
	args = []
	for i, (_, a) in enumerate(part):
		args += ([b'--'] if i else []) + a
	return frame(args)


def run_groups(ctx, prog, cwd, groups):
	src = text(prog, groups)
	r = ctx.run(src, cwd=cwd, env={'HOME': '/nonexistent'}, timeout=120)
	exp = b''.join(want(part) for _, part in groups)
	if r.rc == 0 and r.out == exp and not r.err:
		return []
	bad = []
	for _, part in groups:
		for w in part:
			g = [([w[0]], [w])]
			one = text(prog, g)
			r1 = ctx.run(one, cwd=cwd, env={'HOME': '/nonexistent'}, timeout=30)
			if r1.rc != 0 or r1.out != want([w]) or r1.err:
				bad.append(('word %s' % w[0], 'expected %r\n%s' % (w[1], r1.brief()), {'t.hsh': one}))
				if len(bad) > 2:
					return bad
	return bad or [('words in company', 'expected %r\nobserved %s' % (exp[:2000], r.brief()), {'t.hsh': src})]


def sweep(ctx, name, prog, cwd, ws, n=25, per=20):
	total = 0

	def count(it):
		nonlocal total
		for x in it:
			total += 1
			yield x
	for bad in ctx.pmap(lambda gs: run_groups(ctx, prog, cwd, gs), core.chunks(group_words(count(ws), n), per)):
		for v in bad:
			ctx.violation(*v)
	ctx.add(name, total)
	return total


def case_script(prog, src):
	return (head(prog) + src).encode('latin-1')


def scripts(prog):
	"""(source, expected stdout, expected status): layout, counts, programs, refusals."""
	A = frame
	yield '{ $p }', A([]), 0
	for sep in (' ', '  ', '\t', '\n', ' \n\t ', ' # comment ; | > }\n', '\r\n', '\r', '\x0c', ' \x0c\r', '\n# c\n\n#d\n'):
		yield '{%s$p%sa%s"b"%s$vs%s}' % (sep, sep, sep, sep, sep), A([b'a', b'b', b'a b']), 0
		yield '{ $p a%s; $p b%s;%s}' % (sep, sep, sep), A([b'a']) + A([b'b']), 0
	yield '{ $p a; $p b;$p c }', A([b'a']) + A([b'b']) + A([b'c']), 0
	yield '{$p a}', A([b'a']), 0
	yield '{$p "a"}', A([b'a']), 0
	yield '{ $p a#b }', None, None
	for n in (1, 10, 100, 1000):
		yield '{ $p %s }' % ' '.join('w%d' % i for i in range(n)), A([b'w%d' % i for i in range(n)]), 0
	yield 'let big = []\nfor i in std.range(0, 5000, 1) do std.push(big, i) end\n{ $p x$big }', A([b'x%d' % i for i in range(5000)]), 0
	yield 'let big = "y"\nwhile std.len(big) < 100000 do big = big ++ big end\n{ $p $big "<$big>" }', A([b'y' * 131072, b'<' + b'y' * 131072 + b'>']) if False else None, None
	yield 'let big = "y"\nwhile std.len(big) < 60000 do big = big ++ big end\n{ $p $big "<$big>" }', A([b'y' * 65536, b'<' + b'y' * 65536 + b'>']), 0
	# Products of arrays: the leftmost varies fastest.
	yield 'let q = [ 1, 2, 3 ]\nlet r = [ "a", "b" ]\n{ $p $q$r }', A([b'1a', b'2a', b'3a', b'1b', b'2b', b'3b']), 0
	yield 'let q = [ 1, 2 ]\nlet r = [ "a", "b" ]\n{ $p -$q-$r-$q }', A([b'-%d-%s-%d' % (i, x, j) for j in (1, 2) for x in (b'a', b'b') for i in (1, 2)]), 0
	yield 'let q = [ 1, 2 ]\n{ $p "$q $q" }', A([b'1 1', b'2 1', b'1 2', b'2 2']), 0
	# Arrays of every length, alone, between text, quoted, and in products with others.
	big = lambda n, m=0: 'let q = []\nfor i in std.range(0, %d, 1) do std.push(q, i) end\nlet r = []\nfor i in std.range(0, %d, 1) do std.push(r, "r" ++ std.to_string(i)) end\n' % (n, m)
	for n in list(range(2, 40)) + [63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300]:
		yield big(n) + '{ $p $q x$q ${q}y "<$q>" a ${q}}', A([w % i for w in (b'%d', b'x%d', b'%dy', b'<%d>') for i in range(n)] + [b'a'] + [b'%d' % i for i in range(n)]), 0
	for n in (2, 3, 7, 8, 9, 16, 17, 31, 33, 63, 64, 65, 66, 100, 129, 257):
		for m in (2, 3, 8, 9, 17, 33, 65, 66, 129):
			if n * m < 9000:
				yield big(n, m) + '{ $p $q$r }', A([b'%dr%d' % (i, j) for j in range(m) for i in range(n)]), 0
				yield big(n, m) + '{ $p "-$r:${q}-" x$q }', A([b'-r%d:%d-' % (j, i) for i in range(n) for j in range(m)] + [b'x%d' % i for i in range(n)]), 0
	for n, m in ((2, 3), (5, 4), (9, 9), (17, 3), (3, 17)):
		yield big(n, m) + '{ $p $q$r$q }', A([b'%dr%d%d' % (i, j, k) for k in range(n) for j in range(m) for i in range(n)]), 0
	# Every value type.
	for v, t in (('nil', b''), ('true', b'true'), ('false', b'false'), ('0', b'0'), ('9223372036854775807', b'9223372036854775807'), ('0.5', b'0.5'), ('1.0', b'1.0'), ("'x'", b'x'), ("'\xff'", b'\xff'), ('"s"', b's')):
		yield 'let x = %s\n{ $p $x "$x" a$x ${x}b }' % v, A([t, t, b'a' + t, t + b'b']), 0
		yield 'let x = [ %s ]\n{ $p $x "$x" a$x ${x}b }' % v, A([t, t, b'a' + t, t + b'b']), 0
	# Refused values: a panic before anything of the block runs.
	for v in ('@[]', '@[ a: 1 ]', 'function() 1 end', 'std.len', 'std.error("e", 1)', '[ [] ]', '[ 1, [ 2 ] ]', '[ @[] ]', '[ std.len ]', '[ std.error("e", 1) ]'):
		for w in ('$x', '"$x"', 'a$x', '> $x', '<< $x', '< $x', '; $x', '; K=$x $p'):
			yield 'let x = %s\nlet r = std.catch(function() { $p first; $p b %s } end)\nstd.println(std.type(r), r.context)' % (v, w), b'error\tpanic\n', 0
	# A program (and other single items) must be exactly one word.
	for v, ok in (('[ p ]', True), ('[]', False), ('[ p, "x" ]', False), ('[ p, p ]', False)):
		yield 'let x = %s\nlet r = std.catch(function() { $p first; $x a } end)\nstd.println(std.type(r))' % v, A([b'first']) + A([b'a']) + b'nil\n' if ok else b'error\n', 0
	yield 'let d = std.replace(p, "/args", "")\nlet n = "args"\n{ $d/$n a; "$d/args" b; $d/\'args\' c; ${d}/ar"gs" d; $d/$n $n }', A([b'a']) + A([b'b']) + A([b'c']) + A([b'd']) + A([b'args']), 0
	# Variables are read when the block is evaluated, in the scope of the block.
	yield 'let x = 1\nlet f = function() { $p $x } end\nx = 2\nf()\nx = 3\nf()', A([b'2']) + A([b'3']), 0
	yield 'let x = 1\nlet f = function(x) { $p $x } end\nf(5)\n{ $p $x }', A([b'5']) + A([b'1']), 0
	yield 'for x in std.range(0, 3, 1) do { $p $x } end', A([b'0']) + A([b'1']) + A([b'2']), 0
	yield 'let f = function() let x = "in" let g = function() { $p $x $vs } end g() end\nf()', A([b'in', b'a b']), 0
	yield 'let a = [ 1 ]\n{ $p $a }\nstd.push(a, 2)\n{ $p $a }\nstd.println(a)', A([b'1']) + A([b'1', b'2']) + b'[ 1, 2 ]\n', 0
	# Bytes that cannot be passed: an error value, the command does not run.
	for w in ("'\\0'", '"a\\0b"', '\\0', '$z', 'x$z', 'x\\0', '$vs\\0', '"$vs\\0"', "$vs'\\0'", '"\\0$vs"', '\\0$vs', '$a1"\\0"', '"a$vs\\0"', "a'b'\\0"):
		yield 'let z = "\\0"\nlet r = { $p first; $p %s; $p NEVER }\nstd.println(std.type(r), r.context.status)' % w, A([b'first']) + b'error\t127\n', 0
	# Malformed expansions are static errors: nothing runs.
	names = ('${ vs}', '${vs }', '${ vs }', '${v s}', '${}', '${ }', '$', '${1}', '${1a}', '${vs', '${if}', '$if', '${self}', '$self', '$1', '$-', '$@', '$*', '$?', '$#', '$(ls)', '${vs-}', '${vs:-x}', '${#vs}', '$$vs', '${vs[0]}', '${vs.x}', '${\tvs}', '${vs\n}', '${undeclared}', '$undeclared', '$vss', '$v', '${$vs}')
	for nm in names:
		for w in (nm, 'x' + nm, '"%s"' % nm, '"x%s y"' % nm, '$vs' + nm, "'q'" + nm):
			yield '{ $p first; $p %s }' % w, b'', 2
			yield 'let f = function() ${ $p %s } end' % w, b'', 2
	# Unknown escape sequences are static errors, in every kind of quoting; nothing runs.
	ok = {'': set(SPECIAL_ESC) | set(b'nt0\\'), "'": set(b"'nt0\\"), '"': set(b'"$nt0\\')}
	for quote, good in ok.items():
		for c in range(256):
			if c not in good:
				for pre, post in (('', ''), ('x', 'y'), ('\\n', '\\t')):
					yield '{ $p first; $p %s%s\\%s%s%s }' % (quote, pre, chr(c), post, quote), b'', 2
	# Arguments also survive pipes, captures and async blocks.
	yield 'let o = ${ $p $vweird "" $a2 | cat }\nstd.print(o.stdout)', A([HEAD_VARS['vweird'][1], b'', b'x y', b'*']), 0
	yield 'let j = &{ $p $vweird "" $a2 }\nstd.println(j.join())', A([HEAD_VARS['vweird'][1], b'', b'x y', b'*']) + b'nil\n', 0
	yield 'let j = &{ sleep 0.05; $p $vs }\nvs = "changed"\nstd.println(j.join())', A([b'a b']) + b'nil\n', 0
	yield 'let arr = [ 1 ]\nlet j = &{ sleep 0.05; $p $arr }\nstd.push(arr, 2)\nstd.println(j.join())', A([b'1']) + b'nil\n', 0
	# Builtins get exact words too.
	yield '{ spawn0 $p zero "a b" $a2 "" }', A([b'a b', b'x y', b'*', b'']), 0
	yield '{ exec $p "a b" $a2 "" }', A([b'a b', b'x y', b'*', b'']), 0
	yield '{ exec0 $p zero $vglob "*" }', A([b'*', b'*']), 0


def check(ctx):
	q = ctx.quick
	prog = core.cc(ctx.path('bin', 'args'), os.path.join(core.VERIF, 'helpers', 'args.c'))
	cwd = ctx.mkdir('cwd')
	for n in ('a', 'b', 'x y', '*', 'ab', 'one'):
		open(os.path.join(cwd, n), 'w').close()
	n = sweep(ctx, 'part_sequences', prog, cwd, words(ALL, 2 if q else 3))
	if q:
		n += sweep(ctx, 'part_sequences3', prog, cwd, words(ALL[::2] + QUOTED[:1] + VARS[5:8], 3))
	else:
		n += sweep(ctx, 'part_sequences4', prog, cwd, words(ALL[::3] + VARS[5:8], 4))
	n += sweep(ctx, 'byte_words', prog, cwd, byte_words(q))
	n += sweep(ctx, 'long_words', prog, cwd, long_words(q), n=8, per=6)

	def var_scripts():
		for part in core.chunks(var_words(q), 40):
			src, out = '', b''
			for i, v in enumerate(part):
				src += 'let x%d = %s\nlet y%d = [ x%d, "-" ]\n{ $p $x%d "$x%d" a${x%d}b $y%d }\n' % ((i, lit_str(v)) + (i,) * 6)
				out += frame([v, v, b'a' + v + b'b', v, b'-'])
			yield src, out, 0
	cases = [c for c in itertools.chain(var_scripts(), scripts(prog)) if c[1] is not None]

	def one(c):
		src = case_script(prog, c[0])
		r = ctx.run(src, cwd=cwd, env={'HOME': '/nonexistent'}, timeout=60)
		return None if r.out == c[1] and r.rc == c[2] else (c[0], 'expected %r status %s\n%s' % (c[1][:3000], c[2], r.brief()), {'t.hsh': src})
	for bad in ctx.pmap(one, cases):
		if bad:
			ctx.violation(*bad)
	ctx.add('scripts', len(cases))
	n += len(cases)
	for f in sorted(os.listdir(cwd)):
		if f not in ('a', 'b', 'x y', '*', 'ab', 'one'):
			ctx.violation('file created: ' + f, 'a command word was treated as a redirection')
	return {'exhaustive': True, 'states': n, 'transitions': n, 'traces_validated_against_impl': n,
		'rule': 'all words of 2 (thorough 3) parts of %d part kinds, of 3 (4) parts over a reduced set; every byte in every quoting style and every pair of special bytes; every part kind in each of 30 lengths between shorter parts; arrays of 2 to 300 elements and their products; malformed expansions; variables with all strings over 16 special characters up to length 2 (3)' % len(ALL)}
