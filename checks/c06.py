"""C06: the front end terminates with a verdict on every input.

All byte strings over a syntax alphabet, all token sequences, all bytes in every lexer mode, and all single-token
mutations and truncations of a corpus are analysed with --check. Outside command blocks an independent lexer and
recogniser plus the static rules model decide whether the input has to be accepted."""
import itertools
import re

from vlib import multirun, syntax
from vlib.core import chunks

ALPHA = [bytes([c]) for c in b'a1 \n\t"\'\\#$&{}()[]<>=!+-*/%.:,;?@|~_\x00\xc3']
TOKENS = ['x', 'std', '1', '1.5', '"s"', "'c'", 'nil', 'true', 'let', 'if', 'then', 'else', 'elseif', 'end', 'for', 'in', 'do', 'while', 'function',
	'return', 'break', 'self', 'not', 'and', '==', '<', '++', '+', '-', '*', '=', '.', '?', ':', ',', '(', ')', '[', ']', '@[', '{', '}', '${']
CORE_TOKENS = ['std', '1', 'let', 'x', 'if', 'then', 'else', 'elseif', 'end', 'for', 'in', 'do', 'while', 'function', 'return', 'break', '-', '=', '.', '?',
	':', ',', '(', ')', '[', ']', '@[']
CMD_ALPHA = [bytes([c]) for c in b'a1 \n"\'\\#${}[]<>=?*%~/.:;|&_\x00\xff']

CORPUS = [
	'let x = 1 let y = [1, "a", @[k: nil, j: [2]]] if x == 1 then std.println(x) elseif not true then x = 2 else y[0] = 3 end',
	'function f(a, b) let c = a + b * 2 return c end let g = function() f(1, 2)? end while f(1, 2) < 9 do g() break end',
	'for i in std.range(0, 3, 1) do if i > 1 and true or false then break end std.print(i ++ "x", -i) end',
	'let o = @[m: function(d) self.v = self.v - d self.v end, v: 5] o.m(1).x["y"](2)? = (3)',
]
CMD_CORPUS = [
	'let v = 1 { echo a "b $v c" \'d\' ${v}e *.x %y ~/z > f 2> 1 >> g < h ; A=b B="$v" cmd ? | cat -n << "lit" | wc ; } let w = ${ ls ; cat x? }.stdout',
	'function f(x) &{ sleep 1 ; echo $x | cat 2>1 } end let j = f([1,2]).join() if true then { true } else { false? } end # end',
]
TOK = re.compile(r'"[^"]*"|\'[^\']*\'|\d+\.\d+|\w+|==|<<|>>|\+\+|@\[|\$\{|&\{|\s+|.', re.S)
POS = re.compile(rb'\(line (\d+), column (\d+)\)')


def byte_strings(alpha, n):
	for k in range(n + 1):
		for t in itertools.product(alpha, repeat=k):
			yield b''.join(t)


def token_strings(toks, n):
	for k in range(1, n + 1):
		for t in itertools.product(toks, repeat=k):
			yield ' '.join(t).encode()


def modes():
	"""Every byte in every lexer mode, alone and before/after typical neighbours."""
	frames = [(b'', b''), (b'let x = 1', b'2'), (b'let x = 1.', b'2'), (b'let x = 1e', b'2'), (b'"', b'"'), (b'"\\', b'"'), (b"'", b"'"), (b"'\\", b"'"), (b'# ', b'\n1'), (b'a', b' = 1'),
		(b'{ ', b' }'), (b'{ a', b'b }'), (b'{ "', b'" }'), (b'{ "\\', b'" }'), (b"{ '", b"' }"), (b"{ '\\", b"' }"), (b'{ \\', b' }'), (b'{ $', b' }'), (b'{ ${', b'} }'), (b'{ ${a', b'} }'),
		(b'{ $a', b' }'), (b'{ # ', b'\n a }'), (b'{ ~', b' }'), (b'{ *', b' }'), (b'{ A=', b' b }'), (b'{ a >', b' b }'), (b'{ a <', b' b }'), (b'${', b'}'), (b'&{', b'}'),
		(b'@', b'x: 1]'), (b'!', b'1'), (b'{ a 2', b' b }'), (b'{ "$', b'" }'), (b'{ "${', b'}" }'), (b'{ a', b'"b" }'), (b'{ "b"', b'a }')]
	for pre, post in frames:
		for c in range(256):
			b = bytes([c])
			yield pre + b + post
			yield pre + b
		yield pre
		yield pre + post
		yield pre + pre + post + post


def mutations(text, alphabet):
	toks = TOK.findall(text)
	src = text.encode()
	for i in range(len(src) + 1):
		yield src[:i]
		yield src[i:]
	words = [i for i, t in enumerate(toks) if not t.isspace()]
	for i in words:
		yield ''.join(toks[:i] + toks[i + 1:]).encode()
		yield ''.join(toks[:i] + [toks[i], ' ', toks[i]] + toks[i + 1:]).encode()
		for r in alphabet:
			yield ''.join(toks[:i] + [' ', r, ' '] + toks[i + 1:]).encode()
			yield ''.join(toks[:i] + [' ', r, ' '] + toks[i:]).encode()
	for i, j in zip(words, words[1:]):
		yield ''.join(toks[:i] + [toks[j]] + toks[i + 1:j] + [toks[i]] + toks[j + 1:]).encode()


def nested(depth):
	"""Deeply nested constructs, closed and unclosed."""
	pairs = [('(', '1', ')'), ('[', '1', ']'), ('@[a: ', '1', ']'), ('if true then ', '1', ' end'), ('while false do ', '1', ' end'), ('function() ', '1', ' end '),
		('-', '1', ''), ('not ', 'true', ''), ('std.type(', '1', ')'), ('1 + ', '1', ''), ('std', '', '.a'), ('if true then 1 else', ' 1', ' end'), ('', 'x', '"'), ('{', 'a', '}')]
	for a, m, b in pairs:
		for d in depth:
			yield (a * d + m + b * d).encode()
			yield (a * d + m).encode()
			yield (m + b * d).encode()


def lists():
	"""Lists of every kind and length, with every separator missing, doubled or replaced."""
	forms = [('[', ']', lambda i: '%d' % i), ('@[', ']', lambda i: 'k%d: %d' % (i, i)), ('std.len(', ')', lambda i: '%d' % i), ('function(', ') end', lambda i: 'p%d' % i), ('let x = [[', ']]', lambda i: 'nil'), ('function f(', ') end', lambda i: 'p%d' % i)]
	for a, b, item in forms:
		for n in list(range(0, 21)) + [32, 33, 64, 65]:
			it = [item(i) for i in range(n)]
			yield (a + ', '.join(it) + b).encode()
			yield (a + ', '.join(it) + ',' + b).encode()
			yield (a + ',' + ', '.join(it) + b).encode()
			yield (a + ', '.join(it) + ',,' + b).encode()
			for k in range(1, n):
				for sep in (',,', '', ',,,', ':', ';', ', ,', '.'):
					yield (a + ', '.join(it[:k]) + sep + ' ' + ', '.join(it[k:]) + b).encode()


def judge(src, st, out, err):
	if st == 0:
		ok = out == b'' and err == b''
	elif st == 2:
		ok = out == b'' and err.startswith(b'Error: ')
		if ok:
			lines = src.split(b'\n')
			for l, c in POS.findall(err):
				l, c = int(l), int(c)
				# A position may be the one right after the last character.
				if not (1 <= l <= len(lines) and 0 <= c <= len(lines[l - 1])):
					return 'error position outside of the source'
	else:
		return 'the interpreter crashed, hung, or ended with an unknown status'
	if not ok:
		return 'exit status and messages do not agree'
	v = syntax.verdict(src)
	if v is not None and v != (st == 0):
		return 'must be %s' % ('accepted' if v else 'rejected')
	return None


def show(src):
	return src.decode('latin-1').encode('unicode_escape').decode()[:200]


DEEP = {'key': 'deeply nested source'}


def check(ctx):
	exe = multirun.build(ctx)
	q = ctx.quick

	def work(part):
		bad, acc = [], 0
		for src, (st, out, err) in zip(part, multirun.run(ctx, exe, [ctx.hush, '--check'], part)):
			acc += st == 0
			why = judge(src, st, out, err)
			if why:
				bad.append((show(src), '%s\nstatus %s\nstdout %r\nstderr %r' % (why, st, out, err), {'input': src}))
		return len(part), acc, bad[:4]

	spaces = [
		('byte strings', byte_strings(ALPHA, 3)),
		('command byte strings', (b'{' + s + b'}' for s in byte_strings(CMD_ALPHA, 3 if q else 4))),
		('unclosed command byte strings', (b'${' + s for s in byte_strings(CMD_ALPHA, 2 if q else 3))),
		('token sequences', token_strings(TOKENS, 3)),
		('token sequences in a function', (b'function f(x) ' + s + b' end' for s in token_strings(TOKENS, 2))),
		('token sequences in a loop', (b'for x in std do ' + s + b' end' for s in token_strings(TOKENS, 2))),
		('token sequences in a condition', (b'if ' + s + b' then 1 end' for s in token_strings(TOKENS, 2))),
		('token sequences in a call', (b'std(' + s + b')' for s in token_strings(TOKENS, 2))),
		('bytes in every mode', modes()),
		('mutations', itertools.chain(*(mutations(c, TOKENS) for c in CORPUS))),
		('command mutations', itertools.chain(*(mutations(c, ['a', '"b"', "'", '"', '$', '$v', '{', '}', ';', '|', '>', '<', '<<', '?', '*', '~/', '\\', '2', '#', '=', 'A=1', '&{', '(', 'end']) for c in CMD_CORPUS))),
		('lists', lists()),
		('nested', nested([1, 2, 5, 20, 40])),
	]
	if not q:
		spaces += [
			('byte strings of length 4', (b''.join(t) for t in itertools.product(ALPHA, repeat=4))),
			('token sequences of length 4', (' '.join(t).encode() for t in itertools.product(CORE_TOKENS, repeat=4))),
			('token sequences of length 3 in a function', (b'function f(x) ' + s + b' end' for s in token_strings(TOKENS, 3))),
		]
	parts = {}
	accepted = 0
	for name, space in spaces:
		n = 0
		for k, acc, bad in ctx.pmap(work, chunks(space, 400)):
			n += k
			accepted += acc
			for key, d, files in bad:
				ctx.violation(key, d, files)
		parts[name] = n
		ctx.add('traces_validated_against_impl', n)
	# Nesting beyond any reasonable depth must end with a verdict, too.
	deep = [b'(' * 20000 + b'1' + b')' * 20000, b'[' * 20000]
	for src, (st, out, err) in zip(deep, multirun.run(ctx, exe, [ctx.hush, '--check'], deep)):
		why = judge_deep(st)
		if why:
			ctx.violation(DEEP['key'], '%s: status %s, %d bytes %r...' % (why, st, len(src), src[:20]), {'input': src})
	ctx.sample({'input': CORPUS[0], 'verdict': 'accepted'})
	ctx.sample({'input': 'let x = [1,', 'verdict': 'rejected'})
	total = sum(parts.values())
	return {'exhaustive': True, 'inputs': total, 'accepted': accepted, 'parts': parts, 'states': total, 'transitions': sum(parts.values()),
		'rule': 'all byte strings / token sequences up to the stated lengths; all single-token deletions, duplications, replacements, insertions, swaps and all '
			'truncations of the corpus. A state is one input with its verdict; a transition one analysis run.'}


def judge_deep(st):
	return None if st in (0, 2) else 'the interpreter crashed'
