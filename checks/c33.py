"""C33: every static error is reported, once, at its own place.

Part 1: probes (statements with marked places at which a rule is broken, possibly depending on the context) in sequence
and in every context; the model of the rules gives the places, the text gives their lines and columns, and the messages
of the interpreter must be exactly these. Part 2: all programs one token away from a valid one; the first syntax error
must be reported at the first token with which no valid program can continue (independent recogniser: vlib/syntax.py)."""
import itertools
import os
import re
import shutil

from vlib import multirun, syntax
from vlib.core import chunks

TECHNIQUE = 'explicit-state model checking: exhaustive bounded enumeration of erroneous programs; the set of error places given by the model is compared with the reports of the real front end'

LINE = re.compile(rb'^Error: (.*?) \(line (\d+), column (\d+)\) - (.*)$')
KINDS = [('U', rb"undeclared variable '(.*)'"), ('D', rb"duplicate variable '(.*)'"), ('K', rb"duplicate key '(.*)'"), ('R', rb'return .*outside.*'),
	('S', rb'self .*outside.*'), ('T', rb'try .*outside.*'), ('B', rb'break .*outside.*'), ('A', rb'invalid assignment.*'), ('Y', rb'.*built-in.*')]
MARK = re.compile('«([A-Z])(?::(\\w+))?»')

# A marked place is an error: R, S, T outside of functions, B outside of loops, the others always.
PROBES = [
	'let a%d = «U:u»u', 'std.println(«U:u»u, 1, «U:w»w)', '«U:u»u = 1', '«U:u»u.k = «U:w»w', '«U:u»u[«U:w»w] = «U:u»u', 'std.k = «U:u»u', '1 «A»= 2', 'std.len([]) «A»= «U:u»u',
	'nil «A»= std', 'if true then «B»break end', 'if true then «R»return end', 'if true then «R»return «U:u»u end', 'std.println(«S»self)', '«S»self.a = «S»self',
	'let b%d = 1«T»?', 'let b%d = [2«T»?, «U:u»u, std.x«T»?]',
	'let c%d = 1 let «D:c%d»c%d = «U:u»u', 'let d%d = @[k: «U:u»u, «K:k»k: «U:w»w, m: 1, «K:k»k: 2, «K:m»m: @[k: 1]]',
	'let e%d = function(p, q, «D:p»p, «D:q»q) let «D:p»p = 1 end', 'function f%d(p) p end function «D:f%d»f%d() «U:u»u end',
	'for v in «U:v»v do let «D:v»v = v end', 'while «U:u»u do «U:w»w end', 'if «U:u»u then «U:w»w elseif «U:u»u then «U:z»z else «U:u»u end',
	'std.println(«U:u»u + 1 * «U:w»w == not «U:u»u and -«U:z»z)', 'let g%d = function() «U:u»u function() «U:w»w end end',
	'let h%d = function() if true then «B»break end while true do function() «B»break end break end end', 'let i%d = function() self 1? return self end',
	'«U:u»u(«U:w»w)(«U:z»z).k[«U:u»u]', 'let j%d = «U:u»u let «D:j%d»j%d let «D:j%d»j%d', 'while false do break end', 'if true then let z = 1 end «U:z»z',
	'{ echo «U:u»$u "${«U:w»w}"a«U:z»$z }'.replace('${«U:w»', '«U:w»${'), '{ true; echo «U:u»$u | cat «U:w»$w > «U:z»$z }', '${ «Y»cd a; true; «Y»exec b }', '{ «Y»cd a | cat; true | «Y»alias b }',
	'&{ echo «U:u»$u; echo «U:w»$w 2> «U:z»$z }', '{ «Y»cd a > b }', '{ cd «U:u»$u; A=«U:u»$u B="«U:w»$w" true }', '{ «U:u»$u ? ; true < «U:w»$w }',
	'let k%d = [@[a: «U:u»u], function() @[b: 1, «K:b»b: «U:w»w] end, if true then «U:z»z end]',
]
CORE = [0, 6, 9, 10, 12, 14, 16, 17, 18, 20, 28, 33]
# (text, enters a function, enters a loop)
CONTEXTS = [
	('%s', False, False), ('if true then %s end', False, False), ('if «U:o»o then 1 else %s end', False, False), ('while «U:o»o do %s end', False, True), ('for r%c in «U:r%c»r%c do %s end', False, True),
	('let x = function(t, «D:t»t) %s end', True, False), ('function y() %s end', True, False), ('std.println([1, if true then %s end, «U:o»o])', False, False),
	('let w9 = @[n: function() %s end, «K:n»n: 1]', True, False), ('while if true then %s end do «U:o»o end', False, False), ('(function() %s end)(«U:o»o)', True, False),
	('std.k[if true then %s end] = «U:o»o', False, False), ('{ echo «U:o»$o } while false do end if true then %s end', False, False),
]
SEPS = ['\n', ' ', '\n\n\t', ' # é\n', ' "é"\n  ']


def resolve(text, fn, loop):
	"""Drop the markers which are no errors in this context."""
	def keep(m):
		k = m.group(1)
		if k in 'RST' and fn or k == 'B' and loop:
			return ''
		return m.group()
	return MARK.sub(keep, text)


def place(chain, probes, sep):
	fn, loop = False, False
	for t, f, l in chain:
		fn, loop = fn or f, (loop or l) and not f or l
	# Probes which contain functions of their own mark only what is an error inside of these.
	body = []
	for i, p in enumerate(probes):
		p = p.replace('%d', str(i))
		if re.match(r'let h\d', p):
			body.append(p)
		else:
			body.append(resolve(p, fn, loop))
	text = sep.join(body)
	for i, (t, f, l) in reversed(list(enumerate(chain))):
		text = t.replace('%c', str(i)).replace('%s', sep + text + sep)
	return text


def expected(text):
	"""(source, sorted list of (line, column, kind, name))"""
	out, errs, pos = '', [], 0
	for m in MARK.finditer(text):
		out += text[pos:m.start()]
		pos = m.end()
		b = out.encode()
		errs.append((b.count(b'\n') + 1, len(b) - (b.rfind(b'\n') + 1), m.group(1), (m.group(2) or '').encode()))
	return out + text[pos:], sorted(errs)


def reported(err, path):
	"""(sorted list, number of left out errors) or None if a line is not understood."""
	out, more = [], 0
	for l in err.split(b'\n'):
		if not l:
			continue
		m = re.match(rb'^(\d+) more', l)
		if m:
			more += int(m.group(1))
			continue
		m = LINE.match(l)
		if not m or m.group(1) != path:
			return None
		for k, pat in KINDS:
			n = re.fullmatch(pat, m.group(4))
			if n:
				out.append((int(m.group(2)), int(m.group(3)), k, n.group(1) if n.groups() else b''))
				break
		else:
			return None
	return sorted(out), more


def agree(want, got):
	if got is None:
		return False
	errs, more = got
	if len(want) <= 20:
		return errs == want and more == 0
	rest = list(want)
	for e in errs:
		if e not in rest:
			return False
		rest.remove(e)
	return len(errs) == 20 and more == len(rest)


def texts(quick):
	single = [[t] for t in CONTEXTS]
	double = [[a, b] for a in CONTEXTS[1:] for b in CONTEXTS[1:]]
	n = len(SEPS)
	k = 0
	for chain in single + double:
		for i, p in enumerate(PROBES):
			k += 1
			yield place(chain, [p], SEPS[k % n])
	for chain in single:
		for a in PROBES:
			for b in PROBES:
				k += 1
				yield place(chain, [a, b], SEPS[k % n])
	for chain in (single if not quick else single[:1] + single[3:7]):
		for t in itertools.product(CORE, repeat=3):
			k += 1
			yield place(chain, [PROBES[i] for i in t], SEPS[k % n])
	if not quick:
		for chain in double:
			for a in CORE:
				for b in range(len(PROBES)):
					for sep in SEPS:
						yield place(chain, [PROBES[a], PROBES[b]], sep)
	# Any number of errors.
	for p in PROBES:
		for count in list(range(3, 26)) + [39, 40, 41, 100, 257]:
			yield '\n'.join(resolve(p, False, False).replace('%d', str(i)) for i in range(count))


# ---------------------------------------------------------------------- syntax errors
CORPUS = [
	'let a = 1 let b function f(x, y) return x + y end std.println(f(a, b))',
	'if a == 1 then b = 2 elseif c then d() else e.f[g] = h end',
	'while x < 10 do x = x + 1 if x then break end end for i in y do z(i) end',
	'let d = @[a: 1, b: @[], c: function(p, q,) self.a end,] let r = [1, 2.5, "s", \'c\', nil, true,]',
	'a.b.c(1, 2)[3]? - not (x and y or z) ++ w % 2 / 4 >= 1 != -y',
	'let f = function() function g() end return if x then 1 end end (f)(1)',
	'return x', 'break', 'let x', 'f()', '[]', '@[]', 'function() end',
]
INSERT = ['let', 'if', 'then', 'else', 'elseif', 'end', 'for', 'in', 'do', 'while', 'function', 'return', 'break', 'self', 'nil', 'not', 'and', 'x', '1', '"s"', '=', '==', '+', '-', '.', '?', ':', ',', '(', ')', '[', ']', '@[']
TOK = re.compile(r'''"[^"]*"|'[^']*'|[0-9.]+|[A-Za-z_]+|>=|<=|\+\+|==|!=|@\[|\S''')


def edits(quick):
	for c in CORPUS:
		t = TOK.findall(c)
		for i in range(len(t) + 1):
			yield t[:i]
			for x in INSERT:
				yield t[:i] + [x] + t[i:]
				if i < len(t):
					yield t[:i] + [x] + t[i + 1:]
			if i < len(t):
				yield t[:i] + t[i + 1:]
				yield t[:i] + [t[i]] + t[i:]
			if i + 1 < len(t):
				yield t[:i] + [t[i + 1], t[i]] + t[i + 2:]
	for n in (1, 2, 3):
		for t in itertools.product(INSERT, repeat=n):
			yield list(t)
	if not quick:
		for t in itertools.product([x for x in INSERT if x not in ('elseif', 'while', 'nil', '==', '+')], repeat=4):
			yield list(t)


def failing(toks):
	"""Index of the first token with which no program can continue, len(toks) for a premature end, None if valid."""
	p = syntax.Parser(syntax.lex(' '.join(toks).encode()))
	try:
		out = p.block()
		# At the top level (where no return is allowed anyway) the rest is still read.
		while out and out[-1][0] == 'ret' and p.peek() is not None:
			out = p.block()
		return p.i if p.peek() is not None else None
	except syntax.Fail:
		return p.i


def layout(toks, k):
	"""Source text and position of each token."""
	gaps = [' ', '\n', '  ', '\n\t', ' # é\n', '\t']
	out, pos = b'', []
	for i, t in enumerate(toks):
		if i:
			out += gaps[(i * k + k) % len(gaps)].encode()
		pos.append((out.count(b'\n') + 1, len(out) - (out.rfind(b'\n') + 1)))
		out += t.encode('utf8', 'surrogateescape')
	return out, pos


# ---------------------------------------------------------------------- command blocks
WORDS = ['a', '1', '"b"', 'A=b', '$v']
OPS = ['|', ';', '?', '>', '>>', '<', '<<']


def command_failing(t):
	"""The same for the tokens of a command block, its closing brace included."""
	t = t + ['}']
	i = 0
	if t == ['}']:
		return 0
	while True:
		# One command.
		while True:
			while t[i] == 'A=b':
				i += 1
			if t[i] not in WORDS:
				return i
			i += 1
			while t[i] in WORDS and not (t[i] == '1' and t[i + 1] in ('>', '>>', '<', '<<')):
				i += 1
			while True:
				if t[i] == '1':
					if t[i + 1] not in ('>', '>>'):
						# A descriptor must be followed by an output redirection.
						return i + 1
					i += 1
				if t[i] not in ('>', '>>', '<', '<<'):
					break
				i += 1
				if t[i] not in WORDS:
					return i
				i += 1
			if t[i] == '?':
				i += 1
			if t[i] != '|':
				break
			i += 1
		if t[i] == '}':
			return None
		if t[i] != ';':
			return i
		i += 1
		if t[i] == '}':
			return None


def command_cases(quick):
	for n in range(5):
		for t in itertools.product(WORDS + OPS, repeat=n):
			yield list(t)
	for t in itertools.product(['a', '1', '$v'] + OPS if not quick else ['a', '1', '|', ';', '?', '>', '<'], repeat=5):
		yield list(t)


BAD = ['!', '~', ';', '|', '^', '\\', '`', '@', '$', '$x', '1.', '1.x', '1e', '1e+', '99999999999999999999', '9223372036854775808', "'ab'", "''", "'\\q'", '"\\q"', '"a\\xb"', 'é', '\x00', '\x7f', '}', '&', '&x',
	'aé', 'aéb', '_é', 'a1\udcff', 'x\udc80y', '\udcc3', 'x\x00', 'x\x01y', 'a\x7f', 'é1', '1é', 'a\u200b', 'a\u00a0b', '\x0b\x1b']


def lexical(quick):
	"""(tokens before, bad token, tokens after)"""
	for c in CORPUS:
		t = TOK.findall(c)
		for i in range(len(t) + 1):
			for x in BAD:
				yield t[:i], x, t[i:]


def check_lexical(before, bad, after, k, st, err, pos):
	if st != 2:
		return 'the malformed token is not rejected'
	places = [(int(m.group(2)), int(m.group(3))) for m in (LINE.match(l) for l in err.split(b'\n')) if m and not any(re.fullmatch(p, m.group(4)) for _, p in KINDS)]
	start = pos[len(before)]
	if not places or not start <= min(places) <= (start[0], start[1] + len(bad.encode('utf8', 'surrogateescape'))):
		return 'the first error is in the malformed token %r at line %d, column %d' % ((bad,) + start)
	return None


def check_syntax(toks, k, st, err, pos, at):
	lines = [l for l in err.split(b'\n') if l]
	first = lines[0] if lines else b''
	m = LINE.match(first)
	if at is None:
		# Valid syntax: semantic errors only.
		if b'unexpected' in err or b'expected' in err:
			return 'a syntax error is reported in a program without one'
		return None
	if st != 2:
		return 'a syntax error at token %d (%s) is not reported' % (at, toks[at] if at < len(toks) else 'end of file')
	if at == len(toks):
		return None if b'end of file' in first else 'the input ends too early, but this is not the first error reported'
	if not m or (int(m.group(2)), int(m.group(3))) != pos[at] or any(re.fullmatch(p, m.group(4)) for _, p in KINDS):
		return 'the first error is at line %d, column %d (%s)' % (pos[at] + (toks[at],))
	return None


def check(ctx):
	exe = multirun.build(ctx)

	def work(part):
		bad, errs = [], 0
		cases = [expected(t) for t in part]
		srcs = [s.encode() for s, _ in cases]
		runs = multirun.run(ctx, exe, [ctx.hush, '--check'], srcs)
		for (s, want), (st, out, err) in zip(cases, runs):
			errs += len(want)
			ok = out == b'' and st == (2 if want else 0) and agree(want, reported(err, b'<stdin>'))
			if not ok:
				bad.append((s, 'expected errors (line, column, kind, name): %s\nstatus %s\nstdout %r\nstderr:\n%s' % (want, st, out, err.decode(errors='replace')), {'t.hsh': s}))
		return len(part), errs, bad[:3]

	n = errs = 0
	for k, e, bad in ctx.pmap(work, chunks(texts(ctx.quick), 200)):
		n += k
		errs += e
		for key, d, files in bad:
			ctx.violation(key, d, files)
	ctx.add('traces_validated_against_impl', n)

	def work3(part):
		"""The same reports when the script is run, named by any path, or imported."""
		bad = []
		for t in part:
			s, want = expected(t)
			d = ctx.tmpdir()
			with open(d + '/m.hsh', 'w') as f:
				f.write(s)
			with open(d + '/main.hsh', 'w') as f:
				f.write('std.println("before")\nlet r = std.catch(function() std.import("m.hsh") end)\nstd.println("after")\n')
			real = os.path.realpath(d).encode()
			for script, path, rc, out in (('m.hsh', b'm.hsh', 2, b''), ('./m.hsh', b'./m.hsh', 2, b''), (d + '/m.hsh', d.encode() + b'/m.hsh', 2, b''), ('main.hsh', real + b'/m.hsh', 0, b'before\nafter\n')):
				r = ctx.run(script=script, cwd=d)
				if not want:
					# Nothing to report: what it does is the business of other checks.
					ok = b'Error:' not in r.err
				else:
					ok = r.rc == rc and r.out == out and agree(want, reported(r.err, path))
				if not ok:
					bad.append(('%s: %s' % (script if script[0] != '/' else 'absolute', s), 'expected errors in %s: %s\n%s' % (path, want, r.brief()), {'m.hsh': s}))
			shutil.rmtree(d)
		return len(part), bad[:3]

	f = 0
	for k, bad in ctx.pmap(work3, chunks((place([c], [p], '\n') for c in CONTEXTS for p in PROBES), 13)):
		f += 4 * k
		for key, d, files in bad:
			ctx.violation(key, d, files)
	ctx.add('traces_validated_against_impl', f)

	def work2(part):
		bad, wrong = [], 0
		lay = [layout(t, k) for k, t in part]
		runs = multirun.run(ctx, exe, [ctx.hush, '--check'], [s for s, _ in lay])
		for (k, toks), (src, pos), (st, out, err) in zip(part, lay, runs):
			wrong += st == 2
			d = check_syntax(toks, k, st, err, pos, failing(toks))
			if d:
				bad.append((src.decode(errors='replace'), '%s\nstatus %s\nstderr:\n%s' % (d, st, err.decode(errors='replace')), {'t.hsh': src}))
		return len(part), wrong, bad[:3]

	m = wrong = 0
	for k, w, bad in ctx.pmap(work2, chunks(enumerate(edits(ctx.quick)), 400)):
		m += k
		wrong += w
		for key, d, files in bad:
			ctx.violation(key, d, files)
	ctx.add('traces_validated_against_impl', m)

	HEAD = b'let v = 1 \n{ '

	def work4(part):
		bad = []
		lay = []
		for k, t in part:
			src, pos = layout([HEAD.decode()] + t + ['}'], 6)
			lay.append((src, pos[1:]))
		runs = multirun.run(ctx, exe, [ctx.hush, '--check'], [s for s, _ in lay])
		wrong = 0
		for (k, t), (src, pos), (st, out, err) in zip(part, lay, runs):
			at = command_failing(t)
			wrong += at is not None
			d = check_syntax(t + ['}'], k, st, err, pos, at)
			if at is None and st != 0:
				d = 'a well-formed command block is rejected'
			if d:
				bad.append((src.decode(errors='replace'), '%s\nstatus %s\nstderr:\n%s' % (d, st, err.decode(errors='replace')), {'t.hsh': src}))
		return len(part), wrong, bad[:3]

	def work5(part):
		bad = []
		lay = [layout(a + [x] + b, k) for k, (a, x, b) in part]
		runs = multirun.run(ctx, exe, [ctx.hush, '--check'], [s for s, _ in lay])
		for (k, (a, x, b)), (src, pos), (st, out, err) in zip(part, lay, runs):
			d = check_lexical(a, x, b, k, st, err, pos)
			if d:
				bad.append((src.decode(errors='replace'), '%s\nstatus %s\nstderr:\n%s' % (d, st, err.decode(errors='replace')), {'t.hsh': src}))
		return len(part), len(part), bad[:3]

	for work, space in ((work4, command_cases(ctx.quick)), (work5, lexical(ctx.quick))):
		for k, w, bad in ctx.pmap(work, chunks(enumerate(space), 400)):
			m += k
			wrong += w
			ctx.add('traces_validated_against_impl', k)
			for key, d, files in bad:
				ctx.violation(key, d, files)
	ctx.sample({'script': 'let x = u', 'errors': "undeclared variable 'u' at line 1, column 8"})
	return {'exhaustive': True, 'programs': n + m + f, 'states': n + m + f, 'transitions': errs + wrong, 'error_places': errs, 'syntax_cases': m,
		'rule': 'all probes in all chains of two contexts, all pairs of probes in every context, all triples of the core probes, any number of errors up to 257; '
			'all one-token edits and truncations of the corpus and all token sequences up to the stated length'}
