"""C28: output is exact and in program order; input lines are returned unmodified.

All sequences of writers (prints of every shape, commands in every kind of block, captures, modules, callbacks, large texts,
caught panics) followed by every way to end are run with standard output and standard error on one file, one pipe, or apart,
and compared with the concatenation the program denotes. All short inputs, in all divisions into chunks, are read line by line."""
import itertools
import os
import re
import shutil
import subprocess
import time

from vlib import core
from vlib.lang import lit_str

TECHNIQUE = 'exhaustive enumeration of writer sequences, endings and stream set-ups, and of inputs and their divisions into chunks, executed on the real interpreter against the denoted byte sequence'

BIG = 70000
PANIC = re.compile(rb'(Panic in s.hsh \(line \d+, column \d+\)): [^\n]*\n')
# name, source, stdout bytes or list of (stream, bytes)
OPS = [
	('print', 'std.print("a")', [(1, b'a')]),
	('println', 'std.println("b", 1)', [(1, b'b\t1\n')]),
	('command', '{ printf c }', [(1, b'c')]),
	('stderr', '{ sh -c "printf d >&2; printf e; printf f >&2" }', [(2, b'd'), (1, b'e'), (2, b'f')]),
	('raw', "std.print(\"\\n\\0\", 'g')", [(1, b'\n\0\tg')]),
	('capture', 'c = ${ printf h }\nstd.print(c.stdout, c.stderr)', [(1, b'h\t')]),
	('pipe', '{ printf i | cat; printf j }', [(1, b'ij')]),
	('async', 'j = &{ printf k }\nc = j.join()', [(1, b'k')]),
	('caught', 'c = std.catch(function() std.print("l") { printf m } std.panic("x") end)', [(1, b'lm')]),
	('big', 'std.print(big)', [(1, b'0123456789' * (BIG // 10))]),
	# ---- the subset for the longest sequences ends here
	('empty', 'std.print()', []),
	('emptyln', 'std.println()', [(1, b'\n')]),
	('empty string', 'std.print("")\nstd.print("", "")', [(1, b'\t')]),
	('bigcommand', '{ head -c 70000 /dev/zero }', [(1, b'\0' * 70000)]),
	('lines', 'std.print("n\\no")\nstd.print("p\\n")', [(1, b'n\nop\n')]),
	('redirected', '{ printf q > "/dev/null"; printf r 1>2 }', [(2, b'r')]),
	('merged', '{ sh -c "printf s; printf t >&2" 2>1 }', [(1, b'st')]),
	('loop', 'for i in std.range(0, 3, 1) do std.print(i) { printf $i } end', [(1, b'001122')]),
	('nested', 'c = ${ printf u }\n{ printf v }\nstd.print(c.stdout)', [(1, b'vu')]),
	('failing', 'c = { printf w; false; printf x }', [(1, b'w')]),
	('missing', 'c = { printf y; nosuchprogram }', [(1, b'y')]),
	('module', 'std.import("m.hsh")', None),
	('callback', 'for i in (function() let n = 0 function() std.print("[") n = n + 1 { printf "]" } @[ finished: n > 2, value: n ] end end)() do std.print(i) end', [(1, b'[]1[]2[]')]),
	('sort', 'std.print(std.sort([3, 1, 2]), 1.5, nil)', [(1, b'nil\t1.5\tnil')]) if False else ('values', 'std.print([1, "s"], 1.5, nil, true)', [(1, b'[ 1, "s" ]\t1.5\tnil\ttrue')]),
	('spawn0', '{ spawn0 printf name z }', [(1, b'z')]),
	('readp', 'c = std.read("prompt>")\nstd.print(c)', None),
	('cmdread', '{ head -c 2 }', None) if False else ('bytes', 'for b in std.iter("xy") do std.print(b) end', [(1, b'xy')]),
	('capture err', 'c = ${ sh -c "printf A; printf B >&2" }\nstd.print(c.stderr, c.stdout)', [(1, b'B\tA')]),
	('guard', 'c = ${ false ?; printf C }\nstd.print("D")', [(1, b'D')]),
]
ENDS = [
	('end', '', 0, []),
	('exit', 'std.exit(3)\n', 3, []),
	('panic', 'std.panic("P")\n', 127, None),
	('exec', '{ exec printf E }\n', 0, [(1, b'E')]),
	('execfail', '{ exec nosuchprogram }\n', 0, []),
	('pending', 'let p = &{ true }\n', 0, []),
	('exit print', 'std.print("no newline") std.exit(0)\n', 0, [(1, b'no newline')]),
]


def check_order(ctx, q):
	n = len(OPS)
	seqs = [()] + [(i,) for i in range(n)] + list(itertools.product(range(n), repeat=2))
	seqs += list(itertools.product(range(9), repeat=3)) if q else list(itertools.product(range(14), repeat=3)) + list(itertools.product(range(9), repeat=4))
	jobs = []
	for k, s in enumerate(seqs):
		if len(s) <= (1 if q else 2):
			jobs += [(s, e, m) for e in range(len(ENDS)) for m in range(3)]
		else:
			# The endings and stream set-ups rotate over the long sequences.
			jobs.append((s, k % len(ENDS), k % 3))

	def work(part):
		d = ctx.tmpdir()
		with open(os.path.join(d, 'm.hsh'), 'w') as f:
			f.write('std.print("M")\n{ printf N }\nlet x = 1\nstd.print(x)\n')
		bad = []
		for sq, e, mode in part:
			src = 'let c = nil\nlet j = nil\nlet big = "0123456789"\nwhile std.len(big) < %d do big = big ++ "0123456789" ++ "0123456789" ++ "0123456789" ++ "0123456789" ++ "0123456789" ++ "0123456789" end\n' % BIG if False else 'let c = nil\nlet j = nil\nlet big = ${ cat big }.stdout\n'
			want, imported, lines = [], False, [b'line1\n', b'line2\n', b'line3']
			for i in sq:
				name, text, out = OPS[i]
				src += text + '\n'
				if name == 'module':
					out = [] if imported else [(1, b'MN1')]
					imported = True
				elif name == 'readp':
					out = [(1, b'prompt>' + (lines.pop(0) if lines else b''))]
				want += out
			ename, text, rc, out = ENDS[e]
			line = src.count('\n') + 1
			src += text
			if out is None:
				out = [(2, b'Panic in s.hsh (line %d, column 9)\n' % line)]
			want = want + out
			with open(os.path.join(d, 's.hsh'), 'w') as f:
				f.write(src)
			with open(os.path.join(d, 'big'), 'wb') as f:
				f.write(b'0123456789' * (BIG // 10))
			both = b''.join(x for _, x in want)
			o1, o2 = b''.join(x for s, x in want if s == 1), b''.join(x for s, x in want if s == 2)
			inp = b'line1\nline2\nline3'
			if mode == 0:
				f = open(os.path.join(d, 'out'), 'wb')
				p = subprocess.run([ctx.hush, 's.hsh'], input=inp, stdout=f, stderr=f, cwd=d, env=core.BASE_ENV, timeout=30)
				f.close()
				got, exp = (p.returncode, open(os.path.join(d, 'out'), 'rb').read()), (rc, both)
			elif mode == 1:
				p = subprocess.run([ctx.hush, 's.hsh'], input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, env=core.BASE_ENV, timeout=30)
				got, exp = (p.returncode, p.stdout), (rc, both)
			else:
				p = subprocess.run([ctx.hush, 's.hsh'], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=core.BASE_ENV, timeout=30)
				got, exp = (p.returncode, p.stdout, p.stderr), (rc, o1, o2)
			got = tuple(PANIC.sub(b'\\1\n', x) if isinstance(x, bytes) else x for x in got)
			if got != exp:
				bad.append(('%s then %s, streams %d' % (', '.join(OPS[i][0] for i in sq), ename, mode), 'expected %r\nobserved %r' % (tuple(x[:3000] if isinstance(x, bytes) else x for x in exp), tuple(x[:3000] if isinstance(x, bytes) else x for x in got)), {'s.hsh': src}))
				if len(bad) > 2:
					break
		shutil.rmtree(d)
		return len(part), sum(len(s) + 1 for s, _, _ in part), bad
	for n, steps, bad in ctx.pmap(work, core.chunks(jobs, 50)):
		ctx.add('traces_validated_against_impl', n)
		ctx.add('states', n)
		ctx.add('transitions', steps)
		for b in bad:
			ctx.violation(*b)


VALUES = [('"s"', b's'), ("'b'", b'b'), ('1', b'1'), ('nil', b'nil'), ('""', b''), ('["s", 2]', b'[ "s", 2 ]'), ('-1.5', b'-1.5'), ('true', b'true'), ('@[ k: "v" ]', b'@[ "k": "v" ]'), ('"\\n\\t\\0\\""', b'\n\t\0"'), ('[]', b'[ ]'), ("'\\0'", b'\0'), ('std.error("e", "c")', b'error: "e" ("c")'), ('"\u00e9"', '\u00e9'.encode())]


def check_values(ctx, q):
	"""All argument lists up to a length: exactly the texts, separated by single tabs."""
	cases = []
	for n in range(0, 4 if q else 5):
		cases += itertools.product(range(len(VALUES) if n < 3 else 8), repeat=n)

	def work(part):
		src, want = 'let r = nil\n', b''
		for c in part:
			args = ', '.join(VALUES[i][0] for i in c)
			src += 'r = std.print(%s)\nstd.println(%s)\nr = std.println(%s)\nstd.print(r)\n' % (args, args, args)
			t = b'\t'.join(VALUES[i][1] for i in c)
			want += t + t + b'\n' + t + b'\nnil'
		r = ctx.run(src.encode())
		if (r.rc, r.out) == (0, want):
			return len(part), []
		k = next((i for i, (x, y) in enumerate(zip(r.out, want)) if x != y), min(len(want), len(r.out)))
		return len(part), [('print arguments', 'at byte %d: expected %r, observed %r %s' % (k, want[max(0, k - 40):k + 40], r.out[max(0, k - 40):k + 40], r.err[:300]), {'t.hsh': src})]
	for n, bad in ctx.pmap(work, core.chunks(cases, 200)):
		ctx.add('traces_validated_against_impl', n)
		for b in bad:
			ctx.violation(*b)


def raw_lit(b):
	return b'"' + b.replace(b'\\', b'\\\\').replace(b'"', b'\\"').replace(b'\0', b'\\0') + b'"'


def literal_form(text):
	"""How a text appears inside a collection."""
	names = {'\0': '\\0', '\t': '\\t', '\r': '\\r', '\n': '\\n', '\\': '\\\\', '"': '\\"', "'": "\\'"}
	return '"' + ''.join(names.get(c) or ('\\u{%x}' % ord(c) if ord(c) < 32 or 127 <= ord(c) < 160 else c) for c in text) + '"'


def check_texts(ctx, q):
	"""Every byte, every character of a selection covering all encoded lengths, and collections of every size."""
	jobs = []
	for v in range(256):
		b = bytes([v])
		src = b'let s = ' + raw_lit(b) + b'\nlet b = s[0]\nstd.print(s) std.print("|") std.print(b) std.print("|") std.println(s, b) std.println(b, s, b) std.print(b, b, s)\nlet j = std.to_string(b)\nstd.print(std.len(j), j)'
		jobs.append(('byte %d' % v, src, b + b'|' + b + b'|' + b + b'\t' + b + b'\n' + b + b'\t' + b + b'\t' + b + b'\n' + b + b'\t' + b + b'\t' + b, None))
	chars = [chr(i) for i in range(1, 128)] + list('\u00a1\u00e9\u00ff\u0131\u03b1\u0416\u05d0\u4e2d\u65e5\uac00\uffe6\U0001f600\U00020000\u20ac\u2211')
	for c in chars:
		for t in (c, c + c, 'a' + c, c + 'a', 'x' + c + 'y' + c):
			e = t.encode()
			lit = raw_lit(e)
			src = b'std.println(' + lit + b', [' + lit + b'], @[ k: ' + lit + b' ], std.error(' + lit + b', [' + lit + b']))'
			f = literal_form(t).encode()
			jobs.append(('text %r' % t, src, e + b'\t[ ' + f + b' ]\t@[ "k": ' + f + b' ]\terror: ' + f + b' ([ ' + f + b' ])\n', None))
	for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1000] + ([] if q else [4096, 10000]):
		src = 'let a = [] let d = @[] for i in std.range(0, %d, 1) do std.push(a, i) d[i] = -i end std.println(a) std.println(d) std.print(a, a) std.println([a, 1]) std.println(d)' % n
		arr = '[' + ','.join(' %d' % i for i in range(n)) + ' ]'
		jobs.append(('collections of %d elements' % n, src.encode(), None, (arr, n)))
	for n in range(0, 40):
		src = 'let a = 1 for i in std.range(0, %d, 1) do a = [a] end std.println(a) a = 1 for i in std.range(0, %d, 1) do a = @[ k: a ] end std.println(a) a = 1 for i in std.range(0, %d, 1) do a = std.error("e", a) end std.println(a)' % (n, n, n)
		jobs.append(('nesting %d' % n, src.encode(), ('[ ' * n + '1' + ' ]' * n + '\n' + '@[ "k": ' * n + '1' + ' ]' * n + '\n' + 'error: "e" (' * n + '1' + ')' * n + '\n').encode(), None))

	def one(job):
		name, src, want, size = job
		r = ctx.run(src)
		if size:
			arr, n = size
			lines = r.out.decode(errors='replace').split('\n')
			ok = r.rc == 0 and len(lines) == 5 and lines[0] == arr and lines[2] == arr + '\t' + arr + '[ ' + arr + ', 1 ]'
			for l in (lines[1], lines[3]) if ok else ():
				ok = ok and l.startswith('@[') and l.endswith(' ]') and sorted(l[2:-2].split(',')) == sorted([' %d: %d' % (i, -i) for i in range(n)] or [''])
			return None if ok else (name, r.brief(), {'t.hsh': src})
		if name.startswith('byte'):
			# The length of the string form is not this check's business.
			ok = r.rc == 0 and r.out.startswith(want)
		else:
			ok = (r.rc, r.out) == (0, want)
		return None if ok else (name, 'expected %r\n%s' % (want, r.brief()), {'t.hsh': src})
	for bad in ctx.pmap(one, jobs, 20):
		ctx.add('traces_validated_against_impl', 1)
		ctx.add('states', 1)
		if bad:
			ctx.violation(*bad)


READER = 'let n = 0\nlet l = std.read()\nwhile n < 12 do std.print(std.len(l), l) std.println("|") n = n + 1 l = if n %% 2 == 0 then std.read() else std.read(%s) end end\n'


def check_read(ctx, q):
	"""All inputs up to a length over an alphabet with newlines, carriage returns, NUL and invalid UTF-8."""
	alpha = [b'a', b'\n', b'\xff', b'\r', b'\0', '\u00e9'.encode()]
	inputs = []
	for n in range(5 if q else 7):
		inputs += [b''.join(t) for t in itertools.product(alpha if n < 5 else alpha[:3], repeat=n)]
	for size in (8191, 8192, 8193, 65535, 65536, 65537, 200000):
		inputs += [b'x' * size, b'x' * size + b'\n', b'x' * size + b'\ny', b'\n' + b'x' * size, (b'ab\n' * (size // 3))[:size]]
	shim = core.cc(ctx.path('bin', 'fault.so'), '-shared', '-fPIC', os.path.join(core.VERIF, 'helpers', 'fault.c'), '-ldl')

	def expect(data, prompt):
		out, rest = b'', data
		for i in range(12):
			k = rest.find(b'\n') + 1 or len(rest)
			line, rest = rest[:k], rest[k:]
			out += b'%d\t%s|\n' % (len(line), line)
			if (i + 1) % 2:
				out += prompt
		return out

	def work(part):
		d = ctx.tmpdir()
		bad = []
		for k, data in enumerate(part):
			for prompt, chunked in ((b'', False), (b'p> ', False), (b'p', True)):
				with open(os.path.join(d, 's.hsh'), 'wb') as f:
					f.write((READER % lit_str(prompt)).encode())
				if chunked and len(data) > 300:
					continue
				env = {'LD_PRELOAD': shim, 'FAULT': 'read:%d+:short' % (1 + k % 3), 'FAULT_EXE': os.path.realpath(ctx.hush)} if chunked else {}
				r = core.run_proc([ctx.hush, 's.hsh'], stdin=data, cwd=d, env=env, timeout=30)
				if (r.rc, r.out, r.err) != (0, expect(data, prompt), b''):
					bad.append(('reading %r%s' % (data[:40], ' byte by byte' if chunked else ''), 'expected %r\nobserved %s' % (expect(data, prompt)[:500], r.brief())))
		shutil.rmtree(d)
		return len(part) * 3, bad[:3]
	for n, bad in ctx.pmap(work, core.chunks(inputs, 40)):
		ctx.add('traces_validated_against_impl', n)
		ctx.add('states', n)
		for b in bad:
			ctx.violation(*b)
	# All divisions of an input into separately arriving chunks; the prompt is out before the input is there.
	data = b'ab\nc\n'
	src = 'std.print("x")\nlet a = std.read("p1")\nstd.print(a, "y")\nlet b = std.read("p2")\nstd.print(b)\nlet e = std.read()\nstd.print(std.len(e))\n'

	def chunked(cuts):
		d = ctx.tmpdir()
		with open(os.path.join(d, 's.hsh'), 'w') as f:
			f.write(src)
		p = subprocess.Popen([ctx.hush, 's.hsh'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=core.BASE_ENV)
		os.set_blocking(p.stdout.fileno(), False)
		got, pos, bad = b'', 0, None

		def until(want):
			nonlocal got
			end = time.time() + 10
			while got != want and time.time() < end:
				try:
					got += os.read(p.stdout.fileno(), 1000)
				except BlockingIOError:
					time.sleep(0.002)
			return got == want
		try:
			for cut in list(cuts) + [len(data)]:
				done = data[:pos]
				exp = b'xp1' + (b'ab\n\typ2' if len(done) >= 3 else b'') + (b'c\n' if len(done) >= 5 else b'')
				if not until(exp):
					bad = 'after %r: expected %r, observed %r' % (done, exp, got)
					break
				p.stdin.write(data[pos:cut])
				p.stdin.flush()
				pos = cut
			p.stdin.close()
			if bad is None and not until(b'xp1ab\n\typ2c\n0'):
				bad = 'at the end: %r' % got
		finally:
			p.kill()
			p.wait()
		shutil.rmtree(d)
		return cuts, bad
	cutsets = [c for n in range(5) for c in itertools.combinations(range(1, 5), n)]
	for cuts, bad in ctx.pmap(chunked, cutsets):
		ctx.add('traces_validated_against_impl', 1)
		if bad:
			ctx.violation('input arriving in pieces cut at %s' % (cuts,), bad, {'s.hsh': src})


def check(ctx):
	q = ctx.quick
	check_order(ctx, q)
	check_values(ctx, q)
	check_texts(ctx, q)
	check_read(ctx, q)
	return {'exhaustive': True, 'rule': 'all sequences of up to 2 of %d writers and of %s, x %d endings x 3 stream set-ups (rotating for the longer ones); all argument lists of up to %d values; every byte, characters of all encoded lengths in every place, collections of every size up to 70 and nesting up to 40; all inputs of up to %d characters over 6, whole and byte by byte; all 16 divisions of an input into chunks' % (len(OPS), '3 of the first 9' if q else '3 of the first 14 and 4 of the first 9', len(ENDS), 3 if q else 4, 4)}
