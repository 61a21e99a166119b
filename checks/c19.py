"""C19: redirections route every byte to the written target.

Every sequence of redirections up to a length, on a command in every kind of block, every pair on the stages of a pipeline
and on consecutive commands, is executed by a model of descriptors, file offsets and append mode; a helper process writes
tagged lines to both streams and reports its whole input, and every file, stream and result value is compared."""
import itertools
import os

from vlib import core
from vlib.lang import lit_str

TECHNIQUE = 'explicit-state model of descriptors and open files; all redirection sequences up to a bound executed on the model and on the real interpreter, all targets compared'

REDIRS = ['> F', '>> F', '2> F', '2>> F', '> G', '2> G', '>> G', '2>1', '1>2', '1>1', '< F', '< I', '<< "t $v"', '< missing', '> nodir/x', '2>> nodir/x', '3> F', '2>3', '0> F', '> .']
SHORT = ['> F', '>> F', '2> F', '2>> G', '2>1', '1>2', '< I', '<< lit', '< missing', '2> nodir/x', '3> F']
ERRS = ('< missing', '> nodir/x', '2>> nodir/x', '2> nodir/x', '> .')
PANICS = ('3> F', '2>3', '0> F')


class Desc:
	"""An open file description."""

	def __init__(self, data, append=False):
		self.data, self.off, self.append = data, 0, append

	def write(self, b):
		if self.append:
			self.off = len(self.data)
		if len(self.data) < self.off:
			self.data.extend(b'\0' * (self.off - len(self.data)))
		self.data[self.off:self.off + len(b)] = b
		self.off += len(b)

	def read(self):
		b = bytes(self.data[self.off:])
		self.off = len(self.data)
		return b


class Pipe(Desc):
	def write(self, b):
		self.data.extend(b)


class Broken(Exception):
	pass


class NoReader:
	def write(self, b):
		raise Broken()


class Fail(Exception):
	def __init__(self, kind):
		self.kind = kind


class FS:
	def __init__(self):
		self.files = {}

	def open(self, name, trunc, append):
		f = self.files.setdefault(name, bytearray())
		if trunc:
			del f[:]
		return Desc(f, append)


def apply(fs, redirs, names, fds):
	"""fds: [stdin, stdout, stderr]; returns them after the redirections, or raises Fail('io' | 'panic')."""
	fds = list(fds)
	for r in redirs:
		if r in ERRS:
			raise Fail('io')
		src, _, target = r.partition('<' if '<' in r else '>')
		if '<<' in r:
			fds[0] = Desc(bytearray(b't V\n' if 't $v' in r else b'lit\n'))
			continue
		if '<' in r:
			fds[0] = fs.open(names[target.strip()], False, False) if names[target.strip()] in fs.files else None
			if fds[0] is None:
				raise Fail('io')
			continue
		src = int(src or '1')
		append = '>>' in r
		target = target.strip('> ')
		if target in '123':
			if int(target) > 2:
				raise Fail('panic')
			t = fds[int(target)]
		else:
			t = fs.open(names[target], not append, append)
		if src not in (1, 2):
			raise Fail('panic')
		fds[src] = t
	return fds


def emit(tag, fds):
	"""What the helper does; its exit status."""
	t = tag.encode()
	data = fds[0].read()
	try:
		fds[1].write(t + b'o1\n')
		fds[2].write(t + b'e1\n')
		fds[1].write(t + b'o2x\n')
		fds[2].write(t + b'e2yz\n')
		fds[1].write(t + b'i=' + data + b'\n')
	except Broken:
		return 255 + 13
	return 0


def pipeline(fs, stages, names, tag, out, err):
	"""Stages start from the last to the first. Returns a list of statuses, or raises Fail."""
	started = []
	nout = out
	failed = None
	for i in range(len(stages) - 1, -1, -1):
		pipe = Pipe(bytearray())
		try:
			fds = apply(fs, stages[i], names[i], [pipe, nout, err])
		except Fail as f:
			failed = f
			break
		started.append((i, fds))
		nout = pipe if fds[0] is pipe else NoReader()
	st = []
	for i, fds in reversed(started):
		s = emit(tag + 'abc'[i], fds)
		if s:
			st.append(s)
	if failed:
		raise failed
	return st


class Case:
	"""kind: '' plain, '$' capture, '&' async; commands: list of pipelines, each a list of redirection sequences."""

	def __init__(self, kind, commands):
		self.kind, self.commands = kind, commands

	def names(self, i, c, s):
		return {'F': 'f%d_%d%s' % (i, c, 'abc'[s]), 'G': 'g%d_%d%s' % (i, c, 'abc'[s]), 'I': 'input'} if len(self.commands[c]) > 1 else {'F': 'f%d' % i, 'G': 'g%d' % i, 'I': 'input'}

	def source(self, i):
		cmds = []
		for c, stages in enumerate(self.commands):
			st = []
			for s, redirs in enumerate(stages):
				n = self.names(i, c, s)
				words = ['$io %d%s%s' % (i, 'xyz'[c], 'abc'[s])]
				for r in redirs:
					for k, v in n.items():
						r = r.replace(' ' + k, ' ' + v) if r[-1] == k else r
					words.append(r)
				st.append(' '.join(words))
			cmds.append(' | '.join(st))
		body = self.kind + '{ ' + '; '.join(cmds) + ' }'
		if self.kind == '&':
			body = 'let j = ' + body + '\nj.join()'
		return 'r = std.catch(function()\n%s\nend)\nshow(%d, r)\n' % (body, i)

	def expect(self, i):
		fs = FS()
		for c in range(len(self.commands)):
			for s in range(len(self.commands[c])):
				fs.files[self.names(i, c, s)['F']] = bytearray(b'initial contents\n')
		fs.files['input'] = bytearray(b'from a file\n')
		sout, serr = Desc(bytearray()), Desc(bytearray())
		cap = (Desc(bytearray()), Desc(bytearray()))
		out, err = cap if self.kind == '$' else (sout, serr)
		res = []
		for c, stages in enumerate(self.commands):
			try:
				st = pipeline(fs, stages, [self.names(i, c, s) for s in range(len(stages))], '%d%s' % (i, 'xyz'[c]), out, err)
			except Fail as f:
				if f.kind == 'panic':
					res = None
				else:
					res.append([127])
				break
			if st:
				res.append(st)
				break
		if res is None:
			text = b'%d panic\n' % i
		else:
			text = b'%d %s\n' % (i, b';'.join(b','.join(b'%d' % s for s in p) for p in res))
			if self.kind == '$':
				text += b'[\n%s][\n%s]\n' % (cap[0].data, cap[1].data)
		return bytes(sout.data) + b'#' + text, bytes(serr.data), {k: bytes(v) for k, v in fs.files.items() if k != 'input'}

	def concurrent(self):
		return any(len(c) > 1 for c in self.commands)


HEAD = '''let r = nil
let v = "V"
let one = function(e)
	if std.type(e) == "array" then
		let s = ""
		for x in std.iter(e) do
			s = if s == "" then std.to_string(x.context.status) else s ++ "," ++ std.to_string(x.context.status) end
		end
		s
	else
		std.to_string(e.status)
	end
end
let show = function(i, r)
	if std.type(r) == "error" and r.context == "panic" then
		std.println("#" ++ std.to_string(i) ++ " panic")
	else
		let d = r
		let c = nil
		if std.type(r) == "error" then
			c = r.context
			d = r.context
			if std.type(c) == "dict" and std.contains(c, "error") then c = c.error end
		end
		std.println("#" ++ std.to_string(i) ++ " " ++ if c == nil then "" else one(c) end)
		if std.type(d) == "dict" and std.contains(d, "stdout") then std.println("[\\n" ++ d.stdout ++ "][\\n" ++ d.stderr ++ "]") end
	end
end
'''


def unordered(b):
	"""The lines on each stream (captured standard output and error are streams of their own), in any order."""
	out, where = [], b''
	for line in b.splitlines():
		if line in (b'[', b'][', b']'):
			where = line
		out.append((where, line))
	return sorted(out)


def run_cases(ctx, io, cases, single=False):
	d = ctx.tmpdir()
	src = 'let io = %s\n' % lit_str(io.encode()) + HEAD
	want_out, want_err, want_files = b'', [], {}
	with open(os.path.join(d, 'input'), 'w') as f:
		f.write('from a file\n')
	for i, c in enumerate(cases):
		src += c.source(i)
		o, e, f = c.expect(i)
		want_out += o
		want_err.append(e)
		want_files.update(f)
		for k in range(len(c.commands)):
			for s in range(len(c.commands[k])):
				with open(os.path.join(d, c.names(i, k, s)['F']), 'w') as fh:
					fh.write('initial contents\n')
	r = ctx.run(src, cwd=d, timeout=120)
	files = {n: open(os.path.join(d, n), 'rb').read() for n in os.listdir(d) if n != 'input'}
	conc = any(c.concurrent() for c in cases)
	flat = b''.join(want_err)
	# Stages of a pipeline run concurrently: their lines on a shared stream come in any order.
	norm = unordered if conc else (lambda b: b)
	ok = r.rc == 0 and norm(r.out) == norm(want_out) and norm(r.err) == norm(flat) and files == want_files and open(os.path.join(d, 'input'), 'rb').read() == b'from a file\n'
	if ok:
		return []
	if not single:
		bad = []
		for c in cases:
			bad += run_cases(ctx, io, [c], True)
			if len(bad) > 2:
				return bad
		return bad or [('redirections in company', 'only together: %s' % r.brief(), {'t.hsh': src})]
	diff = {n: (want_files.get(n), files.get(n)) for n in set(files) | set(want_files) if files.get(n) != want_files.get(n)}
	c = cases[0]
	return [('%s%r' % (c.kind, c.commands), 'expected stdout %r\nexpected stderr %r\nfiles (expected, observed): %r\n%s' % (want_out, flat, diff, r.brief()), {'t.hsh': src})]


def seqs(alpha, n):
	for k in range(n + 1):
		yield from (list(t) for t in itertools.product(alpha, repeat=k))


def cases(q):
	for s in seqs(REDIRS, 3):
		yield Case('', [[s]])
	if not q:
		for s in itertools.product(SHORT, repeat=4):
			yield Case('', [[list(s)]])
	for kind in ('$', '&'):
		for s in seqs(REDIRS, 2 if q else 3):
			yield Case(kind, [[s]])
	for kind in ('', '$', '&'):
		for a in seqs(SHORT, 1 if q or kind == '&' else 2):
			for b in seqs(SHORT, 1):
				yield Case(kind, [[a, b]])
				yield Case(kind, [[a], [b]])
				if len(a) == 2:
					yield Case(kind, [[b, a]])
					yield Case(kind, [[b], [a]])
		three = SHORT[:1] + SHORT[4:9] if q else SHORT
		for t in itertools.product(list(seqs(three, 1)), repeat=3):
			yield Case(kind, [list(t)])


# ------------------------------------------------------------------ the rest
def summary(data):
	s = 0
	for b in data:
		s = (s * 31 + b) % 1000003
	return b'i#%d,%d' % (len(data), s) if len(data) > 1000 else b'i=' + data


def scripts(q):
	"""(source, expected stdout, files afterwards)"""
	sizes = [0, 1, 2, 999, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 131072, 200000] + ([] if q else [1 << 20, (1 << 20) + 1])
	for n in sizes:
		t = (b'abcdefg\n' * (n // 8 + 1))[:n]
		mk = 'let t = std.read_text("in")' if False else 'let t = ${ cat big }.stdout'
		yield mk + '\n{ $io x << $t | grep x }' if False else mk + '\n{ $io x << $t }', b'xo1\nxo2x\nx' + summary(t + b'\n') + b'\n', {'big': t}
		yield mk + '\n{ $io x << $t > out }\n{ $io x << "<$t>" >> out }', b'', {'big': t, 'out': b'xo1\nxo2x\nx' + summary(t + b'\n') + b'\nxo1\nxo2x\nx' + summary(b'<' + t + b'>\n') + b'\n'}
		yield '{ $io x < big }', b'xo1\nxo2x\nx' + summary(t) + b'\n', {'big': t}
		yield '{ cat big > o1; cat < big >> o1 }', b'', {'big': t, 'o1': t + t}
		# A reader that does not read its literal input.
		yield mk + '\nlet r = { true << $t; head -c3 << $t > h; true }\nstd.println(r)', b'nil\n', {'big': t, 'h': (t + b'\n')[:3]}
	for v, b in (('"a\\nb"', b'a\nb'), ('""', b''), ('nil', b''), ('7', b'7'), ('"*"', b'*'), ('"$v ~/ %"', b'$v ~/ %'), ("'\\0'", b'\0'), ('"\\0\\n"', b'\0\n'), ('[ "q" ]', b'q')):
		yield 'let t = %s\n{ $io x << $t }\n{ cat << "<${t}>" }' % v, b'xo1\nxo2x\nxi=' + b + b'\n\n<' + b + b'>\n', {}
	for c in range(256):
		if c % (8 if q else 1) == 0 or c in (10, 13, 255):
			yield b'{ cat << "%s" }' % {0x22: b'\\"', 0x24: b'\\$', 0x5C: b'\\\\'}.get(c, bytes([c])), bytes([c]) + b'\n', {}
	# Literal input made of several parts, of every sequence of up to 4 part kinds (NUL bytes included).
	kinds = [('a', b'a'), ('\\0', b'\0'), ("'\\0'", b'\0'), ('"\\0"', b'\0'), ("'q r'", b'q r'), ('"d\\n"', b'd\n'), ('$v', b'* \n'), ('"$v"', b'* \n'), ('"${v}\\0"', b'* \n\0'), ('"\\0$v"', b'\0* \n'), ('${w}', b'w'), ('""', b'')]
	words = [t for k in range(1, (4 if q else 5)) for t in itertools.product(kinds, repeat=k) if not any(x[0] == '$v' and y[0] == 'a' for x, y in zip(t, t[1:])) and (k < 4 or len(set(t)) < 4)]
	for part in core.chunks(words, 40):
		yield 'let v = "* \\n"\nlet w = "w"\n' + ''.join('{ cat << %s }\n' % ''.join(x[0] for x in t) for t in part), b''.join(b''.join(x[1] for x in t) + b'\n' for t in part), {}
	for n in (7, 8, 9, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 1000, 5000):
		t = ('xyz' * n)[:n]
		for src, out in ((t, t), ("'%s'" % t, t), ('"%s"' % t, t), ('a' + t, 'a' + t), ("'a'" + t, 'a' + t), ("a'%s'" % t, 'a' + t), ('a"%s"' % t, 'a' + t), ('"a"%s"b"' % t, 'a' + t + 'b'), ('"$w"%s' % t, 'w' + t), ('%s$w' % t, t + 'w'), ('"%s$w"\'%s\'"%s"' % (t, t, t), t + 'w' + t + t), ('q"${w}%s"%s' % (t, t), 'qw' + t + t)):
			yield 'let w = "w"\n{ cat << %s > f; cat << %s }' % (src, src), out.encode() + b'\n', {'f': out.encode() + b'\n'}
	# Targets: names from variables, quoting, spaces; layout of the operators.
	for t, n in (('o', 'o'), ('"a b"', 'a b'), ('$name', 'n*'), ("'>'", '>'), ('$name.x', 'n*.x'), ('"1"', '1'), ('"2"', '2'), ('./1', '1'), ('1x', '1x'), ('x1', 'x1')):
		yield 'let name = "n*"\n{ echo hi > %s }' % t, b'', {n: b'hi\n'}
		yield 'let name = "n*"\n{ echo hi >> %s; echo ho >> %s; cat < %s }' % (t, t, t), b'hi\nho\n', {n: b'hi\nho\n'}
		if t != '$name.x':
			# Relative and absolute spellings of the same target, over an existing longer file.
			for pre in ('', './', '$cwd/', '../$base/'):
				yield 'let name = "n*"\nlet cwd = std.cwd()\nlet base = ${ basename $cwd }.stdout\nbase = std.substr(base, 0, std.len(base) - 1)\n{ echo longer than before > %s }\n{ echo hi > %s%s }\n{ echo ho >> %s%s; cat < %s%s }\n{ sh -c "echo e >&2" 2> %s%s }' % (('"%s"' % n if t in '12' else t, ) + (pre, t if pre or t not in '12' else '"%s"' % n) * 4), b'hi\nho\n', {n: b'e\n'}
	# Only > takes a descriptor; what >> names is a file.
	for op in ('>>', '1>>', '2>>', ' >> ', '2>> '):
		for t in ('1', '2', '0', '3', '12', '256'):
			yield '{ sh -c "echo o; echo e >&2" %s%s }\n{ sh -c "echo p; echo f >&2" %s%s 2>1 }' % (op, t, op, t) if '2' not in op else '{ sh -c "echo e >&2" %s%s }\n{ sh -c "echo f >&2" %s%s 1>2 }' % (op, t, op, t), b'', {t: b'e\nf\n' if '2' in op else b'o\np\nf\n'}
	# A target must come to exactly one item of a printable type; nothing is opened and nothing runs otherwise.
	for v, kind in (('[]', 'panic'), ('nil', 'error'), ('""', 'error'), ('["o"]', 'o'), ('["", ""]', 'panic'), ('["o", ""]', 'panic'), ('["", "o"]', 'panic'), ('["o", "o"]', 'panic'), ('[nil]', 'error'), ('[["o"]]', 'panic'), ('@[o: 1]', 'panic'), ('function() "o" end', 'panic'), ('std', 'panic'),
			('1', '1'), ("'c'", 'c'), ('true', 'true'), ('1.5', '1.5'), ('["o", "p", "q"]', 'panic'), ('[""]', 'error'), ('[1]', '1')):
		for op in ('>', '>>', '2>', '2>>'):
			want = {'panic': b'[]\tpanic\n', 'error': b'[]\t127\n'}.get(kind, b'')
			if kind not in ('panic', 'error'):
				want = b'[%s]\tok\n' % (b'' if op[0] == '>' else b'out')
			yield ('let v = %s\nlet r = std.catch(function() ${ sh -c "printf out; printf err >&2" %s $v ; echo -n "" } end)\n' % (v, op)
				+ 'if std.type(r) == "error" then if r.context == "panic" then std.println("[]", "panic") else std.println("[" ++ r.context.stdout ++ "]", r.context.error.status) end else std.println("[" ++ r.stdout ++ "]", "ok") end'), want, {} if kind in ('panic', 'error') else {kind: b'out' if op[0] == '>' else b'err'}
		want, files = {'panic': b'panic\n', 'error': b'127\n'}.get(kind, b'data\nnil\n'), {} if kind in ('panic', 'error') else {kind: b'data\n'}
		yield '%slet v = %s\nlet r = std.catch(function() { cat < $v } end)\nstd.println(if std.type(r) == "error" then if r.context == "panic" then "panic" else r.context.status end else r end)' % ('{ echo data > "./%s" }\n' % kind if files else '', v), want, files
	for form in ('echo hi >o', 'echo hi> o', 'echo hi>o', 'echo hi 1>o', 'echo hi 1 > o', 'echo hi 1> o', 'echo hi\n>\no', 'echo hi 2>e >o', 'echo "hi">o', 'echo hi # c\n > # d\n o'):
		yield '{ %s }' % form, b'', dict(o=b'hi\n', **({'e': b''} if '2>e' in form else {}))
	# The number of arguments and of environment prefixes does not matter to the redirections.
	for n in range(0, 13 if q else 41):
		args = ' '.join('a%d' % i for i in range(n))
		pre = ' '.join('V%d=x' % i for i in range(n % 4))
		line = ' '.join(['a%d' % i for i in range(n)]).encode() + b'\n'
		for redirs in [list(t) for k in (1, 2, 3) for t in itertools.product(['> F', '>> F', '2> F', '2>> G', '2>1', '1>2'], repeat=k) if q is False or k < 3 or n in (0, 3)]:
			fs, names = FS(), {'F': 'F', 'G': 'G'}
			so, se = Desc(bytearray()), Desc(bytearray())
			fds = apply(fs, redirs, names, [None, so, se])
			fds[1].write(line)
			fds[2].write(b'e' + line)
			for kind in ('$', ''):
				if kind:
					yield 'let c = ${ %s sh -c "echo \\"\\$*\\"; echo e\\"\\$*\\" >&2" x %s %s }\nstd.print(c.stdout ++ "|" ++ c.stderr)' % (pre, args, ' '.join(redirs)), bytes(so.data) + b'|' + bytes(se.data), {k: bytes(v) for k, v in fs.files.items()}
				else:
					yield '{ %s sh -c "echo \\"\\$*\\"; echo e\\"\\$*\\" >&2" x %s %s }' % (pre, args, ' '.join(redirs)), bytes(so.data), {k: bytes(v) for k, v in fs.files.items()}
	yield '{ echo a2> o }', None, None
	yield '{ echo a 2 > o }', b'a\n', {'o': b''}
	yield '{ echo a "2" > o }', b'', {'o': b'a 2\n'}
	yield '{ echo a \\$2 > o }', b'', {'o': b'a $2\n'}
	yield 'let two = 2\n{ echo a $two > o }', b'', {'o': b'a 2\n'}
	# Append mode: writers of the same file do not overwrite each other, in any order of commands.
	for ops in itertools.product(('>', '>>'), repeat=4):
		exp = b''
		for i, o in enumerate(ops):
			exp = (exp if o == '>>' else b'') + b'n%d\n' % i
		yield '{ %s }' % '; '.join('echo n%d %s o' % (i, o) for i, o in enumerate(ops)), b'', {'o': exp}
	# The interpreter's own streams are untouched by redirections.
	yield 'std.println("a")\n{ $io x > o 2> o2 }\nstd.println("b")\n{ echo c }', b'a\nb\nc\n', {'o': b'xo1\nxo2x\nxi=\n', 'o2': b'xe1\nxe2yz\n'}
	# A failing command still gets its redirections; the try operator after them.
	yield 'let r = { sh -c "echo out; echo err >&2; exit 3" > o 2> e ?; echo next }\nstd.println(r.context.status)', b'next\n3\n', {'o': b'out\n', 'e': b'err\n'}
	yield '{ sh -c "echo out; echo err >&2" > o 2>1; cat o }', b'out\nerr\n', {'o': b'out\nerr\n'}
	yield '{ sh -c "echo out; echo err >&2" 2>1 > o }', b'err\n', {'o': b'out\n'}
	yield '{ ./nosuch > o }', b'', {'o': b''}
	yield 'let r = { echo a > ro/x; echo never }\nstd.println(r.context.status)\nstd.println(std.type(r.description))', b'127\nstring\n', {}
	yield 'let c = ${ sh -c "echo out; echo err >&2" 2>1 }\nstd.print(c.stdout, c.stderr)', b'out\nerr\n\t', {}
	yield 'let c = ${ sh -c "echo out; echo err >&2" > o }\nstd.print(c.stdout, c.stderr)', b'\terr\n', {'o': b'out\n'}
	yield 'let c = ${ sh -c "echo out; echo err >&2" 1>2 }\nstd.print(c.stdout, c.stderr)', b'\tout\nerr\n', {}


def check(ctx):
	io = core.cc(ctx.path('bin', 'io'), os.path.join(core.VERIF, 'helpers', 'io.c'))
	total = 0

	def count(it):
		nonlocal total
		for x in it:
			total += 1
			yield x

	def batches():
		seq, conc = [], []
		for c in count(cases(ctx.quick)):
			b = conc if c.concurrent() else seq
			b.append(c)
			if len(b) == 40:
				yield list(b)
				del b[:]
		for b in (seq, conc):
			if b:
				yield b
	for bad in ctx.pmap(lambda b: run_cases(ctx, io, b), batches()):
		for v in bad:
			ctx.violation(*v)
	ctx.add('redirection_sequences', total)

	def one(c):
		src, out, files = c
		d = ctx.tmpdir()
		if 'big' in files:
			with open(os.path.join(d, 'big'), 'wb') as f:
				f.write(files['big'])
		text = ('let io = %s\n' % lit_str(io.encode())).encode() + (src if isinstance(src, bytes) else src.encode())
		r = ctx.run(text, cwd=d, timeout=60)
		got = {n: open(os.path.join(d, n), 'rb').read() for n in os.listdir(d)}
		if r.out == out and got == files and r.rc == 0:
			return None
		return (repr(src[:200]), 'expected %r and files %r\nobserved files %r\n%s' % (out[-600:], {k: v[-200:] for k, v in files.items()}, {k: v[-200:] for k, v in got.items()}, r.brief()), {'t.hsh': text})
	rest = [c for c in scripts(ctx.quick) if c[1] is not None]
	for bad in ctx.pmap(one, rest):
		if bad:
			ctx.violation(*bad)
	ctx.add('scripts', len(rest))
	n = total + len(rest)
	return {'exhaustive': True, 'states': n, 'transitions': n, 'traces_validated_against_impl': n,
		'rule': 'all sequences of up to 3 of %d redirections on a command (thorough: 4 of %d), up to 2 (3) in capture and async blocks, all combinations on pipelines of 2 and 3 stages and on 2 consecutive commands; literal inputs of %s bytes' % (len(REDIRS), len(SHORT), 'up to 200000' if ctx.quick else 'up to 1 MiB'),
		'assumptions': ['concurrent stages of a pipeline write each line with one write(2); lines of different stages on a shared stream are compared as a multiset']}
