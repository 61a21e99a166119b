"""C22: capture blocks return exactly the bytes written.

All sequences of writes (either stream, sizes around the capacity of a pipe, every byte value) by one and by several commands
with every way of ending are captured and compared byte for byte with the model, as is the terminal; the interleavings of a
captured command with a concurrent uncaptured one are replayed under a controlled scheduler."""
import itertools
import os

from vlib import core
from vlib.agents import Dead, Stuck, World, compile_agent
from vlib.lang import lit_str

TECHNIQUE = 'exhaustive enumeration of write histories of captured commands against a byte-exact model; schedules of captured and concurrent commands replayed under a controlled scheduler'


def data(n, s):
	unit = bytes((k * 7 + s) & 255 for k in range(256))
	return (unit * (n // 256 + 1))[:n]


class Cmd:
	def __init__(self, steps, end='', guard=False):
		self.steps, self.end, self.guard = steps, end, guard

	def source(self):
		words = ['1:%d:%d' % (n, s) if f == 1 else '2:%d:%d' % (n, s) for f, n, s in self.steps]
		return '$e ' + ' '.join(words + ([self.end] if self.end else [])) + (' ?' if self.guard else '')

	def status(self):
		return 0 if not self.end or self.end[0] == 'm' else int(self.end[1:]) + (255 if self.end[0] == 'k' else 0)


def model(cmds):
	out, err, fails = b'', b'', []
	for c in cmds:
		stop = False
		if isinstance(c, list):
			# A pipeline of which all but the last stage write nothing to stdout, and only one stage to stderr.
			last = c[-1]
			err += b''.join(data(n, s) for x in c[:-1] for f, n, s in x.steps if f == 2)
			fails += [x.status() for x in c[:-1] if x.status()]
			stop = any(x.status() and not x.guard for x in c[:-1])
		else:
			last = c
		out += b''.join(data(n, s) for f, n, s in last.steps if f == 1)
		err += b''.join(data(n, s) for f, n, s in last.steps if f == 2)
		if last.status():
			fails.append(last.status())
			stop = stop or not last.guard
		if stop:
			break
	return out, err, fails


HEAD = '''let show = function(r)
	let c = r
	let st = ""
	if std.type(r) == "error" then
		c = r.context
		let e = c.error
		if std.type(e) == "array" then
			for x in std.iter(e) do st = st ++ std.to_string(x.context.status) ++ "," end
		else
			st = std.to_string(e.status) ++ ","
		end
	end
	std.println("#", std.type(r), st, std.len(c.stdout), std.len(c.stderr))
	std.print(c.stdout)
	std.print(c.stderr)
	std.println("")
end
'''


def expect(cmds):
	out, err, fails = model(cmds)
	return b'#\t%s\t%s\t%d\t%d\n' % (b'error' if fails else b'dict', b''.join(b'%d,' % f for f in fails), len(out), len(err)) + out + err + b'\n'


def run_cases(ctx, e, cases, single=False):
	src = 'let e = %s\n' % lit_str(e.encode()) + HEAD
	want = b''
	for cmds in cases:
		src += 'show(${ %s })\n' % '; '.join(c.source() if isinstance(c, Cmd) else ' | '.join(x.source() for x in c) for c in cmds)
		want += expect(cmds)
	r = ctx.run(src, timeout=120)
	if r.rc == 0 and r.out == want and not r.err:
		return []
	if not single:
		bad = []
		for c in cases:
			bad += run_cases(ctx, e, [c], True)
			if len(bad) > 2:
				return bad
		return bad or [('captures in company', r.brief(), {'t.hsh': src})]
	return [('capture ${ %s }' % src.split('show(${ ')[-1].split(' })')[0], 'expected %d bytes %r...\nobserved %d bytes\n%s' % (len(want), want[:300], len(r.out), r.brief()), {'t.hsh': src})]


def cases(q):
	small = [(f, n) for f in (1, 2) for n in (0, 1, 300)]
	large = [(f, n) for f in (1, 2) for n in (1, 65536, 65537, 200000)]

	def steps(t):
		return [(f, n, (i * 37 + f) & 255) for i, (f, n) in enumerate(t)]
	ends = ['', 'x1', 'x255', 'k9']
	for k in range(5 if q else 6):
		for t in itertools.product(small, repeat=k):
			yield [Cmd(steps(t), ends[len(t) and sum(n for _, n in t) % 4], bool(k % 2))]
	for k in (1, 2, 3):
		for t in itertools.product(large, repeat=k):
			if k < 3 or not q or t[0][1] > 1:
				yield [Cmd(steps(t), ends[(t[0][1] + k) % 4])]
	for n in list(range(0, 12)) + [b + d for b in (512, 1024, 4096, 8192, 65536, 131072) for d in (-1, 0, 1)]:
		for f in (1, 2):
			yield [Cmd([(f, n, 10)])]
	for n in [(1 << 20) - 1, 1 << 20, (1 << 20) + 1] + ([] if q else [1 << 22, (1 << 24) + 3]):
		for f in (1, 2):
			yield [Cmd([(f, n, 10), (3 - f, 5, 7)])]
	for s in range(256):
		yield [Cmd([(1, 1, s), (2, 1, 255 - s)])]
	one = [(), ((1, 2),), ((2, 3),), ((2, 1), (1, 2))]
	for t in itertools.product(itertools.product(one, ends[:2] + ['k15'], (False, True)), repeat=2):
		yield [Cmd(steps(s), e, g) for s, e, g in t]
	for t in itertools.product(itertools.product(one[1:], ['', 'x2'], (True,)), repeat=3):
		yield [Cmd(steps(s), e, g) for s, e, g in t]
	for a in ((1, 70000), (2, 70000)):
		for b in ((1, 70000), (2, 70000)):
			yield [Cmd([a + (1,)]), Cmd([b + (2,)]), Cmd([a + (3,), b + (4,)], 'x7')]
	# Pipelines: the last stage's standard output and every stage's standard error are captured.
	for s, e, g in itertools.product(one, ['', 'x4'], (False, True)):
		yield [[Cmd([]), Cmd(steps(s), e, g)]]
		yield [[Cmd([]), Cmd([]), Cmd(steps(s), e, g)], Cmd([(1, 1, 65)])]
	for n, e, g, e2, g2 in itertools.product((1, 3, 65537), ['', 'x4'], (False, True), ['', 'x5'], (False, True)):
		yield [[Cmd([(2, n, 3)], e, g), Cmd([(1, 2, 9)], e2, g2)], Cmd([(1, 1, 65), (2, 1, 66)])]
		yield [[Cmd([(2, n, 3)], e, g), Cmd([]), Cmd([(1, 2, 9)], e2, g2)], Cmd([(1, 1, 65), (2, 1, 66)])]
		yield [[Cmd([]), Cmd([(2, n, 3)], e, g), Cmd([(1, 2, 9)], e2, g2)], Cmd([(1, 1, 65), (2, 1, 66)])]


def scripts():
	"""(source, stdout, stderr)"""
	yield 'let c = ${ echo -n "" }\nstd.println(c.stdout == "", c.stderr == "", std.len(c))', b'true\ttrue\t2\n', b''
	yield 'let c = ${ echo a; echo b; printf "c" }\nstd.print(c.stdout)', b'a\nb\nc', b''
	yield 'std.print("1")\nlet c = ${ echo a }\nstd.print("2")\n{ echo 3 }\nstd.print(c.stdout)', b'123\na\n', b''
	yield 'let f = function() ${ echo in } end\nlet c = ${ echo out }\nstd.print(c.stdout, f().stdout, c.stdout)', b'out\n\tin\n\tout\n', b''
	yield 'let x = ${ echo a }.stdout\nlet y = ${ echo "<$x>" }.stdout\nstd.print(y)', b'<a\n>\n', b''
	yield 'for i in std.range(0, 20, 1) do std.print(${ echo $i }.stdout) end', b''.join(b'%d\n' % i for i in range(20)), b''
	yield 'let c = [ ${ echo a }, ${ echo b } ]\nstd.print(c[1].stdout, c[0].stdout)', b'b\n\ta\n', b''
	# The captured dict is an ordinary value; two captures are independent.
	yield 'let c = ${ echo a }\nlet d = c\nd.stdout = "z"\nstd.println(c.stdout)\nstd.print(${ echo a }.stdout)', b'z\na\n', b''
	# The stderr of every stage is captured.
	yield 'let c = ${ $e 2:3:97 | cat; $e 2:2:65 }\nstd.println(c.stderr)', b'ahoAH\n', b''
	yield 'let c = ${ $e 2:3:97 | cat | cat; $e 2:2:65 | cat > "/dev/null" | cat }\nstd.println(c.stderr)', b'ahoAH\n', b''
	yield 'let c = ${ $e 2:3:97 | $e 2:2:65 2> "/dev/null" }\nstd.println(c.stderr)', b'aho\n', b''
	yield 'let c = ${ $e 2:3:97 2> "/dev/null" | $e 2:2:65 }\nstd.println(c.stderr)', b'AH\n', b''
	yield 'let c = ${ $e 2:3:97 2>1 | cat | cat 1>2 }\nstd.println(c.stdout, c.stderr)', b'\taho\n', b''
	yield 'let c = ${ $e 1:1:65 2:3:97 1:1:66 | cat | ./nosuch }\nstd.println(c.context.stderr, c.context.error.status)', b'\t127\n', b''
	yield 'let c = ${ $e 1:3:97 | cat; $e 2:2:65 }\nstd.println(c.stdout, c.stderr)', b'aho\tAH\n', b''
	# Failures to start keep what was captured before.
	yield 'let c = ${ $e 1:2:65 2:2:97; ./nosuch; echo never }\nstd.println(std.type(c), c.context.stdout, c.context.stderr, c.context.error.status)', b'error\tAH\tah\t127\n', b''
	yield 'let c = ${ $e 1:2:65 x3 ?; $e 2:2:97; ./nosuch; echo never }\nstd.println(std.type(c), c.context.stdout, c.context.stderr, std.len(c.context.error))', b'error\tAH\tah\t2\n', b''
	yield 'let c = ${ ./nosuch | $e 1:2:65 }\nstd.println(std.type(c), c.context.stdout, c.context.error.status)', b'error\tAH\t127\n', b''
	yield 'let c = ${ $e 1:2:65 | ./nosuch }\nstd.println(std.type(c), c.context.stdout, c.context.error.status)', b'error\t\t127\n', b''
	# Panics inside: nothing leaks and later captures work.
	yield 'let r = std.catch(function() ${ echo a; $e 1:100000:1; echo b 2>3 } end)\nstd.println(r.context)\nstd.print(${ echo c }.stdout)', b'panic\nc\n', b''
	# The first command closes its streams early.
	yield 'let c = ${ $e c1 2:2:97 c2 x1 ?; $e 1:2:65 }\nstd.println(c.context.stdout, c.context.stderr, c.context.error.status)', b'AH\tah\t1\n', b''
	# A command that outlives the streams is waited for.
	yield 'let c = ${ sh -c "exec >&- 2>&-; sleep 0.1; echo x > mark" }\n{ cat mark }', b'x\n', b''
	# A background process that holds the streams: everything it writes is part of the capture.
	yield 'let c = ${ sh -c "(sleep 0.1; echo late) & echo early" }\nstd.print(c.stdout)', b'early\nlate\n', b''
	# Deep: captures inside functions called from the arguments' expressions, inside loops, conditions and other collections.
	yield 'if ${ echo yes }.stdout == "yes\\n" then std.println("then") else std.println("else") end', b'then\n', b''
	yield 'let n = 0\nwhile ${ echo $n }.stdout != "3\\n" do n = n + 1 end\nstd.println(n)', b'3\n', b''
	yield 'let f = function() ${ false }? end\nstd.println(f().context.error.status)', b'1\n', b''
	yield 'let f = function() ${ echo fine }?.stdout end\nstd.print(f())', b'fine\n', b''


def schedules(ctx, agent, q):
	"""All interleavings of a captured command's writes with those of a concurrent async command on the terminal."""
	A = [('t', 1), ('t', 2), ('t', 1), ('x', 0)] if q else [('t', 1), ('t', 2), ('t', 1), ('t', 2), ('x', 3)]
	B = [('t', 1), ('t', 2), ('x', 0)] if q else [('t', 1), ('t', 2), ('t', 1), ('x', 0)]

	def merges(a, b):
		if not a or not b:
			yield [('a', x) for x in a] + [('b', x) for x in b]
			return
		for r in merges(a[1:], b):
			yield [('a', a[0])] + r
		for r in merges(a, b[1:]):
			yield [('b', b[0])] + r

	def one(sched):
		src = 'let j = &{ $ag b }\nlet c = ${ $ag a }\nlet d = if std.type(c) == "error" then c.context else c end\nj.join()\nstd.println("[" ++ d.stdout ++ "][" ++ d.stderr ++ "]")\n'
		with World(ctx, agent, src) as w:
			try:
				w.wait('a', 'b')
				text = {('a', 1): b'', ('a', 2): b'', ('b', 1): b'', ('b', 2): b''}
				for k, (who, (op, x)) in enumerate(sched):
					if op == 't':
						t = b'%s%d\n' % (who.encode(), k)
						text[who, x] += t
						got = w.ask(who, 't %d %s' % (x, t.hex()))
						if got != 'w %d' % len(t):
							return '%s: %s' % (w.trace, got)
					else:
						w.end(who, x)
				rc, out, err = w.finish()
			except (Stuck, Dead) as e:
				return '%s: %s' % (type(e).__name__, e)
			want = text['b', 1] + b'[' + text['a', 1] + b'][' + text['a', 2] + b']\n'
			if (rc, out, err) != (0, want, text['b', 2]):
				return 'expected %r %r, observed %s %r %r; %s' % (want, text['b', 2], rc, out, err, w.trace)
	sch = list(merges(A, B))
	for s, bad in zip(sch, ctx.pmap(one, sch)):
		if bad:
			ctx.violation('schedule %s' % s, bad)
	return len(sch)


def check(ctx):
	e = core.cc(ctx.path('bin', 'emit'), os.path.join(core.VERIF, 'helpers', 'emit.c'))
	agent = compile_agent(ctx)
	total = 0

	def count(it):
		nonlocal total
		for x in it:
			total += 1
			yield x
	for bad in ctx.pmap(lambda b: run_cases(ctx, e, b), core.chunks(count(cases(ctx.quick)), 25)):
		for v in bad:
			ctx.violation(*v)
	ctx.add('write_histories', total)

	def one(c):
		src = 'let e = %s\n' % lit_str(e.encode()) + c[0]
		d = ctx.tmpdir()
		r = ctx.run(src, cwd=d, timeout=60)
		return None if (r.out, r.err, r.rc) == (c[1], c[2], 0) else (c[0], 'expected %r %r\n%s' % (c[1], c[2], r.brief()), {'t.hsh': src})
	sc = list(scripts())
	for bad in ctx.pmap(one, sc):
		if bad:
			ctx.violation(*bad)
	ns = schedules(ctx, agent, ctx.quick)
	ctx.add('schedules', ns)
	n = total + len(sc) + ns
	return {'exhaustive': True, 'states': n, 'transitions': n, 'traces_validated_against_impl': n, 'schedules': ns,
		'rule': 'all sequences of up to %d writes over 2 streams x 3 sizes, up to 3 writes over 2 streams x 4 sizes around the pipe capacity, all byte values, blocks of 2 and 3 commands with every ending; all interleavings of a captured and a concurrent command' % (4 if ctx.quick else 5)}
