"""C23: asynchronous blocks run concurrently and join exactly once.

The main program (starting blocks, synchronous commands, joins) and the commands of all blocks are puppets under a controlled
scheduler. All schedules of all small programs are enumerated on a model and replayed on the real interpreter: after each step
exactly the predicted commands must be running, and every join must return the value of the same synchronous block."""
import itertools

from vlib import core
from vlib.agents import Dead, Stuck, World, compile_agent

TECHNIQUE = 'stateless exploration of all schedules of async blocks and joins under a controlled scheduler, against an explicit-state model'


class Prog:
	"""blocks: list of lists of (status, guard); main: list of ('s', b) start, ('j', b) join, ('m', k) synchronous command."""

	def __init__(self, blocks, main):
		self.blocks, self.main = blocks, main

	def source(self):
		out = '''let text = function(r)
	if r == nil then "nil" else
		if std.type(r.context) == "array" then
			let t = ""
			for x in std.iter(r.context) do t = t ++ std.to_string(x.context.status) ++ "," end
			t
		else if r.context == "panic" then "panic" else std.to_string(r.context.status) ++ "," end end
	end
end
let x = 0
let js = [ nil, nil, nil, nil ]
let r = nil
'''
		for op, k in self.main:
			if op == 's':
				out += 'x = %d\n' % (k + 10)
				out += 'js[%d] = &{ %s }\nx = 0\n' % (k, '; '.join('$ag b%d.%d $x%s' % (k, i, ' ?' if g else '') for i, (_, g) in enumerate(self.blocks[k])))
			elif op == 'm':
				out += '{ $ag m%d }\n' % k
			else:
				out += 'r = std.catch(function() js[%d].join() end)\nstd.println("j%d", text(r))\n' % (k, k)
		return out

	# State: main pc, per block: None (not started), index of the running command, or 'done'; joined set.
	def init(self):
		return self.settle((0, tuple(None for _ in self.blocks), frozenset()))

	def settle(self, s):
		"""Run the main program as far as it goes by itself."""
		pc, bl, joined = s
		bl = list(bl)
		while pc < len(self.main):
			op, k = self.main[pc]
			if op == 's':
				bl[k] = 0
			elif op == 'm':
				break
			elif k not in joined:
				if bl[k] != 'done':
					break
				joined = joined | {k}
			pc += 1
		return pc, tuple(bl), joined

	def running(self, s):
		pc, bl, _ = s
		out = ['b%d.%d' % (b, i) for b, i in enumerate(bl) if i is not None and i != 'done']
		if pc < len(self.main) and self.main[pc][0] == 'm':
			out.append('m%d' % self.main[pc][1])
		return out

	def step(self, s, name):
		pc, bl, joined = s
		bl = list(bl)
		if name[0] == 'm':
			return self.settle((pc + 1, tuple(bl), joined)), 0
		b, i = map(int, name[1:].split('.'))
		st, guard = self.blocks[b][i]
		bl[b] = 'done' if i + 1 == len(self.blocks[b]) or st and not guard else i + 1
		return self.settle((pc, tuple(bl), joined)), st

	def schedules(self):
		stack = [(self.init(), ())]
		while stack:
			s, path = stack.pop()
			run = self.running(s)
			if not run:
				yield path
			for n in reversed(run):
				t, st = self.step(s, n)
				stack.append((t, path + ((n, st),)))

	def states(self):
		seen, todo, trans = {self.init()}, [self.init()], 0
		while todo:
			s = todo.pop()
			for n in self.running(s):
				t, _ = self.step(s, n)
				trans += 1
				if t not in seen:
					seen.add(t)
					todo.append(t)
		return len(seen), trans

	def value(self, b):
		fails = []
		for st, guard in self.blocks[b]:
			if st:
				fails.append(st)
				if not guard:
					break
		return ''.join('%d,' % f for f in fails) or 'nil'

	def output(self):
		out, joined = '', set()
		for op, k in self.main:
			if op == 'j':
				out += 'j%d\t%s\n' % (k, 'panic' if k in joined else self.value(k))
				joined.add(k)
		return out.encode()


def replay(ctx, agent, p, sched, settle):
	with World(ctx, agent, p.source()) as w:
		try:
			s = p.init()
			allowed = set()
			for name, st in sched:
				run = p.running(s)
				allowed.update(run)
				w.wait(*run)
				extra = w.settle(settle)
				if set(w.order) - allowed or w.proc.poll() is not None:
					return 'not yet expected: %s (hush %s); trace: %s' % (sorted(set(w.order) - allowed), w.proc.poll(), w.trace)
				if name[0] == 'b':
					got = w.ask(name, 'v')
					if got != 'v ' + str(int(name[1]) + 10).encode().hex():
						return '%s got arguments %s' % (name, got)
				w.end(name, st)
				s, _ = p.step(s, name)
			rc, out, err = w.finish()
			if len(w.order) != len(set(w.order)) or set(w.order) != allowed or w.settle(0):
				return 'commands started: %s' % w.order
		except (Stuck, Dead) as e:
			return '%s: %s' % (type(e).__name__, e)
		if (rc, out, err) != (0, p.output(), b''):
			return 'expected %r, observed %s %r %r; trace %s' % (p.output(), rc, out, err, w.trace)
	return None


def programs(q):
	ok, f, g = (0, False), (3, False), (4, True)
	one = [[ok], [f]]
	two = [[ok, ok], [f, ok], [g, f], [g, ok]]
	S = lambda b: ('s', b)
	J = lambda b: ('j', b)
	M = lambda k: ('m', k)
	# One block, with main program steps before and after, double joins.
	for b in one + two + [[g, g, f], [ok, ok, ok]]:
		yield Prog([b], [S(0), J(0), M(0)])
		yield Prog([b], [S(0), M(0), J(0), M(1), J(0)])
		yield Prog([b], [M(0), S(0), J(0), J(0)])
	# Two blocks, all orders of main steps.
	for a, b in itertools.product([[ok], [g, f], [ok, ok]], [[f], [ok, ok]]):
		for main in ([S(0), S(1), J(0), J(1)], [S(0), S(1), J(1), J(0)], [S(0), S(1), J(0), M(0), J(1), M(1)], [S(0), S(1), J(1), M(0), J(0)], [S(0), M(0), S(1), J(1), J(0)], [S(0), J(0), S(1), J(1)], [S(0), S(1), J(1), J(1), J(0)]):
			yield Prog([a, b], main)
	# Three blocks.
	for order in itertools.permutations(range(3)):
		yield Prog([[ok], [f], [g]], [S(0), S(1), S(2)] + [J(k) for k in order])
		yield Prog([[ok], [f], [ok, f]], [S(0), S(1), S(2)] + [x for k in order for x in (J(k), M(k))][:-1] if not q else [S(0), S(1), S(2)] + [J(k) for k in order])
	if not q:
		for order in itertools.permutations(range(4)):
			yield Prog([[ok], [f], [ok], [g]], [S(k) for k in range(4)] + [J(k) for k in order])
		for a, b in itertools.product([[ok, ok, ok], [g, f, ok]], repeat=2):
			for main in ([S(0), S(1), J(0), M(0), J(1)], [S(0), M(0), S(1), M(1), J(1), J(0)]):
				yield Prog([a, b], main)


def scripts(q):
	yield 'let j = &{ true }\nstd.println(std.type(j), std.len(j), std.type(j.join))\nstd.println(j.join())', b'dict\t1\tfunction\nnil\n'
	yield 'let f = &{ false }.join\nstd.println(f().context.status)\nstd.println(std.catch(f).context)', b'1\npanic\n'
	yield 'let js = []\nfor i in std.range(0, 20, 1) do std.push(js, &{ sh -c "exit $i" }) end\nlet s = ""\nfor i in std.range(19, 0 - 1, 0 - 1) do let r = js[i].join()\n s = s ++ std.to_string(if r == nil then 0 else r.context.status end) ++ " " end\nstd.println(s)', b' '.join(b'%d' % i for i in range(19, -1, -1)) + b' \n'
	# Arguments are those of the time of creation, also of later commands and of collections.
	yield 'let x = "a"\nlet y = [ 1 ]\nlet j = &{ sleep 0.05; echo $x $y; sleep 0.02; echo "$x" }\nx = "b"\nstd.push(y, 2)\nj.join()', b'a 1\na\n'
	yield 'let js = []\nfor i in std.range(0, 5, 1) do std.push(js, &{ sleep 0.02; echo $i > f$i }) end\nfor j in std.iter(js) do j.join() end\n{ cat f0 f1 f2 f3 f4 }', b'0\n1\n2\n3\n4\n'
	yield 'let f = function(x) &{ sleep 0.02; echo $x } end\nlet a = f("p")\na.join()\nlet b = f("q")\nb.join()', b'p\nq\n'
	# A panic inside the block surfaces in join, and only there.
	yield 'let j = &{ echo a; echo b 2>3; echo never }\nstd.println(std.catch(j.join).context)\nstd.println(std.catch(j.join).context)', b'a\npanic\npanic\n'
	yield 'let r = std.catch(function() let d = @[]\n &{ echo $d } end)\nstd.println(r.context)', b'panic\n'
	# A failure to start.
	yield 'let j = &{ true; ./nosuch; echo never }\nstd.println(j.join().context.status)', b'127\n'
	# The interpreter goes on computing, printing and running commands while blocks run.
	yield 'let j = &{ sleep 0.05 }\nlet n = 0\nfor i in std.range(0, 20000, 1) do n = n + std.len([ i, "a" ++ "b" ]) end\n{ echo sync }\nstd.println(n, j.join())', b'sync\n40000\tnil\n'
	yield 'let j = &{ cat << "text" }\nj.join()\nlet k = &{ echo x | cat | cat }\nk.join()', b'text\nx\n'
	# Results of a join are ordinary values, kept after others are joined.
	yield 'let a = &{ sh -c "exit 5" }\nlet b = &{ sh -c "exit 6" }\nlet rb = b.join()\nlet ra = a.join()\nstd.println(ra.context.status, rb.context.status, ra == rb)', b'5\t6\tfalse\n'
	yield 'let f = function() let j = &{ false }\n j.join()? \n std.println("never") end\nstd.println(f().context.status)', b'1\n'
	# Equality and identity of handles.
	for args in ('', '1', 'nil', '1, 2', '[]', 'j'):
		yield 'let j = &{ true }\nlet r = j.join()\nstd.println(r, std.type(std.catch(function() j.join(%s) end)), std.type(std.catch(function() j.join(%s) end)), std.type(std.catch(j.join)))' % (args, args), b'nil\terror\terror\terror\n'
	yield 'let a = &{ true }\nlet b = a\nb.join()\nstd.println(std.catch(a.join).context)', b'panic\n'
	# The standard streams of the commands of a block are those of the interpreter: all blocks of up to 3 (4) commands and pipelines.
	cmds = [('sh -c "echo o"', b'o\n', b''), ('sh -c "echo e >&2"', b'', b'e\n'), ('sh -c "echo o1; echo e1 >&2; echo o2"', b'o1\no2\n', b'e1\n'), ('sh -c "echo x >&2" | cat', b'', b'x\n'), ('sh -c "echo y" | sh -c "cat >&2"', b'', b'y\n'), ('sh -c "echo z; echo ze >&2; exit 3" ?', b'z\n', b'ze\n')]
	for n in (1, 2, 3) if q else (1, 2, 3, 4):
		for t in itertools.product(cmds, repeat=n):
			yield 'let j = &{ %s }\nj.join()\nstd.println("end")' % '; '.join(c[0] for c in t), b''.join(c[1] for c in t) + b'end\n', b''.join(c[2] for c in t)
	# Joining and inspecting through every access path.
	for get in ('j.join()', 'j["join"]()', '(j.join)()', 'f(j)', 'js[0].join()', 'd.k.join()', 'std.catch(j.join)', 'std.catch(function() j.join() end)'):
		for block, want in (('true', b'nil'), ('sh -c "exit 7"', b'7'), ('true; sh -c "exit 9"; true', b'9'), ('sh -c "exit 3" ?; sh -c "exit 4"', b'3,4'), ('sh -c "exit 3" | sh -c "exit 4"', b'3,4'), ('./nosuch', b'127'), ('sh -c "exit 3" ?; ./nosuch', b'3,127')):
			yield ('let j = &{ %s }\nlet js = [ j ]\nlet d = @[ k: j ]\nlet f = function(x) x.join() end\nlet r = %s\n' % (block, get)
				+ 'if r == nil then std.println(nil) else if std.type(r.context) == "array" then std.println(std.to_string(r.context[0].context.status) ++ "," ++ std.to_string(r.context[1].context.status)) else std.println(r.context.status) end end'), want + b'\n'


def check(ctx):
	q = ctx.quick
	agent = compile_agent(ctx)
	jobs, states, trans, np = [], 0, 0, 0
	for p in programs(q):
		np += 1
		s, t = p.states()
		states += s
		trans += t
		for k, x in enumerate(p.schedules()):
			# Every schedule is watched for premature starts; the first of each program with more patience.
			jobs.append((p, x, 0.03 if k == 0 else 0.004))

	def one(j):
		p, sched, settle = j
		why = replay(ctx, agent, p, sched, settle)
		return why and ('%s %s schedule %s' % (p.blocks, p.main, [n for n, _ in sched]), why, {'t.hsh': p.source()})
	for bad in ctx.pmap(one, jobs, chunksize=4):
		if bad:
			ctx.violation(*bad)
	ctx.add('schedules', len(jobs))

	def script(c):
		r = ctx.run(c[0], cwd=ctx.tmpdir(), timeout=60)
		return None if (r.out, r.rc, r.err) == (c[1], 0, c[2] if len(c) > 2 else b'') else (c[0], 'expected %r\n%s' % (c[1], r.brief()))
	sc = list(scripts(q))
	for bad in ctx.pmap(script, sc):
		if bad:
			ctx.violation(*bad)
	return {'exhaustive': True, 'states': states, 'transitions': trans, 'traces_validated_against_impl': len(jobs) + len(sc), 'schedules': len(jobs),
		'rule': 'all schedules of %d programs of up to %d blocks, all join orders, double joins, synchronous commands in between' % (np, 3 if q else 4)}
