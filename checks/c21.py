"""C21: pipelines connect all stages, wait for all of them and never deadlock.

The stages of a pipeline are puppets under a controlled scheduler. For every combination of small stage programs (reads,
writes, early closes, exits, deaths) all interleavings of their steps are enumerated on a model of pipes, and every single
schedule is replayed on the real interpreter: each read must return exactly the predicted bytes or end of file, each write
must succeed or kill its stage as predicted, all stages must be alive together, and the command after the pipeline may start
only when the last stage has exited. Large data runs freely through pipelines of every length."""
import itertools
import os

from vlib import core
from vlib.agents import Dead, Stuck, World, compile_agent
from vlib.core import chunks

TECHNIQUE = 'stateless exploration of all schedules of the stages of a pipeline under a controlled scheduler, against an explicit-state model of pipes'

# One step: ('w', n) write n bytes; ('r', n) read up to n; 'ci' / 'co' close stdin / stdout; ('x', s) exit; ('k', s) signal.
W, W3, R, R2 = ('w', 4), ('w', 3), ('r', 100), ('r', 2)
X, X1, X3, K = ('x', 0), ('x', 1), ('x', 3), ('k', 9)
CI, CO = ('ci',), ('co',)


class Model:
	"""State: per stage (pc, alive), per pipe (content, reader open, writer open)."""

	def __init__(self, progs):
		self.progs = progs
		self.n = len(progs)

	def init(self):
		return (tuple(0 for _ in self.progs), tuple(True for _ in self.progs), tuple(('', True, True) for _ in range(self.n - 1)), tuple(0 for _ in self.progs))

	def enabled(self, s):
		pcs, alive, pipes, _ = s
		for i in range(self.n):
			if alive[i]:
				a = self.progs[i][pcs[i]]
				if a[0] == 'r' and i > 0:
					data, ropen, wopen = pipes[i - 1]
					if ropen and not data and wopen:
						continue
				yield i, a

	def step(self, s, i):
		"""Returns (next state, what must be observed)."""
		pcs, alive, pipes, written = s
		pcs, alive, pipes, written = list(pcs), list(alive), list(pipes), list(written)
		a = self.progs[i][pcs[i]]
		pcs[i] += 1
		obs = None

		def die():
			alive[i] = False
			if i > 0:
				pipes[i - 1] = (pipes[i - 1][0], False, pipes[i - 1][2])
			if i < self.n - 1:
				pipes[i] = (pipes[i][0], pipes[i][1], False)
		if a[0] == 'w':
			if i < self.n - 1:
				data, ropen, wopen = pipes[i]
				if not wopen:
					obs = 'w! 9'
				elif not ropen:
					obs = 'dead'
					die()
				else:
					pipes[i] = (data + chr(97 + i) * a[1] if False else data + ''.join(chr(97 + i) if k else chr(65 + written[i]) for k in range(a[1])), True, True)
					obs = 'w %d' % a[1]
			else:
				obs = 'w %d' % a[1]
			written[i] += 1
		elif a[0] == 'r':
			if i == 0:
				obs = 'r '
			else:
				data, ropen, wopen = pipes[i - 1]
				if not ropen:
					obs = 'r! 9'
				else:
					obs = 'r ' + data[:a[1]].encode().hex()
					pipes[i - 1] = (data[a[1]:], True, wopen)
		elif a[0] == 'ci':
			if i > 0:
				pipes[i - 1] = (pipes[i - 1][0], False, pipes[i - 1][2])
			obs = 'c'
		elif a[0] == 'co':
			if i < self.n - 1:
				pipes[i] = (pipes[i][0], pipes[i][1], False)
			obs = 'c'
		else:
			die()
		return (tuple(pcs), tuple(alive), tuple(pipes), tuple(written)), obs

	def schedules(self):
		"""All complete schedules, as lists of (stage, action, observation)."""
		stack = [(self.init(), ())]
		while stack:
			s, path = stack.pop()
			moves = list(self.enabled(s))
			if not moves:
				yield path
				continue
			for i, a in reversed(moves):
				t, obs = self.step(s, i)
				stack.append((t, path + ((i, a, obs),)))

	def states(self):
		seen, todo, trans = {self.init()}, [self.init()], 0
		while todo:
			s = todo.pop()
			for i, _ in self.enabled(s):
				t, _ = self.step(s, i)
				trans += 1
				if t not in seen:
					seen.add(t)
					todo.append(t)
		return len(seen), trans


SHOW = '''
let text = function(r)
	if r == nil then "nil" else
		if std.type(r.context) == "array" then
			let t = ""
			for x in std.iter(r.context) do t = t ++ std.to_string(x.context.status) ++ "," end
			t
		else std.to_string(r.context.status) ++ "," end
	end
end
'''


def statuses(sched):
	st = {}
	for i, a, obs in sched:
		if a[0] == 'x':
			st[i] = a[1]
		elif a[0] == 'k':
			st[i] = 255 + a[1]
		elif obs == 'dead':
			st[i] = 255 + 13
	return [st[i] for i in sorted(st)]


def replay(ctx, agent, n, sched, kind='', settle=0.003):
	"""Run one schedule on the real interpreter. Returns None or a description of the disagreement."""
	names = ['p%d' % i for i in range(n)]
	stages = ' | '.join('$ag %s ?' % x for x in names)
	src = SHOW + {
		'': 'let r = { %s; $ag after }\nstd.println(text(r))\n',
		'$': 'let c = ${ %s; $ag after }\nlet r = if std.type(c) == "error" then std.error("", c.context.error) else nil end\nstd.println(text(if r == nil then nil else if std.type(r.context) == "error" then r.context else r end end))\nstd.print((if std.type(c) == "error" then c.context else c end).stdout)\n',
		'&': 'let j = &{ %s; $ag after }\nlet r = j.join()\nstd.println(text(r))\n',
	}[kind] % stages
	written = [0] * n
	last_out = b''
	with World(ctx, agent, src) as w:
		try:
			w.wait(*names)
			left = n
			for i, a, obs in sched:
				ends = a[0] in 'xk' or obs == 'dead'
				if ends:
					left -= 1
					if left == 0:
						early = w.settle(settle)
						if early or 'after' in w.conn or w.proc.poll() is not None:
							return 'the pipeline was left before stage %d had exited: %s' % (i, w.trace)
				if a[0] == 'w':
					data = (chr(65 + written[i]) + chr(97 + i) * (a[1] - 1)).encode()
					written[i] += 1
					try:
						got = w.ask(names[i], 't 1 ' + data.hex())
					except Dead:
						got = 'dead'
					if i == n - 1:
						last_out += data
				elif a[0] == 'r':
					got = w.ask(names[i], 'r %d' % a[1])
				elif a[0] in ('ci', 'co'):
					got = w.ask(names[i], 'c %d' % (a[0] == 'co'))
				else:
					w.end(names[i], a[1], a[1] if a[0] == 'k' else None)
					got = None
				if got != obs:
					return 'stage %d, step %r: expected %r, observed %r; trace: %s' % (i, a, obs, got, w.trace)
			w.wait('after')
			w.end('after')
			rc, out, err = w.finish()
		except (Stuck, Dead) as e:
			return '%s: %s' % (type(e).__name__, e)
		st = statuses(sched)
		fails = [s for s in st if s]
		res = b'nil\n' if not fails else b''.join(b'%d,' % s for s in fails) + b'\n'
		want = res + last_out if kind == '$' else last_out + res
		if rc != 0 or out != want or err:
			return 'expected %r, observed status %s, %r, stderr %r; trace: %s' % (want, rc, out, err, w.trace)
	return None


def failing_start(ctx, agent, n, k, order, kind, how):
	"""Stage k of n cannot be started: the stages after it have been started, and are waited for in any order of their exits."""
	names = ['p%d' % i for i in range(n)]
	stages = ' | '.join('$ag %s ?' % x if i != k else how for i, x in enumerate(names))
	src = {
		'': 'let r = std.catch(function() { %s; $ag never } end)\n',
		'$': 'let r = std.catch(function() ${ %s; $ag never } end)\n',
		'&': 'let j = &{ %s; $ag never }\nlet r = std.catch(j.join)\n',
	}[kind] % stages + 'std.println(std.type(r))\n{ $ag after }\n'
	with World(ctx, agent, src) as w:
		try:
			up = names[k + 1:]
			w.wait(*up)
			for j, i in enumerate(order):
				early = w.settle(0.03 if j == len(order) - 1 else 0.01)
				if early or set(w.order) - set(up) or w.proc.poll() is not None:
					return 'the pipeline was left before stage %d had exited: %s' % (i, w.trace)
				if w.ask(names[i], 'r 10') != 'r ' if i == k + 1 else False:
					return 'stage %d does not see the end of its input' % i
				w.end(names[i], j)
			w.wait('after')
			w.end('after')
			rc, out, err = w.finish()
		except (Stuck, Dead) as e:
			return '%s: %s' % (type(e).__name__, e)
		if (rc, out, err) != (0, b'error\n', b'') or set(w.order) != set(up) | {'after'}:
			return 'observed status %s, %r, stderr %r; trace: %s' % (rc, out, err, w.trace)
	return None


def programs(q):
	prod = [[W, W3, X], [W, CO, X1], [X], [W, X1], [W, W, K]] + ([] if q else [[W, W3, W, X], [CO, X], [R, W, X]])
	cons = [[R, R, R, X], [X], [R, X3], [CI, W, X], [R2, R2, W, X], [K]] + ([] if q else [[R, W, CI, X1], [R2, R2, R2, R, X], [CO, R, R, X]])
	for a in prod:
		for b in cons:
			yield [a, b]
	prod3 = [[W, X], [W, CO, X1], [X]] + ([] if q else [[W, W3, X]])
	mid3 = [[R, W, X], [X3], [CI, W, X], [CO, R, X]] + ([] if q else [[R, W, R, X], [W, R, X1]])
	cons3 = [[R, R, X], [X]] + ([] if q else [[R, R, R, X], [CI, X]])
	for t in itertools.product(prod3, mid3, cons3):
		yield list(t)
	if not q:
		for t in itertools.product([[W, X]], [[R, W, X]], [[R, W, X], [X]], [[R, X]]):
			yield list(t)


# ------------------------------------------------------------------ free running
def free_cases(q):
	sizes = [0, 1, 4096, 65535, 65536, 65537, 131073, 1000000] + ([] if q else [10000000])
	for n in sizes:
		gen = 'head -c %d /dev/zero' % n
		for k in range(1, 5 if q else 9):
			yield '{ %s | %s | wc -c }' % (gen, ' | '.join(['cat'] * k)), b'%d\n' % n
		yield '{ %s | tr "\\\\0" a | tail -c3 | cat }' % gen, b'a' * min(n, 3)
		yield 'let c = ${ %s | cat | cat }\nstd.println(std.len(c.stdout), std.len(c.stderr))' % gen, b'%d\t0\n' % n
		yield 'let c = ${ cat big | cat }\nlet d = ${ cat << $b | cat | cat }\nstd.println(c.stdout ++ "\\n" == d.stdout)' .replace('let d', 'let b = c.stdout\nlet d') if False else '{ %s | cat | wc -c; %s | wc -c }' % (gen, gen), b'%d\n%d\n' % (n, n)
		# A stage that stops reading does not stop the rest.
		yield 'let r = { %s | head -c1 ? | wc -c }\nstd.println(std.type(r) == "error" or r == nil)' % (gen + ' ?'), b'%d\ntrue\n' % min(n, 1)
		yield 'let r = { %s ? | true | echo x }\nstd.println(std.type(r) == "error" or r == nil)' % gen, b'x\ntrue\n'
	yield '{ yes ? | head -n3 }', b'y\ny\ny\n'
	yield 'let r = { yes ? | head -n3 | cat }\nstd.println(r.context.status)', b'y\ny\ny\n268\n'
	yield '{ seq 1 20000 | sort -rn ? | head -n2 ; echo ok }', None
	yield 'for i in std.range(0, 30, 1) do { echo $i | cat | cat | cat } end', b''.join(b'%d\n' % i for i in range(30))
	yield '{ echo a | { }' , None
	for k in (2, 5, 10, 20, 40):
		yield '{ echo data | %s }' % ' | '.join(['cat'] * k), b'data\n'
		yield 'let r = { %s }\nstd.println(std.len(r.context))' % ' | '.join(['false ?'] * k), b'%d\n' % k


def outcomes(q):
	"""All outcome vectors of pipelines of up to four stages, each stage guarded or not: which failures are reported, and
	whether the block goes on. Cases in groups, each group one script."""
	ends = [('true', 0), ('$sh -c "exit 2"', 2), ('$sh -c "kill -9 \\$\\$"', 264)]
	cases = []
	for n in (1, 2, 3, 4):
		for kind in ('', '$', '&') if n < 4 or not q else ('',):
			for vec in itertools.product(range(3), repeat=n):
				for guards in itertools.product((0, 1), repeat=n):
					block = kind + '{ ' + ' | '.join(ends[e][0] + (' ?' if g else '') for e, g in zip(vec, guards)) + '; echo next }'
					fails = [ends[e][1] for e in vec if e]
					goes = all(g or not e for e, g in zip(vec, guards))
					res = ''.join('%d,' % f for f in fails) or 'nil'
					if kind == '$':
						src = 'let c = %s\nlet r = if std.type(c) == "error" then c.context.error else nil end\nstd.print((if r == nil then c else c.context end).stdout)\nstd.println(text(if r == nil then nil else std.error("", r) end))' % block
					else:
						src = 'std.println(text(%s%s))' % (block, '.join()' if kind else '')
					cases.append((src, ('next\n' if goes else '') + res + '\n'))
	return cases


def check(ctx):
	q = ctx.quick
	agent = compile_agent(ctx)
	progs = list(programs(q))
	states = trans = 0
	jobs = []
	for p in progs:
		m = Model(p)
		s, t = m.states()
		states += s
		trans += t
		sch = list(m.schedules())
		ctx.add('schedules_enumerated', len(sch))
		for x in sch:
			jobs.append((len(p), x, ''))
		for kind in ('$', '&'):
			# In capture and async blocks: the schedules of a part of the programs.
			if len(p) == 2 and (not q or len(sch) < 12):
				jobs += [(2, x, kind) for x in sch]
	# Exit orders, observed with patience.
	orders = [(n, tuple((i, (X, X1, K)[k % 3], None) for k, i in enumerate(o)), 'slow') for n in (2, 3, 4) for o in itertools.permutations(range(n))]

	def one(j):
		n, sched, kind = j
		why = replay(ctx, agent, n, sched, '' if kind == 'slow' else kind, 0.05 if kind == 'slow' else 0.003)
		return why and ('%s%d stages, schedule %s' % (kind, n, [(i,) + a for i, a, _ in sched]), why)
	for bad in ctx.pmap(one, jobs + orders, chunksize=8):
		if bad:
			ctx.violation(*bad)
	ctx.add('schedules_replayed', len(jobs) + len(orders))

	starts = [(n, k, o, kind, how) for n in ((2, 3, 4) if q else (2, 3, 4, 5)) for k in range(n - 1) for o in itertools.permutations(range(k + 1, n)) for kind in ('', '$', '&')
		for how in (('./nosuch',) if n == 5 else ('./nosuch', 'true > nodir/x', 'true < missing', 'true 2>3'))]

	def start(j):
		why = failing_start(ctx, agent, *j)
		return why and ('%s%d stages, stage %d is %s, exits %s' % (j[3], j[0], j[1], j[4], j[2]), why)
	for bad in ctx.pmap(start, starts, chunksize=4):
		if bad:
			ctx.violation(*bad)
	ctx.add('failing_starts', len(starts))
	jobs += starts

	def free(c):
		src, want = c
		r = ctx.run(src, timeout=60)
		return None if r.out == want and r.rc == 0 and not r.err else (src, 'expected %r\n%s' % (want, r.brief()), {'t.hsh': src})
	cases = [c for c in free_cases(q) if c[1] is not None]
	for bad in ctx.pmap(free, cases):
		if bad:
			ctx.violation(*bad)
	ctx.add('free_running', len(cases))
	head = 'let sh = "/bin/sh"\nlet r = nil\nlet c = nil\n' + SHOW

	def vectors(part):
		r = ctx.run(head + 'let f = function(i, g) { true }\nstd.println("#", i)\ng() end\n' + ''.join('f(%d, function()\n%s\nend)\n' % (i, c[0]) for i, c in enumerate(part)), timeout=60)
		want = ''.join('#\t%d\n%s' % (i, c[1]) for i, c in enumerate(part)).encode()
		if r.rc == 0 and r.out == want and not r.err:
			return None
		got = r.out.split(b'#\t')[1:]
		for i, c in enumerate(part):
			if i >= len(got) or got[i] != ('%d\n%s' % (i, c[1])).encode():
				return (c[0], 'expected %r, observed %r\n%s' % (c[1], got[i] if i < len(got) else None, r.brief()), {'t.hsh': head + c[0]})
		return ('outcome vectors', r.brief())
	vec = outcomes(q)
	for bad in ctx.pmap(vectors, chunks(vec, 20)):
		if bad:
			ctx.violation(*bad)
	ctx.add('outcome_vectors', len(vec))
	cases = cases + vec
	return {'exhaustive': True, 'states': states, 'transitions': trans, 'traces_validated_against_impl': len(jobs) + len(orders) + len(cases),
		'schedules': len(jobs) + len(orders),
		'rule': 'all interleavings of all steps of %d combinations of stage programs (2 to %d stages), each replayed on the real interpreter; all exit orders of 2 to 4 stages, also when a stage cannot be started (in 4 ways, at every position); all outcome vectors of 1 to 4 stages, guarded or not; data sizes up to %s through pipelines of up to 41 stages' % (len(progs), 3 if q else 4, '1 MB' if q else '10 MB')}
