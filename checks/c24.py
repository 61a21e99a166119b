"""C24: system call failures surface as errors, never as silent success, hang or crash.

A fault injector is preloaded into the interpreter. For every scenario, every kind of system call it makes (pipes, duplicated
descriptors, opened files, started processes and threads, waits, reads, writes, directory changes) and every occurrence of that
call, the call is made to fail once, or from there on, with each error, or to be interrupted or cut short. Interruptions and
short transfers must not change anything; a hard failure must show as an error value or a Hush panic, or have no effect."""
import os
import subprocess

from vlib import core

TECHNIQUE = 'exhaustive fault injection: every system call occurrence of every scenario x every fault, executed on the real interpreter'

EINTR, EIO, EAGAIN, ENOMEM, EMFILE, ENOSPC, ECHILD, EACCES, EPIPE = 4, 5, 11, 12, 24, 28, 10, 13, 32
HARD = {'pipe': [EMFILE], 'dup': [EMFILE], 'open': [EMFILE, EACCES], 'spawn': [EAGAIN, ENOMEM], 'wait': [ECHILD], 'read': [EIO], 'write': [EIO, ENOSPC], 'thread': [EAGAIN], 'chdir': [EACCES]}
SOFT = {'open': [str(EINTR)], 'wait': [str(EINTR)], 'read': [str(EINTR), 'short'], 'write': [str(EINTR), 'short']}

HEAD = '''let n = 0
let rep = function(r)
	n = n + 1
	std.println("##", n, if std.has_error(r) then "ERR" else "OK" end)
end
'''

SCENARIOS = {
	'command': 'rep({ echo a })\nrep({ echo b; echo c })\n',
	'failing': 'let st = function(r, want) rep(if std.type(r) == "error" and r.context.status == want then nil else std.error("", nil) end) end\nst({ false; echo after }, 1)\nst({ sh -c "exit 3" }, 3)\nst({ false ?; echo never }, 1)\n',
	'pipeline2': 'rep({ echo a | cat })\nrep({ echo z })\n',
	'pipeline3': 'rep({ echo a | cat | tr a b })\nrep({ echo z })\n',
	'capture': 'let c = ${ echo a; sh -c "echo e >&2" }\nif std.type(c) == "dict" then std.print(c.stdout, c.stderr) end\nrep(c)\nrep({ echo z })\n',
	'capture_fail': 'let c = ${ echo a; false ?; echo b }\nlet good = std.type(c) == "error" and std.type(c.context) == "dict" and std.contains(c.context, "stdout") and c.context.status == 1\nif good then std.print(c.context.stdout) end\nrep(if good then nil else std.error("", nil) end)\n',
	'capture_pipe': 'let c = ${ echo a | cat; echo b | tr b c | cat }\nif std.type(c) == "dict" then std.print(c.stdout) end\nrep(c)\n',
	'capture_deaf': 'let c = ${ sh -c "trap \'\' PIPE; echo a; echo b >&2; sleep 0.02; echo c; echo d >&2; exit 0" }\nif std.type(c) == "dict" then std.print(c.stdout, c.stderr) end\nrep(c)\nrep({ echo z })\n',
	'capture_big': 'let c = ${ head -c 100000 /dev/zero }\nif std.type(c) == "dict" then std.println(std.len(c.stdout)) end\nrep(c)\n',
	'async': 'let j = &{ echo a }\nrep(j.join())\nlet a = &{ true }\nlet b = &{ echo b | cat }\nrep(b.join())\nrep(a.join())\n',
	'redirect': 'rep({ echo a > f; cat < f })\nrep({ sh -c "echo o; echo e >&2" > g 2>1; cat g })\nrep({ echo b >> h; echo c >> h; cat h })\n',
	'literal': 'rep({ cat << "text" })\nrep({ cat << "more" | cat > f; cat f })\n',
	'cd': 'rep({ cd sub; pwd | tail -c4; cd ".."; ls })\nlet r = std.cd("sub")\nrep([r, { pwd | tail -c4 }])\n',
	'spawn0': 'rep({ spawn0 echo name a })\nrep({ echo b })\n',
	'exec': 'rep(nil)\nrep({ exec echo a })\n',
	'print': 'std.println("one")\nstd.print("two", 3, "\\n")\nfor i in std.range(0, 5, 1) do std.println(i, "text") end\nrep(nil)\n',
	'print_big': 'let s = "0123456789"\nwhile std.len(s) < 20000 do s = s ++ s end\nstd.print(s)\nstd.println(s)\nrep(nil)\n',
	'mixed': 'std.print("a")\nlet e1 = { echo b }\nstd.println("c")\nlet x = ${ echo d }\nrep([e1, x])\nlet e2 = { echo e | cat }\nstd.println("f")\nrep(e2)\n',
	'read': 'let a = std.read()\nstd.print(a)\nlet b = std.read()\nstd.print(b)\nlet c = std.read("prompt")\nstd.print(c)\nrep(nil)\n',
	'import': 'let m = std.import("mod.hsh")\nstd.println(m)\nrep(nil)\n',
	'glob': 'rep({ echo g* })\nrep(nil)\n',
	'caught': 'let r = std.catch(function() { echo a | cat } end)\nrep(r)\nlet q = std.catch(function() ${ echo b }.stdout end)\nstd.println(q)\nrep(q)\nlet p = std.catch(function() std.println("p") end)\nrep(p)\n',
	'panic': 'std.println("a")\nstd.panic("b")\n',
	'exit': 'std.print("a")\nstd.exit(3)\n',
	'static': 'let x = 1\nlet x = 2\n',
	'many': 'for i in std.range(0, 6, 1) do rep({ echo $i | cat }) end\n',
	'capture_loop': 'for i in std.range(0, 4, 1) do let c = ${ echo $i }\n if std.type(c) == "dict" then std.print(c.stdout) end\n rep(c) end\n',
	'async_many': 'let js = []\nfor i in std.range(0, 4, 1) do std.push(js, &{ true | true }) end\nfor j in std.iter(js) do rep(j.join()) end\n',
}

# The same program shown in every form; the status does not depend on whether the output can be written.
SHOWN = 'let f = function(a) if a == 1 then [ a, "s" ] else { echo $a > b } end end\nf(1)\n'
OPTIONS = {name: flags for name, flags in (('help', ['--help']), ('version', ['--version']), ('lex', ['--check', '--lex']), ('ast', ['--check', '--ast']), ('program', ['--check', '--program']), ('all', ['--check', '--lex', '--ast', '--program']),
	('lex error', ['--lex', '--ast']), ('run lex', ['--lex']))}
SCENARIOS.update({'option ' + n: {'lex error': 'let = $\n', 'run lex': 'std.exit(4)\n'}.get(n, SHOWN) for n in OPTIONS})


def segments(out):
	"""The output split at the reports; each segment ends with its report line."""
	segs, cur = [], []
	for line in out.splitlines(True):
		cur.append(line)
		if line.startswith(b'##'):
			segs.append(b''.join(cur))
			cur = []
	segs.append(b''.join(cur))
	return segs


class Run:
	def __init__(self, ctx, shim, name):
		self.ctx, self.shim, self.name = ctx, shim, name

	def run(self, fault):
		d = self.ctx.tmpdir()
		os.mkdir(os.path.join(d, 'sub'))
		for f in ('g1', 'g2'):
			open(os.path.join(d, f), 'w').close()
		with open(os.path.join(d, 'mod.hsh'), 'w') as f:
			f.write('let v = 5\nv\n')
		with open(os.path.join(d, 't.hsh'), 'w') as f:
			f.write(SCENARIOS[self.name] if self.name.startswith('option') else HEAD + SCENARIOS[self.name])
		log = os.path.join(d, 'fault.log')
		env = {'FAULT': fault, 'FAULT_EXE': os.path.realpath(self.ctx.hush), 'FAULT_LOG': log, 'LD_PRELOAD': self.shim}
		r = core.run_proc([self.ctx.hush] + OPTIONS.get(self.name[7:], []) + ['t.hsh'], stdin=b'line1\nline2\nlast', cwd=d, env=env, timeout=20)
		try:
			text = open(log).read()
		except FileNotFoundError:
			text = ''
		subprocess.run(['rm', '-rf', '--', d])
		return r, text


def judge(name, kind, action, soft, base, r):
	"""None if the outcome is acceptable."""
	if r.timeout:
		return 'hang'
	if r.rc < 0 or r.rc == 101 or b'panicked at' in r.err:
		return 'crash'
	if soft:
		return None if (r.rc, r.out, r.err) == (base.rc, base.out, base.err) else 'an interruption or short transfer changed the outcome'
	if (r.rc, r.out) == (base.rc, base.out):
		return None
	if name.startswith('option'):
		# What is shown may be cut short, but the status stays, unless the script could not be read.
		if r.rc == base.rc or kind in ('open', 'read') and r.rc == 127 or name in ('option help', 'option version') and r.rc == 1:
			return None
		return 'exit status %s instead of %s' % (r.rc, base.rc)
	# The panic message itself could not be written, or was.
	panicked = r.rc == 127 and (b'Panic in' in r.err or kind == 'write')
	if name == 'static':
		return None if r.rc == 2 or panicked and kind in ('open', 'read') else 'the static error is gone'
	if kind == 'wait':
		# The process whose status could not be had goes on by itself: its output may come late.
		return None if panicked or b'ERR' in r.out else 'a lost wait is not reported'
	want, got = segments(base.out), segments(r.out)
	for i, g in enumerate(got):
		if b'ERR' in g:
			continue
		w = want[i] if i < len(want) else b''
		if g == w:
			continue
		# The last segment may be cut off by a panic.
		if i == len(got) - 1 and panicked and (w.startswith(g) or kind == 'write' or b'\tOK' not in g):
			continue
		return 'part %d reports success but differs: expected %r, observed %r' % (i, w, g)
	if len(got) < len(want) and not panicked:
		return 'the program ended early with status %s' % r.rc
	if r.rc != base.rc and not panicked:
		return 'exit status %s instead of %s' % (r.rc, base.rc)
	return None


def check(ctx):
	q = ctx.quick
	shim = core.cc(ctx.path('bin', 'fault.so'), '-shared', '-fPIC', os.path.join(core.VERIF, 'helpers', 'fault.c'), '-ldl')
	jobs = []
	names = list(SCENARIOS)
	base = {}

	def count(name):
		r, text = Run(ctx, shim, name).run('count:0:0')
		r2 = ctx and Run(ctx, shim, name).run('none:0:0')[0]
		return name, r, r2, dict(l.split('=') for l in text.split())
	for name, r, r2, counts in ctx.pmap(count, names):
		if r.crashed or (r.rc, r.out) != (r2.rc, r2.out):
			ctx.violation('scenario %s without a fault' % name, '%s\n%s' % (r.brief(), r2.brief()))
			continue
		base[name] = r
		ctx.add('calls', sum(int(v) for v in counts.values()))
		for kind in HARD:
			n = int(counts.get(kind, 0))
			if name == 'exec' and not counts:
				n = 12
			for k in range(1, n + 2):
				for e in HARD[kind][:1 if q and n > 20 else 9]:
					# The writer of a literal input cannot report; a hard failure of that write does not happen on a pipe.
					if kind == 'write' and name == 'literal':
						continue
					jobs.append((name, kind, '%s:%d:%d' % (kind, k, e), False))
					if not q or n < 12:
						jobs.append((name, kind, '%s:%d+:%d' % (kind, k, e), False))
				for e in SOFT.get(kind, []):
					jobs.append((name, kind, '%s:%d:%s' % (kind, k, e), True))
					if e == 'short':
						jobs.append((name, kind, '%s:%d+:%s' % (kind, k, e), True))

	def one(j):
		name, kind, fault, soft = j
		r, text = Run(ctx, shim, name).run(fault)
		if 'fired' not in text:
			return j, False, None, None
		return j, True, judge(name, kind, fault, soft, base[name], r), r.brief()
	fired = 0
	for j, hit, why, brief in ctx.pmap(one, jobs, chunksize=4):
		fired += hit
		if why:
			ctx.violation('%s with fault %s' % (j[0], j[2]), '%s\nexpected (no fault): %s\nobserved: %s' % (why, base[j[0]].brief(), brief), {'t.hsh': HEAD + SCENARIOS[j[0]]})
	ctx.add('faults_fired', fired)

	# Devices and limits that fail by themselves.
	d = ctx.tmpdir()
	n = 0
	for name, src, want in (('println', 'std.println("x")\nstd.println("y")\n', 127), ('print', 'std.print("x")\n', 127), ('command', 'let r = { echo x }\nstd.exit(if std.type(r) == "error" then 5 else 0 end)\n', 5), ('exit', 'std.println("x")\nstd.exit(0)\n', 127), ('caught', 'let r = std.catch(function() std.println("x") end)\nstd.exit(if std.type(r) == "error" then 6 else 0 end)\n', 6)):
		with open(os.path.join(d, 't.hsh'), 'w') as f:
			f.write(src)
		with open('/dev/full', 'w') as full:
			p = subprocess.run([ctx.hush, 't.hsh'], cwd=d, stdin=subprocess.DEVNULL, stdout=full, stderr=subprocess.PIPE, env=core.BASE_ENV, timeout=20)
		n += 1
		if p.returncode != want:
			ctx.violation('stdout is /dev/full: %s' % name, 'expected status %d, observed %d %r' % (want, p.returncode, p.stderr))
	for name, src, want in (('panic', 'std.panic(1)\n', 127), ('static', 'let x\nlet x\n', 2), ('runtime', 'let x = 1 + "a"\n', 127), ('syntax', 'let = \n', 2)):
		with open(os.path.join(d, 't.hsh'), 'w') as f:
			f.write(src)
		with open('/dev/full', 'w') as full:
			p = subprocess.run([ctx.hush, 't.hsh'], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=full, env=core.BASE_ENV, timeout=20)
		n += 1
		if p.returncode != want:
			ctx.violation('stderr is /dev/full: %s' % name, 'expected status %d, observed %d' % (want, p.returncode))
	for name, flags in OPTIONS.items():
		with open(os.path.join(d, 't.hsh'), 'w') as f:
			f.write(SCENARIOS['option ' + name])
		rd, wr = os.pipe()
		os.close(rd)
		for what, out in (('/dev/full', os.open('/dev/full', os.O_WRONLY)), ('a pipe without reader', wr)):
			p = subprocess.run([ctx.hush] + flags + ['t.hsh'], cwd=d, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, env=core.BASE_ENV, timeout=20)
			os.close(out)
			n += 1
			want = {'lex error': 2, 'run lex': 4}.get(name, 0)
			if p.returncode != want and not (name in ('help', 'version') and p.returncode == 1):
				ctx.violation('stdout is %s: option %s' % (what, name), 'expected status %d, observed %d %r' % (want, p.returncode, p.stderr))
	return {'exhaustive': True, 'states': len(jobs), 'transitions': fired, 'traces_validated_against_impl': fired + n,
		'rule': 'every occurrence of every kind of system call in %d scenarios, failing once and from there on, with each error of %s; interruptions and one-byte transfers of every read and write' % (len(names), HARD),
		'assumptions': ['the interpreter reaches the system through the C library functions the injector replaces', 'hard failures of the write that feeds a literal input are not injected']}
