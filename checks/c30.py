"""C30: children inherit only their three streams; no descriptors or processes leak.

All sequences of operations over blocks, pipelines, captures, async blocks (joined, not joined, outstanding), redirections of every
kind and all their failures are run; every command lists its own open descriptors, and after the sequence a command lists those of
the interpreter and the states of its children. The same is done with every single system call failing."""
import itertools
import os
import re
import shutil

from vlib import core

TECHNIQUE = 'exhaustive enumeration of operation sequences and single faults, the descriptor table and child table of the real interpreter and all its children checked against the three-descriptor invariant'

# Every operation is a statement; $h $log T c|n are commands that list their descriptors. The number says how many commands must have run.
OPS = [
	('basic', 'r = { $h $log t n; $h $log t n }', 2),
	('pipe3', 'r = { $h $log t n | $h $log t c | $h $log t c }', 3),
	('capture', 'r = ${ $h $log t n; $h $log t n }', 2),
	('capture pipe', 'r = ${ $h $log t n | $h $log t c | $h $log t c; $h $log t n }', 4),
	('async', 'r = &{ $h $log t n; $h $log t n | $h $log t c }\nr = r.join()', 3),
	('unjoined', 'r = &{ $h $log t n }\nr = nil', None),
	('out', 'r = { $h $log t n > o; $h $log t n >> o }', 2),
	('literal', 'r = { $h $log t c << "text"; $h $log t c << "more" | $h $log t c }', 3),
	('missing', 'r = { nosuch }', 0),
	('missing last', 'r = { $h $log t n | $h $log t n | nosuch }', None),
	('missing first', 'r = { nosuch | $h $log t c | $h $log t c }', None),
	('bad target', 'r = { $h $log t n > "none/o" }', 0),
	('failing', 'r = { $h $log t n "3"; $h $log t n }', 1),
	# ---- the subset for the longest sequences ends here
	('fds', 'r = { $h $log t n 2> o; $h $log t n > o 2>1; $h $log t n 1>2; $h $log t n > o > o2 >> o3 2>> o; $h $log t n 2>1 > o }', 5),
	('in', 'r = { $h $log t c < f > "/dev/null"; $h $log t c < f | $h $log t c > o }', 3),
	('missing middle', 'r = { $h $log t n | nosuch | $h $log t c }', None),
	('missing capture', 'r = ${ $h $log t n | nosuch }', None),
	('missing async', 'r = &{ $h $log t n; nosuch | $h $log t c }\nr = r.join()', None),
	('bad target late', 'r = { $h $log t n > o 2> "none/o" }', 0),
	('bad target pipe', 'r = { $h $log t n | $h $log t c > "none/o" | $h $log t c }', None),
	('bad source', 'r = { $h $log t n < none }', 0),
	('bad source capture', 'r = ${ $h $log t n < none | $h $log t c }', None),
	('bad fd', 'r = std.catch(function() { $h $log t n 7> o } end)', 0),
	('bad fd pipe', 'r = std.catch(function() { $h $log t n 7> o | $h $log t c } end)', None),
	('bad fd capture', 'r = std.catch(function() ${ $h $log t n 7> o } end)', 0),
	('bad fd async', 'let j%d = &{ $h $log t n 7> o }\nr = std.catch(function() j%d.join() end)', 0),
	('bad dup', 'r = std.catch(function() { $h $log t n 1>7 } end)', None),
	('bad word', 'r = std.catch(function() { $h $log t n | $h $log t c > $arr } end)', None),
	('bad word late', 'r = std.catch(function() { $h $log t n; $h $log t n > $arr } end)', None),
	('guarded', 'r = { $h $log t n "3" ?; $h $log t n "4" | $h $log t c }', 3),
	('cd', 'r = { cd "."; $h $log t n; cd none }', 1),
	('spawn0', 'r = { spawn0 $h name $log t n }', 1),
	('exec fails', 'r = { exec nosuch }', 0),
	('glob', 'r = { $h $log t n *; $h $log t n none* }', 2),
	('import', 'r = std.import("m.hsh")', 0),
	('bad import', 'r = std.catch(function() std.import("none.hsh") end)', 0),
	('print', 'std.println("x")', 0),
	('read', 'r = std.read()', 0),
	('big capture', 'r = ${ head -c 200000 f2; $h $log t n }', 1),
	('big literal', 'r = { $h $log t c << $big > "/dev/null" }', 1),
	('unread literal', 'r = { $h $log t n << $big; $h $log t n << $big | $h $log t n }', 3),
	('early exit', 'r = { head -c 200000 f2 | $h $log t n | $h $log t c }', 2),
	('two async', 'let a%d = &{ $h $log t n | $h $log t c }\nlet b%d = &{ $h $log t n > o4 }\nr = a%d.join()\nr = b%d.join()', 3),
	('async and block', 'let a%d = &{ $h $log t n | $h $log t c }\nr = { $h $log t n | $h $log t c }\nr = a%d.join()', 4),
	('panic between', 'r = std.catch(function() let j = &{ $h $log t n } let c = ${ $h $log t n } std.panic("x") end)', None),
	('method', 'r = std.catch(function() for i in std.range(0, 3, 1) do { $h $log t n | $h $log t c } end end)', 6),
	('glob function', 'r = std.glob("*")', 0),
	('sleep', 'std.sleep(1)', 0),
	('killed', 'r = { sh -c \'kill -9 $$\' | $h $log t c }', 1),
	('env', 'r = { A=1 $h $log t n; A=1 nosuch }', 1),
]
OWN = re.compile(r't: 0=(null|pipe|f|f2) 1=(out|null|pipe|err|o\d?) 2=(err|pipe|out|o\d?|null)$')
HEAD = '''let h = std.args()[0]
let log = std.args()[1]
let arr = ["a", "b"]
let big = ${ cat f2 }.stdout
let r = nil
r = { $h $log base p "3" }
'''


def make(ctx, d, seq, settle='3'):
	src = HEAD
	for k, i in enumerate(seq):
		src += OPS[i][1].replace('%d', str(k)) + '\n'
	src += 'r = nil\nr = { $h $log end p "3" }\n'
	src = src.replace('"3" }\n', '"%s" }\n' % settle)
	with open(os.path.join(d, 's.hsh'), 'w') as f:
		f.write(src)
	return src


def prepare(d):
	with open(os.path.join(d, 'f'), 'w') as f:
		f.write('content\n')
	with open(os.path.join(d, 'f2'), 'wb') as f:
		f.write(b'z' * 200000)
	with open(os.path.join(d, 'm.hsh'), 'w') as f:
		f.write('let x = ${ echo m }\n1\n')


def execute(ctx, d, helper, env=None):
	# A new log each time: a command of an async block that was not joined may outlive its script.
	log = os.path.join(d, 'log%d' % next(SERIAL))
	for f in ('out', 'err', 'o', 'o2', 'o3', 'o4', 'fault.log'):
		try:
			os.unlink(os.path.join(d, f))
		except FileNotFoundError:
			pass
	import subprocess
	with open(os.path.join(d, 'out'), 'wb') as out, open(os.path.join(d, 'err'), 'wb') as err:
		e = dict(core.BASE_ENV)
		e.update(env or {})
		try:
			rc = subprocess.run([ctx.hush, 's.hsh', helper, log], stdin=subprocess.DEVNULL, stdout=out, stderr=err, cwd=d, env=e, timeout=40).returncode
		except subprocess.TimeoutExpired:
			rc = 'timeout'
	try:
		lines = open(log).read().splitlines()
	except FileNotFoundError:
		lines = []
	if lines:
		os.unlink(log)
	return rc, lines, open(os.path.join(d, 'err'), errors='replace').read()[-500:]


SERIAL = itertools.count()
BASE = ' 0=null 1=out 2=err'


def judge(rc, lines, want):
	if rc != 0:
		return 'exit status %s' % rc
	if not lines or lines[0] != 'base:' + BASE:
		return 'at the start: %s' % lines[:1]
	own = [l for l in lines if l.startswith('t:')]
	for l in own:
		if not OWN.match(l):
			return 'a command started with: %s' % l
	if want is not None and len(own) != want:
		return '%d commands ran instead of %d' % (len(own), want)
	end = [l for l in lines if l.startswith('end:')]
	if end != ['end:' + BASE]:
		return 'at the end the interpreter holds: %s' % end
	return None


def check(ctx):
	q = ctx.quick
	helper = core.cc(ctx.path('bin', 'fds'), os.path.join(core.VERIF, 'helpers', 'fds.c'))
	shim = core.cc(ctx.path('bin', 'fault.so'), '-shared', '-fPIC', os.path.join(core.VERIF, 'helpers', 'fault.c'), '-ldl')
	n = len(OPS)
	seqs = [()] + [(i,) for i in range(n)] + [s for s in itertools.product(range(n), repeat=2) if not q or min(s) < 13]
	seqs += [s for s in itertools.product(range(8 if q else n), repeat=3) if min(s) < 8]

	def work(part):
		d = ctx.tmpdir()
		prepare(d)
		bad = []
		for seq in part:
			src = make(ctx, d, seq)
			rc, lines, err = execute(ctx, d, helper)
			counts = [OPS[i][2] for i in seq]
			why = judge(rc, lines, None if None in counts else sum(counts))
			if why:
				bad.append((', '.join(OPS[i][0] for i in seq), '%s\n%s\n%s' % (why, '\n'.join(lines), err), {'s.hsh': src}))
				if len(bad) > 2:
					break
		shutil.rmtree(d, ignore_errors=True)
		return len(part), sum(map(len, part)), bad
	for k, steps, bad in ctx.pmap(work, core.chunks(seqs, 25)):
		ctx.add('traces_validated_against_impl', k)
		ctx.add('states', k)
		ctx.add('transitions', steps)
		for b in bad:
			ctx.violation(*b)

	# Every single fault in every operation.
	kinds = {'pipe': 24, 'dup': 24, 'open': 24, 'spawn': 11, 'thread': 11}

	def count(seq):
		d = ctx.tmpdir()
		prepare(d)
		env = {'FAULT_EXE': os.path.realpath(ctx.hush), 'LD_PRELOAD': shim, 'FAULT_LOG': d + '/fault.log'}
		make(ctx, d, seq, '0')
		execute(ctx, d, helper, dict(env, FAULT='count:0:0'))
		try:
			res = dict(l.split('=') for l in open(d + '/fault.log').read().split())
		except (FileNotFoundError, ValueError):
			res = {}
		shutil.rmtree(d, ignore_errors=True)
		return seq, res
	jobs = []
	for seq, res in ctx.pmap(count, [(i,) for i in range(n)] + ([] if q else [(i, j) for i in range(n) for j in range(13)])):
		for k in kinds:
			jobs += [(seq, k, x) for x in range(1, int(res.get(k, 0)) + 1)]

	def one(part):
		d = ctx.tmpdir()
		prepare(d)
		bad, fired = [], 0
		for seq, k, x in part:
			src = make(ctx, d, seq)
			rc, lines, err = execute(ctx, d, helper, {'FAULT_EXE': os.path.realpath(ctx.hush), 'LD_PRELOAD': shim, 'FAULT': '%s:%d:%d' % (k, x, kinds[k])})
			fired += 1
			if rc == 127:
				continue  # The fault became a panic that ends the program.
			end = [l for l in lines if l.startswith('end:')]
			own = [l for l in lines if l.startswith('t:') and not OWN.match(l)]
			if rc != 0 or own or (end and end != ['end:' + BASE]):
				bad.append(('%s with fault %s:%d' % (', '.join(OPS[i][0] for i in seq), k, x), 'exit status %s\n%s\n%s' % (rc, '\n'.join(lines), err), {'s.hsh': src}))
		shutil.rmtree(d, ignore_errors=True)
		return fired, bad[:3]
	for fired, bad in ctx.pmap(one, core.chunks(jobs, 20)):
		ctx.add('faults_injected', fired)
		ctx.add('traces_validated_against_impl', fired)
		for b in bad:
			ctx.violation(*b)
	return {'exhaustive': True, 'rule': 'all sequences of up to 2 of %d operations%s and of 3%s; every single failing pipe, dup, open, spawn and thread creation in every operation%s' % (n, ' (one of them among the first 13)' if q else '', ' of the first 8' if q else ' (one of them among the first 8)', '' if q else ' and every pair of one and one of the first 13'),
		'assumptions': ['the interpreter itself is started with descriptors 0, 1 and 2 only']}
