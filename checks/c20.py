"""C20: command blocks stop at the first unguarded failure and report every failure.

All blocks of up to three commands (and all pipelines of two and three stages) over every way a command can end, guarded and
unguarded, as plain, captured and asynchronous block, on the real interpreter against a model of the block: the log of the
commands that ran and the complete result value (descriptions, statuses, positions, nesting) must agree."""
import itertools
import os
import re

from vlib import core
from vlib.lang import lit_str

TECHNIQUE = 'explicit-state model of block execution; every block up to the bound run on the model and on the real interpreter, command log and result value compared'

# name -> (words, status; None: cannot be started; 'panic')
ENDS = {
	'ok': ('$s %s 0', 0), 'e1': ('$s %s 1', 1), 'e3': ('$s %s 3', 3), 'e127': ('$s %s 127', 127), 'e255': ('$s %s 255', 255),
	's9': ('$s %s -9', 264), 's15': ('$s %s -15', 270), 's6': ('$s %s -6', 261), 's1': ('$s %s -1', 256),
	'nf': ('./nosuch %s', None), 'np': ('./noexec %s', None), 'dir': ('./adir %s', None), 'nopath': ('nosuchprogram-%s', None),
	'red': ('$s %s "0" > nodir/x', None), 'in': ('$s %s "0" < missing', None), 'pan': ('$s %s "0" 2>3', 'panic'), 'env': ('K=%s $s %s 2', 2),
	'cdok': ('cd .', 0), 'cdbad': ('cd ./nosuch%s', None), 'sp0': ('spawn0 $s name %s 0', 0), 'sp3': ('spawn0 $s name %s 3', 3), 'sps': ('spawn0 $s name %s -9', 264), 'spnf': ('spawn0 ./nosuch name %s', None), 'cdpan': ('cd a b', 'panic'), 'exnf': ('exec ./nosuch %s', None),
	'cd0': ('cd', 'panic'), 'ex0': ('exec', 'panic'), 'ee0': ('exec0', 'panic'), 'een': ('exec0 $s', 'panic'), 'ss0': ('spawn0', 'panic'), 'ssn': ('spawn0 $s', 'panic'), 'eenf': ('exec0 ./nosuch name %s', None),
}
BUILTINS = ('cdok', 'cdbad', 'sp0', 'sp3', 'sps', 'spnf', 'cdpan', 'exnf', 'cd0', 'ex0', 'ee0', 'een', 'ss0', 'ssn', 'eenf')
RUNS = {n for n in ENDS if ENDS[n][0].startswith(('$s', 'K=')) and ENDS[n][1] is not None and n != 'pan'} | {'sp0', 'sp3', 'sps'}
REASON = {'np': 'Permission denied', 'dir': 'Permission denied'}  # Any other command that cannot be started: no such file.
OSERR = re.compile(r' \(os error \d+\)')
LAYOUT = [('; ', ' '), (';\n\t', '\n\t'), (' ;  ', '\t'), ('; # c ; | ?\n ', ' # c\n  ')]


class Block:
	def __init__(self, kind, cmds, layout=0):
		"""cmds: list of pipelines, each a list of (end, guarded)."""
		self.kind, self.cmds, self.layout = kind, cmds, layout

	def build(self, i, line, col):
		"""Source of the block starting at (line, col); positions of the commands' programs."""
		sep, sp = LAYOUT[self.layout]
		out, pos = self.kind + '{' + sp, []

		def here():
			nl = out.rfind('\n')
			return (line + out.count('\n'), (col + len(out)) if nl < 0 else len(out) - nl - 1)
		for c, stages in enumerate(self.cmds):
			if c:
				out += sep
			ps = []
			for s, (end, guard) in enumerate(stages):
				if s:
					out += sp + '|' + sp
				tag = self.tag(i, c, s)
				text = ENDS[end][0]
				text = text % ((tag,) * text.count('%s'))
				if end == 'env':
					k, _, text = text.partition(' ')
					out += k + sp
				ps.append(here())
				if self.layout == 2:
					text = text.replace(' ', '  ')
				out += text + (sp + '?' if guard else '')
			pos.append(ps)
		return out + sp + '}', pos

	def tag(self, i, c, s):
		return '%d.%d.%d' % (i, c, s)

	def model(self, i, pos, path):
		log, errors = [], []
		for c, stages in enumerate(self.cmds):
			started, failed = [], None
			for s in range(len(stages) - 1, -1, -1):
				how = ENDS[stages[s][0]][1]
				if how is None or how == 'panic':
					failed = s
					break
				started.insert(0, s)
			group = [self.tag(i, c, s) for s in started if stages[s][0] in RUNS]
			log.append(sorted(group))
			if failed is not None:
				if ENDS[stages[failed][0]][1] == 'panic':
					return log, 'panic'
				errors.append(['%s 127 %s' % (REASON.get(stages[failed][0], 'No such file or directory'), show_pos(path, pos[c][failed]))])
				break
			errs = ['command returned non-zero %d %s' % (ENDS[stages[s][0]][1], show_pos(path, pos[c][s])) for s in started if ENDS[stages[s][0]][1] != 0]
			if errs:
				errors.append(errs)
			if any(ENDS[stages[s][0]][1] != 0 and not stages[s][1] for s in started):
				break
		return log, show(errors)


def show_pos(path, p):
	return '%s (line %d, column %d)' % (path, p[0], p[1])


def show(errors):
	def pipe(p):
		return p[0] if len(p) == 1 else 'Some commands failed in the pipeline [%s]' % ', '.join(p)
	if not errors:
		return 'nil'
	return pipe(errors[0]) if len(errors) == 1 else 'Some commands failed in the block [%s]' % ', '.join(pipe(p) for p in errors)


HEAD = '''let r = nil
let text = function(e)
	if std.type(e.context) == "array" then
		let t = ""
		for x in std.iter(e.context) do
			t = if t == "" then text(x) else t ++ ", " ++ text(x) end
		end
		e.description ++ " [" ++ t ++ "]"
	else
		e.description ++ " " ++ std.to_string(e.context.status) ++ " " ++ e.context.pos
	end
end
let show = function(i, r)
	let t = nil
	if std.type(r) == "error" and r.context == "panic" then
		t = "panic"
	else
		if std.type(r) == "error" then
			if std.type(r.context) == "dict" and std.contains(r.context, "stdout") then
				t = text(std.error(r.description, r.context.error)) ++ " <" ++ r.context.stdout ++ r.context.stderr ++ ">"
			else
				t = text(r)
			end
		else
			t = if r == nil then "nil" else if std.type(r) == "dict" then "nil <" ++ r.stdout ++ r.stderr ++ ">" else "other" end end
		end
	end
	std.println("#" ++ std.to_string(i) ++ " " ++ t)
end
'''


def run_blocks(ctx, step, blocks, single=False):
	d = ctx.tmpdir()
	src = 'let s = %s\n' % lit_str(step.encode()) + HEAD
	path = os.path.join(d, 't.hsh')
	want, wantlog = [], []
	for i, b in enumerate(blocks):
		pre = 'r = std.catch(function()\n'
		if b.kind == '&':
			pre += 'let j = '
		src += pre
		nl = src.rfind('\n')
		text, pos = b.build(i, src.count('\n') + 1, len(src) - nl - 1)
		src += text + ('\nj.join()' if b.kind == '&' else '') + '\nend)\nshow(%d, r)\n' % i
		log, res = b.model(i, pos, path)
		if b.kind == '$' and res != 'panic':
			res += ' <>'
		want.append('#%d %s' % (i, res))
		wantlog += log
	with open(path, 'w') as f:
		f.write(src)
	with open(os.path.join(d, 'noexec'), 'w') as f:
		f.write('#!/bin/sh\n')
	os.mkdir(os.path.join(d, 'adir'))
	r = ctx.run(script=path, cwd=d, timeout=120)
	try:
		got = open(os.path.join(d, 'log')).read().split('\n')[:-1]
	except FileNotFoundError:
		got = []
	# Compare the log group by group: the stages of one pipeline may run in any order.
	g, k = [], 0
	for grp in wantlog:
		g.append(sorted(got[k:k + len(grp)]))
		k += len(grp)
	extra = [n for n in os.listdir(d) if n not in ('t.hsh', 'noexec', 'adir', 'log')]
	if r.rc == 0 and OSERR.sub('', r.out.decode(errors='replace')).split('\n')[:-1] == want and g == wantlog and k == len(got) and not r.err and not extra:
		return []
	if not single:
		bad = []
		for b in blocks:
			bad += run_blocks(ctx, step, [b], True)
			if len(bad) > 2:
				return bad
		return bad or [('blocks in company', 'expected %s log %s\nobserved log %s\n%s' % (want, wantlog, got, r.brief()), {'t.hsh': src})]
	b = blocks[0]
	return [('%s%s layout %d' % (b.kind, [[n + '?' * g for n, g in p] for p in b.cmds], b.layout), 'expected %s\nexpected log %s\nobserved log %s %s\n%s' % (want, wantlog, got, extra, r.brief()), {'t.hsh': src})]


def blocks(q):
	full = [(n, g) for n in ENDS for g in (False, True)]
	ext = [(n, g) for n, g in full if n not in BUILTINS]
	core6 = [('ok', False), ('e1', False), ('e1', True), ('s9', True), ('nf', False), ('nf', True)]
	core4 = [('ok', False), ('e3', True), ('e1', False), ('nf', False)]
	for kind in ('', '$', '&'):
		al = ext if kind else full
		lay = 0
		for k in (1, 2):
			for t in itertools.product(al, repeat=k):
				lay += 1
				if k == 2 and kind and q and lay % 3 == 0 and t[0][0] not in ('ok', 'e1', 'nf', 'pan'):
					pass
				yield Block(kind, [[x] for x in t], lay % 4)
		mid = [x for x in al if x[0] in ('ok', 'e1', 's9', 'nf', 'pan', 'cdok', 'cdbad', 'sp3', 'e255')]
		for t in itertools.product(core6 if q and kind else mid, repeat=3):
			lay += 1
			yield Block(kind, [[x] for x in t], lay % 4)
		for t in itertools.product(core4 if q else core6, repeat=4):
			lay += 1
			yield Block(kind, [[x] for x in t], lay % 4)
		if not q:
			for t in itertools.product(core4, repeat=5):
				lay += 1
				yield Block(kind, [[x] for x in t], lay % 4)
		p2 = [x for x in ext if x[0] in ('ok', 'e1', 's15', 'nf', 'np', 'red', 'pan', 'env', 'e3')]
		for t in itertools.product(p2, repeat=2):
			lay += 1
			yield Block(kind, [list(t)], lay % 4)
			yield Block(kind, [[('ok', False)], list(t), [('e3', True)]], lay % 4)
		for t in itertools.product(core6 + [('ok', True), ('s9', False)], repeat=3):
			lay += 1
			yield Block(kind, [list(t)], lay % 4)
			if not q:
				yield Block(kind, [[('e3', True)], list(t), [('e1', False)], [('ok', False)]], lay % 4)
		for a in itertools.product(core6, repeat=2):
			for b in itertools.product(core4 if q else core6, repeat=2):
				lay += 1
				yield Block(kind, [list(a), list(b)], lay % 4)
		if not q:
			for t in itertools.product(core4, repeat=4):
				lay += 1
				yield Block(kind, [list(t)], lay % 4)
		# Error lists of every length: blocks, pipelines and blocks of pipelines; all but one command fails, or all.
		for n in range(4, 13 if q else 25):
			fail = [('e1', True), ('s9', True), ('e3', True), ('e255', True)] * 7
			for hole in range(-1, n):
				cs = fail[:n]
				if hole >= 0:
					cs[hole] = ('ok', False)
				lay += 1
				yield Block(kind, [[c] for c in cs], lay % 4)
				yield Block(kind, [cs], lay % 4)
			yield Block(kind, [[c] for c in fail[:n - 1]] + [[('e1', False)], [('ok', False)]], lay % 4)
			yield Block(kind, [[c] for c in fail[:n - 1]] + [[('nf', False)], [('ok', False)]], lay % 4)
			yield Block(kind, [fail[i:i + 1 + i % 3] for i in range(n)], lay % 4)


def check(ctx):
	step = core.cc(ctx.path('bin', 'step'), os.path.join(core.VERIF, 'helpers', 'step.c'))
	total = 0

	def count(it):
		nonlocal total
		for x in it:
			total += 1
			yield x
	for bad in ctx.pmap(lambda b: run_blocks(ctx, step, b), core.chunks(count(blocks(ctx.quick)), 40)):
		for v in bad:
			ctx.violation(*v)
	ctx.add('blocks', total)

	# Every exit status and every terminating signal.
	sigs = [s for s in range(1, 32) if s not in (17, 18, 19, 20, 21, 22, 23, 28)] + [34, 64]
	ends = [(s, s) for s in range(256)] + [(-s, 255 + s) for s in sigs]
	src, want = 'let s = %s\nlet r = nil\n' % lit_str(step.encode()), ''
	for how, st in ends:
		src += 'r = { $s t %d }\nstd.println(if r == nil then 0 else r.context.status end)\n' % how
		src += 'let c%s = ${ $s t %d ? }\nstd.println(if std.type(c%s) == "dict" then 0 else c%s.context.error.status end)\n' % ((str(how).replace('-', 'm'), how) + (str(how).replace('-', 'm'),) * 2)
		want += '%d\n%d\n' % (st, st)
	d = ctx.tmpdir()
	r = ctx.run(src, cwd=d, timeout=120)
	if r.out.decode() != want or r.rc != 0:
		bad = [(e, g) for e, g in zip(want.split(), r.out.decode(errors='replace').split()) if e != g]
		ctx.violation('exit statuses %s' % bad[:3], 'expected/observed %s\n%s' % (bad[:20], r.brief()), {'t.hsh': src})
	ctx.add('statuses', 2 * len(ends))

	# The alias builtin is not implemented.
	r = ctx.run('std.println(std.type(std.catch(function() { alias a=b } end)))\n', cwd=d)
	if r.crashed:
		ctx.violation('alias builtin', r.brief())
	n = total + 2 * len(ends)
	return {'exhaustive': True, 'states': n, 'transitions': n, 'traces_validated_against_impl': n,
		'rule': 'all blocks of 1 and 2 commands over %d endings x guarded/unguarded, of 3 and 4 (5) over reduced sets, all pipelines of 2 and 3 (4) stages alone and between commands, blocks and pipelines of 4..12 (24) failing commands with every position of a success, in plain, capture and async blocks and 4 layouts; all 256 exit statuses and all terminating signals' % len(ENDS)}
