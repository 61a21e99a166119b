"""C25: environment and working directory changes have exactly the written scope.

All sequences of operations (exports, directory changes by function and by command, valid and invalid, commands with variable
prefixes in every kind of block and pipeline position, relative programs and files, changes made inside functions, caught
panics and modules) are run on a model of (environment, directory, files) and on the real interpreter. After every operation
the script prints what it sees itself; every command prints its whole environment and its directory."""
import itertools
import os
import shutil
import subprocess

from vlib import core

TECHNIQUE = 'explicit-state model checking of (environment, directory, files) over all operation sequences up to a depth, every trace replayed on the real interpreter'


def esc(s):
	return s.replace('\n', '\\0a').replace(' ', '\\20').replace('|', '\\7c')


class M:
	"""The model state. root is the directory of the run; paths are absolute."""
	DIRS = ('', '/d1', '/d1/d2', '/x y')
	TOOLS = ('/tool', '/d1/tool')

	def __init__(self, root, helper):
		self.root, self.helper = root, helper
		self.env = {'PATH': '/usr/bin:/bin', 'HOME': root + '/d1', 'P': 'inherited'}
		self.cwd = root
		self.files = {}
		self.out = []
		self.imported = False

	def p(self, line):
		self.out.append(line)

	def line(self, args, env=None, program=None):
		e = dict(self.env)
		e.update(env or {})
		return ' '.join(esc(a) for a in [program or self.helper] + list(args)) + ' | ' + esc(self.cwd) + ' |' + ''.join(' ' + esc('%s=%s' % kv) for kv in sorted(e.items(), key=lambda kv: '%s=%s' % kv))

	def show(self, *args, **env):
		self.p(self.line(args, env))

	def resolve(self, path):
		q = os.path.normpath(os.path.join(self.cwd, path))
		if path and (q[len(self.root):] in self.DIRS if q.startswith(self.root) else self.root.startswith(q)):
			return q
		return None

	def cd(self, path):
		q = self.resolve(path)
		if q is None:
			return False
		self.cwd = q
		return True

	def res(self, ok, status=127):
		self.p('nil' if ok else 'error %s' % status)


def op_export(k, v):
	def f(m):
		m.env[k] = v
		m.res(True)
	return 'std.export(%s, %s)' % (q(k), q(v)), f


def q(s):
	return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\0', '\\0') + '"'


def bad(src):
	return src, lambda m: m.p('error -')


def op_cd(path):
	return 'std.cd(%s)' % q(path), lambda m: m.p('nil' if m.cd(path) else 'error -')


def op_cdc(text, path=None):
	return '{ cd %s }' % text, lambda m: m.res(m.cd(text if path is None else path))


def seq(*steps):
	def f(m):
		for s in steps:
			s(m)
		m.res(True)
	return f


def tool(name, args, env=None):
	"""A program found relative to the current directory."""
	def f(m):
		path = os.path.normpath(os.path.join(m.cwd, name))
		if path.startswith(m.root) and path[len(m.root):] in m.TOOLS:
			m.p(m.line(args, env, name))
			m.res(True)
		else:
			m.res(False)
	return f


def bytool(args, where, env=None):
	"""A program found in PATH."""
	def f(m):
		e = dict(m.env)
		e.update(env or {})
		for d in e['PATH'].split(':'):
			if d[len(m.root):] + '/tool' in m.TOOLS and d.startswith(m.root):
				m.p(m.line(args, env, 'tool'))
				m.res(True)
				return
		m.res(False)
	return f


def redirected(m):
	m.files[m.cwd + '/o'] = m.line(('f',), {'A': '5'})
	m.res(True)


def catfile(m):
	c = m.files.get(m.cwd + '/o')
	if c is None:
		m.res(False)
	else:
		m.p(c)
		m.res(True)


def block_cd(m):
	start = m.cwd
	if not m.cd('d1'):
		m.res(False)
		return
	m.show('t')
	m.cd('..')
	m.show('u')
	assert m.cwd == start
	m.res(True)


def cd_missing(m):
	m.show('after')
	m.res(False)


def func(m):
	m.env['B'] = 'f'
	m.show('in', A='3')
	m.p('nil')


def caught(m):
	m.env['A'] = '7'
	m.cd('..') if m.cwd != m.root else None
	m.p('error panic')


def module(m):
	if not m.imported:
		m.imported = True
		m.env['B'] = 'module'
		m.cd(m.root + '/x y')
	m.p('nil')


def glob_env(m):
	# d* matches ./d1 in the root, d2 in d1, nothing elsewhere.
	one = {m.root: './d1', m.root + '/d1': './d2'}.get(m.cwd)
	if one is None:
		m.p('error panic')
	else:
		m.show('t', A=one)
		m.res(True)


def pipe2(m):
	m.show('t', A='v w', B='x')
	m.show('+u')
	m.res(True)


def pipe_b(m):
	m.show('t')
	m.show('+u', A='2')
	m.show('+w')
	m.res(True)


def two(e1, e2=None):
	def f(m):
		m.show('t', **e1)
		m.show('u', **(e2 or {}))
		m.res(True)
	return f


def one(*args, **env):
	return seq(lambda m: m.show(*args, **env))


def home(m):
	m.show(m.env['HOME'] + '/x', HOME='/other')
	m.show(m.env['HOME'] + '/')
	m.res(True)


def ops(root):
	return [
		op_export('A', '1'),
		op_cd('d1'),
		('{ A=5 $s t; $s u }', two({'A': '5'})),
		op_cd('..'),
		op_export('P', 'x y\n='),
		('{ A=$v B=x $s t | $s +u }', pipe2),
		op_cdc('d1'),
		op_cd('missing'),
		('${ A=9 $s t; $s u }', two({'A': '9'})),
		('{ A=5 $s f > o }', redirected),
		('{ cat o 2> "/dev/null" }', lambda m: (catfile(m) if m.cwd + '/o' in m.files else m.res(False, 1))),
		('{ cd d1; $s t; cd ".."; $s u }', block_cd),
		('{ ./tool a }', tool('./tool', ['a'])),
		('&{ P=z $s t; $s u }', two({'P': 'z'})),
		('std.catch(function() std.export("A", "7") if std.cwd() != root then { cd ".." } end std.panic("x") end)', caught),
		# ---- up to here: the subset for the longest sequences
		op_export('A', ''),
		op_export('B', '2'),
		bad('std.export("", "1")'), bad('std.export("A=", "1")'), bad('std.export("A\\0", "1")'), bad('std.export("A", "1\\0")'),
		op_cd('file'), op_cd(''), op_cd('x y'), op_cd('.'), op_cd(root), op_cd(root + '/d1/../d1/d2'), op_cd('d1\0x') if False else op_cd('d1/d2'),
		op_cdc('".."', '..'), op_cdc('missing'), op_cdc('"x y"', 'x y'), op_cdc('$d', 'd1'), op_cdc('${d}/d2', 'd1/d2'), op_cdc("''", ''), op_cdc('$root', root),
		('{ cd missing; $s after }', lambda m: m.res(False)),
		('{ cd missing ?; $s after }', cd_missing) if False else ('{ true; cd missing }', lambda m: m.res(False)),
		('{ cd ~/ }', lambda m: m.res(m.cd(m.env['HOME'] + '/'))),
		op_export('HOME', root + '/x y'),
		op_export('PATH', '/usr/bin:/bin:' + root + '/d1'),
		('{ tool b }', bytool(['b'], None)),
		('{ PATH=$path tool c }', bytool(['c'], None, {'PATH': root})),
		('{ d1/tool a }', tool('d1/tool', ['a'])),
		('{ $s t | A=2 $s +u | $s +w }', pipe_b),
		('{ A=1 A=2 $s t }', one('t', A='2')),
		('{ A= $s t }', one('t', A='')),
		('{ A=""  $s t }', one('t', A='')),
		("{ A='a b'  B=\"c\"d $s t }", one('t', A='a b', B='cd')),
		('{ A=a=b $s t }', one('t', A='a=b')),
		('{ $k=1 $s t; $s A=1 }', lambda m: (m.show('t', B='1'), m.show('A=1'), m.res(True))),
		('{ $low=1 ${low}=2 $s t; $dotted=$low $s u }', lambda m: (m.show('t', b_x1='2'), m.show('u', **{'a.b-c': 'b_x1'}), m.res(True))),
		('{ a=1 aB=2 Ab=3 $s t; a=4 $s u }', lambda m: (m.show('t', a='1', aB='2', Ab='3'), m.show('u', a='4'), m.res(True))),
		('{ A=d* $s t }', glob_env),
		('{ HOME="/other" $s ~/x; $s ~/ }', home),
		('{ A=1 nosuchprogram; $s t }', lambda m: m.res(False)),
		('{ A=1 false ?; $s t }', lambda m: (m.show('t'), m.res(False, 1))) if False else ('{ A=1 false }', lambda m: m.res(False, 1)),
		('{ A=1 $s t > missing/o }', lambda m: m.res(False)),
		('f()', func),
		('std.import(root ++ "/m.hsh")', module),
		('${ $s t | A=4 $s +u }', lambda m: (m.show('t'), m.show('+u', A='4'), m.res(True))),
		('if std.env("A") == nil then { A=4 B=4 $s t } else { $s u } end', lambda m: (m.show('u') if 'A' in m.env else m.show('t', A='4', B='4'), m.res(True))),
		('{ spawn0 $s name arg }', lambda m: (m.p(m.line(('arg',), None, 'name')), m.res(True))),
	]


HEAD = '''let root = std.args()[0]
let s = std.args()[1]
let path = root
let v = "v w"
let d = "d1"
let k = "B"
let low = "b_x1"
let dotted = "a.b-c"
let f = function() std.export("B", "f") let r = { A=3 $s in } r end
let look = function()
	std.println(":", std.cwd(), std.env("A"), std.env("B"), std.env("P"), std.env("HOME"), std.env("PATH"), std.env("M"))
end
let r = nil
let res = function(r)
	if std.type(r) == "error" then
		std.println("error" ++ (if std.type(r.context) == "dict" and std.contains(r.context, "status") then " " ++ std.to_string(r.context.status) else if r.context == "panic" then " panic" else " -" end end))
	else if std.type(r) == "dict" then
		std.print(r.stdout)
		std.print(r.stderr)
		std.println(nil)
	else if std.type(r) == "function" then
		std.println(r())
	else
		std.println(r)
	end end end
end
'''


def script(srcs):
	out = HEAD + 'look()\n'
	for s in srcs:
		if s.startswith('&'):
			out += 'let j = %s\nr = j.join()\n' % s if False else 'r = (function() let j = %s\nj.join() end)()\n' % s
		else:
			out += 'r = std.catch(function() %s end)\n' % s
		out += 'res(r)\nlook()\n'
	return out + 'r = { $s end }\nres(r)\nr = ${ $s end }\nres(r)\n'


def look(m):
	v = lambda k: m.env.get(k, 'nil')
	m.p(':\t%s\t%s\t%s\t%s\t%s\t%s\tnil' % (m.cwd, v('A'), v('B'), v('P'), v('HOME'), v('PATH')))


def predict(m, fs):
	look(m)
	for f in fs:
		f(m)
		look(m)
	m.show('end')
	m.res(True)
	m.show('end')
	m.res(True)
	return ''.join(x + '\n' for x in m.out)


def check(ctx):
	quick = ctx.quick
	helper = core.cc(ctx.path('bin', 'show'), os.path.join(core.VERIF, 'helpers', 'show.c'))
	n_ops = len(ops('/r'))
	seqs = [()]
	seqs += list(itertools.product(range(n_ops), repeat=1)) + list(itertools.product(range(n_ops), repeat=2))
	if quick:
		seqs += list(itertools.product(range(10), repeat=3))
	else:
		seqs += list(itertools.product(range(45), repeat=3)) + list(itertools.product(range(10), repeat=4))

	def work(part):
		top = os.path.realpath(ctx.tmpdir())
		root = top + '/p/p/p/root'
		os.makedirs(root)
		for d in M.DIRS[1:]:
			os.mkdir(root + d)
		for t in M.TOOLS:
			shutil.copy(helper, root + t)
		open(root + '/file', 'w').close()
		with open(root + '/m.hsh', 'w') as f:
			f.write('std.export("B", "module")\nstd.cd("%s/x y")\nnil\n' % root)
		table = ops(root)
		bad, states, steps = [], set(), 0
		for sq in part:
			for d in M.DIRS + ('/..', '/../..', '/../../..', '/../../../..'):
				if os.path.exists(root + d + '/o'):
					os.unlink(root + d + '/o')
			m = M(root, helper)
			want = predict(m, [table[i][1] for i in sq])
			steps += len(sq)
			states.add((tuple(sorted(m.env.items())), m.cwd, tuple(sorted(m.files.items())), m.imported))
			src = script([table[i][0] for i in sq])
			p = subprocess.run([ctx.hush, '-', root, helper], input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=root,
				env={'PATH': '/usr/bin:/bin', 'HOME': root + '/d1', 'P': 'inherited'}, timeout=30)
			if p.returncode or p.stdout.decode('latin-1') != want or p.stderr:
				bad.append((' ; '.join(table[i][0].replace(root, 'ROOT') for i in sq), ('expected: %s\nobserved: rc=%d %s\nstderr %r' % (want, p.returncode, p.stdout.decode('latin-1'), p.stderr)).replace(root, 'ROOT'), {'t.hsh': src}))
				if len(bad) > 2:
					break
		states = {repr(s).replace(root, 'ROOT') for s in states}
		shutil.rmtree(top)
		return len(part), steps, states, bad

	states = set()
	for n, steps, st, bad in ctx.pmap(work, core.chunks(seqs, 40)):
		states |= st
		ctx.add('transitions', steps)
		ctx.add('traces_validated_against_impl', n)
		for key, what, files in bad:
			ctx.violation(key, what, files)
	ctx.count['states'] = len(states)
	return {'exhaustive': True, 'rule': 'all sequences of up to 2 of %d operations%s; after every operation the script\'s own view, and at the end the view of two commands, is compared with the model' % (n_ops, ', of 3 of the first 10' if quick else ', of 3 of the first 45, of 4 of the first 10')}
