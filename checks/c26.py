"""C26: imports run each module once, relative to the importing file, in isolation.

A model of the module table (loaded, loading, failed) is explored over all import graphs of three modules in three directories
(including circular ones, with and without catching), all sequences of imports by the main script, all spellings of a path from
every kind of importer, all sequences of module failures and repairs, and all placements of the import inside calls; every trace
is replayed on the real interpreter."""
import itertools
import os
import shutil
import subprocess

from vlib import core

TECHNIQUE = 'explicit-state model checking of the module table over all import graphs, import sequences and failure histories up to bounds, every trace replayed on the real interpreter'

WHERE = {'a': '', 'b': 'sub/', 'c': 'sub/deep/'}


def rel(frm, to):
	"""A path from the directory of module frm (or '' for main) to module to."""
	return os.path.relpath('/' + WHERE[to] + to + '.hsh', '/' + WHERE.get(frm, ''))


def module(name, deps, catch, body=''):
	out = 'std.println("load %s")\nlet v = "%s"\nlet x = "x of %s"\nlet n = 0\nlet deps = []\n' % (name, name, name)
	out += 'let imp = function(d)\n\tlet v = "local"\n\tstd.push(deps, %s)\nend\n' % ('std.catch(function() std.import(d) end)' if catch else 'std.import(d)')
	for d in deps:
		out += 'imp("%s")\n' % rel(name, d)
	return out + body + 'std.println("done %s", v, x, n)\n@[ name: v, bump: function() n = n + 1 n end, get: function() v ++ x end, deps: deps ]\n' % name


class Model:
	def __init__(self, graph, catch):
		self.graph, self.catch = graph, catch
		self.cache, self.loading, self.out = {}, set(), []
		self.steps = 0
		self.states = set()

	def load(self, x):
		self.steps += 1
		self.states.add((frozenset(self.cache), frozenset(self.loading)))
		if x in self.cache:
			return self.cache[x]
		if x in self.loading:
			raise RuntimeError(x)
		self.loading.add(x)
		try:
			self.out.append('load ' + x)
			deps = []
			for d in self.graph[x]:
				try:
					deps.append(self.load(d))
				except RuntimeError as e:
					if not self.catch:
						raise
					deps.append('error')
			self.out.append('done %s\t%s\tx of %s\t0' % (x, x, x))
			m = {'name': x, 'n': 0, 'deps': deps}
		finally:
			self.loading.discard(x)
		self.cache[x] = m
		return m

	def use(self, m):
		m['n'] += 1
		self.out.append('%s\t%d\t%sx of %s' % (m['name'], m['n'], m['name'], m['name']))
		for d in m['deps']:
			if d == 'error':
				self.out.append('dep error')
			else:
				d['n'] += 1
				self.out.append('dep %s\t%d' % (d['name'], d['n']))


USE = '''let v = "main v"
let x = "main x"
let use = function(m)
	if std.type(m) == "error" then
		std.println("error", m.context)
	else
		std.println(m.name, m.bump(), m.get())
		for d in std.iter(m.deps) do
			if std.type(d) == "error" then
				std.println("dep error")
			else
				std.println("dep " ++ d.name, d.bump())
			end
		end
	end
end
'''

# How the main script performs an import: all must behave the same.
CONTEXTS = [
	'use(std.catch(function() std.import("%s") end))\n',
	'use((function(p) let l = [1, 2] let r = std.catch(function() let k = 3 let q = std.import(p) q end) if l != [1, 2] or p != "%s" then std.println("locals") end r end)("%s"))\n',
	'for i in std.range(0, 1, 1) do let s = "keep" let o = std.catch(function() std.import("%s") end) if s != "keep" or i != 0 then std.println("loop") end use(o) end\n',
]


def context(i, path):
	c = CONTEXTS[i % len(CONTEXTS)]
	return c % ((path,) * c.count('%s'))


TAIL = 'std.println(v, x)\n'


class Box:
	"""A scratch tree, emptied for every run."""

	def __init__(self, ctx):
		self.ctx = ctx
		self.top = os.path.realpath(ctx.tmpdir())
		self.root = self.top + '/root'

	def fill(self, files):
		shutil.rmtree(self.root, ignore_errors=True)
		os.makedirs(self.root + '/sub/deep')
		os.makedirs(self.root + '/other')
		for f, text in files.items():
			with open(os.path.join(self.root, f), 'w') as h:
				h.write(text)

	def run(self, argv, cwd='', stdin=b''):
		p = subprocess.run([self.ctx.hush] + argv, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.join(self.root, cwd), env=core.BASE_ENV, timeout=30)
		return p.returncode, p.stdout.decode('latin-1').replace(self.root, 'ROOT'), p.stderr.decode('latin-1').replace(self.root, 'ROOT')


def graphs():
	for g in itertools.product(*[[(), (m,)] + [(o,) for o in 'abc' if o != m] + list(itertools.permutations([o for o in 'abc' if o != m])) for m in 'abc']):
		yield dict(zip('abc', g))


def check_graphs(ctx, q):
	jobs = []
	depth = 2 if q else 3
	for g in graphs():
		for catch in (False, True):
			for n in range(1, depth + 1):
				for sq in itertools.product('abc', repeat=n):
					jobs.append((g, catch, sq))

	def work(part):
		box, bad, states, steps = Box(ctx), [], set(), 0
		for i, (g, catch, sq) in enumerate(part):
			m = Model(g, catch)
			src = USE
			for k, t in enumerate(sq):
				src += context(i + k, rel('', t))
				try:
					m.use(m.load(t))
				except RuntimeError:
					m.out.append('error\tpanic')
			m.out.append('main v\tmain x')
			states |= {(repr(g), s) for s in m.states}
			steps += m.steps
			files = {WHERE[x] + x + '.hsh': module(x, g[x], catch) for x in 'abc'}
			files['main.hsh'] = src + TAIL
			box.fill(files)
			got = box.run(['main.hsh'])
			want = (0, ''.join(l + '\n' for l in m.out), '')
			if got != want:
				bad.append(('graph %s catch=%s imports %s' % (g, catch, ''.join(sq)), 'expected %s\nobserved %s' % (want, got), files))
				if len(bad) > 2:
					break
		shutil.rmtree(box.top)
		return len(part), states, steps, bad
	states = set()
	for n, st, steps, bad in ctx.pmap(work, core.chunks(jobs, 60)):
		states |= st
		ctx.add('traces_validated_against_impl', n)
		ctx.add('transitions', steps)
		for b in bad:
			ctx.violation(*b)
	ctx.add('states', len(states))


def check_paths(ctx, q):
	"""All spellings of the same file, two at a time, from importers in different directories, started in different ways."""
	def spellings(frm):
		up = {'': '', 'b': '../', 'c': '../../'}[frm]
		return [up + 'a.hsh', './' + up + 'a.hsh', up + 'sub/../a.hsh', 'ROOT/a.hsh', up + 'other/..//./a.hsh', up + 'link.hsh', 'ROOT/dirlink/../a.hsh' if False else 'ROOT/sub/deep/../../a.hsh', up + 'dlink/b2a.hsh']
	jobs = []
	k = len(spellings(''))
	for frm in ('', 'b', 'c'):
		for i, j in itertools.product(range(k), repeat=2):
			for start in range(5):
				for cd in (None, 'sub', 'other'):
					jobs.append((frm, i, j, start, cd))

	def work(part):
		box, bad = Box(ctx), []
		for frm, i, j, start, cd in part:
			sp = [s.replace('ROOT', box.root) for s in spellings(frm)]
			body = 'let p = std.import("%s")\n' % sp[i]
			if cd:
				body += 'std.cd("%s/%s")\n' % (box.root, cd)
			body += 'let q = std.import("%s")\nstd.println(p.name, p.bump(), q.bump(), p == q)\n' % sp[j]
			files = {'a.hsh': module('a', (), False), 'sub/a.hsh': 'std.println("wrong a")\n', 'other/a.hsh': 'std.println("wrong a")\n', 'sub/deep/a.hsh': 'std.println("wrong a")\n'}
			if frm == '':
				files['main.hsh'] = body
			else:
				files[WHERE[frm] + frm + '.hsh'] = body
				files['main.hsh'] = 'std.import("%s")\n' % rel('', frm)
			box.fill(files)
			os.symlink('a.hsh', box.root + '/link.hsh')
			os.symlink('sub', box.root + '/dlink')
			os.symlink('../a.hsh', box.root + '/sub/b2a.hsh')
			if start == 0:
				got = box.run(['main.hsh'])
			elif start == 1:
				got = box.run(['../main.hsh'], 'other')
			elif start == 2:
				got = box.run([box.root + '/main.hsh'], 'sub/deep')
			elif start == 3:
				got = box.run(['-'], '', files['main.hsh'].encode())
			else:
				got = box.run(['./sub/../main.hsh', 'arg'])
			want = (0, 'load a\ndone a\ta\tx of a\t0\na\t1\t2\ttrue\n', '')
			if got != want and not (start == 3 and cd and frm == ''):
				bad.append(('from %s: %s then %s, start %d, cd %s' % (frm or 'main', spellings(frm)[i], spellings(frm)[j], start, cd), 'expected %s\nobserved %s' % (want, got), files))
				if len(bad) > 2:
					break
		shutil.rmtree(box.top)
		return len(part), bad
	for n, bad in ctx.pmap(work, core.chunks(jobs, 60)):
		ctx.add('traces_validated_against_impl', n)
		ctx.add('states', n)
		for b in bad:
			ctx.violation(*b)


GOOD = module('b', (), False)
# kind: (file contents or None, is the failure static)
BROKEN = {
	'missing': None,
	'syntax': 'std.println("load b")\nlet x = (\n',
	'semantic': 'std.println("load b")\nlet y = v ++ undeclared\n',
	'importer variable': 'std.println("load b")\nstd.println(m1)\n',
	'importer local': 'std.println("load b")\nl = 5\n',
	'panic': 'std.println("load b")\nlet m1 = 1\nlet l = 2\nlet z = [1, 2][m1 + l]\n',
	'explicit': 'let q = 1\nlet f = function(k) let w = k * 2 std.panic(w) end\nf(q)\n',
	'deep panic': 'let f = function(k) if k == 0 then std.panic("deep") else let l = f(k - 1) l end end\nfor i in std.range(0, 3, 1) do let u = f(20 + i) end\n',
	'directory': 'DIR',
	'bad import': 'std.println("load b")\nlet q1 = 1\nlet q2 = std.import("nothing.hsh")\n',
	'not utf8': 'std.println("load b")\n\udcff\n',
	'unclosed': 'std.println("load b")\nlet s = "text\n',
	'stray end': GOOD + 'end\n',
	'many errors': 'std.println("load b")\n' + 'u = 1\n' * 30,
	'both': 'std.println("load b")\nu = 1\nlet = 5\n',
	'return': 'std.println("load b")\nreturn 1\n',
	'builtin': 'std.println("load b")\n{ cd . | cat }\n',
}
STATIC = ('syntax', 'semantic', 'importer variable', 'importer local', 'not utf8', 'unclosed', 'stray end', 'many errors', 'both', 'return', 'builtin')


def check_failures(ctx, q):
	"""Histories of a module's file: at every attempt it is good or broken in some way, imported directly or through another module, at several call depths."""
	kinds = list(BROKEN)
	hist = []
	for n in (1, 2, 3):
		for h in itertools.product(kinds if n < 3 else kinds[:6 if q else 11], repeat=n):
			hist.append(h + ('good', 'panic', 'good'))
	jobs = [(h, via, depth, 0) for h in hist for via in ((False, True) if len(h) < 6 or not q else (True,)) for depth in ((0, 2) if len(h) < 6 or not q else (1,))]
	# The same after other modules have been loaded, good and bad ones.
	jobs += [(h, via, 0, warm) for h in hist if len(h) < (5 if q else 6) for via in (False, True) for warm in (1, 2, 3, 7)]

	def put(path, kind):
		if os.path.isdir(path):
			os.rmdir(path)
		elif os.path.exists(path):
			os.unlink(path)
		text = GOOD if kind == 'good' else BROKEN[kind]
		if text == 'DIR':
			os.mkdir(path)
		elif text is not None:
			with open(path, 'w', encoding='utf8', errors='surrogateescape') as f:
				f.write(text)

	def work(part):
		box, bad = Box(ctx), []
		for h, via, depth, warm in part:
			box.fill({**{'w%d.hsh' % i: '@[ id: %d ]' % i for i in range(warm)}, 'wbad.hsh': 'std.panic(1)', 'a.hsh': 'std.println("load a")\nlet m1 = 77\nlet l = "a"\nlet b = std.import("sub/b.hsh")\nif m1 != 77 or l != "a" then std.println("a disturbed") end\nb\n'})
			src = 'let m1 = "first"\nlet deep = function(k, f) if k == 0 then f() else let l = [k] let r = deep(k - 1, f) if l != [k] then std.println("disturbed") end r end end\nlet m = nil\n'
			for i in range(warm):
				src += 'm = std.import("w%d.hsh")\nif m.id != %d then std.println("wrong module") end\n' % (i, i)
			if warm % 2:
				src += 'm = std.catch(function() std.import("wbad.hsh") end)\nif std.type(m) != "error" then std.println("no error") end\n'
			want, cached = [], False
			for i, kind in enumerate(h):
				os.makedirs(box.root + '/v%d' % i)
				put(box.root + '/v%d/b.hsh' % i, kind)
				src += 'm = { rm -rf sub/b.hsh; sh -c "cp -r v%d/b.hsh sub/b.hsh 2>/dev/null; true" }\n' % i
				src += 'm = std.catch(function() deep(%d, function() let l = "l" let r = std.import("%s") if l != "l" then std.println("disturbed") end r end) end)\n' % (depth, 'a.hsh' if via else 'sub/b.hsh')
				src += 'if std.type(m) == "error" then std.println("error", m.context) else std.println(m.name, m.bump()) end\nstd.println(m1)\n'
				if not cached:
					if via:
						want.append('load a')
					if kind == 'good':
						cached = 0
						want += ['load b', 'done b\tb\tx of b\t0']
						cached = 1
						want.append('b\t1')
					else:
						if kind in ('panic', 'bad import'):
							want.append('load b')
						want.append('error\tpanic')
				else:
					cached += 1
					want.append('b\t%d' % cached)
				want.append('first')
			src += ''.join('if std.import("w%d.hsh").id != %d then std.println("wrong module") end\n' % (i, i) for i in range(warm))
			src += 'std.println("end")\n'
			want.append('end')
			with open(box.root + '/main.hsh', 'w') as f:
				f.write(src)
			got = box.run(['main.hsh'])
			nstatic = 0
			for k in h:
				if k == 'good':
					break
				nstatic += k in STATIC
			if got[0] != 0 or got[1] != ''.join(w + '\n' for w in want) or bool(nstatic) != bool(got[2]) or got[2].count('Error: ') < nstatic:
				bad.append(('history %s via=%s depth=%d after %d modules' % (','.join(h), via, depth, warm), 'expected %s\nobserved %s' % (want, got), {'main.hsh': src}))
				if len(bad) > 2:
					break
		shutil.rmtree(box.top)
		return len(part), bad
	for n, bad in ctx.pmap(work, core.chunks(jobs, 20)):
		ctx.add('traces_validated_against_impl', n)
		ctx.add('states', n)
		for b in bad:
			ctx.violation(*b)


def check_values(ctx):
	"""A module's value is the value of its last statement, of any type; a panic that is not caught ends the program with the module's position."""
	box = Box(ctx)
	n = 0
	for body, want in (('1', '1'), ('nil', 'nil'), ('"s"', 's'), ('[1, 2]', '[ 1, 2 ]'), ('let y = 1', 'nil'), ('if true then 5 end', '5'), ('function() 3 end', None), ('std.error("e", 1)', 'error: "e" (1)'), ("'c'", 'c'), ('1.5', '1.5'), ('', 'nil'), ('# c', 'nil'), ('let z = 1\nz + 1', '2'), ('std.args()', '[ "p", "q r" ]'), ('std.type(std)', 'dict'), ('while false do end', 'nil'), ('let k = 1\nk = 2', 'nil')):
		box.fill({'a.hsh': body, 'main.hsh': 'let m = std.import("a.hsh")\nstd.println(%s)\nlet k = std.import("a.hsh")\nstd.println(m == k)\n' % ('m()' if want is None else 'm')})
		got = box.run(['main.hsh', 'p', 'q r'])
		n += 1
		if got != (0, '%s\ntrue\n' % (want or '3'), ''):
			ctx.violation('value of module %r' % body, 'expected %s\nobserved %s' % (want, got))
	# Whatever its value, a module is run once: imported again at once, later, from another module, by another spelling.
	for body in ('nil', 'true', 'false', '0', '1', '0.0', "'c'", '""', '"s"', '[]', '[1]', '@[]', '@[k: 1]', 'function() 1 end', 'std.error("e", nil)', 'std', 'std.len', 'std.iter([])', 'let y = 1', 'while false do end', '{ true }', '${ echo x }', 'std.error("", [])', 'std.bind(1, std.len)', 'std.catch(function() 1 + nil end)'):
		box.fill({'sub/m.hsh': 'std.println("run m")\nwhile false do end\n' + body + '\n', 'a.hsh': 'std.println("run a")\nstd.import("sub/m.hsh")\n', 'sub/b.hsh': 'std.println("run b")\nstd.import("../sub/m.hsh")\n',
			'main.hsh': 'let ms = [ std.import("sub/m.hsh"), std.import("sub/m.hsh"), std.import("./sub/m.hsh"), std.import("a.hsh"), std.import("sub/b.hsh"), std.import("sub/m.hsh"), std.import("a.hsh") ]\nfor i in std.range(0, 3, 1) do std.push(ms, std.catch(function() std.import("sub/../sub/m.hsh") end)) end\nfor m in std.iter(ms) do if m != ms[0] then std.println("differs") end end\nstd.println(std.len(ms))\n'})
		got = box.run(['main.hsh'])
		n += 1
		if got != (0, 'run m\nrun a\nrun b\n10\n', ''):
			ctx.violation('module with the value %s imported repeatedly' % body, 'observed %s' % (got,))
	# Any number of modules, each run once and none confused with another.
	for k in (1, 2, 7, 8, 9, 31, 32, 33, 100, 300):
		box.fill({**{'sub/m%d.hsh' % i: 'std.println("run %d")\nlet n = %d\nfunction() n = n + 1000\nn end\n' % (i, i) for i in range(k)},
			'main.hsh': 'let ms = []\nfor r in std.range(0, 3, 1) do for i in std.range(0, %d, 1) do\nlet j = if r == 1 then %d - i else i end\nlet m = std.import("sub/m" ++ std.to_string(j) ++ ".hsh")\nif m() != j + 1000 * (r + 1) then std.println("wrong", j) end end end\n' % (k, k - 1)})
		got = box.run(['main.hsh'])
		n += 1
		if got != (0, ''.join('run %d\n' % i for i in range(k)), ''):
			ctx.violation('%d modules' % k, 'observed %s' % (got,))
	for body, pos in (('let x = 1\nstd.panic("p")', 'line 2, column 9'), ('let f = function(x)\n  x + nil\nend\nf(1)', 'line 2, column 6')):
		for via in (False, True):
			box.fill({'sub/b.hsh': body, 'a.hsh': 'std.import("sub/b.hsh")\n', 'main.hsh': 'std.println("x")\nstd.import("%s")\nstd.println("y")\n' % ('a.hsh' if via else 'sub/b.hsh')})
			got = box.run(['main.hsh'])
			n += 1
			if got[0] != 127 or got[1] != 'x\n' or not got[2].startswith('Panic in ROOT/sub/b.hsh (%s): ' % pos):
				ctx.violation('uncaught panic in module %r via=%s' % (body, via), 'observed %s' % (got,))
	# Functions of a module panic with the module's position, functions of the importer called by a module with the importer's.
	box.fill({'a.hsh': 'function(f) f() end\n', 'main.hsh': 'let a = std.import("a.hsh")\na(function()\n\tstd.panic("p") end)\n'})
	got = box.run(['main.hsh'])
	n += 1
	if got[0] != 127 or not got[2].startswith('Panic in main.hsh (line 3, column 10): '):
		ctx.violation('panic in a callback', 'observed %s' % (got,))
	# Bad arguments.
	for args in ('', '1', 'nil', '"a", "b"', '[]'):
		box.fill({'a.hsh': '1', 'main.hsh': 'let r = std.catch(function() std.import(%s) end)\nstd.println(std.type(r))\n' % args})
		got = box.run(['main.hsh'])
		n += 1
		if got != (0, 'error\n', ''):
			ctx.violation('std.import(%s)' % args, 'observed %s' % (got,))
	# --check does not run or load modules.
	box.fill({'main.hsh': 'std.println(1)\nstd.import("nothing.hsh")\n'})
	got = box.run(['--check', 'main.hsh'])
	n += 1
	if got != (0, '', ''):
		ctx.violation('--check with an import', 'observed %s' % (got,))
	shutil.rmtree(box.top)
	ctx.add('traces_validated_against_impl', n)


def check(ctx):
	q = ctx.quick
	check_graphs(ctx, q)
	check_paths(ctx, q)
	check_failures(ctx, q)
	check_values(ctx)
	return {'exhaustive': True, 'rule': 'all 216 import graphs of 3 modules with at most 2 imports each (circular ones included) x caught or not x all import sequences of length up to %d; all pairs of 8 spellings x 3 importers x 5 ways to start x 3 directory changes; all failure histories of length up to 3 over %d kinds of failure' % (2 if q else 3, len(BROKEN)),
		'assumptions': ['for a script read from standard input that changes directory there is no importing file; only unchanged directories are checked']}
