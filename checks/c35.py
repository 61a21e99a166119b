"""C35: garbage collection is invisible, and what a script no longer uses is given back.

(a) Values are put behind all chains of holders (containers, closures, bound objects, iterators, errors, modules), while the
holder itself is reachable only from one kind of place (a variable, an argument, an operand, the self of a running method, the
source of a loop, ...) during a forced collection; they are then read back. (b) The collector runs when a number of bytes has
been allocated since it last ran: for all holders and places, the number of allocations before the construction is varied over
a whole period of the collector, so that it runs at every allocation within. Freed memory is overwritten (MALLOC_PERTURB_).
(c) Every way of making garbage is repeated until the memory in use must not grow any more."""
import itertools
import re

from vlib.core import chunks

TECHNIQUE = 'exhaustive enumeration of holder chains, root places and collector schedules up to a bound, executed on the real interpreter with freed memory overwritten'

ENV = {'MALLOC_PERTURB_': '165'}
# name, construction from X, access of X in H
HOLDERS = [
	('array', '[ X ]', 'H[0]'), ('array pushed', '(function() let a = [] std.push(a, X) a end)()', 'H[0]'), ('dict value', '@[ k: X ]', 'H.k'), ('dict key', '(function() let d = @[] d[X] = 1 d end)()', 'std.iter(H)().value.key'),
	('dict assigned', '(function() let d = @[ k: nil ] d["k"] = X d end)()', 'H["k"]'), ('error', 'std.error("e", X)', 'H.context'), ('closure', '(function() let y = X function() y end end)()', 'H()'), ('closure twice', '(function() let y = X function() function() y end end end)()', 'H()()'),
	('parameter', '(function(y) function() y end end)(X)', 'H()'), ('assigned capture', '(function() let y = nil let f = function() y end y = X f end)()', 'H()'), ('bound self', 'std.bind(X, function() self end)', 'H()'), ('bound function', 'std.bind(nil, (function() let y = X function() y end end)())', 'H()'),
	('array iterator', 'std.iter([ X ])', 'H().value'), ('dict iterator', 'std.iter(@[ k: X ])', 'H().value.value'), ('recursive closure', '(function() let y = X let f = nil f = function(g) if g then f(false) else y end end f end)()', 'H(true)'),
	('cycle', '(function() let a = [ X ] std.push(a, a) a end)()', 'H[1][1][0]'), ('method', '@[ x: X, m: function() self.x end ]', 'H.m()'), ('module', 'm.box(X)', 'H.get()'), ('caught', '[ std.catch(function() X end) ]', 'H[0]'), ('returned', '(function() if true then return [ X ] end 1 end)()', 'H[0]'),
]
# Where the value W is while churn() collects; the program gives the value r.
PLACES = [
	('variable', 'let h = W churn() let r = R(h)'), ('global', 'g = W churn() let r = R(g)'), ('argument', 'let r = (function(h, z) R(h) end)(W, churn())'), ('array literal', 'let r = R([ W, churn() ][0])'), ('dict literal', 'let r = R(@[ a: W, b: churn() ].a)'),
	('self', 'let o = @[ h: W, m: function() churn() R(self.h) end ] let r = o.m()'), ('temporary self', 'let r = @[ h: W, m: function(z) R(self.h) end ].m(churn())'), ('loop variable', 'let r = nil for h in std.iter([ W ]) do churn() r = R(h) end'),
	('loop source', 'let r = nil for h in std.bind(@[ v: W, n: 0 ], function() churn() self.n = self.n + 1 if self.n < 2 then @[ finished: false, value: self.v ] else @[ finished: true ] end end) do r = R(h) end'),
	('caller', 'let h = W let c = function() let c2 = function() churn() end c2() end c() let r = R(h)'), ('returned local', 'let h = (function() let q = W churn() q end)() let r = R(h)'), ('indexed temporary', 'let r = R([ W ][(function() churn() 0 end)()])'), ('callee', 'let r = R((function() let y = W function(z) y end end)()(churn()))'),
	('assigned element', 'let a = [ nil ] a[(function() churn() 0 end)()] = W churn() let r = R(a[0])'), ('try', 'let r = R((function() let e = std.error("e", W) churn() e? end)().context)'), ('caught', 'let r = R(std.catch(function() let q = W churn() q end))'),
	('captured', 'let h = W let f = function() h end churn() let r = R(f())'), ('captured and assigned', 'let h = nil let f = function() h end h = W churn() let r = R(f())'), ('panic survivor', 'let h = W std.catch(function() let k = h churn() std.panic(1) end) churn() let r = R(h)'),
	('operand', 'let r = nil if ([ W ] == [ churn() ]) then r = 1 else let h = W churn() r = R(h) end'), ('native argument', 'let a = [] std.push(a, [ W, churn() ][0]) churn() let r = R(a[0])'), ('command between', 'let h = W ${ true } churn() let r = R(h)'),
]
# name, expression, the text shown for (T)
PAYLOADS = [
	('string', '"p" ++ std.to_string(n + 7)', 'V', 'p7'), ('array', '[ n + 1, "s" ++ "t" ]', 'std.to_string(V)', '[ 1, "st" ]'), ('dict', '@[ z: [ n ] ]', 'std.to_string(V)', '@[ "z": [ 0 ] ]'), ('closure', '(function() let q = [ "c" ++ "d" ] function() q end end)()', 'std.to_string(V())', '[ "cd" ]'),
	('error', 'std.error("x" ++ "y", [ n ])', 'std.to_string(V)', 'error: "xy" ([ 0 ])'), ('bound', 'std.bind([ n, 3 ], function() self end)', 'std.to_string(V())', '[ 0, 3 ]'), ('float', '[ 0.25 + 0.5 ]', 'std.to_string(V)', '[ 0.75 ]'),
]
HEAD = r'''let m = std.import("m.hsh")
let n = 0
let g = nil
let junk = function(k)
	for i in std.range(0, k, 1) do
		let a = [ i, "w" ++ "x" ]
		std.push(a, a)
		let d = @[ q: a, z: [ -1 ] ]
		d[a[1]] = function() d end
		let f = function() a end
		let e = std.error("u" ++ "v", [ f, std.bind(d, f) ])
		let it = std.iter([ e ])
		it()
	end
	nil
end
let churn = function() junk(60) end
'''
MODULE = '@[ box: function(x) let kept = x @[ get: function() kept end ] end ]\n'


def wrap(chain, x, variable='h'):
	"""(construction, access template in H) of a chain of holders, the first one outermost."""
	acc = 'H'
	w = x
	for _, c, a in reversed(chain):
		w = c.replace('X', w)
	for _, c, a in chain:
		acc = a.replace('H', acc)
	return w, acc


def case(chain, place, payload):
	w, acc = wrap(chain, payload[1])
	p = place[1]
	# R(e): read the payload back from the holder e.
	p = re.sub(r'\bR\(', 'read(', p)
	return 'let read = function(hold) %s end\n%s\n' % (acc.replace('H', 'hold'), re.sub(r'\bW\b', lambda _: w, p)), payload[2].replace('V', 'r')


def run_cases(ctx, jobs):
	"""jobs: (name, body, shown expression, expected text); one function each."""
	def work(part):
		src = [HEAD]
		for i, (name, body, shown, want) in enumerate(part):
			src.append('std.println(%d, std.catch(function()\n%s%s\nend))\n' % (i, body, shown))
		d = ctx.tmpdir()
		with open(d + '/m.hsh', 'w') as f:
			f.write(MODULE)
		with open(d + '/t.hsh', 'w') as f:
			f.write(''.join(src))
		r = ctx.run(script='t.hsh', cwd=d, env=ENV, timeout=200)
		lines = r.out.decode('utf-8', 'replace').split('\n')
		for i, (name, body, shown, want) in enumerate(part):
			if i >= len(lines) - 1 or lines[i] != '%d\t%s' % (i, want):
				one = '%sstd.println(std.catch(function()\n%s%s\nend))\n' % (HEAD, body, shown)
				return len(part), (name, 'expected: %s\nobserved: %s\n%s' % (want, lines[i] if i < len(lines) else '', r.brief()), {'all.hsh': ''.join(src), 't.hsh': one, 'm.hsh': MODULE})
		return len(part), None

	n = 0
	for k, bad in ctx.pmap(work, chunks(jobs, 60)):
		n += k
		ctx.add('traces_validated_against_impl', k)
		if bad:
			ctx.violation(*bad)
	return n


def check_chains(ctx, q):
	jobs = []

	def add(chain, place, pay):
		# A value that contains itself cannot be hashed.
		names = [h[0] for h in chain]
		if 'dict key' in names and 'cycle' in names[names.index('dict key'):]:
			return
		body, shown = case(chain, place, pay)
		jobs.append(('collection: %s > %s held in %s' % (' > '.join(h[0] for h in chain), pay[0], place[0]), body, shown, pay[3]))
	for pl in PLACES:
		for pay in PAYLOADS:
			add((), pl, pay)
			for h in HOLDERS:
				add((h,), pl, pay)
	k = 0
	for pl in PLACES:
		for h in itertools.product(HOLDERS, repeat=2):
			for i, pay in enumerate(PAYLOADS):
				k += 1
				if not q or i == k // 7 % 7:
					add(h, pl, pay)
	for j, h in enumerate(itertools.product(HOLDERS, repeat=3)):
		for i, pl in enumerate(PLACES[:7] if not q else PLACES[:1]):
			if not q or j % 4 == 0:
				add(h, pl, PAYLOADS[(i + j) % 7])
	if not q:
		for j, h in enumerate(itertools.product(HOLDERS[::2], repeat=4)):
			add(h, PLACES[j % len(PLACES)], PAYLOADS[j % 7])
	n = run_cases(ctx, jobs)
	ctx.add('states', n)
	return n


def check_schedules(ctx, q):
	"""The collector at every allocation: pads of 0 .. P allocations before the construction, which is not churned itself."""
	period = 160 if q else 400
	jobs = []
	for pl in PLACES:
		if pl[0] == 'command between':
			continue
		for h in HOLDERS if not q else HOLDERS[:]:
			for pay in PAYLOADS[:2] if q else PAYLOADS:
				body, shown = case((h,), (pl[0], pl[1]), pay)
				jobs.append((pl, h, pay, body, shown))

	def work(part):
		src = [HEAD.replace('let churn = function() junk(60) end', 'let few = 0\nlet churn = function() for i in std.range(0, few, 1) do [ i ] end nil end'), 'let pad = function(k) for i in std.range(0, k, 1) do [ i ] end end\n']
		for i, (pl, h, pay, body, shown) in enumerate(part):
			src.append('let bad%d = 0\nfor p in std.range(0, %d, 1) do\npad(p)\nfew = p\nlet s = (function()\n%s%s\nend)()\nif s != %s then bad%d = bad%d + 1 end\nend\nstd.println(bad%d)\n' % (i, period, body, shown, '"%s"' % pay[3].replace('"', '\\"'), i, i, i))
		d = ctx.tmpdir()
		with open(d + '/m.hsh', 'w') as f:
			f.write(MODULE)
		with open(d + '/t.hsh', 'w') as f:
			f.write(''.join(src))
		r = ctx.run(script='t.hsh', cwd=d, env=ENV, timeout=200)
		lines = r.out.split()
		for i, (pl, h, pay, body, shown) in enumerate(part):
			if i >= len(lines) or lines[i] != b'0':
				return len(part), ('collector schedule: %s > %s held in %s' % (h[0], pay[0], pl[0]), 'wrong after %s of %d paddings\n%s' % (lines[i] if i < len(lines) else '?', period, r.brief()), {'t.hsh': ''.join(src), 'm.hsh': MODULE})
		return len(part), None
	n = 0
	for k, bad in ctx.pmap(work, chunks(jobs, 10)):
		n += k
		ctx.add('traces_validated_against_impl', k * period)
		if bad:
			ctx.violation(*bad)
	ctx.add('states', n * period)
	return n, period


# ---------------------------------------------------------------------- memory in use
PRE = '''let big = "0123456789"
for i in std.range(0, 5, 1) do big = big ++ big end
let deep = function(n) if n == 0 then std.panic(big ++ "x") end let r = deep(n - 1) r end
let deepok = function(n) if n == 0 then [ n ] else [ deepok(n - 1) ] end end
let tr = function(x) x? 1 end
let o = @[ m: function(x) [ self, x ] end ]
let early = function(x) for k in std.range(0, 3, 1) do while true do if k == 1 then return [ x ] end break end end nil end
'''
GARBAGE = [
	('array', 'let a = [ i, i ]'), ('cyclic array', 'let a = [ i ] std.push(a, a)'), ('string', 'let s = std.to_string(i) ++ big'), ('call', 'o.m(i)'), ('recursive function', 'let f = nil f = function() f end'), ('cyclic dict', 'let d = @[ a: i ] d.d = d'), ('cyclic error', 'let a = [ i ] std.push(a, std.error(big ++ "x", a))'),
	('caught panic', 'std.catch(function() std.panic([ i, big ++ "x" ]) end)'), ('caught deep panic', 'std.catch(function() deep(20) end)'), ('panic in an argument', 'std.catch(function() o.m(big ++ "x", std.panic(1)) end)'), ('panic in a native argument', 'std.catch(function() std.len([ 1, big ++ "x" ], std.panic(1)) end)'),
	('panic in a literal', 'std.catch(function() [ big ++ "x", [ i ], 1 + nil ] end)'), ('panic in a loop', 'std.catch(function() for k in std.iter([ [ big ++ "x" ] ]) do let z = [ k ] k() end end)'), ('panic in an iterator', 'std.catch(function() for k in function() std.panic(i) end do k end end)'), ('nested catch', 'std.catch(function() std.catch(function() std.panic(1) end) std.panic(2) end)'),
	('wrong arity', 'std.catch(function() o.m(big ++ "x", i) end)'), ('type error', 'std.catch(function() (big ++ "x") + 1 end)'), ('index error', 'std.catch(function() [ i ][i + 1] end)'), ('break', 'for k in std.iter([ [ i ], 2, 3 ]) do let z = [ k ] break end'), ('early return', 'early(i)'), ('deep recursion', 'deepok(25)'),
	('try', 'tr(std.error("x", [ i ]))'), ('iterator', 'let it = std.iter([ big ++ "x", 2 ]) it()'), ('dict iterator', 'let it = std.iter(@[ a: [ i ], b: 1 ]) it()'), ('string iterator', 'let it = std.iter(big) it()'), ('range', 'for k in std.range(0, 3, 1) do let z = [ k ] end'), ('bind', 'let b = std.bind([ i ], function() self end) b()'),
	('regex', 'let r = std.regex("a+b") r.match("aab") r.split("xaby") r.replace("ab", big)'), ('bad regex', 'std.regex("(")'), ('json', 'std.json.encode(std.json.decode("[1, {\\"a\\": [2]}]"))'), ('bad json', 'std.json.decode("[")'), ('base64', 'std.base64.decode(std.base64.encode(big))'), ('hex', 'std.hex.decode(std.hex.encode(big))'),
	('sort', 'std.sort([ 3, 2, 1 ])'), ('import', 'std.import("m.hsh").box([ i ])'), ('missing module', 'std.catch(function() std.import("nom.hsh") end)'), ('split', 'std.split("a,b,c", ",") std.replace(big, "0", "1") std.trim(" a ") std.substr(big, 3, 9) std.bytes("abc")'), ('dynamic keys', 'let d = @[] d[std.to_string(i)] = i d[[ i ]] = i d.x = 1'),
	('growing and shrinking', 'let a = [] for k in std.range(0, 20, 1) do std.push(a, [ k ]) end for k in std.range(0, 20, 1) do std.pop(a) end'), ('glob', 'std.glob("*")'), ('conversions', 'std.int("12") std.float("1.5") std.to_string([ i, 1.5, nil ]) std.catch(function() std.int("x") end)'), ('comparison', '[ i ] == [ i ] @[ a: i ] == @[ a: i ] "a" ++ "b" < "c"'),
	('typecheck', 'std.try_typecheck([ i ], "string") std.catch(function() std.typecheck([ i ], "int") end)'), ('condition', 'let x = if i > 3 then [ i ] else @[ a: i ] end'), ('replaced global', 'big = big ++ "" o.x = [ i, o ]'), ('output', 'std.print("") std.catch(function() std.println("") end)'), ('env', 'std.env("PATH") std.cwd() std.args()'), ('random', 'std.rand() std.randint(1, 9)'),
	('caught static error', 'std.catch(function() std.import("bad.hsh") end)') if False else ('self in a closure', 'let d = @[ f: nil ] d.f = function() d.f end d.f()'),
]
COMMANDS = [
	('command', '{ true }'), ('capture', '${ echo a }'), ('pipe', '{ true | true }'), ('async', 'let j = &{ true } j.join()'), ('async capture', 'let j = &{ echo a >"/dev/null" } j.join()'), ('large capture', '${ head -c 30000 /dev/zero }'), ('failure', '{ false }'), ('missing', '{ nosuch }'), ('redirection', '{ true > "/dev/null" 2>1 }'),
	('arguments', 'let a = [ "x", big ++ "y" ] { true $a ${a} *.hsh "$i" }'), ('literal input', '{ cat > "/dev/null" << "abc" }'), ('panic in a command', 'std.catch(function() { true | cat $[ std.panic(1) ] } end)') if False else ('failed redirection', '{ true > "/nosuch/x" }'), ('joined twice', 'let j = &{ true } j.join() std.catch(j.join)'), ('spawn0', '{ spawn0 true x }'),
]


def check_memory(ctx, q):
	jobs = [('garbage: ' + n, b, 4000, 40000 if q else 200000, 512) for n, b in GARBAGE]
	jobs += [('garbage: ' + n, b, 150, 900 if q else 6000, 1024) for n, b in COMMANDS]
	for h in itertools.product(HOLDERS, repeat=1 if q else 2):
		names = [x[0] for x in h]
		if 'dict key' in names and 'cycle' in names[names.index('dict key'):]:
			continue
		w, _ = wrap(h, '[ i, "x" ++ "y" ]')
		# Also as a cycle: the value holds the holder.
		jobs.append(('garbage: ' + ' > '.join(x[0] for x in h), 'let w = ' + w, 3000, 30000, 512))
		w, _ = wrap(h, 'c')
		jobs.append(('cyclic garbage: ' + ' > '.join(x[0] for x in h), 'let c = [ i ] let w = %s std.push(c, w)' % w, 3000, 30000, 512))
		if h[0][0] in ('dict key',):
			jobs.pop()

	def work(job):
		name, body, warm, more, limit = job
		loop = 'for i in std.range(0, %d, 1) do\n%s\nend\nstd.print(std.type(${ cat "/dev/null" }))\n{ sh -c "grep VmHWM /proc/\\$PPID/status" }\n'
		src = 'let m = std.import("m.hsh")\n' + PRE + loop % (warm, body) + loop % (more, body)
		d = ctx.tmpdir()
		with open(d + '/m.hsh', 'w') as f:
			f.write(MODULE)
		with open(d + '/t.hsh', 'w') as f:
			f.write(src)
		r = ctx.run(script='t.hsh', cwd=d, timeout=600)
		hwm = [int(x) for x in re.findall(rb'VmHWM:\s*(\d+) kB', r.out)]
		if r.rc or len(hwm) != 2:
			return name, None, ('memory: ' + name, 'no result\n' + r.brief(), {'t.hsh': src, 'm.hsh': MODULE})
		if hwm[1] - hwm[0] > limit:
			return name, hwm, ('memory: ' + name, '%d kB in use after %d repetitions, %d kB after %d' % (hwm[0], warm, hwm[1], warm + more), {'t.hsh': src, 'm.hsh': MODULE})
		return name, hwm, None
	n, worst = 0, 0
	for name, hwm, bad in ctx.pmap(work, jobs):
		n += 1
		if hwm:
			worst = max(worst, hwm[1] - hwm[0])
		ctx.add('traces_validated_against_impl')
		if bad:
			ctx.violation(*bad)
	ctx.add('states', n)
	return n, worst


def check_long(ctx, q):
	"""Structures of growing size, and a chain that the collector has to follow."""
	for n in (10, 1000, 10000):
		src = 'let l = nil\nfor i in std.range(0, %d, 1) do l = [ i, l ] end\nlet k = 0\nwhile l != nil do k = k + l[0] l = l[1] end\nstd.println(k)\n' % n
		r = ctx.run(src.encode(), env=ENV, timeout=100)
		if r.out != b'%d\n' % (n * (n - 1) // 2) or r.rc:
			ctx.violation('linked list of %d' % n, r.brief(), {'t.hsh': src})
		src = 'let a = []\nlet d = @[]\nfor i in std.range(0, %d, 1) do std.push(a, [ std.to_string(i) ]) d[i] = [ i ] end\nlet k = 0\nfor i in std.range(0, %d, 1) do k = k + std.int(a[i][0]) + d[i][0] end\nstd.println(k)\n' % (n, n)
		r = ctx.run(src.encode(), env=ENV, timeout=100)
		if r.out != b'%d\n' % (n * (n - 1)) or r.rc:
			ctx.violation('%d live values' % n, r.brief(), {'t.hsh': src})
		ctx.add('traces_validated_against_impl', 2)
	src = 'let l = nil\nfor i in std.range(0, 1000000, 1) do l = [ i, l ] end\nstd.println("done")\n'
	r = ctx.run(src.encode(), timeout=200)
	if r.out != b'done\n':
		ctx.violation('long linked list', r.brief(), {'t.hsh': src})


def check(ctx):
	q = ctx.quick
	n = check_chains(ctx, q)
	k, period = check_schedules(ctx, q)
	m, worst = check_memory(ctx, q)
	check_long(ctx, q)
	return {'exhaustive': True, 'rule': '%d chains of up to %d of %d holders over %d places and %d payloads, each with forced collections; %d of them with the collector at each of %d offsets; %d repetition loops whose memory must not grow (worst growth %d kB)' % (
		n, 3 if q else 4, len(HOLDERS), len(PLACES), len(PAYLOADS), k, period, m, worst)}
