"""C18: glob patterns expand to exactly the matching paths.

All patterns over an alphabet of wildcards, literals, quoted metacharacters, separators and variables, up to a length, against
a directory tree whose names contain every metacharacter; and a set of patterns against every subset of a set of names. The
model matches token by token over the real directory contents; a recording child reports the arguments it got."""
import itertools
import os

from vlib import core
from vlib.lang import lit_str
from checks.c17 import frame

TECHNIQUE = 'exhaustive enumeration of patterns x directory contents, matched against an independent glob model and the argument vector a recording child received'

STAR, ANY = ('*',), ('%',)
VARS = {'vs': '*', 'vq': '?', 'vc': '[ab]', 'vd': 'd/', 've': '', 'vn': '[!a]', 'vm': 'a*'}
ARR = ['*', 'a', '?', 'b?']

# source text -> list of alternatives of token lists (arrays give several)
PARTS = [
	('*', [[STAR]]), ('%', [[ANY]]), ('a', [['a']]), ('b', [['b']]), ('.', [['.']]), ('/', [['/']]), ('-', [['-']]),
	('"*"', [['*']]), ("'?'", [['?']]), ("'['", [['[']]), ("']'", [[']']]), ("'!a'", [['!', 'a']]), ("' '", [[' ']]), ("'%'", [['%']]), ('d/', [['d', '/']]), ('~', [['~']]), ('\\?', [['?']]), ('=', [['=']]),
] + [('${%s}' % n, [list(v)]) for n, v in VARS.items()] + [('${va}', [list(x) for x in ARR])]
SMALL = [p for p in PARTS if p[0] in ('*', '%', 'a', '.', '/', '"*"', "'['", "']'", '${vc}', '~')]

NAMES = ['a', 'b', 'ab', 'aab', 'ba', 'b?', 'bx', '*', '**', 'a*', '*a', '?', '[', ']', '[]', '[ab]', '[!a]', '!', '!a', 'a!', '-', 'a-b', '.a', '..a', 'a.b', 'a.', ' ', 'a b', '\u00e9', 'a\u00e9', '%', 'a%', 'd', 'd2', '[d]', '\n', 'A', '~', 'a~', '~a', 'a~b', '~~', '~*', '=', 'a=b']
DIRS = {'d': ['a', 'b', 'ab', '*', '[ab]', '.h', 'e', '?', 'd'], 'd2': ['a', 'x', '[', ']'], '[d]': ['a', '*'], 'd/e': ['a', 'b', 'z'], 'd/d': ['a']}


def split(tokens):
	comps, cur = [], []
	for t in tokens:
		if t == '/':
			comps.append(cur)
			cur = []
		else:
			cur.append(t)
	comps.append(cur)
	return comps


def match(tokens, name):
	if not tokens:
		return not name
	t = tokens[0]
	if t is STAR:
		return any(match(tokens[1:], name[i:]) for i in range(len(name) + 1))
	return bool(name) and (t is ANY or t == name[0]) and match(tokens[1:], name[1:])


def wild(tokens):
	return any(t is STAR or t is ANY for t in tokens)


def usable(tokens):
	"""Patterns the property speaks about: one wildcard at least, no ** and no doubled separators."""
	if not wild(tokens):
		return False
	if any(a is STAR and b is STAR for a, b in zip(tokens, tokens[1:])):
		return False
	if any(a == '/' and b == '/' for a, b in zip(tokens, tokens[1:])) or tokens[0] == '/':
		return False
	for c in split(tokens):
		# '.' and '..' as components are spelled back in various ways; a leading '.' may also match them.
		if c and c[0] == '.' and (len(c) == 1 or wild(c) or c == ['.', '.']):
			return False
	return True


def glob(tokens, tree):
	"""tree: {directory: set of names}, directories named relative to the root ('' is the root)."""
	comps = split(tokens)
	dirs_only = comps[-1] == [] and len(comps) > 1
	if dirs_only:
		comps = comps[:-1]
	found = ['']
	for i, c in enumerate(comps):
		nxt = []
		for d in found:
			if d not in tree:
				continue
			for name in sorted(tree[d], key=lambda s: s.encode()):
				if match(c, name):
					nxt.append((d + '/' if d else '') + name)
		found = nxt
	if dirs_only:
		found = [f for f in found if f in tree]
	return ['./' + f for f in found]


def expand(parts):
	alts = [[]]
	for _, choices in parts:
		alts = [a + list(c) for c in choices for a in alts]
	return alts


def pattern_words(parts, n, tree):
	for k in range(1, n + 1):
		for t in itertools.product(parts, repeat=k):
			alts = expand(t)
			if not all(usable(a) for a in alts) or ''.join(p[0] for p in t).startswith('~/'):
				continue
			yield ''.join(p[0] for p in t), [x.encode() for a in alts for x in glob(a, tree)]


def head(prog):
	return 'let p = %s\n' % lit_str(prog.encode()) + ''.join('let %s = %s\n' % (n, lit_str(v.encode())) for n, v in VARS.items()) + 'let va = [ %s ]\n' % ', '.join(lit_str(v.encode()) for v in ARR)


def mktree(root, names, dirs):
	tree = {'': set()}
	os.makedirs(root, exist_ok=True)
	for d in sorted(dirs):
		os.makedirs(os.path.join(root, d), exist_ok=True)
		tree[d] = set()
		tree[os.path.dirname(d)].add(os.path.basename(d))
	for d, ns in [('', names)] + sorted(dirs.items()):
		for n in ns:
			path = os.path.join(root, d, n)
			if not os.path.isdir(path):
				open(path, 'w').close()
			tree[d].add(n)
	return tree


def run_words(ctx, prog, cwd, ws):
	def text(words):
		return (head(prog) + ''.join('{ $p %s }\n' % w for w, _ in words)).encode()
	r = ctx.run(text(ws), cwd=cwd, timeout=120)
	if r.rc == 0 and not r.err and r.out == b''.join(frame(a) for _, a in ws):
		return []
	bad = []
	for w in ws:
		r1 = ctx.run(text([w]), cwd=cwd, timeout=30)
		if r1.rc != 0 or r1.err or r1.out != frame(w[1]):
			bad.append(('pattern %s' % w[0], 'in %s\nexpected %r\n%s' % (sorted(os.listdir(cwd)), w[1], r1.brief()), {'t.hsh': text([w])}))
			if len(bad) > 2:
				break
	return bad or [('patterns in company', 'expected %r\n%s' % (ws, r.brief()), {'t.hsh': text(ws)})]


def scripts():
	"""(source, expected output) run in a private copy of a small tree: a aa b d/ d/x d/y."""
	A = lambda *args: frame([x.encode() for x in args])
	# Expansion happens when the command is executed, in the directory of that moment.
	yield '{ touch n1; $p n*; touch n2; $p n*; rm n1; $p n*; rm n2; $p n* }', A('./n1') + A('./n1', './n2') + A('./n2') + A()
	yield '{ cd d; $p * }', A('./x', './y')
	yield '{ $p * ; cd d ; $p * ; cd .. ; $p d/* }', A('./a', './aa', './b', './d') + A('./x', './y') + A('./d/x', './d/y')
	yield 'std.cd("d")\n{ $p * }\nstd.cd("..")\n{ $p a% }', A('./x', './y') + A('./aa')
	yield 'let f = function() { $p z* } end\nf()\n{ touch z1 }\nf()', A() + A('./z1')
	yield 'for i in std.range(0, 2, 1) do { $p q*; touch q$i } end\n{ $p q* }', A() + A('./q0') + A('./q0', './q1')
	yield 'let j = &{ touch w1; $p w* }\nj.join()', A('./w1')
	yield 'let o = ${ $p a* | cat }\nstd.print(o.stdout)', A('./a', './aa')
	# Mixed words, several patterns, patterns next to plain words.
	yield '{ $p 1 a* 2 b* zz* 3 }', A('1', './a', './aa', '2', './b', '3')
	yield '{ $p "a*" \'a*\' a\\n* "%" }', A('a*', 'a*', '%')
	yield 'let v = "a*"\n{ $p $v "$v" ${v}* }', A('a*', 'a*')
	yield 'let v = [ "a", "b", "zz" ]\n{ $p $v* }', A('./a', './aa', './b')
	yield 'let v = []\n{ $p $v* }', A('./a', './aa', './b', './d')
	yield '{ $p */ }\n{ $p d/* d/%/ }', A('./d') + A('./d/x', './d/y')
	yield '{ cd d; $p ../a* ../%b ../d/x* ..a* }', A('./../a', './../aa', './../d/x')
	yield '{ cd d; $p ../% ../*/y }', A('./../a', './../b', './../d', './../d/y')
	# Links match by their own name, whatever they point to, and lead into directories.
	yield '{ ln -s a l1; ln -s nosuch l2; ln -s d l3; ln -s l4 l4; $p l* l%; $p l%/x l*/; $p */% }', A('./l1', './l2', './l3', './l4', './l1', './l2', './l3', './l4') + A('./l3/x', './l3') + A('./d/x', './d/y', './l3/x', './l3/y')
	# Absolute patterns keep their form.
	yield 'let c = std.cwd()\n{ $p $c/a* }\n{ $p $c/d/% }', None
	# Where exactly one item is needed: 0 or several matches panic without running the command, one match is used.
	for pat, n in (('a%', 1), ('b*', 1), ('a*', 2), ('zz*', 0)):
		for form, run in (('$p x > %s', 'one'), ('K=%s $p x', 'one'), ('$p x < %s', 'one'), ('$p x >> %s', 'one'), ('$p x 2> %s', 'one')):
			body = form % pat
			silent = '>' in form and '2>' not in form
			if n == 1:
				yield 'std.println(std.type(std.catch(function() { %s } end)))' % body, (b'' if silent else A('x')) + b'nil\n'
			else:
				yield 'std.println(std.type(std.catch(function() { $p first; %s; $p NEVER } end)))' % body, A('first') + b'error\n'
	yield 'std.println(std.type(std.catch(function() { ./no* x } end)))', b'error\n'
	yield '{ cp $p prog1; ./prog* x y }', A('x', 'y')
	yield '{ echo hi > a%; cat aa; cat < a% }', b'hi\nhi\n'
	yield '{ K=a% sh -c "printf %s \\"\\$K\\"" }' if False else '{ K=a% sh -c "echo \\$K" }', b'./aa\n'
	yield '{ cat << a% }' if False else '{ cat << "a%" }', b'a%\n'
	# Malformed patterns are a panic that can be caught.
	for pat in ('a**', '***', '**b', 'd/***'):
		yield 'std.println(std.type(std.catch(function() { $p first; $p %s; $p NEVER } end)))' % pat, A('first') + b'error\n'
	# std.glob: the same matches, with ? and classes, without the prefix; no match is an empty array.
	for pat, want in (('*', 'a aa b d'), ('?', 'a b d'), ('a?', 'aa'), ('[ab]', 'a b'), ('[!a]', 'b d'), ('[a-b]*', 'a aa b'), ('zz*', ''), ('d/*', 'd/x d/y'), ('*/x', 'd/x'), ('a', 'a'), ('zz', ''), ('[]a]', 'a'), ('*/', 'd')):
		yield 'let g = std.glob(%s)\nfor x in std.iter(g) do std.println(x) end\nstd.println(std.type(g))' % lit_str(pat.encode()), ''.join(x + '\n' for x in want.split()).encode() + b'array\n'
	for pat in (b'a[', b'a**', b'***', b'[', b'\xff*'):
		yield b'std.println(std.type(std.glob("%s")))' % pat, b'error\n'


def sizes(q):
	"""(names in the directory, source, expected arguments): directories and literal parts of many sizes."""
	lens = [1, 2, 3, 7, 8, 9, 15, 16, 17, 20, 21, 22, 31, 32, 33, 40, 60, 61, 62]
	for k in lens:
		lit, plain = '[ab]' * k, 'a' * k
		for word in ("'%s'*" % lit, '"%s"*' % lit, '${vl}*', '"$vl"*', 'x"$vl"*'):
			x = 'x' if word[0] == 'x' else ''
			yield [x + lit + '1', x + lit, x + plain + '1', x + plain, x + 'b' * k + '2'], 'let vl = "%s"\n{ $p %s }' % (lit, word), ['./' + x + lit, './' + x + lit + '1']
		for c in '*?':
			lit = ('ab' + c) * k
			yield [lit + '1', 'abz' * k + '1'], 'let vl = "%s"\n{ $p "$vl"* }\n' % lit, ['./' + lit + '1']
			yield [lit + '1', 'abz' * k + '1'], 'let vl = "%s"\n{ $p *"1" }\n' % lit, ['./' + x for x in sorted([lit + '1', 'abz' * k + '1'])]
	for k in [1, 2, 3, 15, 16, 17, 31, 32, 33, 64, 100, 128, 256, 257, 512, 999, 1000, 1001, 1024, 1025, 2000, 2049, 4097]:
		names = ['n%05d' % i for i in range(k)]
		if k > 500:
			yield names + ['z'], '{ $p n* *z }', ['./' + x for x in names] + ['./z']
		yield names + ['z'], 'let g = std.glob("n*")\nlet t = nil\nlet bad = 0\nfor x in std.iter(g) do if t != nil and not (t < x) then bad = bad + 1 end t = x end\nlet l = std.to_string(std.len(g)) let f = g[0] let b = std.to_string(bad)\n{ $p $l $f $t $b }', [str(k), names[0], names[-1], '0']
	for k in list(range(0, 34)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 500]:
		names = ['m%03d' % i for i in range(k)]
		yield names + ['z'], '{ $p m* }', ['./' + x for x in names]
		yield names + ['z'], '{ $p m%%% -- *z }'.replace('--', "'--'"), ['./' + x for x in names] + ['--', './z']
		if 0 < k < 130:
			yield names + ['z'], 'let vv = [ "m", "z", "q" ]\n{ $p $vv* }', ['./' + x for x in names] + ['./z']
			yield names + ['z'], 'let vv = []\nfor i in std.range(0, %d, 1) do std.push(vv, "m" ++ std.to_string(i)) end\n{ $p $vv* *$vv }' % k, \
				['./' + x for i in range(k) for x in names if x.startswith('m%d' % i)] + ['./' + x for i in range(k) for x in names if x.endswith('m%d' % i)]


HOMES = ['/h', '/h/', '/', '/h/i', '/*', '/[h]', '/h i', 'rel', '/h"\'$x', '/h\n', '/\u00e9']
# (word, function of the home directory with trailing slash)
HOME_WORDS = [('~/', ''), ('~/x', 'x'), ("~/'*'", '*'), ('~/"a b"', 'a b'), ('~/$vs', '*'), ('~/~/x', '~/x'), ('~/x~/', 'x~/'), ('~/a=b', 'a=b'), ('~/${vd}x', 'd/x')]
PLAIN_WORDS = ['~', 'a~/', '~a', '-~/x', 'a=~/b', '"~"/x', "'~/x'", '"~/x"', "''~/x", './~/x', '~"/x"', '$vt']


def check(ctx):
	q = ctx.quick
	prog = core.cc(ctx.path('bin', 'args'), os.path.join(core.VERIF, 'helpers', 'args.c'))
	root = ctx.path('tree')
	tree = mktree(root, NAMES, DIRS)
	n = 0

	def sweep(name, cwd, ws, per):
		total = 0

		def count(it):
			nonlocal total
			for x in it:
				total += 1
				yield x
		for bad in ctx.pmap(lambda ws: run_words(ctx, prog, cwd, ws), core.chunks(count(ws), per)):
			for v in bad:
				ctx.violation(*v)
		ctx.add(name, total)
		return total
	n += sweep('patterns', root, pattern_words(PARTS, 3 if q else 4, tree), 60)
	n += sweep('patterns_small_alphabet', root, pattern_words(SMALL, 5 if q else 6, tree), 60)

	# Every subset of a set of names against a fixed set of patterns.
	univ = ['a', 'ab', 'b', '*', '.a', 'd', '[a]'] + ([] if q else ['-', 'a b'])
	pats = list(pattern_words([p for p in PARTS if p[0] in ('*', '%', 'a', 'b', '"*"', '${vc}', 'd/')], 3, {'': set()}))

	def subset(mask):
		names = [u for i, u in enumerate(univ) if mask >> i & 1]
		d = ctx.path('sub', str(mask))
		t = mktree(d, [x for x in names if x != 'd'], {'d': ['a', 'ab']} if 'd' in names else {})
		ws = list(pattern_words([p for p in PARTS if p[0] in ('*', '%', 'a', 'b', '"*"', '${vc}', 'd/')], 3, t))
		return run_words(ctx, prog, d, ws)
	for bad in ctx.pmap(subset, range(1 << len(univ))):
		for v in bad:
			ctx.violation(*v)
	ctx.add('directory_subsets', 1 << len(univ))
	n += (1 << len(univ)) * len(pats)

	def script(c):
		src, exp = c
		d = ctx.tmpdir()
		mktree(d, ['a', 'aa', 'b'], {'d': ['x', 'y']})
		if exp is None:
			exp = frame([(d + '/' + x).encode() for x in ('a', 'aa')]) + frame([(d + '/d/' + x).encode() for x in ('x', 'y')])
		text = head(prog).encode() + (src if isinstance(src, bytes) else src.encode())
		r = ctx.run(text, cwd=d, timeout=30)
		return None if r.out == exp and r.rc == 0 else (src if isinstance(src, str) else src.decode('latin-1'), 'expected %r\n%s' % (exp, r.brief()), {'t.hsh': text})
	cases = list(scripts())
	for bad in ctx.pmap(script, cases):
		if bad:
			ctx.violation(*bad)
	ctx.add('scripts', len(cases))

	def size(c):
		names, src, want = c
		d = ctx.tmpdir()
		mktree(d, names, {})
		text = (head(prog) + src).encode()
		r = ctx.run(text, cwd=d, timeout=30)
		return None if r.rc == 0 and not r.err and r.out == frame([x.encode() for x in want]) else ('among %d names: %s' % (len(names), src), 'names %r\nexpected %r\n%s' % (names[:20], want[:20], r.brief()), {'t.hsh': text})
	large = list(sizes(q))
	for bad in ctx.pmap(size, large):
		if bad:
			ctx.violation(*bad)
	ctx.add('sizes', len(large))
	n += len(large)

	def home(h):
		want, src = b'', head(prog) + 'let vt = "~/x"\n'
		base = h if h.endswith('/') else h + '/'
		for w, rest in HOME_WORDS:
			src += '{ $p %s }\n' % w
			want += frame([(base + rest).encode()])
		for w in PLAIN_WORDS:
			src += '{ $p %s }\n' % w
			want += frame([{'"~"/x': '~/x', "'~/x'": '~/x', '"~/x"': '~/x', "''~/x": '~/x', '~"/x"': '~/x', '$vt': '~/x'}.get(w, w).encode()])
		r = ctx.run(src.encode(), cwd=root, env={'HOME': h}, timeout=30)
		return None if r.out == want and r.rc == 0 else ('home %r' % h, 'expected %r\n%s' % (want, r.brief()), {'t.hsh': src})
	for bad in ctx.pmap(home, HOMES):
		if bad:
			ctx.violation(*bad)
	# A pattern below the home directory, whose own name contains metacharacters.
	for name in ('plain', '[a]', '*', 'a b', '?', '[!x]'):
		h = ctx.path('homes', name)
		mktree(h, ['f1', 'f2', 'g'], {})
		src = head(prog) + '{ $p ~/f* }\nstd.export("HOME", "/none")\n{ $p ~/x ~/f* }\n'
		r = ctx.run(src, cwd=root, env={'HOME': h}, timeout=30)
		want = frame([(h + x).encode() for x in ('/f1', '/f2')]) + frame([b'/none/x'])
		if r.out != want:
			ctx.violation('pattern below home %r' % name, 'expected %r\n%s' % (want, r.brief()), {'t.hsh': src})
	n += len(cases) + len(HOMES) * (len(HOME_WORDS) + len(PLAIN_WORDS)) + 6

	# Names that are not UTF-8.
	d = ctx.tmpdir()
	for f in (b'q\xff', b'qa'):
		open(os.path.join(d.encode(), f), 'w').close()
	r = ctx.run(head(prog) + '{ $p q* }\n', cwd=d)
	if r.out == frame([b'./qa']):
		ctx.violation('file names that are not UTF-8', 'q* does not match the existing file q\\xff: %s' % r.brief())
	elif r.out != frame([b'./qa', b'./q\xff']):
		ctx.violation('wrong expansion next to a file name that is not UTF-8', r.brief())
	return {'exhaustive': True, 'states': n, 'transitions': n, 'traces_validated_against_impl': n,
		'rule': 'all words of up to %d parts of %d part kinds and up to %d parts of a reduced set over a tree of %d names; all patterns of 3 parts over all %d subsets of %d names; directories of 0 to 4097 matching names, literal parts of up to 248 metacharacters; expansion time, single-item positions, std.glob, home directories' % (3 if q else 4, len(PARTS), 5 if q else 6, len(NAMES), 1 << len(univ), len(univ)),
		'assumptions': ['patterns containing **, doubled separators or components . and .. are left to the glob library and not judged', 'HOME is set and not empty']}
