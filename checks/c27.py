"""C27: command line, script arguments and exit status.

All argument vectors up to a length over a set of tricky tokens, for every way to name the script, all option combinations with
every program outcome, and all exit statuses from every nesting are run on the real interpreter and compared with a model of the
command line grammar."""
import itertools
import os
import shutil
import subprocess

from vlib import core

TECHNIQUE = 'exhaustive enumeration of command lines, outcomes and exit sites up to bounds against a command line model, all executed on the real interpreter'

TOKENS = [b'a', b'', b'-', b'--', b'--check', b'-x', b'--help', b'a b', b'\xff\xfe', b's.hsh', b'-h', b'$v', b'*', b'x=y', b'\n', b'--lex=1', '\u00e9'.encode(), b'"', b'~/', b'-V', b'0', b'\\', b'no.hsh', b'd.hsh', b'a/b.c']
OPTS = ['--check', '--lex', '--ast', '--program']
SHOW = 'let n = 0\nfor a in std.iter(std.args()) do n = n + 1 std.print(std.len(a), a) std.println("|") end\nstd.println("%s", n, std.len(std.args()))\n'


def shown(args, tag):
	return b''.join(b'%d\t%s|\n' % (len(a), a) for a in args) + b'%s\t%d\t%d\n' % (tag, len(args), len(args))


def model(argv):
	"""(kind, script args): kind is file, stdin, help, invalid; argv without options seen before."""
	i = 0
	seen = set()
	twice = False  # A repeated option is invalid, but asking for help after it still gives help.
	while i < len(argv):
		a = argv[i]
		if a == b'--':
			i += 1
			break
		if a in (b'--help', b'-h', b'--version', b'-V'):
			return 'help', None, seen
		if a.startswith(b'--') or (a.startswith(b'-') and a != b'-'):
			name = a.decode('latin-1')
			if name not in OPTS:
				return 'invalid', None, seen
			twice = twice or name in seen
			seen.add(name)
			i += 1
			continue
		break
	if twice:
		return 'invalid', None, seen
	rest = argv[i:]
	if not rest:
		return 'stdin', [], seen
	if rest[0] == b'-':
		return 'stdin', rest[1:], seen
	if rest[0] in (b's.hsh', b'./s.hsh', b'-x.hsh'):
		return 'file', rest[1:], seen
	return 'stdin', rest, seen


def execute(ctx, d, argv, stdin):
	return subprocess.run([os.fsencode(ctx.hush)] + list(argv), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=core.BASE_ENV, timeout=30)


def check_args(ctx, q):
	"""Script arguments, byte for byte."""
	depth = 2 if q else 3
	heads = [[b's.hsh'], [b'-'], [b'--', b's.hsh'], [], [b'./s.hsh'], [b'--']]
	jobs = []
	for h in heads:
		for n in range(depth + 1):
			for t in itertools.product(TOKENS, repeat=n):
				jobs.append(h + list(t))
	# Longer vectors of the plainest tokens.
	jobs += [[b's.hsh'] + list(t) for n in (3, 4, 5) for t in itertools.product([b'', b'a', b'--'], repeat=n)]

	def work(part):
		d = ctx.tmpdir()
		with open(os.path.join(d, 's.hsh'), 'w') as f:
			f.write(SHOW % 'file')
		os.mkdir(os.path.join(d, 'd.hsh'))
		bad = []
		for argv in part:
			kind, args, seen = model(argv)
			p = execute(ctx, d, argv, (SHOW % 'stdin').encode())
			if any(b'=' in a and a.startswith(b'--') for a in argv) and kind == 'invalid':
				continue  # The value of an option that takes none: not modelled.
			if kind == 'invalid':
				ok = p.returncode == 1 and p.stdout == b'' and p.stderr != b''
			elif kind == 'help':
				ok = p.returncode == 0 and p.stdout.startswith(b'Hush ') and p.stderr == b''
			elif '--check' in seen:
				ok = (p.returncode, p.stdout, p.stderr) == (0, b'', b'')
			else:
				ok = (p.returncode, p.stdout, p.stderr) == (0, shown(args, kind.encode()), b'')
			if not ok:
				bad.append(('arguments %r' % argv, 'model: %s %s\nobserved: %s %r %r' % (kind, args, p.returncode, p.stdout, p.stderr)))
				if len(bad) > 2:
					break
		shutil.rmtree(d)
		return len(part), bad
	for n, bad in ctx.pmap(work, core.chunks(jobs, 50)):
		ctx.add('traces_validated_against_impl', n)
		ctx.add('states', n)
		for b in bad:
			ctx.violation(*b)


OUTCOMES = {
	'ok': ('std.println("ran")\n', 0, b'ran\n', b''),
	'error value': ('std.println("ran")\nstd.error("e", 1)\n', 0, b'ran\n', b''),
	'failed command': ('std.println("ran")\n{ false }\n', 0, b'ran\n', b''),
	'empty': ('', 0, b'', b''),
	'comment': ('#!/usr/bin/env hush\n', 0, b'', b''),
	'panic': ('std.println("ran")\nstd.panic("boom")\n', 127, b'ran\n', b'Panic in '),
	'type': ('std.println("ran")\nlet x = 1 + nil\n', 127, b'ran\n', b'Panic in '),
	'syntax': ('std.println("ran")\nlet = 1\n', 2, b'', b'Error: '),
	'lexical': ('std.println("ran")\nlet x = "\\q"\n', 2, b'', b'Error: '),
	'semantic': ('std.println("ran")\nlet x = y\n', 2, b'', b'Error: '),
	'unclosed': ('std.println("ran")\nif true then\n', 2, b'', b'Error: '),
	'exit': ('std.print("ran")\nstd.exit(7)\n', 7, b'ran', b''),
	'exit0': ('std.println("ran")\nstd.exit(0)\nstd.println("no")\n', 0, b'ran\n', b''),
}


def check_outcomes(ctx):
	"""Every outcome x every set of options (in every order for sets of two) x every way to give the script."""
	sets = [o for n in range(5) for o in itertools.combinations(OPTS, n)] + [tuple(reversed(o)) for o in itertools.combinations(OPTS, 2)]
	jobs = [(name, o, how) for name in OUTCOMES for o in sets for how in range(4)]

	def work(part):
		d = ctx.tmpdir()
		bad = []
		for name, opts, how in part:
			src, rc, out, err = OUTCOMES[name]
			with open(os.path.join(d, 's.hsh'), 'w') as f:
				f.write(src)
			argv = [o.encode() for o in opts] + [[b's.hsh'], [b'-', b'x'], [], [b'--', b's.hsh', b'--check']][how]
			p = execute(ctx, d, argv, src.encode() if how in (1, 2) else b'std.println("wrong script")\n')
			if '--check' in opts and rc != 2:
				rc, out, err = 0, b'', b''
			ok = p.returncode == rc and (p.stderr.startswith(err) if err else p.stderr == b'')
			if set(opts) - {'--check'}:
				# The listings come first, then the output of the program.
				ok = ok and p.stdout.endswith(out) and (out != b'' or not p.stdout.endswith(b'\nran\n'))
			else:
				ok = ok and p.stdout == out
			if not ok:
				bad.append(('%s with %s, given as %d' % (name, ' '.join(opts), how), 'expected %d %r %r\nobserved %d %r %r' % (rc, out, err, p.returncode, p.stdout, p.stderr), {'s.hsh': src}))
		shutil.rmtree(d)
		return len(part), bad
	for n, bad in ctx.pmap(work, core.chunks(jobs, 40)):
		ctx.add('traces_validated_against_impl', n)
		ctx.add('states', n)
		for b in bad[:3]:
			ctx.violation(*b)


SITES = [
	'std.exit(%s)\n',
	'let f = function(k) if k == 0 then std.exit(%s) else f(k - 1) end end\nf(20)\n',
	'let r = std.catch(function() std.exit(%s) end)\n',
	'for i in std.range(0, 3, 1) do while true do if i == 0 then std.exit(%s) end end end\n',
	'let x = [1, 2, std.exit(%s)]\n',
	'let x = true and std.exit(%s)\n',
	'let d = @[ f: function() std.exit(%s) end ]\nd.f()\n',
	'std.import("m.hsh")\n',
	'let j = &{ sleep 0.02 }\nstd.exit(%s)\n',
	'std.bind(nil, std.exit)(%s)\n',
	'let x = "a" ++ (if true then std.exit(%s) end)\n',
	'for i in function() std.exit(%s) end do end\n',
	'let a = [3, 1]\nstd.sort(a, function(x, y) std.exit(%s) end)\n' if False else 'let e = std.exit\ne(%s)\n',
	'{ echo c }\nstd.exit(%s)\n',
	'let c = ${ echo c }\nstd.print(c.stdout)\nstd.exit(%s)\n',
]


def check_exit(ctx, q):
	"""All statuses, from all sites; output printed before is kept, nothing after is executed."""
	bads = ['-1', '256', '-256', '65536', '9223372036854775807', '1.0', 'nil', '"0"', 'true', '', '0, 0', '[]']
	jobs = [(s, str(n)) for s in range(len(SITES)) for n in (range(256) if s in (0, 3, 7) or not q else (0, 1, 2, 126, 127, 128, 255))]
	jobs += [(s, b) for s in range(len(SITES)) for b in bads]

	def work(part):
		d = ctx.tmpdir()
		bad = []
		for s, code in part:
			site = SITES[s]
			with open(os.path.join(d, 'm.hsh'), 'w') as f:
				f.write('std.print("module")\nlet g = function() std.exit(%s) end\ng()\nstd.println("after")\n' % code)
			src = 'std.print("before")\nstd.println(1)\nstd.print("part")\n' + (site % code if '%s' in site else site) + 'std.println("after")\n'
			with open(os.path.join(d, 's.hsh'), 'w') as f:
				f.write(src)
			p = execute(ctx, d, [b's.hsh'], b'')
			out = b'before1\npart' + (b'module' if s == 7 else b'c\n' if 'echo c' in site else b'')
			if code.isdigit() and int(code) < 256:
				ok = (p.returncode, p.stdout, p.stderr) == (int(code), out, b'')
			elif s == 2:
				ok = (p.returncode, p.stdout, p.stderr) == (0, out + b'after\n', b'')
			else:
				ok = p.returncode == 127 and p.stdout == out and p.stderr.startswith(b'Panic in ')
			if not ok:
				bad.append(('std.exit(%s) at site %d' % (code, s), 'expected output %r\nobserved %d %r %r' % (out, p.returncode, p.stdout, p.stderr), {'s.hsh': src}))
		shutil.rmtree(d)
		return len(part), bad
	for n, bad in ctx.pmap(work, core.chunks(jobs, 40)):
		ctx.add('traces_validated_against_impl', n)
		ctx.add('states', n)
		for b in bad[:3]:
			ctx.violation(*b)


def check_rest(ctx):
	d = ctx.tmpdir()
	n = 0
	# Started by the kernel.
	path = os.path.join(d, 'k')
	with open(path, 'w') as f:
		f.write('#!%s\n' % ctx.hush + SHOW % 'kernel')
	os.chmod(path, 0o755)
	for args in ([], [b'a'], [b'--check', b'-x'], [b'', b'\xff']):
		p = subprocess.run([path] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=core.BASE_ENV, stdin=subprocess.DEVNULL, timeout=30)
		n += 1
		if (p.returncode, p.stdout) != (0, shown(args, b'kernel')):
			ctx.violation('#! script with %r' % args, 'observed %s' % p)
	# Script names.
	for name in (b'a b.hsh', b'\xff.hsh', b'noext', b'-x.hsh', '\u00e9.hsh'.encode(), b'--check', b'new\nline'):
		with open(os.path.join(os.fsencode(d), name), 'w') as f:
			f.write(SHOW % 'named')
		for argv in ([b'--', name, b'q'], [b'./' + name, b'q'], [os.path.join(os.fsencode(d), name), b'q']):
			p = execute(ctx, d, argv, b'std.println("wrong")')
			n += 1
			if (p.returncode, p.stdout) != (0, shown([b'q'], b'named')):
				ctx.violation('script name %r as %r' % (name, argv[0]), 'observed %s' % p)
	# A script on standard input leaves nothing to read; a script in a file leaves standard input alone.
	with open(os.path.join(d, 's.hsh'), 'w') as f:
		f.write('std.print(std.read())\n{ cat }\n')
	p = execute(ctx, d, [b's.hsh'], b'one\n')
	q = execute(ctx, d, [], b'std.print(std.len(std.read()))\n{ cat }\n')
	n += 2
	if (p.returncode, p.stdout) != (0, b'one\n') or (q.returncode, q.stdout) != (0, b'0'):
		ctx.violation('standard input', 'observed %s %s' % (p, q))
	# An unreadable script (a directory is an argument, a file that vanished cannot be shown here).
	shutil.rmtree(d)
	ctx.add('traces_validated_against_impl', n)


def check(ctx):
	q = ctx.quick
	check_args(ctx, q)
	check_outcomes(ctx)
	check_exit(ctx, q)
	check_rest(ctx)
	return {'exhaustive': True, 'transitions': ctx.count['states'], 'rule': 'all argument vectors of up to %d of %d tokens after each of 6 ways to name the script; %d outcomes x all option sets x 4 ways to give the script; all 256 exit statuses and %d invalid ones from %d sites' % (2 if q else 3, len(TOKENS), len(OUTCOMES), 12, len(SITES))}
