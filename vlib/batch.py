"""Replaying many small language-level cases in one hush process.

A case is (key, source, expected): source is a block of statements, expected the exact bytes it must
print. In a batch every case becomes a function of its own; its outcome is printed as
  R<TAB>value          it returned value
  P<TAB>message        it panicked (position removed)
A batch that does not print exactly what the model predicts is bisected case by case; a case that
only fails in company is reported with the whole batch as its replay.
"""
import re

HEAD = '''let run__ = function(id, f)
	std.println("#CASE", id)
	let r = std.catch(function() let v = f() std.println("R", v) end)
	if r != nil then std.println("P", r.description) end
end
'''

POS = re.compile(rb'caught panic: Panic in [^()\n]* \(line \d+, column \d+\): ')
FUN = re.compile(rb'function<[^>]*>')


def norm(b):
	"""Remove source positions."""
	b = POS.sub(b'', b)
	b = b.replace(b'caught panic: ', b'')
	return FUN.sub(b'function', b)


FLOAT = re.compile(rb'-?\d+(?:\.\d+(?:e-?\d+)?|e-?\d+)')


def same(got, want):
	"""Equal, up to ties in the choice of the shortest decimal text of a float."""
	want = norm(want)
	if got == want:
		return True
	if got is None:
		return False
	canon = lambda b: FLOAT.sub(lambda m: repr(float(m.group())).encode(), b)
	return canon(got) == canon(want)


def source(cases, head=''):
	parts = [HEAD, head]
	for i, c in enumerate(cases):
		parts.append('run__(%d, function()\n%s\nend)\n' % (i, c[1]))
	return ''.join(parts)


def parse(out, n):
	got = [None] * n
	blocks = out.split(b'#CASE\t')
	for b in blocks[1:]:
		num, _, rest = b.partition(b'\n')
		try:
			got[int(num)] = norm(rest)
		except (ValueError, IndexError):
			pass
	return got


def replay(ctx, cases, head='', timeout=60, encoding='latin-1'):
	"""Returns a list of (key, detail, files) for the cases that disagree with the model."""
	src = source(cases, head).encode(encoding)
	r = ctx.run(src, timeout=timeout)
	got = parse(r.out, len(cases))
	if r.rc == 0 and not r.timeout and all(same(g, c[2]) for g, c in zip(got, cases)):
		return []
	bad = []
	for c in cases:
		one = source([c], head).encode(encoding)
		r1 = ctx.run(one, timeout=timeout)
		g = parse(r1.out, 1)[0]
		if r1.rc != 0 or r1.timeout or not same(g, c[2]):
			bad.append((c[0], 'expected: %r\nobserved: %r\n%s' % (c[2], g, r1.brief()), {'t.hsh': one}))
			if len(bad) >= 3:
				break
	if not bad:
		first = next((i for i, (g, c) in enumerate(zip(got, cases)) if not same(g, c[2])), 0)
		bad.append((cases[first][0] + ' [only after other cases in one process]',
			'expected: %r\nobserved: %r\n%s' % (cases[first][2], got[first], r.brief()), {'t.hsh': src}))
	return bad


def predict(interp, program):
	"""Expected bytes for a program run as a function body by the reference interpreter."""
	from . import lang
	try:
		f = lang.Fn([], program, interp.globals, program)
		v = interp.call(f, [], None)
		tail = b'R\t' + lang.text(v)
	except lang.Panic as p:
		tail = b'P\t' + p.msg.encode('utf-8')
	return b''.join(line + b'\n' for line in interp.out) + tail + b'\n'


def sweep(ctx, cases, size=200, head='', chunksize=1):
	"""Replay an iterable of cases in parallel, recording violations; returns the number replayed."""
	from .core import chunks
	n = 0
	for k, bad in ctx.pmap(lambda part: (len(part), replay(ctx, part, head)), chunks(cases, size), chunksize):
		n += k
		ctx.add('traces_validated_against_impl', k)
		for key, detail, files in bad:
			ctx.violation(key, detail, files)
	return n
