"""Exhaustive program enumeration: run the reference model and the implementation on every program."""
import hashlib

from . import batch, lang
from .core import chunks


def h(b):
	return int.from_bytes(hashlib.blake2b(b, digest_size=8).digest(), 'big')


def programs(ctx, progs, size=150, fuel=5000, head_prog=(), key=None, interp=None):
	"""progs: iterable of programs (blocks). Each is run as a function body.

	head_prog: statements executed once per process, before all cases (and once per model run).
	Counts: transitions = reference evaluation steps; states = distinct observation histories
	(prefixes of the printed trace, with the outcome) over all programs."""
	head_src = lang.block(head_prog) + '\n' if head_prog else ''
	states = set()

	def work(part):
		cases, hashes, steps, skipped = [], set(), 0, 0
		for p in part:
			it = (interp or lang.Interp)(fuel)
			try:
				it.top(head_prog)
				exp = batch.predict(it, p)
			except (lang.Fuel, RecursionError):
				skipped += 1
				continue
			steps += it.steps
			acc = b''
			for line in exp.split(b'\n'):
				acc += line + b'\n'
				hashes.add(h(acc))
			src = lang.block(p)
			cases.append((key(p) if key else src, src, exp))
		bad = batch.replay(ctx, cases, head_src) if cases else []
		sample = (cases[0][1], cases[0][2].decode('latin-1')) if cases else None
		return len(cases), steps, skipped, hashes, bad, sample

	n = 0
	for k, steps, skipped, hashes, bad, sample in ctx.pmap(work, chunks(progs, size)):
		if sample and n % (size * 40) == 0:
			ctx.sample({'program': sample[0], 'expected_and_observed': sample[1]})
		n += k
		states |= hashes
		ctx.add('transitions', steps)
		ctx.add('traces_validated_against_impl', k)
		ctx.add('programs_out_of_fuel_skipped', skipped)
		for key_, detail, files in bad:
			ctx.violation(key_, detail, files)
	ctx.count['states'] = ctx.count.get('states', 0) + len(states)
	return n


def toplevel(ctx, progs, fuel=5000, chunk=25):
	"""Each program is a script of its own (its variables are globals of the module)."""
	def work(part):
		bad, n, steps, hashes = [], 0, 0, set()
		for p in part:
			it = lang.Interp(fuel)
			if p[-1][0] == 'ret':
				p = list(p[:-1]) + [lang.P(p[-1][1])]
			if lang.static_errors(p):
				continue
			try:
				it.top(p)
				rc, msg = 0, None
			except lang.Panic as e:
				rc, msg = 127, e.msg
			except (lang.Fuel, RecursionError):
				continue
			n += 1
			steps += it.steps
			want = b''.join(l + b'\n' for l in it.out)
			hashes.add(h(want + bytes([rc])))
			src = lang.block(p)
			r = ctx.run(src.encode('latin-1'))
			ok = r.rc == rc and batch.same(batch.norm(r.out), want)
			if ok and rc:
				ok = batch.norm(r.err).rstrip(b'\n').endswith(batch.norm(msg.encode())) and r.err.startswith(b'Panic in ')
			elif ok:
				ok = r.err == b''
			if not ok:
				bad.append(('toplevel: ' + src, 'expected: rc=%d %r %s\nobserved: %s' % (rc, want, msg, r.brief()), {'t.hsh': src}))
				if len(bad) >= 3:
					break
		return n, steps, hashes, bad

	n, states = 0, set()
	for k, steps, hashes, bad in ctx.pmap(work, chunks(progs, chunk)):
		n += k
		states |= hashes
		ctx.add('transitions', steps)
		ctx.add('traces_validated_against_impl', k)
		for key, detail, files in bad:
			ctx.violation(key, detail, files)
	ctx.add('states', len(states))
	return n
