"""Shared machinery: building hush from /repo, running it, reporting.

Everything a check needs from the outside world goes through this module:
  * build()        builds /repo's working tree into /verif/target (never into /repo)
  * Ctx            one run of one check: scratch directory, counters, verdict, evidence
  * Ctx.run()      one hush process, with a scrubbed environment and a time limit
  * Ctx.pmap()     deterministic parallel map over an enumerated space
"""
import atexit
import fcntl
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = min(8, os.cpu_count() or 1)

BASE_ENV = {
	'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
	'LANG': 'C',
	'RUST_BACKTRACE': '0',
}

# The interpreter itself (not the script) died: Rust panic, abort, signal.
CRASH_MARKS = (b"panicked at", b"has overflowed its stack")


class BuildError(Exception):
	pass


def cargo_env():
	env = dict(os.environ)
	env.update(
		RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
		CARGO_NET_OFFLINE='true',
		CARGO_TERM_COLOR='never',
		CARGO_INCREMENTAL='0',
		CARGO_PROFILE_DEV_DEBUG='0',
		CARGO_PROFILE_DEV_OPT_LEVEL='1',
		CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='true',
		CARGO_PROFILE_DEV_OVERFLOW_CHECKS='true',
		CARGO_TARGET_DIR=os.path.join(VERIF, 'target', 'cargo'),
	)
	env.pop('RUSTFLAGS', None)
	return env


def build(dest):
	"""Build hush from /repo's working tree and place a private copy of it at dest."""
	target = os.path.join(VERIF, 'target', 'cargo')
	os.makedirs(target, exist_ok=True)
	with open(os.path.join(VERIF, 'target', 'lock'), 'w') as lock:
		fcntl.flock(lock, fcntl.LOCK_EX)
		# The list of modules in src/runtime/lib is read by a macro, which cargo does not track, and
		# file times may lie after a checkout: always rebuild the hush crate itself.
		fp = os.path.join(target, 'debug', '.fingerprint')
		if os.path.isdir(fp):
			for name in os.listdir(fp):
				if name.startswith('hush-'):
					shutil.rmtree(os.path.join(fp, name), ignore_errors=True)
		proc = subprocess.run(
			['cargo', 'build', '--offline', '--locked', '--bin', 'hush',
			 '--manifest-path', os.path.join(REPO, 'Cargo.toml')],
			env=cargo_env(), cwd=REPO, stdin=subprocess.DEVNULL,
			stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800,
		)
		if proc.returncode != 0:
			raise BuildError(proc.stdout.decode(errors='replace')[-4000:])
		shutil.copy2(os.path.join(target, 'debug', 'hush'), dest)
	return dest


def cc(dest, *args):
	proc = subprocess.run(['gcc', '-O1', '-o', dest] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
	if proc.returncode != 0:
		raise BuildError(proc.stdout.decode(errors='replace')[-4000:])
	return dest


class Result:
	__slots__ = ('rc', 'out', 'err', 'timeout')

	def __init__(self, rc, out, err, timeout=False):
		self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

	@property
	def crashed(self):
		return self.timeout or self.rc < 0 or self.rc == 101 and b'panicked at' in self.err

	def brief(self):
		return 'rc=%s%s out=%r err=%r' % (
			self.rc, ' TIMEOUT' if self.timeout else '', self.out[-600:], self.err[-600:])


def kill_group(proc):
	try:
		os.killpg(proc.pid, signal.SIGKILL)
	except (ProcessLookupError, PermissionError):
		pass


def run_proc(argv, stdin=b'', cwd=None, env=None, timeout=60, pass_fds=(), preexec=None):
	"""Run a process in its own process group; kill the whole group on timeout."""
	e = dict(BASE_ENV)
	if env:
		e.update({k: v for k, v in env.items() if v is not None})
		for k, v in env.items():
			if v is None:
				e.pop(k, None)
	proc = subprocess.Popen(
		argv, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
		stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e,
		start_new_session=True, pass_fds=pass_fds, preexec_fn=preexec,
	)
	try:
		out, err = proc.communicate(stdin, timeout=timeout)
		kill_group(proc)
		return Result(proc.returncode, out, err)
	except subprocess.TimeoutExpired:
		kill_group(proc)
		try:
			out, err = proc.communicate(timeout=5)
		except subprocess.TimeoutExpired:
			proc.kill()
			out, err = b'', b''
		return Result(-999, out, err, True)


class WorkerLost(Exception):
	"""A worker process ended without answering, or the work itself raised."""


def _worker(conn, fn):
	"""Body of a forked worker: answer one request at a time until the other end closes."""
	signal.signal(signal.SIGINT, signal.SIG_IGN)
	while True:
		try:
			part = conn.recv()
		except (EOFError, OSError):
			return
		try:
			answer = (True, [fn(it) for it in part])
		except BaseException:
			answer = (False, traceback.format_exc())
		conn.send(answer)


def chunks(items, n):
	buf = []
	for it in items:
		buf.append(it)
		if len(buf) >= n:
			yield buf
			buf = []
	if buf:
		yield buf


class Enough(Exception):
	"""Raised when sufficiently many violations have been recorded."""


class Ctx:
	MAX_VIOLATIONS = 10

	def __init__(self, prop, tier):
		self.prop, self.tier = prop, tier
		self.quick = tier == 'quick'
		self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
		self.t0 = time.time()
		self.dir = tempfile.mkdtemp(prefix='hushv-%s-' % prop)
		self._pid = os.getpid()
		atexit.register(self.cleanup)
		os.chmod(self.dir, 0o755)
		self.violations, self.known_hit = [], []
		self.replay_dir = os.path.join(VERIF, 'evidence', 'replay', prop)
		shutil.rmtree(self.replay_dir, ignore_errors=True)
		self.known = load_known(prop)
		self.samples = []
		self.count = {}
		self.hush = None
		self._n = 0

	def cleanup(self):
		if os.getpid() == self._pid:
			subprocess.run(['chmod', '-R', 'u+rwX', self.dir], stderr=subprocess.DEVNULL)
			shutil.rmtree(self.dir, ignore_errors=True)

	def build(self):
		self.hush = build(os.path.join(self.dir, 'hush'))
		os.chmod(self.hush, 0o755)

	def path(self, *names):
		p = os.path.join(self.dir, *names)
		os.makedirs(os.path.dirname(p), exist_ok=True)
		return p

	def mkdir(self, *names):
		p = os.path.join(self.dir, *names)
		os.makedirs(p, exist_ok=True)
		return p

	def tmpdir(self):
		return tempfile.mkdtemp(dir=self.dir)

	def add(self, name, n=1):
		self.count[name] = self.count.get(name, 0) + n

	def sample(self, s, limit=6):
		if len(self.samples) < limit:
			self.samples.append(s if len(str(s)) < 1500 else str(s)[:1500])

	# ------------------------------------------------------------------ running
	def run(self, src=None, script=None, args=(), flags=(), stdin=b'', cwd=None, env=None, timeout=60, **kw):
		"""Run hush on a source text (written to a file named t.hsh in a private dir) or a script path."""
		d = None
		if src is not None:
			if isinstance(src, str):
				src = src.encode()
			d = tempfile.mkdtemp(dir=self.dir)
			script = os.path.join(d, 't.hsh')
			with open(script, 'wb') as f:
				f.write(src)
			if cwd is None:
				cwd, script = d, 't.hsh'
		try:
			argv = [self.hush] + list(flags) + ([script] if script is not None else []) + list(args)
			return run_proc(argv, stdin=stdin, cwd=cwd or self.dir, env=env, timeout=timeout, **kw)
		finally:
			if d:
				shutil.rmtree(d, ignore_errors=True)

	def pmap(self, fn, items, chunksize=1, procs=NPROC):
		"""Ordered parallel map (fork based, so fn may be a closure); yields results."""
		todo = enumerate(chunks(items, chunksize))
		done, turn, ended, free, busy, workers = {}, 0, False, [], {}, []

		def start():
			ours, theirs = multiprocessing.Pipe()
			sys.stdout.flush()
			sys.stderr.flush()
			pid = os.fork()
			if pid == 0:
				code = 1
				try:
					# A run-away interpreter must not take the memory of the machine.
					resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
					ours.close()
					for _, other in workers:
						other.close()
					_worker(theirs, fn)
					code = 0
				finally:
					os._exit(code)
			theirs.close()
			workers.append((pid, ours))
			return ours

		try:
			while True:
				while not ended and len(done) < 16 * procs and (free or len(workers) < procs):
					job = next(todo, None)
					if job is None:
						ended = True
						break
					conn = free.pop() if free else start()
					busy[conn] = job[0]
					conn.send(job[1])
				while turn in done:
					for r in done.pop(turn):
						yield r
					turn += 1
				if not busy:
					if ended:
						return
					continue
				for conn in multiprocessing.connection.wait(list(busy)):
					try:
						ok, answer = conn.recv()
					except (EOFError, OSError):
						raise WorkerLost('a worker process ended early')
					if not ok:
						raise WorkerLost(answer)
					done[busy.pop(conn)] = answer
					free.append(conn)
		finally:
			for pid, conn in workers:
				conn.close()
				os.kill(pid, signal.SIGKILL)
			for pid, _ in workers:
				os.waitpid(pid, 0)

	# ------------------------------------------------------------------ verdicts
	def violation(self, key, what, files=None):
		"""Record a violation identified by key (stable text naming the failing input)."""
		key = str(key)
		for k, desc in self.known:
			if k == key:
				if key not in [x[0] for x in self.known_hit]:
					self.known_hit.append((key, desc))
				return
		if key in [v[0] for v in self.violations]:
			return
		self._n += 1
		os.makedirs(self.replay_dir, exist_ok=True)
		path = os.path.join(self.replay_dir, '%03d.txt' % self._n)
		with open(path, 'wb') as f:
			f.write(b'property %s, tier %s\nkey: %s\n\n' % (self.prop.encode(), self.tier.encode(), key.encode(errors='surrogateescape')))
			f.write(what.encode(errors='surrogateescape') if isinstance(what, str) else what)
			f.write(b'\n')
			for name, data in (files or {}).items():
				if isinstance(data, str):
					data = data.encode(errors='surrogateescape')
				f.write(b'\n----- ' + name.encode() + b' -----\n' + data + b'\n')
		self.violations.append((key, path))
		if len(self.violations) >= self.MAX_VIOLATIONS:
			raise Enough()

	def finish(self, level, coverage, assumptions=()):
		coverage = dict(coverage)
		for k, v in self.count.items():
			coverage.setdefault(k, v)
		coverage.setdefault('samples', self.samples)
		ev = {
			'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
			'coverage': coverage, 'assumptions': list(assumptions),
			'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations),
		}
		os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
		path = os.path.join(VERIF, 'evidence', self.prop + '.json')
		with open(path + '.tmp', 'w') as f:
			json.dump(ev, f, indent=1, default=repr)
			f.write('\n')
		os.rename(path + '.tmp', path)


def load_known(prop):
	"""Known findings: lines `known: property=<id> key=<key> :: <what fails>`."""
	out = []
	path = os.path.join(VERIF, 'known_findings.txt')
	if os.path.exists(path):
		for line in open(path):
			line = line.rstrip('\n')
			head = 'known: property=%s key=' % prop
			if line.startswith(head):
				key, _, desc = line[len(head):].partition(' :: ')
				out.append((key, desc))
	return out


def main(prop, tier, fn, level):
	"""Run one check. fn(ctx) explores and returns the coverage dict."""
	os.environ.setdefault('VERIF_TIER', tier)
	ctx = Ctx(prop, tier)
	try:
		ctx.build()
	except BuildError as e:
		print('build of /repo failed:\n%s' % e)
		return 2
	coverage = {}
	capped = False
	try:
		coverage = fn(ctx) or {}
	except Enough:
		capped = True
	if capped:
		coverage['stopped_early'] = 'after %d violations' % len(ctx.violations)
		coverage.setdefault('explanation', 'stopped at the violation cap; counts are partial')
		if level == 'model_checking':
			for k in ('states', 'transitions', 'traces_validated_against_impl'):
				coverage.setdefault(k, ctx.count.get(k, 0))
	ctx.finish(level, coverage, coverage.pop('assumptions', ()))
	for key, desc in ctx.known_hit:
		print('KNOWN-FINDING: property=%s %s' % (prop, desc or key))
	for key, path in ctx.violations:
		print('VIOLATION property=%s replay=%s' % (prop, path))
		print('  ' + key[:300].replace('\n', '\\n'))
	print('%s %s: %s in %.1fs; %s' % (
		prop, tier, 'VIOLATED' if ctx.violations else 'held', time.time() - ctx.t0,
		', '.join('%s=%s' % (k, v) for k, v in coverage.items() if isinstance(v, (int, bool)))))
	sys.stdout.flush()
	return 1 if ctx.violations else 0
