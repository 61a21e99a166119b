"""A controlled scheduler for the processes a hush script starts.

The script under test runs puppet processes (helpers/agent.c) in its command blocks. Each puppet connects to the World that
started the script and then does nothing until it is told to: the World decides, step by step, which process reads, writes,
closes or exits next, so every interleaving of the processes' actions can be produced and replayed deterministically."""
import os
import select
import shutil
import socket
import subprocess
import tempfile
import time

from vlib import core
from vlib.lang import lit_str


class Stuck(Exception):
	"""Something that had to happen did not happen within the time limit."""


class Dead(Exception):
	"""The puppet died (or exited) instead of answering."""


def compile_agent(ctx):
	return core.cc(ctx.path('bin', 'agent'), os.path.join(core.VERIF, 'helpers', 'agent.c'))


class World:
	def __init__(self, ctx, agent, src, cwd=None, env=None, limit=20.0, stdin=b'', args=(), flags=(), preexec=None):
		self.limit = limit
		self.dir = tempfile.mkdtemp(dir=ctx.dir)
		self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
		path = os.path.join(self.dir, 's')
		self.sock.bind(path)
		os.chmod(path, 0o777)
		self.sock.listen(64)
		self.src = ('let ag = %s\n' % lit_str(agent.encode())) + src
		with open(os.path.join(self.dir, 't.hsh'), 'wb') as f:
			f.write(self.src.encode('utf-8', 'surrogateescape'))
		self.cwd = cwd or os.path.join(self.dir, 'w')
		if not cwd:
			os.mkdir(self.cwd)
		e = dict(core.BASE_ENV, AGENT_SOCK=path)
		e.update(env or {})
		self.fout = open(os.path.join(self.dir, 'out'), 'wb')
		self.ferr = open(os.path.join(self.dir, 'err'), 'wb')
		self.proc = subprocess.Popen(
			[ctx.hush] + list(flags) + [os.path.join(self.dir, 't.hsh')] + list(args), stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
			stdout=self.fout, stderr=self.ferr, cwd=self.cwd, env=e, start_new_session=True, preexec_fn=preexec)
		if stdin:
			self.proc.stdin.write(stdin)
			self.proc.stdin.close()
		self.conn, self.pid, self.buf, self.order, self.gone = {}, {}, {}, [], set()
		self.trace = []

	# ------------------------------------------------------------------ events
	def accept(self, timeout):
		"""Accept one puppet within timeout; returns its name or None."""
		r, _, _ = select.select([self.sock], [], [], timeout)
		if not r:
			return None
		c, _ = self.sock.accept()
		c.settimeout(self.limit)
		data = b''
		while not data.endswith(b'\n'):
			d = c.recv(200)
			if not d:
				return None
			data += d
		name, pid, ppid = data.decode().split()
		self.conn[name], self.pid[name] = c, int(pid)
		self.order.append(name)
		self.trace.append('hello ' + name)
		return name

	def wait(self, *names):
		"""Wait until all the named puppets are present."""
		end = time.time() + self.limit
		while any(n not in self.conn for n in names):
			left = end - time.time()
			if left <= 0 or self.accept(min(left, 0.5)) is None and self.proc.poll() is not None and self.accept(0.05) is None:
				raise Stuck('waiting for %s; present: %s; trace: %s' % ([n for n in names if n not in self.conn], self.order, self.trace))

	def settle(self, seconds):
		"""Give the others time to do what they must not do; returns the puppets that appeared."""
		new, end = [], time.time() + seconds
		while True:
			left = end - time.time()
			n = self.accept(max(left, 0))
			if n is None:
				return new
			new.append(n)

	# ------------------------------------------------------------------ commands
	def send(self, name, text):
		self.trace.append('%s: %s' % (name, text[:60]))
		try:
			self.conn[name].sendall(text.encode() + b'\n')
		except OSError:
			self.buried(name)
			raise Dead(name)

	def buried(self, name):
		"""Wait until a dying puppet is a zombie or gone: only then all its descriptors are closed."""
		self.gone.add(name)
		end = time.time() + self.limit
		while time.time() < end:
			try:
				with open('/proc/%d/stat' % self.pid[name]) as f:
					if f.read().rsplit(')', 1)[1].split()[0] in 'ZX':
						return
			except (FileNotFoundError, ProcessLookupError, IndexError):
				return
			time.sleep(0.0002)
		raise Stuck('%s does not die; trace: %s' % (name, self.trace))

	def reply(self, name, timeout=None):
		c = self.conn[name]
		c.settimeout(timeout or self.limit)
		data = self.buf.get(name, b'')
		while b'\n' not in data:
			try:
				d = c.recv(1 << 16)
			except socket.timeout:
				self.buf[name] = data
				raise Stuck('%s does not answer; trace: %s' % (name, self.trace))
			except OSError:
				d = b''
			if not d:
				self.buried(name)
				raise Dead(name)
			data += d
		line, _, rest = data.partition(b'\n')
		self.buf[name] = rest
		self.trace.append('%s -> %s' % (name, line.decode()[:60]))
		return line.decode()

	def ask(self, name, text, timeout=None):
		self.send(name, text)
		return self.reply(name, timeout)

	def end(self, name, status=0, signal=None):
		"""Let a puppet exit and wait until it has."""
		try:
			self.ask(name, 'k %d' % signal if signal else 'x %d' % status)
		except Dead:
			return
		raise Stuck('%s survives its exit' % name)

	# ------------------------------------------------------------------ the script
	def finish(self):
		"""Wait until hush ends; returns (status, stdout, stderr)."""
		try:
			rc = self.proc.wait(self.limit)
		except subprocess.TimeoutExpired:
			raise Stuck('hush does not end; trace: %s' % self.trace)
		return rc, self.out(), self.err()

	def out(self):
		with open(os.path.join(self.dir, 'out'), 'rb') as f:
			return f.read()

	def err(self):
		with open(os.path.join(self.dir, 'err'), 'rb') as f:
			return f.read()

	def close(self):
		core.kill_group(self.proc)
		self.proc.wait()
		for c in self.conn.values():
			c.close()
		self.sock.close()
		self.fout.close()
		self.ferr.close()
		shutil.rmtree(self.dir, ignore_errors=True)

	def __enter__(self):
		return self

	def __exit__(self, *exc):
		self.close()
