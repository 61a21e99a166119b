"""Many short runs of one command with different standard inputs (see helpers/multirun.c)."""
import os
import struct
import subprocess

from . import core


def build(ctx):
	return core.cc(ctx.path('multirun'), os.path.join(core.VERIF, 'helpers', 'multirun.c'))


def run(ctx, exe, argv, inputs, secs=20, cwd=None, env=None):
	"""Returns a list of (status, out, err): status >= 0 exit code, < 0 signal."""
	e = dict(core.BASE_ENV)
	e.update(env or {})
	data = b''.join(struct.pack('<I', len(i)) + i for i in inputs)
	p = subprocess.run([exe, str(secs)] + list(argv), input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
		cwd=cwd or ctx.dir, env=e, timeout=secs * len(inputs) + 60)
	out, pos, res = p.stdout, 0, []
	for _ in inputs:
		st, n = struct.unpack_from('<iI', out, pos)
		o = out[pos + 8:pos + 8 + n]
		pos += 8 + n
		n, = struct.unpack_from('<I', out, pos)
		er = out[pos + 4:pos + 4 + n]
		pos += 4 + n
		res.append((os.waitstatus_to_exitcode(st), o, er))
	return res
