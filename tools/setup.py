#!/usr/bin/env python3
"""setup_cmd: warm the build directory, so that each check only recompiles the hush crate itself."""
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
with tempfile.TemporaryDirectory(prefix='hushv-setup-') as d:
	core.build(os.path.join(d, 'hush'))
print('ok')
