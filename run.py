#!/usr/bin/env python3
"""Usage: run.py <property id> [quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vlib import core


def main():
	prop = sys.argv[1]
	tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
	mod = importlib.import_module('checks.' + prop.lower())
	try:
		return core.main(prop, tier, mod.check, getattr(mod, 'LEVEL', 'model_checking'))
	except Exception:
		traceback.print_exc()
		return 3


if __name__ == '__main__':
	sys.exit(main())
