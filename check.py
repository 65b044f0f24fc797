#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N] [--scale F] [--only part] [--replay FILE] [--no-build]"""
import sys, os, argparse, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if not sys.flags.utf8_mode:
    os.environ['PYTHONUTF8'] = '1'
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
ap = argparse.ArgumentParser()
ap.add_argument('pid')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
ap.add_argument('--scale', type=float, default=float(os.environ.get('VT_SCALE', '1')))
ap.add_argument('--only', action='append')
ap.add_argument('--replay')
ap.add_argument('--max-s', type=float)
ap.add_argument('--no-build', action='store_true')
a = ap.parse_args()
from vt import js
m = importlib.import_module('checks.' + a.pid.lower())
if not a.no_build:
    for v in getattr(m, 'VARIANTS', ['asan']):
        js.build(v)
if a.replay:
    sys.exit(m.CHECK.replay(a.replay))
sys.exit(m.CHECK.main('thorough' if a.tier == 'thorough' else 'quick', a.seed, a.scale, a.only, a.max_s))
