#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine')); sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import argparse
from specs import SPECS
import driver
ap = argparse.ArgumentParser(); ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay')
a = ap.parse_args()
spec = SPECS[a.property]
if a.replay: sys.exit(driver.replay_file(a.property, spec, a.replay))
rc = driver.run_property(a.property, spec, a.tier, int(os.environ.get('VERIF_SEED', '1')))
sys.stdout.flush(); os._exit(rc)
