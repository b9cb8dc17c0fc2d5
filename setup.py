#!/usr/bin/env python3-vt
"""Builds the engine runtimes (everything else is compiled by each check from /repo's current tree)."""
import os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import driver
driver.build_rt(os.path.join(ROOT, '.build'))
os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
print('engine runtime built')
