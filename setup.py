#!/usr/bin/env python3
"""Builds the extractor and, if /repo compiles, the oracle."""
import os, subprocess, sys
root = os.path.dirname(os.path.abspath(__file__))
r = subprocess.run(['cargo', 'build', '--offline', '--release', '-q'], cwd=root + '/vx')
o = subprocess.run(['cargo', 'build', '--offline', '--release', '-q'], cwd=root + '/oracle')
sys.exit(r.returncode or o.returncode)
