#!/usr/bin/env python3
"""Checks that the tools the checks need are there (nothing is prebuilt: every check compiles from /repo's tree)."""
import os, subprocess, sys
ok = True
for t in (['clang++', '--version'], ['g++', '--version'], ['valgrind', '--version']):
    try: subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
    except Exception as e: print('missing', t[0], e); ok = False
if not os.path.isdir('/usr/include/eigen3/Eigen'): print('missing Eigen'); ok = False
sys.exit(0 if ok else 1)
