#!/usr/bin/env python3
"""Nothing is prebuilt: checks compile from /repo's current tree. This only
verifies that the tools they use are present."""
import shutil, sys, os
need = ['clang++', 'g++']
miss = [n for n in need if not shutil.which(n)] + [p for p in ('/usr/include/eigen3', '/usr/include/pybind11') if not os.path.exists(p)]
if miss: print('missing:', miss); sys.exit(1)
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('build', 'evidence', 'replay'): os.makedirs(os.path.join(D, d), exist_ok=True)
print('ready')
