#!/usr/bin/env python3
"""setup: nothing to build; verifies that the two interpreters the checks use are present"""
import subprocess, sys
ok = True
for py, mods in (('/opt/venv/bin/python', 'numpy,scipy,torch'), ('python3-vt', 'z3')):
    r = subprocess.run([py, '-c', 'import ' + mods], capture_output=True, text=True)
    if r.returncode: print('missing', mods, 'in', py, r.stderr[-300:]); ok = False
sys.exit(0 if ok else 1)
