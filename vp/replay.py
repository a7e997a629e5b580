#!/usr/bin/env python3
"""replay.py UNIT HARNESS INPUTS: rebuilds the unit from /repo natively and
runs the harness on the recorded inputs (exit 1: the contract is violated)."""
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

u = check.Unit(os.path.join(check.VERIF, 'units', sys.argv[1] + '.c'))
h = [x for x in u.harnesses if x.name == sys.argv[2]][0]
w = tempfile.mkdtemp(prefix='vp.replay.')
try:
    bad, out, rc = check.native_replay(check.Builder(w), h, sys.argv[3])
    print(out)
finally:
    shutil.rmtree(w, ignore_errors=True)
sys.exit(1 if bad else 0)
