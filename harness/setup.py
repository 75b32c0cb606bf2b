#!/usr/bin/env python3
"""Checks that the tools are there and that the specification parses."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import Engine, SPEC, JARS
e = Engine()
try:
    bad = 0
    for m in sorted(f for f in os.listdir(SPEC) if f.endswith('.tla')):
        r = subprocess.run(['java', '-cp', e.classes + ':' + JARS, 'tla2sany.SANY', m], cwd=SPEC, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(m, r.stdout[-2000:])
            bad = 1
    print('setup ok' if not bad else 'setup failed')
finally:
    e.close()
sys.exit(bad)
