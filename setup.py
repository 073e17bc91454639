#!/usr/bin/env python3
"""Builds what the checks use most (they rebuild whatever is missing or changed themselves)."""
import sys
import build
from jobs import PROPERTIES

targets = sorted({(j['name'], j['flavor']) for p in PROPERTIES.values() for j in p['jobs'] if j['name'] != 'python'})
try:
    build.build(targets)
except build.BuildError as e:
    print(e)
    sys.exit(1)
print('built %d monitors' % len(targets))
