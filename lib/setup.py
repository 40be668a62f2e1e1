#!/usr/bin/env python3
"""Builds every harness once, so that the checks find what has not changed."""
import os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.dirname(HERE))
import build, check
from table import TABLE
done = set(); t = time.time()
for pid in sorted(TABLE):
    for run in TABLE[pid]['runs']:
        k = (run['bin'], run.get('variant', 'san'))
        if k not in done:
            done.add(k); check.build_binary(*k); print('%s/%s after %.0f s' % (k[1], k[0], time.time() - t), flush=True)
        for f in run.get('helpers', {}).values():
            f(build)
