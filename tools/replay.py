#!/usr/bin/env python3
"""Replays one counterexample file natively: replay.py PROPERTY CASE CEXFILE [asan|ubsan|msan|plain]"""
import sys, os, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import check
prop, case, cex = sys.argv[1:4]; kind = sys.argv[4] if len(sys.argv) > 4 else 'asan'
c = [c for t in ('quick', 'thorough') for c in check.CASES.cases(prop, t) if c.name == case][0]
d = V + '/build/replay-%d' % os.getpid()
try:
    r = check.run([check.Build(d).native(c.h, kind), c.entry, cex], env=dict(os.environ, **check.SAN), timeout=300)
    print(r.stdout + r.stderr); rc = r.returncode
finally: shutil.rmtree(d, ignore_errors=True)
sys.exit(rc)
