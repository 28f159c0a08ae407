#!/usr/bin/env python3
"""builds govc and warms the Go build cache (both are rebuilt by the checks when missing)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import check
check.build_govc()
for race in ([], ['-race']):
    subprocess.run([check.GO, 'build', '-o', '/dev/null'] + race + ['std'], env=check.env(), cwd=os.path.join(V, 'harness'),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
