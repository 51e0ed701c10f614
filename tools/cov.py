#!/usr/bin/env python3
# tools/cov.py PREFIX < sim output : coverage counters summed over cases
import sys, json
from collections import Counter
c = Counter()
for l in sys.stdin:
    try: d = json.loads(l)
    except Exception: continue
    for k, v in d.get('cov', {}).items():
        if any(p in k for p in sys.argv[1:]) or len(sys.argv) == 1: c[k] += v
for k, v in sorted(c.items()): print(k, v)
