#!/usr/bin/env python3
"""Same seed, same execution: every run is played in different worker counts,
orders, processes and hash seeds, and the digests of its event logs compared.

  python3 tools/determinism.py [RUNS] [CNN ...]
"""
import json
import os
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = int(sys.argv[1]) if len(sys.argv) > 1 else 100
props = sys.argv[2:] or [f'C{k:02d}' for k in range(1, 21)]
bad = 0
for p in props:
    got = []
    for width, hs in ((8, '0'), (3, '12345'), (5, '777')):
        fd, path = tempfile.mkstemp(suffix='.json')
        os.close(fd)
        env = dict(os.environ, SIM_HASHSEED=hs, SIM_NOEVIDENCE='1')
        r = subprocess.run([sys.executable, 'check.py', p, '--runs', str(n), '--width', str(width), '--digests', path],
                           cwd=here, env=env, capture_output=True, text=True)
        if r.returncode:
            print(r.stdout[-500:], r.stderr[-500:])
        got.append(json.load(open(path)))
        os.unlink(path)
    diff = sorted({k for g in got[1:] for k in g if g[k] != got[0].get(k)}, key=int)
    full = all(len(g) == n for g in got)
    print(p, n, 'runs x 3:', 'identical' if not diff and full else f'DIFFERENT: {diff[:20]}', flush=True)
    bad += bool(diff) or not full
sys.exit(1 if bad else 0)
