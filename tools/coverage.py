#!/usr/bin/env python3
"""Lines of gpgradpy that the checks execute: tools/coverage.py RUNS [CNN ...]
Prints, per file, the lines of functions that no run of the named checks
executed (processes that a run forks are not seen)."""
import glob
import json
import os
import subprocess
import sys
import tempfile
import types

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = os.environ.get('SIM_REPO', '/repo')
n = sys.argv[1] if len(sys.argv) > 1 else '100'
props = sys.argv[2:] or [f'C{k:02d}' for k in range(1, 21)]
hit = {}
for p in props:
    with tempfile.TemporaryDirectory() as t:
        env = dict(os.environ, SIM_COV=t, SIM_NOEVIDENCE='1')
        r = subprocess.run([sys.executable, 'check.py', p, '--runs', n], cwd=here, env=env, capture_output=True, text=True)
        if r.returncode:
            print(p, r.stdout[-300:], r.stderr[-300:])
        for f in glob.glob(t + '/*.json'):
            for a, b in json.load(open(f)):
                hit.setdefault(a, set()).add(b)


def lines(co):
    out = {q for _, _, q in co.co_lines() if q is not None and q != co.co_firstlineno} if co.co_name != '<module>' else set()
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            out |= lines(c)
    return out


tot = got = 0
for f in sorted(glob.glob(repo + '/gpgradpy/**/*.py', recursive=True)):
    rel = os.path.relpath(f, repo)
    if 'unit_test' in rel:
        continue
    src = open(f).read()
    L = lines(compile(src, f, 'exec'))
    h = hit.get(rel, set()) & L
    tot += len(L)
    got += len(h)
    miss = sorted(L - h)
    rng, text = [], src.splitlines()
    for q in miss:
        if rng and q <= rng[-1][1] + 1:
            rng[-1][1] = q
        else:
            rng.append([q, q])
    print(f'{rel}: {len(h)}/{len(L)}', ' '.join(f'{a}-{b}' if a != b else str(a) for a, b in rng))
print(f'total {got}/{tot}')
