#!/usr/bin/env python3
"""python3 tools/plant.py SPEC.py [ID ...] [--check]

Development tool, used by no check: makes /verif/seeded/<id>/ from the planted changes of SPEC.py, a list BUGS
of dicts (id, property, needs, breaks, edits = [(file, old, new), ...], demo), after confirming each one in a
scratch copy of /repo: lines of the original repository are changed, the patch applies, the stable tests pass,
the demonstration exits 0 without and nonzero with it.  --check also runs the property's quick check on it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SEED = os.path.join(VERIF, 'seeded')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
           PYTHONHASHSEED='0')
BASE = 'bd2c86b'

PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['NUMBA_DISABLE_JIT'] = '1'
import numpy as np
'''
SH = '''#!/bin/bash
# cwd: the repository
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec timeout 280 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=k.pop('env', ENV), capture_output=True, text=True, **k)


def stable(cwd):
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'gpgradpy/unit_test/test_precon_grad.py'], cwd)
    return ' passed' in r.stdout and 'failed' not in r.stdout and 'error' not in r.stdout.lower(), r.stdout[-300:]


def make(b):
    d = tempfile.mkdtemp(prefix='plant_')
    tree = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', tree, symlinks=True)
        sh(['git', 'checkout', '--', '.'], tree)
        for f, old, new in b['edits']:
            p = os.path.join(tree, 'gpgradpy', f)
            s = open(p).read()
            if s.count(old) != 1:
                return b, f'edit matches {s.count(old)} times in {f}: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff', '--no-color', '-U3'], tree).stdout
        # does it change original lines?
        orig = 0
        for m in re.finditer(r'^diff --git a/(\S+).*?(?=^diff --git|\Z)', diff, re.M | re.S):
            bl = sh(['git', 'blame', '-s', 'HEAD', '--', m.group(1)], tree).stdout.splitlines()
            n = 0
            for l in m.group(0).splitlines():
                h = re.match(r'@@ -(\d+)', l)
                if h:
                    n = int(h.group(1)) - 1
                elif l.startswith(' '):
                    n += 1
                elif l.startswith('-') and not l.startswith('---'):
                    orig += bl[n].startswith('^' + BASE)
                    if not bl[n].startswith('^' + BASE):
                        print('   note', b['id'], 'changes a line of a fix:', l)
                    n += 1
        out = os.path.join(SEED, b['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(PRE + b['demo'])
        open(os.path.join(out, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        msg = []
        if not orig:
            msg.append('CHANGES NO ORIGINAL LINE')
        elsewhere = os.path.join(d, 'demo')
        shutil.copytree(out, elsewhere)
        ok, tail = stable(tree)
        if not ok:
            msg.append('TESTS FAIL ' + tail)
        r = sh(['bash', elsewhere + '/demo.sh'], tree)
        if r.returncode == 0:
            msg.append('DEMO PASSES WITH PATCH ' + r.stdout[-300:])
        bad = r.stdout[-200:] + r.stderr[-250:]
        sh(['git', 'checkout', '--', '.'], tree)
        r = sh(['bash', elsewhere + '/demo.sh'], tree)
        if r.returncode:
            msg.append('DEMO FAILS CLEAN ' + r.stdout[-300:] + r.stderr[-600:])
        return b, '; '.join(msg) or ('ok   [' + bad.strip().splitlines()[-1][:150] + ']')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(bid, cid=None, extra=()):
    prop = cid or json.load(open(os.path.join(SEED, bid, 'meta.json')))['property']
    d = tempfile.mkdtemp(prefix='plantc_')
    tree = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', tree, symlinks=True)
        r = sh(['git', 'apply', os.path.join(SEED, bid, 'patch.diff')], tree)
        if r.returncode:
            return 'patch does not apply ' + r.stderr
        env = dict(os.environ, SIM_REPO=tree, SIM_NOEVIDENCE='1', VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run(['python3', 'check.py', prop, '--tier', 'quick', *extra], cwd=VERIF, env=env,
                           capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        lines = r.stdout.splitlines()
        return f'{prop} rc={r.returncode} {"CAUGHT" if v and r.returncode == 1 else "MISSED"} ' + \
            ' | '.join(lines[-4:])[:700] + (r.stderr[-500:] if r.returncode not in (0, 1) else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    do = '--check' in a
    a = [x for x in a if x != '--check']
    if a and a[0] == '--only-check':
        for x in a[1:] or sorted(os.listdir(SEED)):
            bid, _, cid = x.partition(':')
            print(bid, check(bid, cid or None), flush=True)
        sys.exit()
    ns = {}
    exec(open(a[0]).read(), ns)
    bugs = [b for b in ns['BUGS'] if not a[1:] or b['id'] in a[1:]]
    with ThreadPoolExecutor(6) as ex:
        for b, msg in ex.map(make, bugs):
            print(b['id'], b['property'], msg, flush=True)
    if do:
        for b in bugs:
            print(b['id'], check(b['id']), flush=True)
