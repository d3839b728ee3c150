"""C11: no influence from or on the rest of the process."""
import copy
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from .. import seams
from ..core import Ctx, Violation, same, jdump
from ..gpkit import gen_cfg, quirks, tight, hist_of, quiet
from ..session import Session, gen_ops
from .. import twin
from .common import shrink_default, REAL, STUB

ID = 'C11'
RUNS = {'quick': 700, 'thorough': 16000}
RULE = ('one run = one session played twice, the second time with seeded changes of the surrounding process between the '
        'calls (random generators, floating-point error handling, warning filters, environment, working directory, '
        'print options, memory layout of the arrays; sometimes a new interpreter with another hash seed); non-trivial: '
        'a search took place and at least three changes were made')
TECHNIQUE = ('deterministic simulation: seeded perturbation of the process around every call, with failing calls; twin '
             'comparison and before/after comparison of the process state')

NOTE = ('Seeded exploration. Settings that turn warnings or floating-point exceptions into Python exceptions are not '
        'generated.')

ASSUMPTIONS = ['the caller does not turn warnings or floating-point exceptions into Python exceptions']

WHAT = ('npseed', 'npstate', 'random', 'err', 'warn', 'env', 'cwd', 'print', 'locale', 'gc', 'heap')
LAYOUT = ('C', 'F', 'strided', 'readonly', 'offset', 'negative')


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg)
    tight(rng, cfg)
    cfg['opt']['optz_iter_max'] = rng.choice([3, 6])
    ops = gen_ops(rng, rng.choice([5, 7, 9]), faults=0.2, bad=0.3, extra=(('direct', 1), ('method', rng.choice([0, 0, 0.5]))))
    for op in ops:
        op['env'] = [[rng.choice(WHAT), rng.randrange(1 << 30)] for _ in range(rng.choice([0, 1, 2, 4]))]
        if op['op'] in ('data', 'eval'):
            op['layout'] = rng.choice(LAYOUT)
    return {'cfg': cfg, 'ops': ops, 'hashseed': rng.randrange(1, 1 << 31) if rng.random() < 0.015 else None}


def shrink(plan):
    if plan['hashseed']:
        p = copy.deepcopy(plan)
        p['hashseed'] = None
        yield p
    yield from shrink_default(plan)
    for k, op in enumerate(plan['ops']):
        if op.get('env'):
            p = copy.deepcopy(plan)
            p['ops'][k]['env'] = []
            yield p
            for j in range(len(op['env'])):
                p = copy.deepcopy(plan)
                del p['ops'][k]['env'][j]
                yield p
        if op.get('layout', 'C') != 'C':
            p = copy.deepcopy(plan)
            p['ops'][k]['layout'] = 'C'
            yield p


def relay(a, how):
    """The same values in another memory layout."""
    if not isinstance(a, np.ndarray) or a.ndim == 0:
        return a
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.full(tuple(2 * n + 1 for n in a.shape), np.nan) if a.dtype.kind == 'f' else \
            np.ones(tuple(2 * n + 1 for n in a.shape), a.dtype)
        v = b[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
        v[...] = a
        return v
    if how == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == 'offset':
        b = np.zeros(a.size + 3, a.dtype)
        v = b[3:].reshape(a.shape)
        v[...] = a
        return v
    if how == 'negative':
        return np.array(a[::-1])[::-1]
    return a


class LayPool:
    """The pool of a session, its arrays in the layout that is set."""

    def __init__(self, pool):
        self.pool, self.how = pool, 'C'

    def __getattr__(self, k):
        return getattr(self.pool, k)

    def take(self, c, s, n, alt=None):
        return {k: relay(v, self.how) for k, v in self.pool.take(c, s, n, alt).items()}


class Around:
    """State of the process outside of the surrogate."""

    def __init__(self, scratch):
        self.scratch = scratch

    def get(self):
        st = np.random.get_state()
        return {'numpy random state': (st[1].tobytes(), st[2], st[3], st[4]), 'random state': random.getstate(),
                'floating-point error handling': tuple(sorted(np.geterr().items())),
                'warning filters': list(warnings.filters), 'environment': dict(os.environ),
                'working directory': os.getcwd(), 'print options': repr(np.get_printoptions()),
                'stdout': id(sys.stdout), 'stderr': id(sys.stderr), 'recursion limit': sys.getrecursionlimit(),
                'signal handlers': tuple(signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)),
                'module search path': list(sys.path), 'files': sorted(os.listdir(self.scratch)),
                'umask': self.umask(), 'error callback': np.geterrcall(), 'excepthook': sys.excepthook,
                'trace': sys.gettrace()}

    @staticmethod
    def umask():
        m = os.umask(0o22)
        os.umask(m)
        return m

    def change(self, what, v):
        if what == 'npseed':
            np.random.seed(v % (1 << 31))
        elif what == 'npstate':
            np.random.standard_normal(v % 7 + 1)
        elif what == 'random':
            random.seed(v)
        elif what == 'err':
            np.seterr(**{k: ('ignore', 'warn')[(v >> j) & 1] for j, k in
                         enumerate(('divide', 'over', 'under', 'invalid'))})
        elif what == 'warn':
            warnings.simplefilter(('ignore', 'always', 'once', 'default')[v % 4])
        elif what == 'env':
            os.environ[('GPGRAD_SEED', 'TMPDIR', 'HOME', 'LC_ALL', 'TZ')[v % 5]] = \
                (self.scratch, '/nonexistent', 'C', 'de_DE')[v % 4]
        elif what == 'cwd':
            d = os.path.join(self.scratch, f'd{v % 3}')
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
        elif what == 'print':
            np.set_printoptions(precision=2 + v % 9, threshold=(3, 1000)[v % 2], suppress=bool(v % 3))
        elif what == 'locale':
            import decimal
            decimal.getcontext().prec = 3 + v % 30
        elif what == 'gc':
            import gc
            (gc.disable if v % 2 else gc.enable)()
            gc.collect()
        else:
            self.heap = [bytearray(v % 5000 + j) for j in range(v % 200)]
            # dirty memory for arrays that are not initialised
            for n in (8, 64, 512, 4096):
                self.dirt = np.full(n, (np.nan, 1e300, -7.0)[v % 3])
                del self.dirt


class EnvSession(Session):
    layout = 'C'

    def points(self, op):
        return relay(super().points(op), self.layout)


def observe(plan, ctx, perturb):
    s = EnvSession(plan['cfg'], ctx)
    s.d.bare = True
    s.posterior = False
    lay = LayPool(s.d.pool)
    s.d.pool = lay
    n = [0]
    with tempfile.TemporaryDirectory(prefix='sim11') as scratch:
        a = Around(scratch)
        here = os.getcwd()
        os.chdir(scratch)
        try:
            state = [a.get()]

            def before(k, op):
                if not perturb:
                    return
                lay.how = op.get('layout', 'C')
                s.layout = lay.how
                for what, v in op.get('env', ()):
                    a.change(what, v)
                    ctx.faults['env:' + what] += 1
                    n[0] += 1
                state[0] = a.get()

            def after(k, op):
                if not perturb:
                    return
                now = a.get()
                for q, v in state[0].items():
                    w = now[q]
                    if v != w:
                        raise Violation('leak', f'{op["op"]} changed the {q} of the process')
            obs = twin.play(s, plan['ops'], before, after)
        finally:
            os.chdir(here)
            warnings.resetwarnings()
            np.seterr(all='ignore')
    return obs, n[0], s.d.i


def run(plan, ctx):
    a, _, _ = observe(plan, Ctx(), False)
    b, n, searches = observe(plan, ctx, True)
    twin.compare(a, b, 'process_changes_results', 'after changes of the surrounding process')
    ctx.ev([o['result'] for o in b[:-1]], b[-1]['hp'])
    if plan['hashseed']:
        p = dict(plan, hashseed=None)
        env = dict(os.environ, PYTHONHASHSEED=str(plan['hashseed']), SIM_HASHSEED=str(plan['hashseed']))
        code = ('import sys, json; sys.path.insert(0, sys.argv[1])\n'
                'from sim import seams; seams.install()\n'
                'from sim.core import Ctx, canon\n'
                'from sim.props import c11\n'
                'o = c11.observe(json.loads(sys.stdin.read()), Ctx(), False)[0]\n'
                'sys.stdout.write("OBS" + repr(canon(o)))\n')
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        r = subprocess.run([sys.executable, '-c', code, here], input=jdump(p), env=env, capture_output=True, text=True,
                           timeout=200)
        if 'OBS' not in r.stdout:
            raise RuntimeError('the second interpreter failed: ' + r.stderr[-1500:])
        from ..core import canon
        if r.stdout.split('OBS', 1)[1] != repr(canon(a)):
            raise Violation('hash_seed_changes_results', 'another interpreter with another hash seed gives other results')
        ctx.faults['env:hash_seed'] += 1
    ctx.nontrivial = n >= 3 and searches >= 1
