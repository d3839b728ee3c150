"""C10: nothing but the recorded durations depends on the clocks."""
import copy

import numpy as np

from .. import seams
from ..core import Ctx, Violation
from ..gpkit import gen_cfg, quirks, tight, hist_of, TIMES
from ..session import Session, gen_ops
from .. import twin
from .common import shrink_default, REAL, STUB

ID = 'C10'
RUNS = {'quick': 900, 'thorough': 16000}
RULE = ('one run = one session played twice, once under a steady clock and once under seeded clocks that stand still, '
        'jump, run fast or, for the wall clock, backwards; non-trivial: at least two searches with durations were '
        'compared and the two clocks differed')
TECHNIQUE = 'deterministic simulation: seeded clock behaviours, twin comparison and invariants on recorded durations'

NOTE = ('Seeded exploration. The clocks of the standard library module time are simulated; a clock read in another '
        'way (a C extension) would not be seen.')

ASSUMPTIONS = ['monotonic clocks never go backwards (as the standard library documents)']

KINDS = ('steady', 'still', 'jump', 'fast', 'backward', 'mixed', 'tiny')


def gen_clock(rng, kind):
    n = rng.choice([1, 3, 7, 20])
    if kind == 'steady':
        return {'mono': [1e-3], 'wall': [1e-3]}
    if kind == 'still':
        return {'mono': [0.0], 'wall': [0.0]}
    if kind == 'jump':
        m = [rng.choice([0.0, 1e-6, 1e-3, 3600.0, 1e7]) for _ in range(n)]
        return {'mono': m, 'wall': [x + rng.choice([0, 0, -7200.0, 3.2e7]) for x in m]}
    if kind == 'fast':
        return {'mono': [rng.choice([10.0, 1e5])], 'wall': [1e-3]}
    if kind == 'backward':
        return {'mono': [1e-4, 0.0, 2e-3], 'wall': [rng.choice([-1.0, -3600.0, -1e-3, 1.0]) for _ in range(n)]}
    if kind == 'tiny':
        return {'mono': [1e-9, 0.0], 'wall': [0.0, -1e-9]}
    return {'mono': [round(10 ** rng.uniform(-9, 5), 12) for _ in range(n)],
            'wall': [rng.choice([-1, 1]) * round(10 ** rng.uniform(-9, 5), 12) for _ in range(n)]}


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg, 0.25)
    tight(rng, cfg)
    cfg['opt']['optz_iter_max'] = rng.choice([3, 6, 10])
    ops = gen_ops(rng, rng.choice([6, 8, 10]), faults=0.12, bad=0.05, kinds=('line', 'la', 'chol'),
                  extra=(('method', rng.choice([0, 0, 0.5])),))
    k = rng.choice(KINDS[1:])
    stall = None
    if rng.random() < 0.5:
        # calls of the linear algebra that take long
        stall = [rng.choice([0.0, 0.0, 0.5, 2.0, 60.0]) for _ in range(rng.choice([1, 2, 3, 7, 11]))]
    return {'cfg': cfg, 'ops': ops, 'stall': stall, 'clock': dict(gen_clock(rng, k), kind=k), 'w0': rng.choice([0.0, 1.7e9, 4e9]),
            't0': rng.choice([0.0, 1000.0, 1e6])}


def shrink(plan):
    if plan.get('stall'):
        p = copy.deepcopy(plan)
        p['stall'] = None
        yield p
    for f in ('mono', 'wall'):
        v = plan['clock'][f]
        if len(v) > 1:
            for part in (v[:len(v) // 2], v[len(v) // 2:]):
                p = copy.deepcopy(plan)
                p['clock'][f] = part
                yield p
    yield from shrink_default(plan)


CHOL = ('cho_factor', 'cholesky', 'np.cholesky')


def accounted(s, ctx, row, i, el):
    """The recorded durations contain the stalls of their part of the search,
    and nothing but those and the time between the readings."""
    w = s.d.w
    if w.stall is None or not s.searched or not w.marks:
        return
    st = w.stalls
    first, last = w.marks[0][0], w.marks[-1][1]
    tot = lambda q: sum(t for _, t in q)
    chol = lambda q: tot([z for z in q if z[0] in CHOL])
    rest = el - tot(st)             # time that is not a stall
    # what is done about a failed factorisation can be part of its time
    after, failed = 0.0, False
    for q, t in st:
        failed = q == 'failed' or (failed and q not in CHOL)
        after += t * failed
    eps = 1e-9 * (el + 1e6) * 1e-3 + 1e-9
    get = lambda name: next(float(v[i]) for q, v in row.items() if q.endswith(name))
    # the start is chosen before the first local search
    for name, lo, hi in (('time_chofac_all', chol(st[:last]), chol(st) + after + rest),
                         ('time_pick_hp0_all', 0.0, tot(st[:first]) + rest),
                         ('time_hp_optz_all', tot(st[first:last]), tot(st) + rest),
                         ('both', tot(st[:last]), tot(st) + rest)):
        t = get('time_pick_hp0_all') + get('time_hp_optz_all') if name == 'both' else get(name)
        if not lo - eps <= t <= hi + eps:
            raise Violation('duration_account', f'{name} of iteration {i} is {t}; the calls of the linear algebra in it '
                            f'took {lo} and the time that can belong to it is {hi}')
    ctx.faults['stall'] += len([t for _, t in st if t])
    ctx.probe('durations_accounted')


def durations(s, ctx, advancing):
    """Wraps set_hpara searches: recorded durations against the clock."""
    seen = [0]

    def after(k, op):
        d = s.d
        if d.i <= seen[0]:
            return
        i, seen[0] = d.i - 1, d.i
        h = hist_of(s.gp)
        tot = 0.0
        el = s.last_elapsed
        for q in h:
            if not q.endswith(TIMES):
                continue
            t = float(h[q][i])
            if not np.isfinite(t):
                raise Violation('duration_nan', f'{q} of iteration {i} is {t}')
            if t < 0:
                raise Violation('duration_negative', f'{q} of iteration {i} is {t}')
            # differences of clock readings are exact to the size of the readings
            if t > el + 1e-9 * (el + 1e6) * 1e-3 + 1e-9:
                raise Violation('duration_long', f'{q} of iteration {i} is {t}, the call took {el}')
            if not q.endswith('time_chofac_all'):
                tot += t
            if advancing and t == 0 and s.searched:
                raise Violation('duration_zero', f'{q} of iteration {i} is 0 although the clock advanced at every '
                                'reading')
        if tot > el + 1e-9 * (el + 1e6) * 1e-3 + 1e-9:
            raise Violation('duration_long', f'the durations of iteration {i} add up to {tot}, the call took {el}')
        accounted(s, ctx, h, i, el)
        ctx.probe('durations_checked')
        if el > 0:
            ctx.probe('time_passed')
    return after


class Timed(Session):
    """Keeps the simulated duration of the last successful search."""
    last_elapsed = 0.0
    searched = False

    def run_faulted(self, fn, fault):
        r = super().run_faulted(fn, fault)
        self.last_elapsed = self.d.elapsed
        self.searched = self.d.w.min_ord > 0
        return r


def run(plan, ctx):
    cfg = plan['cfg']
    obs = []
    searches = 0
    for c, t0, w0, steady in (({'mono': [1e-3], 'wall': [1e-3]}, 1000.0, 1.7e9, True),
                              (plan['clock'], plan['t0'], plan['w0'], False)):
        w = seams.World()
        w.clock = seams.Clock(list(c['mono']), list(c['wall']), t0, w0)
        if plan.get('stall') and not steady:
            v = plan['stall']
            w.stall = lambda name, o: v[o % len(v)]
        s = Timed(cfg, Ctx() if steady else ctx, world=w)
        s.posterior = False
        # large steps hide small ones in floating point
        adv = min(c['mono']) >= 1e-6 and t0 + sum(c['mono']) < 1e6 and max(c['mono']) < 100
        obs.append(twin.play(s, plan['ops'], after=durations(s, ctx, adv)))
        searches = s.d.i
        if not steady:
            ctx.faults['clock:' + c.get('kind', 'steady')] += w.clock.i
    twin.compare(obs[0], obs[1], 'clock_changes_results', 'under another clock')
    ctx.ev([o['result'] for o in obs[1][:-1]], obs[1][-1]['hp'])
    ctx.nontrivial = searches >= 2
