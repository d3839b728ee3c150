"""C12: surrogates in one process are independent of each other."""
import copy

import numpy as np

from .. import seams, twin
from ..core import Ctx, Violation, Skip
from ..gpkit import gen_cfg, Driver
from ..proc import isolated
from ..session import Session, gen_ops
from ..threads import Sched, gen_sched
from .common import shrink_default, REAL, STUB

ID = 'C12'
RUNS = {'quick': 900, 'thorough': 14000}
RULE = ('one run = two or three sessions, each first alone in its own process and then together in one process, either '
        'call by call or in threads that a seeded scheduler switches at executed lines; non-trivial: control changed '
        'between the sessions at least three times')
TECHNIQUE = ('deterministic simulation: real threads under a seeded scheduler that decides at every executed line of '
             'gpgradpy; twin comparison with the solo execution')

NOTE = ('Seeded exploration of interleavings. Preemption inside compiled library calls is not simulated.')

ASSUMPTIONS = ['each surrogate is used by one thread at a time']


def relative_option(rng, o):
    """Another value for one option."""
    q = rng.choice(['cond', 'cond', 'eta', 'const', 'theta', 'beststart', 'varK', 'any', 'any'])
    if q == 'cond':
        o['cond_max_target'] = o['cond_max'] = rng.choice([v for v in (1e6, 1e8, 1e10) if v != o.get('cond_max_target', 1e10)])
    elif q == 'eta':
        o['cond_eta_set_mtd'] = rng.choice(['Kbase_eta', 'Kbase_eta_w_dim', 'dflt_eta'])
    elif q == 'const':
        o['cond_eta_is_const'] = not o.get('cond_eta_is_const', True)
    elif q == 'theta':
        o['hp_theta_init'] = rng.choice([1e-3, 1e-1, 1.0])
    elif q == 'varK':
        o['hp_varK_init'] = rng.choice([0.1, 1.0, 20.0])
    elif q == 'beststart':
        o['lkd_optz_start_mtd'] = rng.choice(['lhs', 'hp_best'])
    else:
        other = gen_cfg(rng)['opt']
        for k in rng.sample(sorted(other), min(2, len(other))):
            if not k.startswith('cond_max'):
                o[k] = other[k]


def gen(rng, tier):
    n = rng.choice([2, 2, 2, 3])
    mode = rng.choice(['threads', 'threads', 'threads', 'calls'])
    cfgs = []
    for i in range(n):
        c = gen_cfg(rng)
        if i and rng.random() < 0.6:
            # close relatives share most of what a cache could be keyed by
            c = copy.deepcopy(cfgs[0])
            for _ in range(rng.choice([0, 1, 1, 2])):
                q = rng.choice(['kernel', 'ds', 'fs', 'wc', 'nf', 'xr', 'dim', 'near', 'opt', 'opt', 'opt'])
                if q == 'opt':
                    relative_option(rng, c['opt'])
                else:
                    c[q] = gen_cfg(rng)[q]
            from ..gpkit import tidy
            c = tidy(c)
        c['opt']['optz_iter_max'] = rng.choice([2, 3, 5])
        c['opt']['lkd_hp_best_n_eval'] = rng.choice([2, 4])
        cfgs.append(c)
    ops = [gen_ops(rng, rng.choice([4, 5, 7]), faults=0.15, bad=0.2, kinds=('line', 'la', 'chol'),
                   extra=(('direct', 1), ('method', rng.choice([0, 0, 0.5]))))
           for _ in range(n)]
    if rng.random() < 0.45:
        ops[1] = copy.deepcopy(ops[0])
    total = sum(len(o) for o in ops)
    return {'cfgs': cfgs, 'lists': ops, 'mode': mode,
            'sched': gen_sched(rng, n) if mode == 'threads' else [[1, rng.randrange(6)] for _ in range(2 * total)]}


def shrink(plan):
    n = len(plan['cfgs'])
    if n > 2:
        for i in range(n):
            p = copy.deepcopy(plan)
            del p['cfgs'][i], p['lists'][i]
            yield p
    s = plan['sched']
    size = len(s) // 2
    while size >= 1:
        for a in range(0, len(s), size):
            p = copy.deepcopy(plan)
            del p['sched'][a:a + size]
            yield p
        size //= 2
        if len(s) > 40 and size < 4:
            break
    for i in range(n):
        for q in shrink_default({'cfg': plan['cfgs'][i], 'ops': plan['lists'][i]}):
            p = copy.deepcopy(plan)
            p['cfgs'][i], p['lists'][i] = q['cfg'], q['ops']
            yield p


def alone(cfg, ops):
    s = Session(cfg, Ctx())
    s.posterior = False
    return twin.play(s, ops)


def measured(cfg, ops):
    """Faults are placed by measuring calls; the positions are fixed in the
    plan beforehand because a thread cannot be forked."""
    ops = copy.deepcopy(ops)
    s = Session(cfg, Ctx())
    s.posterior = False
    sizes = []

    orig = s._measure

    def m(fn):
        r = orig(fn)
        sizes.append(r)
        return r
    s._measure = m
    return twin.play(s, ops), sizes


class Known(Session):
    """A session whose calls were measured before."""
    sizes = ()

    def _measure(self, fn):
        return self.sizes.pop(0)


def run(plan, ctx):
    n = len(plan['cfgs'])
    solo = []
    for c, o in zip(plan['cfgs'], plan['lists']):
        solo.append(isolated(ctx, lambda sub, c=c, o=o: measured(c, o)))
    sess = []
    ctxs = [Ctx() for _ in range(n)]
    obs = [None] * n
    sched = Sched(plan['sched'])
    if plan['mode'] == 'threads':
        def body(i):
            def f():
                seams.set_world(None)
                s = Known(plan['cfgs'][i], ctxs[i])
                s.sizes = list(solo[i][1])
                s.posterior = False
                return twin.play(s, plan['lists'][i], after=lambda k, op: sched.point())
            return f
        out = sched.run([body(i) for i in range(n)])
        sw = sched.switches
        ctx.faults['preemption:inside_call'] += sched.inside
        ctx.faults['preemption:between_calls'] += sw - sched.inside
    else:
        gens = []
        for i in range(n):
            def g(i=i):
                s = Known(plan['cfgs'][i], ctxs[i])
                s.sizes = list(solo[i][1])
                s.posterior = False
                ob = []
                for op in plan['lists'][i]:
                    ob.append(twin.step(s, op))
                    yield
                ob.append(twin.final(s))
                obs[i] = ob
            gens.append(g())
        alive, k, sw, last = list(range(n)), 0, 0, None
        out = [None] * n
        while alive:
            i = alive[plan['sched'][k][1] % len(alive)] if k < len(plan['sched']) else alive[0]
            k += 1
            sw += i != last
            last = i
            try:
                next(gens[i])
            except StopIteration:
                out[i] = ('ok', obs[i])
                alive.remove(i)
        ctx.faults['alternation'] += sw
    for i in range(n):
        if out[i][0] == 'err':
            e = out[i][1]
            if isinstance(e, (Violation, Skip)):
                raise e
            raise e
        twin.compare(solo[i][0], out[i][1], 'not_independent', f'surrogate {i} of {n} used together ({plan["mode"]}), '
                     'compared with its use alone')
        for q, v in ctxs[i].faults.items():
            ctx.faults[q] += v
        ctx.states |= ctxs[i].states
        ctx.sim_time += ctxs[i].sim_time
        ctx.ev([o['result'] for o in out[i][1][:-1]], out[i][1][-1]['hp'])
    ctx.ev(sw, sched.inside)
    ctx.state('interleaving', plan['mode'], min(sw, 50), min(sched.inside, 50), n)
    ctx.probe('switches', sw)
    ctx.nontrivial = sw >= 3
