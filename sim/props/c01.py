"""C01: whatever happened before, an evaluation is the exact posterior."""
from ..core import Ctx
from ..gpkit import gen_cfg, quirks, tight
from ..session import Session, gen_ops
from .common import shrink_default, REAL, STUB

ID = 'C01'
RUNS = {'quick': 1500, 'thorough': 20000}
RULE = ('one run = one random session (configuration, data updates, searches, prescribed / stored / current '
        'hyperparameters, evaluations) with injected interrupts, allocation failures, Cholesky failures and rejected '
        'calls; non-trivial: at least one evaluation was compared with the reference posterior and at least one '
        'fault fired or at least three state changes happened')
TECHNIQUE = 'deterministic simulation: seeded sessions with faults inside operations, refinement against a reference model'

NOTE = ('Seeded exploration: every evaluation of every session is compared with an independent reference posterior '
        '(tolerance 20 eps cond, 25 times the worst round-off seen). Trusts the reference model and LAPACK.')

ASSUMPTIONS = ['reference posterior is computed in float64; comparisons use tolerances proportional to eps times the '
               'condition number of the documented matrix',
               'hyperparameters are read from the GP, their choice is the subject of C07']
shrink = shrink_default


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg)
    tight(rng, cfg)
    if rng.random() < 0.06:
        cfg['noinit'] = True
    n = rng.choice([5, 7, 9, 12] if tier == 'quick' else [5, 8, 12, 20])
    mode = rng.choice(['calm', 'faulty', 'faulty'])
    ops = gen_ops(rng, n, faults=0.0 if mode == 'calm' else 0.3, bad=0.0 if mode == 'calm' else 0.12,
                  opts=rng.choice([0, 0.4]), extra=(('direct', 1), ('method', rng.choice([0, 0.7]))))
    return {'cfg': cfg, 'ops': ops}


def run(plan, ctx):
    s = Session(plan['cfg'], ctx)
    for op in plan['ops']:
        s.step(op)
        # the invariant: after every operation the model is right or refuses
        if op['op'] != 'eval' and s.d.args is not None:
            s.step({'op': 'eval', 's': 3, 'n': 2})
    ctx.nontrivial = ctx.stats['evaluated'] > 0 and (sum(ctx.faults.values()) > 0 or len(plan['ops']) >= 3)
