"""C03: a surrogate answers for its present data and hyperparameters or
refuses; it never answers for a state it is not in, or a mixture of two."""
import numpy as np

from ..core import Violation
from ..gpkit import gen_cfg, quirks, tight, POOL, WELL
from ..session import Session, gen_fault, gen_opt, gen_t, vary
from .common import shrink_default, REAL, STUB

ID = 'C03'
RUNS = {'quick': 1600, 'thorough': 24000}
RULE = ('one run = one random order of data updates, setups, changes of hyperparameters through calls and in place, '
        'interrupted and rejected calls, with a value, gradient and variance request after every one of them; '
        'non-trivial: at least one request was refused and at least one answered and checked')
TECHNIQUE = 'deterministic simulation: seeded update orders with interrupts at any executed line, right-or-refuse oracle'

NOTE = ('Seeded exploration. The harness keeps its own record of data and setups, so an answer for an older or mixed '
        'state differs from the reference posterior of the present one, and an answer without a completed setup is '
        'rejected whatever its value.')

ASSUMPTIONS = ['changes of hyperparameters in place go through the object that the surrogate exposes',
               'one thread per surrogate; an interrupt is an exception at an executed line']
shrink = shrink_default


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg)
    tight(rng, cfg)
    if rng.random() < 0.06:
        cfg['noinit'] = True
    cfg['opt']['optz_iter_max'] = rng.choice([2, 4])
    n_ops = rng.choice([6, 9, 12] if tier == 'quick' else [8, 14, 20])
    faulty = rng.random() < 0.7
    n = rng.choice([1, 2, 2, 3])
    ops = [{'op': 'data', 's': rng.randrange(POOL), 'n': n}, dict(op='set', **gen_t(rng))]
    names = ['data', 'poke', 'custom', 'set', 'current', 'stored', 'optz', 'bad', 'evalf', 'direct', 'method']
    wts = [5, 3, 3, 4, 3, 3, 3, 1.5, 1, 1.5, rng.choice([0, 1])]
    while len(ops) < n_ops:
        k = rng.choices(names, wts)[0]
        op = {'op': k}
        if k == 'data':
            n = min(6, rng.choice([n, n, n, n + 1, n + 1, rng.choice([1, 2, 4])]))
            # same size with other points, same points again, a subset: all
            # are new data
            op.update(s=rng.choice([0, ops[0]['s'], rng.randrange(POOL)]), n=n)
            if rng.random() < 0.2:
                op['opt'] = gen_opt(rng)
        elif k in ('set', 'custom', 'direct'):
            op.update(gen_t(rng))
        elif k == 'method':
            op.update(wc=rng.choice(WELL), **{'try': rng.choice(['eval', 'current'])})
        elif k == 'poke':
            op['what'] = rng.choice(['theta', 'beta', 'varK', 'kernel'])
        elif k == 'stored':
            op['j'] = rng.randrange(8)
        elif k == 'bad':
            op.update(kind=rng.choice(['f_size', 'x_dim', 'grad_shape', 'std_grad', 'method', 'no_hp', 'nan_row']),
                      s=rng.randrange(POOL), n=rng.choice([n, 2, 3]))
        elif k == 'evalf':
            op = {'op': 'eval', 's': rng.randrange(16), 'n': 2, 'grad': True}
        if op['op'] not in ('poke', 'bad', 'method') and faulty and rng.random() < 0.4:
            op['fault'] = gen_fault(rng, ('line', 'line', 'la') if op['op'] in ('optz', 'set', 'current', 'stored',
                                                                                 'direct')
                                    else ('line',))
            op['retry'] = rng.random() < 0.3
        ops.append(op)
    return {'cfg': cfg, 'ops': vary(rng, ops, 0.3)}


def run(plan, ctx):
    s = Session(plan['cfg'], ctx)
    d = s.d
    for k, op in enumerate(plan['ops']):
        s.step(op)
        if d.args is None:
            # nothing was ever accepted: every request is refused
            out = s.try_eval(d.pool.xe[:2].copy(), True)
            if not isinstance(out, Exception):
                raise Violation('evaluated_unset', 'the model was evaluated without data')
            continue
        was_ok = d.ready and not s.dirty
        r = s.eval_checked({'s': k, 'n': 2, 'grad': k % 2 == 1, 'at': k % 3 == 0})
        ctx.ev('request', r)
        if s.c['wc'] in ('base', 'precon'):
            v = s.try_eval(s.x, True, var=True)
            if isinstance(v, Exception):
                if r == 'evaluated':
                    raise v
            else:
                if not was_ok:
                    raise Violation('variance_stale', 'the variance was evaluated although the model is not set up '
                                    'for the present data and hyperparameters')
                d.check_var(v, s.x, s.r)
        if r == 'evaluated' and k % 2 == 1:
            d.check_derivs(s.out, s.x, s.r)
    ctx.nontrivial = ctx.stats['refused'] > 0 and ctx.stats['evaluated'] > 0
