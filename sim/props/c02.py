"""C02: returned derivatives are the derivatives of the exact posterior."""
import numpy as np

from ..core import Violation
from ..gpkit import gen_cfg, quirks, tight
from ..session import Session, gen_ops
from .common import shrink_default, REAL, STUB

ID = 'C02'
RUNS = {'quick': 1300, 'thorough': 16000}
RULE = ('one run = one random session as in C01 with gradients, Hessians and variances requested after every state '
        'change at points far from and close to evaluated ones; non-trivial: at least two Hessians and two gradients '
        'were compared with the reference')
TECHNIQUE = 'deterministic simulation: seeded sessions with faults, derivatives refined against a reference posterior'

NOTE = ('Seeded exploration; the reference differentiates its own kernels in closed form and by complex step, '
        'tolerances are 20 eps cond times the size of the terms. Hessians one point per call, as documented.')

ASSUMPTIONS = ['where the returned standard deviation is exactly zero its derivative is undefined and not compared']
shrink = shrink_default


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg)
    tight(rng, cfg)
    if rng.random() < 0.06:
        cfg['noinit'] = True
    n = rng.choice([4, 6, 8] if tier == 'quick' else [5, 8, 12])
    calm = rng.random() < 0.3
    ops = gen_ops(rng, n, faults=0.0 if calm else 0.25, bad=0.0 if calm else 0.1, opts=rng.choice([0, 0.3]),
                  extra=(('direct', 1), ('method', rng.choice([0, 0.5]))))
    return {'cfg': cfg, 'ops': ops, 'near': round(10 ** rng.uniform(-6, -1), 8), 'p': rng.randrange(16)}


def check(s, plan, k):
    d, gp = s.d, s.gp
    if d.args is None or not d.ready or s.dirty:
        return
    p = d.pool.xe
    x = np.array([p[(plan['p'] + k) % len(p)], d.args['x_eval'][k % d.n()] + plan['near'] * s.c['xr'],
                  p[(plan['p'] + k + 5) % len(p)]])
    one = s.try_eval(x, True, False)
    if isinstance(one, Exception):
        if s.maybe:
            return
        raise one
    r = d.check_posterior(one, x)
    d.check_derivs(one, x, r)
    plain = d.call(gp.eval_model, x)
    d.check_posterior(plain, x, r, 'plain')
    if any(q is not None for q in plain[2:]) or any(q is not None for q in one[4:]):
        raise Violation('unrequested', 'derivatives that were not requested were returned')
    for j in range(2):
        h = d.call(gp.eval_model, x[j:j + 1], calc_grad=True, calc_hess=True)
        d.check_posterior(h, x[j:j + 1], r, 'hess_call')
        d.check_derivs(h, x[j:j + 1], r)
        if j == 1:
            q = d.call(gp.eval_model, x[1], calc_grad=True, calc_hess=True, squeeze_nx=True)
            d.check_derivs([np.asarray(v)[None] for v in q], x[1:2], r, 'squeezed')
            d.check_posterior([np.asarray(v)[None] for v in q[:2]], x[1:2], r, 'squeezed')
    if s.c['wc'] in ('base', 'precon'):
        d.check_var(d.call(gp.eval_model_var, x, calc_grad=True), x, r)
        d.check_var(d.call(gp.eval_model_var, x), x, r)


def run(plan, ctx):
    s = Session(plan['cfg'], ctx)
    for k, op in enumerate(plan['ops']):
        s.step(op)
        if op['op'] != 'eval':
            check(s, plan, k)
    ctx.nontrivial = ctx.stats['hessians_checked'] > 1 and ctx.stats['grads_checked'] > 1
