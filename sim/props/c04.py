"""C04: a call that fails, is interrupted or is rejected leaves no trace, and
repeating it gives what it would have given."""
import numpy as np

from ..core import Ctx, Violation, same
from ..gpkit import gen_cfg, quirks, tight, hp_of, hist_of, same_hp, TIMES, quiet
from ..session import Session, gen_ops, gen_fault
from .common import shrink_default, REAL, STUB

ID = 'C04'
RUNS = {'quick': 900, 'thorough': 16000}
RULE = ('one run = one session in which every faulted call is followed by a comparison of all that can be observed '
        '(values, gradients, hyperparameters, history, scaled data, report) with what was there before the call, bit '
        'for bit; a twin session without any fault must end up identical; non-trivial: at least one call failed')
TECHNIQUE = 'deterministic simulation: exception injected at any executed line or numerical call, state comparison and fault-free twin'

NOTE = ('Seeded exploration. Interrupts are exceptions at executed lines of the package and at its calls into LAPACK '
        'and the optimiser; exceptions inside compiled code are not placed more finely than the call.')

ASSUMPTIONS = ['the package is used from one thread',
               'loading of saved data and direct use of the rescaling class are covered by C17 and C16']
shrink = shrink_default


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg)
    tight(rng, cfg)
    n = rng.choice([4, 6, 9] if tier == 'quick' else [5, 9, 14])
    ops = gen_ops(rng, n, faults=0.0, bad=0.12, opts=rng.choice([0, 0.3]),
                  extra=(('method', rng.choice([0, 0, 0.5])),))
    for op in ops:
        if op['op'] in ('data', 'optz', 'set', 'current', 'stored', 'custom') and rng.random() < 0.6:
            kinds = {'data': ('line',), 'custom': ('line',), 'optz': ('line', 'line', 'la', 'min')}
            m = rng.choice([1, 1, 1, 2, 3])
            op['faults'] = [gen_fault(rng, kinds.get(op['op'], ('line', 'la'))) for _ in range(m)]
            op['retry'] = rng.random() < 0.7
    return {'cfg': cfg, 'ops': ops, 'twin': True}


def shrink(plan):
    for k, op in enumerate(plan['ops']):
        if len(op.get('faults', [])) > 1:
            for j in range(len(op['faults'])):
                import copy
                p = copy.deepcopy(plan)
                del p['ops'][k]['faults'][j]
                yield p
    yield from shrink_default(plan)


def view(s, x):
    """All that a caller can observe (pure: nothing here may change the GP)."""
    d, gp = s.d, s.gp
    o = {'hist': hist_of(gp), 'hp': hp_of(gp)}
    if d.args is not None:
        o['data'] = [None if v is None else np.array(v) for v in gp.get_init_eval_data()]
        o['scl'] = [None if v is None else np.array(v) for v in gp.get_scl_eval_data()]
        o['xs'] = [np.array(v) for v in gp.get_scl_x_w_dist()]
        o['map'] = np.array(gp.x_init_2_scl(x))
        with quiet():
            o['report'] = gp.get_txt_info_surr(print2screen=False, save2file=False)
    out = s.try_eval(x.copy(), True, False)
    o['eval'] = 'refused' if isinstance(out, Exception) else [None if v is None else np.array(v) for v in out[:4]]
    h = s.try_eval(x[:1].copy(), True, True)
    o['hess'] = 'refused' if isinstance(h, Exception) else [np.array(v) for v in h]
    return o


def compare(a, b, kind, text):
    for k in a:
        x, y = a[k], b.get(k)
        if k == 'hp':
            ok = same_hp(x, y)
        else:
            ok = same(x, y)
        if not ok:
            if k == 'hist':
                k = 'hist:' + ','.join(q for q in x if not same(x[q], y.get(q)))
            raise Violation(kind, f'{text}: {k} was {str(x)[:200]} and is {str(y)[:200]}')


def run(plan, ctx):
    s = Session(plan['cfg'], ctx)
    d = s.d
    x = d.pool.xe[[1, 4, 9]].copy()
    applied = []
    nf = 0
    for k, op in enumerate(plan['ops']):
        op = dict(op)
        faults = op.pop('faults', [])
        retry = op.pop('retry', True)
        done = False
        if op['op'] == 'optz' and d.args is not None:
            d.allow_initial()       # an option that this harness sets
        for f in faults:
            before = view(s, x)
            dirty, ready, maybe = s.dirty, d.ready, s.maybe
            r = s.step(dict(op, fault=f))
            where = d.where
            if r == 'failed':
                nf += 1
                s.dirty, d.ready, s.maybe = dirty, ready, maybe
                compare(before, view(s, x), 'trace', f'{op["op"]} failed by {f} at {where}')
                ctx.probe('compared_after_failure')
            elif r == 'ok':
                # the fault did not fire or was tolerated
                done = True
                applied.append((dict(op), bool(s.maybe)))
                break
            else:
                done = True
                break
        if not done and (retry or not faults):
            before = view(s, x) if op['op'] in ('bad', 'eval') else None
            r = s.step(op)
            if before is not None:
                compare(before, view(s, x), 'trace', f'{op} changed the surrogate')
            if r == 'ok':
                applied.append((dict(op), False))
            if faults:
                ctx.probe('retried')
    # the twin that never met a failure
    if nf and not any(m for _, m in applied):
        t = Session(plan['cfg'], Ctx(), d.pool)
        t.d.i = 0
        for op, _ in applied:
            t.step(op)
        a, b = view(s, x), view(t, x)
        for v in (a, b):
            v['hist'] = {q: z for q, z in v['hist'].items() if not q.endswith(TIMES)}
            v.pop('report', None)
        compare(b, a, 'retry_differs', 'after failures and retries, compared with the session without failures')
        ctx.probe('twins_compared')
    ctx.nontrivial = nf > 0
