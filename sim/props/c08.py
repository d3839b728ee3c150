"""C08: what the optimiser is given is the exact likelihood, constraint and
their gradients, at any point, in any order, also after failures."""
import copy

import numpy as np

from ..core import Violation, Skip
from ..gpkit import gen_cfg, quirks, hist_of, POOL
from ..search import (RefLkd, gen_stub, layout, noisy, split_constraints, value_of, jac_of)
from ..session import Session, gen_t, mk_exc, vary
from .common import shrink_default, REAL, STUB

ID = 'C08'
RUNS = {'quick': 1300, 'thorough': 16000}
RULE = ('one run = one session; in its searches the simulated optimiser asks for value, gradient, constraint and '
        'gradient of the constraint at points and in an order from the plan, with repeats, reused arrays and failing '
        'factorisations in between; every answer is compared with the reference likelihood; non-trivial: at least '
        'five answers were compared')
TECHNIQUE = 'deterministic simulation: the local optimiser is a simulated client with seeded request schedules; reference model'

NOTE = ('Seeded exploration. Reference gradients are complex-step derivatives of the reference matrices; tolerances '
        'follow the condition number; points with condition numbers above 1e12 are not compared.')

ASSUMPTIONS = ['requests come from one thread (SciPy optimisers are sequential)']
FACTOR = 30.0


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg, 0.25)
    # the likelihood of constant data without noise is the logarithm of zero
    cfg['q'].pop('const', None)
    o = cfg['opt']
    if rng.random() < 0.3:
        o['lkd_use_adj_mtd'] = False
    if rng.random() < 0.3:
        o['lkd_varK_pnlt_use'] = True
        o['lkd_varK_pnlt_c2'] = rng.choice([10.0, 0.1])
    if rng.random() < 0.12:
        o['optz_mtd'] = 'trust-constr'
    if rng.random() < 0.25 and cfg['wc'] != 'precon':
        o['cond_norm'] = 'fro'
    if noisy(cfg) and 'hp_varK_range' not in o and rng.random() < 0.3:
        # values in small or large units
        cfg['fs'] = rng.choice([1e-6, 1e-6, 1e-5, 1e4])
        cfg['sn'] = rng.choice([1e-3, 1e-3, 1e-2])
        cfg['fo'] = rng.choice([0.0, 3.0 * cfg['fs']])
        o['hp_varK_init'] = cfg['fs'] ** 2
        o.pop('hp_var_fval_range', None)
        o.pop('hp_var_fgrad_range', None)
    o['lkd_hp_best_n_eval'] = rng.choice([2, 4])
    o['optz_iter_max'] = rng.choice([2, 3])
    n = rng.choice([1, 1, 2])
    ops = [{'op': 'data', 's': rng.randrange(POOL), 'n': n}, {'op': 'optz'}]
    for _ in range(rng.choice([1, 1, 2] if tier == 'quick' else [1, 2, 3])):
        n = min(6, n + rng.choice([1, 1, 2, 3]))
        ops.append({'op': 'data', 's': rng.choice([0, rng.randrange(POOL)]), 'n': n})
        if rng.random() < 0.2:
            ops.append(dict(op='set', **gen_t(rng)))
        m = rng.choice([2, 3, 4])
        pts = [{'k': rng.choice(['box', 'near', 'near', 'near', 'mid', 'mid', 'edge']),
                'u': [round(rng.random(), 4) for _ in range(12)]} for _ in range(m)]
        acc = []
        for _ in range(rng.choice([6, 10, 16])):
            a = {'p': rng.randrange(m), 'w': rng.choice('fggcd')}
            if rng.random() < 0.15:
                a['fail'] = True
            if rng.random() < 0.4:
                a['buf'] = True
            acc.append(a)
        ops.append({'op': 'optz', 'pts': pts, 'acc': acc, 'when': rng.choice(['before', 'after', 'only']),
                    'call': rng.choice([1, 1, 1, 2, 3])})
        for _ in range(rng.choice([0, 0, 1, 2])):
            # the caller asks itself, before or after the search
            ops.insert(len(ops) - rng.randrange(2), dict(op='lkd', grad=rng.random() < 0.5, cond=rng.random() < 0.5,
                                                         **gen_t(rng)))
    return {'cfg': cfg, 'ops': vary(rng, ops, 0.3)}


def shrink(plan):
    for k, op in enumerate(plan['ops']):
        for f in ('acc', 'pts'):
            v = op.get(f, [])
            if len(v) > 1 and f == 'acc':
                for a, b in ((0, len(v) // 2), (len(v) // 2, len(v))):
                    p = copy.deepcopy(plan)
                    del p['ops'][k][f][a:b]
                    yield p
                for j in range(len(v)):
                    p = copy.deepcopy(plan)
                    del p['ops'][k][f][j]
                    yield p
    yield from shrink_default(plan)


class Client:
    """The simulated optimiser."""

    def __init__(self, s, op):
        self.s, self.op, self.ctx, self.d = s, op, s.ctx, s.d
        self.n = 0

    def point(self, spec, x0, b):
        lb, ub = np.asarray(b.lb, float), np.asarray(b.ub, float)
        u = np.array(spec['u'][:x0.size])
        if spec['k'] == 'box':
            x = lb + (ub - lb) * u
        elif spec['k'] == 'near':
            x = x0 + (u - 0.5) * 0.6
        elif spec['k'] == 'mid':
            # length scales of the order of the distances between points
            x = x0.copy()
            xs = self.d.scale()[0]
            for j, (name, i, lg) in enumerate(layout(self.d.c)):
                if name == 'theta':
                    v = -1.6 + 2.2 * u[j] - 2 * np.log10(self.d.c['xr'] * xs[i])
                    x[j] = v if lg else 10 ** v
                elif name == 'varK':
                    v = np.log10(max(np.var(self.d.args['fval']) * self.d.scale()[2] ** 2, 1e-20)) + 4 * u[j] - 3
                    x[j] = v if lg else 10 ** v
        else:
            x = np.where(u < 0.3, lb, np.where(u > 0.7, ub, x0 + (u - 0.5) * 0.4))
        return np.minimum(np.maximum(x, lb), ub)

    def direct(self):
        """calc_lkd_all() for hyperparameters of the caller."""
        d, op = self.d, self.op
        h = d.custom_hp(op)
        lay = layout(d.c)
        v = []
        for name, i, lg in lay:
            q = float(h['theta'][i]) if name == 'theta' else float(h[name])
            v.append(np.log10(q) if lg else q)
        if not any(name == 'kernel' for name, _, _ in lay):
            h['kernel'] = d.gp.hp_kernel_default
        hp = d.gp.make_hp_class(**h)
        r = RefLkd(d).at(v, grad=True)
        info, good = d.call(d.gp.calc_lkd_all, hp, calc_cond=op['cond'], calc_grad=op['grad'])
        self.ctx.ev('lkd', good, info.ln_lkd)
        if not good:
            if r is not None and r['cond'] < 1e12:
                raise Violation('not_factorised', f'calc_lkd_all does not factorise a matrix with cond {r["cond"]:.3g}')
            return
        self.compare('f', np.array(v), -info.ln_lkd, r)
        if r is None or r['r'].cond > 1e12:
            return
        if op['grad']:
            # with respect to the hyperparameters, not to their logarithms
            f = np.array([10.0 ** q * np.log(10) if lg else 1.0 for q, (_, _, lg) in zip(v, lay)])
            self.compare('g', np.array(v), -np.array(info.ln_lkd_grad) * f, r)
        if op['cond'] and d.gp.wellcond_mtd != 'precon':
            self.compare('c', np.array(v), info.cond, r)
        yy = r['r'].y
        # closed form of the mean and of the variance
        b = float(np.squeeze(info.hp_beta))
        t = FACTOR * 1e-16 * r['r'].cond * (np.max(np.abs(yy)) + abs(r['beta'])) * r['r'].nd
        if not abs(b - r['beta']) <= t + 1e-300:
            raise Violation('beta', f'the mean is {b!r} but the best one is {r["beta"]!r} (tolerance {t:.3g})')
        if not noisy(d.c):
            w = float(np.squeeze(info.hp_varK))
            t = max(FACTOR * 2 * r['tol'] / r['r'].nd, 1e-10) * r['varK']
            if not abs(w - r['varK']) <= t:
                raise Violation('varK', f'the variance is {w!r} but the best one is {r["varK"]!r} (tolerance {t:.3g})')
        self.ctx.probe('asked_by_the_caller')

    def hook(self, o, fun, x0, k, call):
        d, op = self.d, self.op
        if o != op['call']:
            return call()
        res = call() if op['when'] in ('after', 'only') else None
        x0 = np.array(x0, float)
        ref = RefLkd(d)
        cons = split_constraints(k)
        constrained = d.gp.wellcond_mtd != 'precon'
        if constrained:
            if len(cons) != 1:
                raise Violation('no_constraint', f'the optimiser was given {len(cons)} constraints')
            if not np.all(np.asarray(cons[0].ub) == d.gp.cond_max):
                raise Violation('constraint_limit', f'the limit of the constraint is {cons[0].ub} instead of '
                                f'{d.gp.cond_max}')
        pts = [self.point(p, x0, k['bounds']) for p in op['pts']]
        buf = np.zeros(x0.size)
        cache = {}
        for a in op['acc']:
            if a['p'] >= len(pts):
                continue
            x = pts[a['p']].copy()
            if a['w'] in 'cd' and not constrained:
                continue
            arg = x
            if a.get('buf'):
                buf[...] = x
                arg = buf
            fired = [False]
            if a.get('fail'):
                def la(name, oo, args):
                    if name in ('cho_factor', 'cholesky', 'np.cholesky'):
                        fired[0] = True
                        return mk_exc('LinAlgError')
                d.w.la_hook = la
            try:
                if a['w'] == 'f':
                    v = value_of(fun, k, arg)
                elif a['w'] == 'g':
                    v = jac_of(fun, k, arg)
                elif a['w'] == 'c':
                    v = cons[0].fun(arg)
                else:
                    v = cons[0].jac(arg) if callable(cons[0].jac) else None
            finally:
                d.w.la_hook = None
            v = None if v is None else np.array(v, float)
            if not np.array_equal(arg, x):
                raise Violation('point_changed', 'a request changed the point it was given')
            if fired[0]:
                self.ctx.faults['chol:LinAlgError'] += 1
                continue
            if a['p'] not in cache:
                cache[a['p']] = ref.at(x, grad=True)
            self.compare(a['w'], x, v, cache[a['p']])
        return call() if res is None else res

    def compare(self, w, x, v, r):
        ctx = self.ctx
        if v is None:
            return
        self.ctx.ev(w, v)
        if not np.all(np.isfinite(v)):
            if r is not None and r['cond'] < 1e12:
                raise Violation('not_finite', f'{w} at {x.tolist()} is {v} (cond {r["cond"]:.3g})')
            return
        if r is None or r['r'].cond > 1e12:
            ctx.probe('ill_conditioned')
            return

        def test(name, got, want, tol):
            got, want, tol = np.atleast_1d(got), np.atleast_1d(want), np.atleast_1d(tol)
            if got.shape != want.shape:
                raise Violation(name + '_shape', f'{got.shape} instead of {want.shape}')
            e = np.abs(got - want) / (FACTOR * tol + 1e-100)
            q = float(np.max(e))
            kk = 'worst_' + name
            ctx.stats[kk] = max(ctx.stats[kk], int(1000 * min(q, 1e6)))
            sharp = FACTOR * np.max(tol) < 1e-3 * (1 + np.max(np.abs(want)))
            ctx.probe(name + ('_sharp' if sharp else '_blunt'))
            if not q <= 1:
                raise Violation(name, f'{name} at {x.tolist()} is {got.tolist()} but the exact one is {want.tolist()} '
                                f'(tolerance {(FACTOR * tol).tolist()}, cond {r["cond"]:.3g})')
            self.n += 1
        if w == 'f':
            test('value', -v, r['lkd'], r['tol'])
        elif w == 'g':
            test('gradient', -v, r['grad'], r['gtol'])
        elif w == 'c':
            test('constraint', v, r['cond'], r['cond'] * (1e-13 * r['r'].nd + 2e-16 * r['r'].cond))
        elif w == 'd':
            t = np.array(r['cgtol'])
            if np.any(t > 1e-2 * np.max(np.abs(r['cgrad']))):
                ctx.probe('constraint_gradient_excluded')
                return
            test('constraint_gradient', v, r['cgrad'], t)


def run(plan, ctx):
    s = Session(plan['cfg'], ctx)
    total = 0
    for op in plan['ops']:
        d = s.d
        if op['op'] == 'lkd':
            if d.args is not None:
                cl = Client(s, op)
                cl.direct()
                total += cl.n
            continue
        if op.get('acc') is None:
            s.step(op)
            continue
        if d.args is None or d.i >= s.c['hist']:
            continue
        d.allow_initial()
        cl = Client(s, op)
        d.call(s.gp.set_hpara, 'optz', d.i, min_hook=cl.hook)
        d.i += 1
        s._setup_done(False)
        total += cl.n
        ctx.state('answers', min(cl.n, 12), s.c['wc'], s.c['kernel'], s.c['nf'], s.c['ng'],
                  tuple(sorted(q for q in s.c['opt'] if q.startswith(('lkd', 'cond', 'optz_log', 'b_')))))
    ctx.nontrivial = total >= 5
