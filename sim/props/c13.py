"""C13: evaluating reads only."""
import copy

import numpy as np

from .. import seams, twin
from ..core import Ctx, Violation, Skip, same
from ..gpkit import gen_cfg, quirks, tight, hist_of, hp_of, quiet, POOL
from ..session import Session, gen_ops, gen_t, mk_exc, STOP
from ..threads import Sched, gen_sched
from .common import shrink_default, REAL, STUB

ID = 'C13'
RUNS = {'quick': 700, 'thorough': 18000}
RULE = ('one run = a seeded session with many evaluations in between (some interrupted, some invalid), compared with the '
        'session without them, then a set of evaluation requests one by one, repeated in another order, in batches, and '
        'from several threads that a seeded scheduler switches at executed lines; non-trivial: at least eight '
        'evaluations were compared and control changed between the threads at least three times')
TECHNIQUE = ('deterministic simulation: seeded interleavings of reader threads with interruptions of evaluations; '
             'comparison with the sequential execution and with the session that does not evaluate')

NOTE = ('Seeded exploration of interleavings. Preemption inside compiled library calls is not simulated.')

ASSUMPTIONS = ['no thread changes the surrogate while others evaluate it']


def gen_req(rng):
    k = rng.choice(['eval', 'eval', 'eval', 'var'])
    n = rng.choice([1, 1, 2, 3, 6])
    r = {'k': k, 'idx': [rng.choice([rng.randrange(16), rng.randrange(16), -1 - rng.randrange(4)]) for _ in range(n)],
         'grad': rng.random() < 0.6, 'hess': False, 'form': '2d'}
    if k == 'eval' and rng.random() < 0.3:
        r['idx'], r['hess'], r['grad'] = r['idx'][:1], True, True
    if len(r['idx']) == 1:
        r['form'] = rng.choice(['2d', '1d', 'squeeze', '1dsqueeze'])
    if rng.random() < 0.15 and n > 1:
        r['idx'][-1] = r['idx'][0]
    if rng.random() < 0.12:
        # the likelihood at hyperparameters of the caller
        r = dict(k='lkd', idx=[0], grad=rng.random() < 0.5, hess=False, form='2d', t=gen_t(rng))
        if rng.random() < 0.3:
            r['stop'] = [round(rng.random(), 4), rng.choice(STOP)]
        return r
    q = rng.random()
    if q < 0.2:
        r['stop'] = [round(rng.random(), 4), rng.choice(STOP)]
    elif q < 0.28:
        r['bad'] = rng.choice(['dim', '3d', 'hess', 'many', 'nan', 'empty', 'type'])
    return r


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg, 0.25)
    tight(rng, cfg)
    cfg['opt']['optz_iter_max'] = rng.choice([2, 4])
    ops = gen_ops(rng, rng.choice([3, 4, 6]), faults=0.15, bad=0.1, kinds=('line', 'la', 'chol'), extra=(('direct', 1),))
    ops = [o for o in ops if o['op'] != 'eval']
    ops.append({'op': 'data', 's': rng.randrange(POOL), 'n': rng.choice([1, 2, 3, 5])})
    ops.append(rng.choice([dict(op='set', **gen_t(rng)), {'op': 'optz'}, dict(op='set', **gen_t(rng))]))
    for o in ops:
        o['reads'] = [gen_req(rng) for _ in range(rng.choice([0, 1, 2, 3]))]
    n = rng.choice([2, 2, 3, 4])
    reqs = [gen_req(rng) for _ in range(rng.choice([4, 6, 9]))]
    big = rng.choice([0, 0, 0, rng.choice([17, 33, 40, 65, 101, 130, 260, 520])])
    return {'cfg': cfg, 'ops': ops, 'reqs': reqs, 'n': n, 'big': big, 'seed': rng.randrange(1 << 30),
            'sched': gen_sched(rng, n)}


def shrink(plan):
    for q in ('reqs', 'sched'):
        v = plan[q]
        size = max(1, len(v) // 2)
        while size >= 1:
            for a in range(0, len(v), size):
                p = copy.deepcopy(plan)
                del p[q][a:a + size]
                yield p
            size //= 2
            if len(v) > 40 and size < 4:
                break
    for k, o in enumerate(plan['ops']):
        if o.get('reads'):
            p = copy.deepcopy(plan)
            p['ops'][k]['reads'] = []
            yield p
            for j in range(len(o['reads'])):
                p = copy.deepcopy(plan)
                del p['ops'][k]['reads'][j]
                yield p
    if plan.get('big'):
        p = copy.deepcopy(plan)
        p['big'] = 0
        yield p
    if plan['n'] > 2:
        p = copy.deepcopy(plan)
        p['n'] -= 1
        yield p
    for k, r in enumerate(plan['reqs']):
        for f in ('stop', 'bad'):
            if r.get(f):
                p = copy.deepcopy(plan)
                del p['reqs'][k][f]
                yield p
    for p in shrink_default(plan):
        yield p


class Reader:
    """Evaluates one surrogate with a world of its own."""

    def __init__(self, s):
        self.s = s
        d = copy.copy(s.d)
        d.w = seams.World()
        d.w.clock = seams.Clock([1e-3], [1e-3])
        d.ctx = Ctx()
        self.d = d

    def point(self, i):
        a = self.d.args
        return self.d.pool.xe[i] if i >= 0 else a['x_eval'][(-1 - i) % len(a['x_eval'])]

    def x(self, r):
        x = np.array([self.point(i) for i in r['idx']])
        if r['form'].startswith('1d'):
            x = x[0].copy()
        return x

    def likelihood(self, r, at, exc):
        gp = self.d.gp
        h = self.d.custom_hp(r['t'])
        keep = copy.deepcopy(h)
        try:
            info, good = self.d.call(gp.calc_lkd_all, gp.make_hp_class(**h), calc_cond=True, calc_grad=r['grad'], at=at,
                                     exc=exc)
            out = (good, info.ln_lkd, info.ln_lkd_grad, info.hp_beta, info.hp_varK, info.cond, info.cond_grad)
        except (Violation, Skip):
            raise
        except BaseException as e:
            if self.d.where is None and not isinstance(e, Exception):
                raise
            out = e
        if not all(same(h[k], keep[k]) for k in h):
            raise Violation('points_changed', 'calc_lkd_all changed the hyperparameters it was given')
        return out

    def ask(self, r, x=None, at=None, exc=None):
        """Result, or the error, of one request."""
        gp = self.d.gp
        if r['k'] == 'lkd':
            return self.likelihood(r, at, exc)
        x = self.x(r) if x is None else x
        keep = x.copy()
        k = dict(calc_grad=r['grad'])
        if r['hess']:
            k['calc_hess'] = True
        if r['form'].endswith('squeeze'):
            k['squeeze_nx'] = True
        try:
            out = self.d.call(gp.eval_model_var if r['k'] == 'var' else gp.eval_model, x, at=at, exc=exc, **k)
        except (Violation, Skip):
            raise
        except BaseException as e:
            if self.d.where is None and not isinstance(e, Exception):
                raise
            out = e
        if not same(x, keep):
            raise Violation('points_changed', f'the evaluation {r} changed the points it was given')
        return out

    def bad(self, r):
        x, q = self.x(dict(r, form='2d')), dict(r, form='2d')
        b = r['bad']
        if b == 'dim':
            x = np.hstack([x, x[:, :1]])
        elif b == '3d':
            x = x[None]
        elif b == 'hess':
            q.update(hess=True, grad=False)
        elif b == 'many':
            q.update(hess=True, grad=True)
            x = np.vstack([x, x + 0.1])
        elif b == 'nan':
            x = x.copy()
            x[0, 0] = np.nan
        elif b == 'empty':
            x = x[:0]
        else:
            x = x.astype(object)
            x[0, 0] = None
        d = self.d
        try:
            d.call(d.gp.eval_model_var if q['k'] == 'var' else d.gp.eval_model, x, calc_grad=q['grad'],
                   calc_hess=q['hess'])
        except (Violation, Skip):
            raise
        except Exception:
            return True
        return False

    def read(self, r, lines=None):
        """One read with its fault; what it gives without the fault."""
        if r.get('bad'):
            self.bad(r)
            self.d.ctx.faults['invalid_read:' + r['bad']] += 1
        if r.get('stop') and lines:
            at = 1 + min(int(r['stop'][0] * lines), max(lines - 1, 0))
            exc = mk_exc(r['stop'][1])
            out = self.ask(r, at=at, exc=exc)
            if out is exc:
                self.d.ctx.faults['line:' + r['stop'][1]] += 1
            elif self.d.where is not None:
                raise Violation('swallowed', f'{exc!r} at {self.d.where} was swallowed by an evaluation')
        return self.ask(r)


def snapshot(s):
    """Everything that can be observed without evaluating."""
    gp, d = s.gp, s.d
    o = {'hp': hp_of(gp)}
    if d.i:
        o['history'] = twin.clean(hist_of(gp))
    if d.args is not None:
        with quiet():
            o['data'] = tuple(None if v is None else np.array(v) for v in gp.get_init_eval_data())
            o['scaled data'] = tuple(None if v is None else np.array(v) for v in gp.get_scl_eval_data())
        o['map'] = np.array(gp.x_init_2_scl(d.pool.xe[:3].copy()))
        try:
            o['condition number'] = np.array(gp.condK, dtype=float)
        except (AttributeError, TypeError):
            pass
    return o


def same_snap(a, b, what):
    for k in a:
        if not same(a[k], b.get(k)):
            raise Violation('state_changed', f'{what} changed the {k}: {a[k]} became {b.get(k)}')


def outcome(o):
    return ('error', type(o).__name__) if isinstance(o, BaseException) else tuple(
        None if v is None else np.array(v) for v in o)


def fresh(plan, ctx):
    s = Session(plan['cfg'], ctx)
    s.posterior = False
    return s


def run(plan, ctx):
    rnd = np.random.RandomState(plan['seed'] % (1 << 31))
    a = twin.play(fresh(plan, Ctx()), plan['ops'])
    s = fresh(plan, ctx)
    n_reads = [0]

    def after(k, op):
        for r in op.get('reads', ()):
            if s.d.args is None:
                continue
            rd = Reader(s)
            before = snapshot(s)
            rd.ask(r)
            rd.read(r, rd.d.lines)
            same_snap(before, snapshot(s), f'an evaluation ({r})')
            n_reads[0] += 1
            ctx.faults.update(rd.d.ctx.faults)
    b = twin.play(s, plan['ops'], after=after)
    twin.compare(a, b, 'reads_have_effects', 'evaluations in between')
    ctx.ev([o['result'] for o in b[:-1]], b[-1]['hp'])
    if not s.d.ready or s.dirty or s.maybe:
        raise Skip('not set up')
    reqs = [r for r in plan['reqs']]
    if not reqs:
        return
    # ---- one by one
    rd = Reader(s)
    before = snapshot(s)
    base, lines, handed = [], [], []
    for r in reqs:
        o = rd.ask(r)
        if isinstance(o, BaseException):
            if r['k'] == 'var' and plan['cfg']['wc'] not in ('precon', 'base'):
                ctx.probe('var_refused')
            else:
                raise o
        base.append(outcome(o))
        lines.append(rd.d.lines)
        handed.append(o)
        ctx.ev(r['k'], base[-1])
    # ---- again, in another order, with interrupted and invalid reads
    for j in rnd.permutation(len(reqs)):
        o = outcome(rd.read(reqs[j], lines[j]))
        if not same(o, base[j]):
            raise Violation('not_repeatable', f'request {reqs[j]} first gave {base[j]}, then {o}')
        ctx.probe('repeated')
    # ---- alone and in batches
    ref = s.d.ref()
    for r, o in zip(reqs, base):
        if r['k'] == 'lkd' or o[0] is None or isinstance(o[0], str):
            continue
        batch(s, rd, r, o, ref, ctx)
        if len(r['idx']) > 1:
            p = rnd.permutation(len(r['idx']))
            q = dict(r, idx=[r['idx'][k] for k in p])
            extra = dict(q, idx=q['idx'] + [int(rnd.randint(16))])
            for t in (q, extra):
                batch(s, rd, t, outcome(rd.ask(t)), ref, ctx)
    if plan.get('big'):
        large(s, rd, plan['big'], rnd, ref, ctx)
    # ---- from several threads
    sw = threads(plan, s, reqs, base, lines, ctx)
    for r, o, h in zip(reqs, base, handed):
        if not same(outcome(h), o):
            raise Violation('result_changed', f'the result of {r} that was handed out changed afterwards')
    same_snap(before, snapshot(s), 'evaluating')
    ctx.faults.update(rd.d.ctx.faults)
    ctx.state('readers', plan['cfg']['kernel'], plan['cfg']['wc'], plan['n'], min(sw, 40), min(n_reads[0], 6))
    ctx.nontrivial = ctx.stats['repeated'] + ctx.stats['alone'] >= 8 and sw >= 3


def large(s, rd, n, rnd, ref, ctx):
    """A batch of many points, against the reference and in parts."""
    d, gp = rd.d, rd.d.gp
    lim = 1.3 * s.c['xr']
    x = rnd.uniform(-lim, lim, (n, s.c['dim']))
    for k in (0, n // 2, n - 1):
        x[k] = rd.point(int(rnd.randint(16)))
    keep = x.copy()
    out = d.call(gp.eval_model, x, calc_grad=True)
    if not same(x, keep):
        raise Violation('points_changed', f'an evaluation of {n} points changed them')
    s.d.check_posterior(out, x, ref, tag='large_batch')
    out = d.call(gp.eval_model, x)
    s.d.check_posterior(out, x, ref, tag='large_batch')
    out = d.call(gp.eval_model, x, calc_grad=True)
    k = np.unique(np.concatenate([[0, 1, n // 2, n - 1], rnd.randint(n, size=5), np.arange(n)[31::32],
                                  np.arange(n)[32::32]]))
    # derivatives at some of the positions
    part = tuple(None if v is None else np.asarray(v)[k] for v in out)
    s.d.check_derivs(part, x[k], ref, tag='large_batch')
    ctx.probe('large_batches')
    ctx.probe('points_in_large_batches', n)


def rows(r, o):
    """Result of a request as arrays with one entry per point."""
    if r['form'].endswith('squeeze'):
        return tuple(None if v is None else np.asarray(v)[None] for v in o)
    return o


def batch(s, rd, r, o, ref, ctx):
    o = rows(r, o)
    nd = len(r['idx'])
    dim = s.c['dim']
    shapes = [(nd,), (nd,), (nd, dim), (nd, dim), (nd, dim, dim), (nd, dim, dim)]
    if r['k'] == 'var':
        shapes = [(nd,), (nd, dim), (nd, dim, dim)]
    for v, h in zip(o, shapes):
        if v is not None and v.shape != h:
            raise Violation('shape', f'{r} gives shapes {[None if v is None else v.shape for v in o]}')
    for k, i in enumerate(r['idx']):
        q = dict(r, idx=[i], form='2d')
        one = rd.ask(q)
        if isinstance(one, BaseException):
            raise one
        x = rd.point(i)
        _, _, mt, vt = ref.predict(x[None])
        tol = 40.0
        if r['k'] == 'var':
            var, var1, g, g1 = o[0][k], one[0][0], o[1], one[1]
            mu = mu1 = None
        else:
            mu, mu1, var, var1 = o[0][k], one[0][0], o[1][k] ** 2, one[1][0] ** 2
            g, g1 = o[2], one[2]
            if not abs(mu - mu1) <= tol * mt[0]:
                raise Violation('batch_mean', f'mean of point {i} alone is {mu1!r}, in {r} {mu!r} (tolerance {tol * mt[0]:.3g})')
        if not abs(var - var1) <= tol * vt[0]:
            raise Violation('batch_std', f'variance of point {i} alone is {var1!r}, in {r} {var!r} '
                            f'(tolerance {tol * vt[0]:.3g})')
        ctx.probe('alone')
        if g is None:
            continue
        _, g2, t1, t2 = ref.derivs(x)
        t2 = t2 + 1e-14 * np.abs(g2)
        if r['k'] == 'var':
            pairs = [('gradient of the variance', g[k], g1[0], t2)]
        else:
            pairs = [('gradient of the mean', g[k], g1[0], t1)]
            if o[1][k] > 0 and one[1][0] > 0:
                pairs.append(('gradient of the std', 2 * o[1][k] * o[3][k], 2 * one[1][0] * one[3][0], t2))
        for name, u, v, t in pairs:
            if not np.all(np.abs(u - v) <= tol * t):
                raise Violation('batch_gradient', f'{name} at point {i} alone is {v.tolist()}, in {r} {u.tolist()}')
        if r['hess'] and not (same(o[4][k], one[4][0]) and same(o[5][k], one[5][0])):
            raise Violation('batch_hessian', f'Hessians at point {i} differ: {o[4][k]} and {one[4][0]}')


def threads(plan, s, reqs, base, lines, ctx):
    n = plan['n']
    sched = Sched(plan['sched'])
    rds = [None] * n

    def body(i):
        def f():
            seams.set_world(None)
            rd = rds[i] = Reader(s)
            got = []
            # every reader starts elsewhere, all of them meet the same requests
            for k in range(len(reqs)):
                j = (k + i) % len(reqs)
                if reqs[j]['k'] == 'lkd':
                    continue
                got.append((j, outcome(rd.read(reqs[j], lines[j]))))
                sched.point()
            return got
        return f
    out = sched.run([body(i) for i in range(n)])
    for i, (tag, got) in enumerate(out):
        if tag == 'err':
            raise got
        for j, o in got:
            if not same(o, base[j]):
                raise Violation('concurrent_read', f'request {reqs[j]} in thread {i} of {n} gives {o} instead of {base[j]}')
            ctx.probe('concurrent')
        ctx.faults.update(rds[i].d.ctx.faults)
    ctx.faults['preemption:inside_call'] += sched.inside
    ctx.faults['preemption:between_calls'] += sched.switches - sched.inside
    ctx.ev(sched.switches, sched.inside)
    return sched.switches
