"""C05: a run resumed from exported data continues as if never interrupted."""
import copy
import io

import numpy as np

from .. import seams
from ..core import Ctx, Violation, Skip, same
from ..gpkit import gen_alt, gen_cfg, quirks, tight, hp_of, hist_of, same_hp, TIMES, POOL
from ..proc import isolated
from ..session import Session, gen_t, mk_exc, STOP
from .common import REAL, STUB

ID = 'C05'
RUNS = {'quick': 440, 'thorough': 9000}
RULE = ('one run = one optimisation of several iterations (data, search, evaluation, export), once without interruption '
        'and once with processes that crash between or inside operations and resume from the last export; every '
        'process is a fork that never used the package before; non-trivial: at least one restart was compared')
TECHNIQUE = 'deterministic simulation: crash and restart at arbitrary points, refinement of the uninterrupted history'

NOTE = ('Seeded exploration. After a restart the predictions must agree with the original ones within round-off '
        '(20 eps cond), restored hyperparameters bit for bit; continued searches must agree bit for bit.')

ASSUMPTIONS = ['the caller resumes as documented: same options, load, same evaluations, stored hyperparameters',
               'the durability of the exported file itself is the subject of C06']


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg)
    tight(rng, cfg)
    cfg['opt']['optz_iter_max'] = rng.choice([3, 6])
    m = rng.choice([2, 3, 4] if tier == 'quick' else [3, 4, 6])
    n = rng.choice([1, 2, 2, 3])
    its = []
    s = rng.randrange(POOL)
    for i in range(m):
        it = {'s': s, 'n': n, 'extra': []}
        if rng.random() < 0.2:
            it['alt'] = gen_alt(rng)
        for _ in range(rng.choice([0, 0, 1, 2])):
            it['extra'].append(rng.choice([dict(op='set', **gen_t(rng)), {'op': 'stored', 'j': rng.randrange(4)},
                                           {'op': 'eval', 's': rng.randrange(16), 'n': 2, 'grad': True},
                                           {'op': 'current'}, dict(op='custom', **gen_t(rng))]))
        if rng.random() < 0.6:
            it['crash'] = [{'phase': rng.choice(['data', 'optz', 'optz', 'after_optz', 'export', 'extra', 'resume']),
                            'frac': round(rng.random(), 6)} for _ in range(rng.choice([1, 1, 2]))]
        its.append(it)
        n = min(6, n + rng.choice([0, 1, 1, 2]))
    if not any(it.get('crash') for it in its):
        its[-1]['crash'] = [{'phase': 'data', 'frac': 0.5}]
    return {'cfg': cfg, 'its': its, 'via': rng.choice(['dict', 'npz', 'finish']), 'room': rng.choice([0, 0, 3]),
            'save_every': rng.choice([1, 1, 1, 2])}


def shrink(plan):
    its = plan['its']
    for k in range(len(its)):
        if len(its) > 1:
            p = copy.deepcopy(plan)
            del p['its'][k]
            yield p
    for k, it in enumerate(its):
        for j in range(len(it.get('crash', []))):
            p = copy.deepcopy(plan)
            del p['its'][k]['crash'][j]
            yield p
        for j in range(len(it['extra'])):
            p = copy.deepcopy(plan)
            del p['its'][k]['extra'][j]
            yield p
    for k, v in (('via', 'dict'), ('room', 0), ('save_every', 1)):
        if plan[k] != v:
            yield dict(copy.deepcopy(plan), **{k: v})
    from .common import shrink_default
    yield from shrink_default(plan)


class Crash(BaseException):
    """The process is gone."""


def observe(s, x):
    g = s.try_eval(x, True, False)
    h = s.try_eval(x[:1], True, True)
    if isinstance(g, Exception):
        raise g
    return {'hp': hp_of(s.gp), 'eval': [np.array(v) for v in g[:4]],
            'hess': [np.array(v) for v in h] if not isinstance(h, Exception) else 'refused',
            'hist': {k: v for k, v in hist_of(s.gp).items() if not k.endswith(TIMES)}}


def points(s):
    return s.d.pool.xe[[0, 3, 7]].copy()


def iteration(s, it, i, crash=None):
    """One iteration; returns (observation, export)."""
    d = s.d
    x = points(s)
    phase = crash['phase'] if crash else None

    def guarded(op):
        if phase == op['op'] or (phase == 'extra' and op in it['extra']):
            # a crash inside: the line is chosen from a dry run
            orig = d.call
            n = s._measure(lambda **k: _with(s, op, k))[0]
            at = seams.spot(n, crash['frac'])
            exc = mk_exc('SystemExit')

            def call(f, *a, **k):
                return orig(f, *a, at=at, exc=exc, **k)
            d.call = call
            try:
                s.step(op)
            except BaseException:
                pass
            raise Crash()
        return s.step(op)
    guarded({'op': 'data', 's': it['s'], 'n': it['n'], 'alt': it.get('alt')})
    d.i = i
    r = guarded({'op': 'optz'})
    if r != 'ok':
        raise Skip('optz')
    if phase == 'after_optz':
        raise Crash()
    obs = observe(s, x)
    if phase == 'export':
        raise Crash()
    exp = export(s)
    for op in it['extra']:
        guarded(op)
    return obs, exp


def _with(s, op, k):
    orig = s.d.call
    s.d.call = lambda f, *a, **kk: orig(f, *a, **dict(kk, **k))
    try:
        return getattr(s, 'op_' + op['op'])(op)
    finally:
        s.d.call = orig


def export(s):
    return {k: np.array(v) for k, v in s.d.call(s.gp.export_data_surr, save2file=False).items()}


def straight(ctx, plan):
    """The process that is never interrupted."""
    s = Session(plan['cfg'], ctx)
    s.gp.hp_const_n_eval = plan['its'][0]['n'] * s.d.pool.many
    out = []
    for i, it in enumerate(plan['its']):
        out.append(iteration(s, it, i)[0])
    fin = hist_of(s.gp)
    s.gp.finish_optz_surr(len(plan['its']))
    return out, {k: v for k, v in hist_of(s.gp).items() if not k.endswith(TIMES)}


def pack(exp, via, i):
    if exp is None:
        return None
    if via == 'npz':
        b = io.BytesIO()
        np.savez(b, **exp)
        return b.getvalue()
    if via == 'finish':
        return {k: v[:i + 1] for k, v in exp.items()}
    return exp


def unpack(exp):
    if isinstance(exp, bytes):
        with np.load(io.BytesIO(exp)) as z:
            return {k: z[k] for k in z.files}
    return copy.deepcopy(exp)


def process(ctx, plan, start, store, used, want):
    """One process: resumes at iteration `start` from `store`, runs to the
    next crash or the end.  Returns (iterations in the store, store, crashes
    used, history at the end)."""
    cfg = dict(plan['cfg'])
    if store is not None:
        cfg['hist'] = cfg['hist'] + plan['room']
    s = Session(cfg, ctx)
    d = s.d
    s.gp.hp_const_n_eval = plan['its'][0]['n'] * s.d.pool.many
    its = plan['its']
    if store is not None:
        data = unpack(store)
        keep = copy.deepcopy(data)
        d.call(s.gp.load_data_surr, data)
        if not same(data, keep):
            raise Violation('load_changed', 'loading changed the exported data')
        j = start - 1
        h = hist_of(s.gp)
        for k in keep:
            n = j + 1
            if not same(h[k][:n], keep[k][:n]):
                raise Violation('load_differs', f'{k} is {h[k][:n]} after loading {keep[k][:n]}')
        for q in keep:
            if data[q].size:
                data[q][...] = 0        # the loaded data belong to the caller
        s.d.i = start
        s.step({'op': 'data', 's': its[j]['s'], 'n': its[j]['n'], 'alt': its[j].get('alt')})
        d.call(s.gp.set_hpara, 'stored', j)
        d.ready = True
        s.setup_hp = hp_of(s.gp)
        if not same_hp(hp_of(s.gp), want[j]['hp']):
            raise Violation('restored_hp', f'iteration {j} had {want[j]["hp"]} but {hp_of(s.gp)} was restored')
        x = points(s)
        out = d.call(s.gp.eval_model, x, calc_grad=True)
        r = d.check_posterior(out, x, None, 'restored')
        d.check_derivs(out, x, r)
        mu, var, mt, vt = r.predict(x)
        e0 = want[j]['eval']
        if not np.all(np.abs(out[0] - e0[0]) <= 40 * mt) or not np.all(np.abs(out[1] ** 2 - e0[1] ** 2) <= 40 * vt):
            raise Violation('restored_differs', f'before the crash {e0[:2]}, after it {out[:2]}')
        ctx.probe('restored')
        ctx.state('restored', j, sorted(used.items()), plan['via'], cfg['wc'], cfg['kernel'], cfg['nf'], cfg['ng'])
    used = dict(used)
    i = saved = start
    while i < len(its):
        cr = its[i].get('crash', [])
        crash = cr[used.get(i, 0)] if used.get(i, 0) < len(cr) else None
        if crash:
            used[i] = used.get(i, 0) + 1
        if crash and crash['phase'] == 'resume':
            # gone right after resuming
            ctx.faults['crash:after_resume'] += 1
            return saved, store, used, None
        try:
            obs, exp = iteration(s, its[i], i, crash)
        except Crash:
            ctx.faults['crash:' + crash['phase']] += 1
            return saved, store, used, None
        compare(obs, want[i], i)
        ctx.probe('iterations_compared')
        if (i + 1) % plan['save_every'] == 0:
            store = pack(exp, plan['via'], i)
            saved = i + 1
        i += 1
    s.gp.finish_optz_surr(len(its))
    return i, store, used, {k: v for k, v in hist_of(s.gp).items() if not k.endswith(TIMES)}


def compare(obs, want, i):
    if not same_hp(obs['hp'], want['hp']):
        raise Violation('continued_hp', f'iteration {i}: {obs["hp"]} instead of {want["hp"]}')
    for k in ('eval', 'hess'):
        if not same(obs[k], want[k]):
            raise Violation('continued_eval', f'iteration {i}: {obs[k]} instead of {want[k]}')
    for k, v in want['hist'].items():
        if not same(obs['hist'][k][:i + 1], v[:i + 1]):
            raise Violation('continued_history', f'iteration {i}: {k} {obs["hist"][k][:i + 1]} instead of {v[:i + 1]}')


def run(plan, ctx):
    want, fin = isolated(ctx, straight, plan)
    i, store, used = 0, None, {}
    for _ in range(40):
        i, store, used, hist = isolated(ctx, process, plan, i, store, used, want)
        if hist is not None:
            for k, v in fin.items():
                if not same(hist[k], v):
                    raise Violation('final_history', f'{k}: {hist[k]} instead of {v}')
            break
    else:
        raise RuntimeError('too many restarts')
    ctx.nontrivial = ctx.stats['restored'] > 0
