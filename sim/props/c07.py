"""C07: what a completed hyperparameter search returns, for every outcome of
its local optimisations."""
import copy

import numpy as np

from ..core import Violation, same
from ..gpkit import gen_cfg, quirks, hist_of, POOL
from ..ref import EPS
from ..search import (RefLkd, Recorder, gen_stub, layout, noisy, box, to_natural, natural, HISTKEY, RANGE)
from ..session import Session, gen_t, vary
from .common import shrink_default, REAL, STUB

ID = 'C07'
RUNS = {'quick': 1300, 'thorough': 16000}
RULE = ('one run = one session of data updates and searches in which the local optimiser is either the real one or '
        'gives outcomes of the plan (no progress, any feasible or infeasible point, early stop, not a number); '
        'non-trivial: at least one numerical search completed and was judged')
TECHNIQUE = ('deterministic simulation: seeded outcomes of the local optimiser and histories; judged against a '
             'reference likelihood and reference bounds')

NOTE = ('Seeded exploration. The quality of a real local optimisation is not judged, only what is made of its '
        'results. Which re-scaling is kept by the rescaling methods is judged by consistency only.')

ASSUMPTIONS = ['the local optimiser stays within the bounds that it is given (SciPy documents keep_feasible)']
FACTOR = 30.0


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg, 0.25)
    # the likelihood of constant data without noise is the logarithm of zero
    cfg['q'].pop('const', None)
    o = cfg['opt']
    o['optz_iter_max'] = rng.choice([1, 3, 10])
    if rng.random() < 0.5:
        o['lkd_optz_start_mtd'] = 'lhs'
    if rng.random() < 0.1:
        o['optz_mtd'] = 'trust-constr'
        o['optz_iter_max'] = 2
    if rng.random() < 0.3:
        o['hp_box_bound_factor'] = rng.choice([10.0, 1e3])
    if rng.random() < 0.3:
        o['hp_lhs_bound_factor'] = rng.choice([2.0, 1e4])
    if rng.random() < 0.3:
        o['hp_kernel_range'] = rng.choice([[0.1, 5.0], [1.0, 2.5]])
    if rng.random() < 0.2 and cfg['nf'] != 'zero' and 'hp_varK_range' not in o:
        o['hp_varK_range'] = rng.choice([[1e-2, 1e2], [1.0, 3.0]])
    if rng.random() < 0.2 and cfg['nf'] == 'unknown' and 'hp_var_fval_range' not in o:
        o['hp_var_fval_range'] = [1e-3, 1e-1]
    if rng.random() < 0.2 and cfg['ng'] == 'unknown' and 'hp_var_fgrad_range' not in o:
        o['hp_var_fgrad_range'] = [1e-3, 1e-1]
    if rng.random() < 0.3 and cfg['wc'] != 'precon':
        o['cond_max'] = rng.choice([1e2, 1e4])
    n = rng.choice([1, 1, 2])
    ops = [{'op': 'data', 's': rng.randrange(POOL), 'n': n}, {'op': 'optz', 'initial': rng.random() < 0.8}]
    for _ in range(rng.choice([1, 2, 3] if tier == 'quick' else [2, 3, 4])):
        n = min(6, n + rng.choice([0, 1, 1, 2, 3]))
        ops.append({'op': 'data', 's': rng.choice([0, rng.randrange(POOL)]), 'n': n})
        if rng.random() < 0.3:
            ops.append(dict(op='set', **gen_t(rng)))
        if rng.random() < 0.15:
            ops.append({'op': 'stored', 'j': rng.randrange(4)})
        ops.append({'op': 'optz', 'stub': gen_stub(rng, 3, 0.65)})
    return {'cfg': cfg, 'ops': vary(rng, ops, 0.25)}


def shrink(plan):
    for k, op in enumerate(plan['ops']):
        if op.get('stub'):
            for j in range(len(op['stub'])):
                p = copy.deepcopy(plan)
                del p['ops'][k]['stub'][j]
                if not p['ops'][k]['stub']:
                    p['ops'][k]['stub'] = None
                yield p
    yield from shrink_default(plan)


def to_vec(c, nat):
    return np.array([np.log10(x) if lg else x for (_, _, lg), x in zip(layout(c), nat)])


def vec_of(c, hp):
    """The numerically optimised hyperparameters of hp in natural units."""
    out = []
    for name, i, lg in layout(c):
        v = getattr(hp, name)
        out.append(float(np.ravel(v)[i] if name == 'theta' else np.squeeze(v)))
    return np.array(out)


class Judge:
    def __init__(self, s):
        self.s, self.d, self.c, self.gp, self.ctx = s, s.d, s.c, s.gp, s.ctx
        self.ref = RefLkd(s.d)

    # ------------------------------------------------------------ one start --
    def feasible(self, rec):
        """True, False or None (too close to tell)."""
        if self.gp.wellcond_mtd == 'precon':
            return True
        r = rec.get('ref')
        if r is None:
            return False if rec.get('indef') else None
        u = 1e-6 + EPS * r['cond'] * 30
        lim = 1.01 * self.gp.cond_max
        if r['cond'] < lim * (1 - u):
            return True
        if r['cond'] > lim * (1 + u):
            return False
        return None

    def min_hook(self, rec0):
        """Wraps the recorder: reference quantities at the scaling in force."""
        def hook(o, fun, x0, k, call):
            res = rec0.min_hook(o, fun, x0, k, call)
            r = rec0.calls[-1]
            ref = RefLkd(self.d)
            q = ref.at(r['x'])
            r['indef'] = q is None
            r['ref'] = q
            if not self.first:
                self.first = True
                self.judge_candidates(rec0, ref)
            return res
        return hook

    def judge_candidates(self, rec, ref):
        """The sampler was asked for the right candidates and the most likely
        valid one is the start."""
        c, gp = self.c, self.gp
        lo, hi = box(self.d, self.hist, self.i, 'lhs')
        lo, hi = to_vec(c, lo), to_vec(c, hi)
        best_mode = gp.lkd_optz_start_mtd == 'hp_best'
        n = gp.lkd_hp_best_n_eval if best_mode else gp.optz_n_x0
        if lo.size == 1:
            cand = np.linspace(lo[0], hi[0], n + 2)[1:-1, None]
        else:
            if not rec.lhs:
                raise Violation('no_candidates', 'no start was sampled')
            cand = rec.lhs[0]
            if cand.shape != (n, lo.size):
                raise Violation('candidates', f'{cand.shape} candidates instead of {(n, lo.size)}')
            w = hi - lo
            u = 1e-9 * (1 + np.abs(lo) + np.abs(hi))
            if np.any(cand < lo - u) or np.any(cand > hi + u):
                raise Violation('candidates', f'candidates {cand.tolist()} outside of {lo.tolist()}, {hi.tolist()}')
            for j in range(lo.size):
                if w[j] > 1e-6:
                    k = np.sort(np.floor((cand[:, j] - lo[j]) / w[j] * n * (1 - 1e-9)).astype(int))
                    if not np.array_equal(k, np.arange(n)):
                        raise Violation('candidates', f'the candidates of variable {j}, {cand[:, j].tolist()}, do not '
                                        f'fill the range from {lo[j]} to {hi[j]}')
        self.ctx.probe('candidates_judged')
        b = rec.calls[0]['bounds']
        self.cand = np.clip(cand, b.lb, b.ub)
        x0 = rec.calls[0]['x0']
        ks = [k for k in range(n) if np.allclose(self.cand[k], x0, rtol=1e-9, atol=1e-9)]
        if not ks:
            raise Violation('start', f'the search starts at {x0.tolist()}, which is no candidate')
        if not best_mode:
            return
        lim = 1.2 * gp.cond_max
        q = [ref.at(v) for v in cand]

        def valid(r):
            if r is None or r['cond'] > 1e15:
                return False if (r is None or gp.wellcond_mtd != 'precon' and r['cond'] > lim * 1.01) else None
            if gp.wellcond_mtd == 'precon':
                return True
            u = 1e-6 + EPS * r['cond'] * 30
            return True if r['cond'] < lim * (1 - u) else False if r['cond'] > lim * (1 + u) else None
        v = [valid(r) for r in q]
        good = [j for j in range(n) if v[j] is True]
        # candidates outside of the bounds can become the same start
        err = None
        for k in ks:
            try:
                return self.judge_start(k, x0, q, v, good)
            except Violation as e:
                err = e
        raise err

    def judge_start(self, k, x0, q, v, good):
        if good:
            if v[k] is False:
                raise Violation('start_invalid', f'the search starts at {x0.tolist()} with condition number '
                                f'{q[k] and q[k]["cond"]} although there are valid candidates')
            if q[k] is None:
                return
            for j in good:
                t = FACTOR * (q[j]['tol'] + q[k]['tol'])
                if q[j]['lkd'] > q[k]['lkd'] + t:
                    raise Violation('start_not_best', f'the search starts where the likelihood is {q[k]["lkd"]} but '
                                    f'candidate {j} has {q[j]["lkd"]} (tolerance {t:.3g})')
            self.ctx.probe('start_best')
            if len(good) > 1:
                self.ctx.probe('start_best_of_several')
        elif all(x is False for x in v) and all(r is not None for r in q):
            cm = min(r['cond'] for r in q if r is not None)
            if q[k] is not None and cm < 1e13 and q[k]['cond'] > cm * 1.001:
                raise Violation('start_not_best', f'no candidate is valid, and the start has condition number '
                                f'{q[k]["cond"]} instead of {cm}')
            self.ctx.probe('no_valid_candidate')

    # --------------------------------------------------------------- search --
    def search(self, stub):
        d, gp, c = self.d, self.gp, self.c
        i = d.i
        self.i, self.first = i, False
        self.hist = None if i == 0 else hist_of(gp)
        if self.hist is not None:
            self.hist = {'obj_' + k[k.index('hp_'):]: v for k, v in self.hist.items() if '_hp_' in k
                         and k.endswith('_all')}
        rec = Recorder(d, stub)
        try:
            d.call(gp.set_hpara, 'optz', i, min_hook=self.min_hook(rec), lhs_hook=rec.lhs_hook)
        except ValueError:
            if rec.calls and self.all_nan(rec):
                self.ctx.probe('all_nan')
                return False
            raise
        d.i += 1
        self.s._setup_done(False)
        self.judge(rec)
        return True

    def groups(self, rec):
        """The searches of one call: starts of the first, then one each."""
        n = 1 if self.gp.lkd_optz_start_mtd == 'hp_best' else self.gp.optz_n_x0
        g = [rec.calls[:n]]
        g += [[r] for r in rec.calls[n:]]
        return g

    def chosen(self, g):
        """Indices of a group that may be chosen."""
        f = [self.feasible(r) for r in g]
        sure = [j for j in range(len(g)) if f[j] is True]
        may = [j for j in range(len(g)) if f[j] is not False] if (sure or any(x is None for x in f)) \
            else list(range(len(g)))
        if any(x is None for x in f) and not sure:
            may = list(range(len(g)))
        vals = [g[j]['f'] for j in sure if g[j]['f'] == g[j]['f']]
        top = min(vals) if vals else np.inf
        return [j for j in may if g[j]['f'] == g[j]['f'] and g[j]['f'] <= top] \
            if sure else ([j for j in may if g[j]['f'] == g[j]['f']] if None in f else
                          [j for j in may if g[j]['f'] == np.nanmin([r['f'] for r in g])])

    def all_nan(self, rec):
        for g in self.groups(rec):
            f = [self.feasible(r) for r in g]
            q = [r['f'] for r, x in zip(g, f) if x is not False] if any(x is not False for x in f) \
                else [r['f'] for r in g]
            q2 = [r['f'] for r, x in zip(g, f) if x is True]
            if not np.any(np.isfinite(q)) or (q2 and not np.any(np.isfinite(q2))):
                return True
        return False

    def judge(self, rec):
        d, gp, c, ctx = self.d, self.gp, self.c, self.ctx
        hp = gp.hp_vals
        for q, v in vars(hp).items():
            if v is not None and not np.all(np.isfinite(np.asarray(v, float))) and \
                    not (q == 'kernel' and c['kernel'] != 'RatQu'):
                raise Violation('not_finite', f'hyperparameter {q} is {v}')
        if not rec.calls:
            if d.n() > gp.hp_const_n_eval:
                raise Violation('no_search', 'no search was made')
            self.initial(hp)
            return
        if d.n() <= gp.hp_const_n_eval:
            raise Violation('search', f'a search was made for {d.n()} evaluations')
        # bounds and options of each local optimisation
        lo, hi = box(d, self.hist, self.i, 'box')
        lov, hiv = to_vec(c, lo), to_vec(c, hi)
        for r in rec.calls:
            b = r['bounds']
            if b is None or not (np.allclose(b.lb, lov, rtol=1e-9, atol=1e-9)
                                 and np.allclose(b.ub, hiv, rtol=1e-9, atol=1e-9)):
                raise Violation('bounds', f'the search has the bounds {b} instead of {lov.tolist()}, {hiv.tolist()}')
            k = r['k']
            if k.get('method') != gp.optz_mtd:
                raise Violation('method', f'the method is {k.get("method")} instead of {gp.optz_mtd}')
            o = k.get('options', {})
            if o.get('maxiter') != gp.optz_iter_max:
                raise Violation('iterations', f'the limit of iterations is {o.get("maxiter")} instead of '
                                f'{gp.optz_iter_max}')
        g = self.groups(rec)
        nat = vec_of(c, hp)
        resc = 'rescale' in gp.wellcond_mtd and gp.cond_vreq_max_iter > 1 and d.n() > 1
        if resc:
            if len(g) > gp.cond_vreq_max_iter:
                raise Violation('searches', f'{len(g)} searches were made instead of {gp.cond_vreq_max_iter} at most')
        elif len(g) > 1 or len(g[0]) != (1 if gp.lkd_optz_start_mtd == 'hp_best' else gp.optz_n_x0):
            raise Violation('searches', f'{len(rec.calls)} local optimisations were made')
        if gp.lkd_optz_start_mtd != 'hp_best':
            # every start is a different candidate
            for r, v in zip(g[0], self.cand):
                if not np.allclose(r['x0'], v, rtol=1e-9, atol=1e-9):
                    raise Violation('start', f'a search starts at {r["x0"].tolist()} instead of {v.tolist()}')
        ok = False
        fin = d.scale()[0]
        opts = []
        for gr in g:
            for j in self.chosen(gr):
                v = to_natural(c, gr[j]['x'])
                if resc:
                    v = v.copy()
                    xs = gr[j]['scale'][0]
                    dd = c['dim']
                    v[:dd] = v[:dd] * (xs / fin) ** 2
                opts.append(v)
                if np.allclose(v, nat, rtol=1e-8 if resc else 1e-11, atol=0):
                    ok = True
                    sel = gr[j]
        if not ok:
            raise Violation('not_the_best', f'the search returned {nat.tolist()}; its results were '
                            f'{[(to_natural(c, r["x"]).tolist(), r["f"], r["ref"] and r["ref"]["cond"]) for r in rec.calls]}, '
                            f'of which may be chosen {[o.tolist() for o in opts]}')
        # ranges
        if not resc:
            for (name, _, _), x, a, b in zip(layout(c), nat, lo, hi):
                if not a * (1 - 1e-9) <= x <= b * (1 + 1e-9):
                    raise Violation('range', f'{name} = {x} is outside of {a}, {b}')
        feas = [self.feasible(r) for gr in g for r in gr]
        cond = self.closed_form(hp)
        ctx.probe('feasible' if any(feas) else 'infeasible')
        ctx.probe(f'starts_{len(g[0])}')
        if len(g) > 1:
            ctx.probe('several_searches')
        if len(opts) and len(rec.calls) > 1:
            ctx.probe('choices_made')
        lim = 1.01 * gp.cond_max if gp.wellcond_mtd != 'precon' else gp.cond_max_target
        if all(f is True for f in feas) and cond is not None:
            kk = 'worst_cond_permille_' + ('rescaled' if resc else 'plain')
            ctx.stats[kk] = max(ctx.stats[kk], int(min(1000 * cond / lim, 1e9)))
            if c['opt'].get('cond_eta_set_mtd') == 'dflt_eta' and gp.wellcond_mtd == 'precon':
                lim = np.inf     # the caller chose the nugget
            if cond > lim * (1 + 1e-5 + 30 * EPS * cond):
                raise Violation('ill_conditioned', f'the condition number is {cond:.6g}, the limit {lim:.6g}')
        for r in rec.calls:
            self.ctx.faults['outcome:' + ('real' if r['real'] else 'simulated')] += 1
        ctx.state('search', len(rec.calls), len(g), tuple(f for f in feas), c['wc'], c['kernel'], c['nf'], c['ng'],
                  d.n(), gp.lkd_optz_start_mtd)

    def closed_form(self, hp):
        """beta (and varK of noise-free data) at their exact optimum."""
        d, c, ctx = self.d, self.c, self.ctx
        r = d.ref_model()
        al = None if hp.kernel is None else float(np.squeeze(hp.kernel))
        th = np.array(hp.theta, float)
        vK = float(np.squeeze(hp.varK))
        if noisy(c):
            f = [None if x is None else float(np.squeeze(x)) for x in (hp.var_fval, hp.var_fgrad)]
            z = r.loglik_noisy(th, al, vK, *f)
            if z is None:
                return None
            beta, var = z[1], vK
        else:
            z = r.loglik_noisefree(th, al)
            if z is None:
                return None
            _, var, beta, _ = z
        if r.cond > 1e12:
            ctx.probe('closed_form_skipped')
            return r.cond
        st = np.sqrt(th)
        amp = FACTOR * (EPS * r.cond + 10 * EPS * (1 + float(np.max(np.abs(r.X) @ st))
                                                   + float(np.max(np.abs(r.X0 * r.xs) @ st))))
        kh = float(r.h @ r.inv(r.h))
        res = r.y - beta * r.h
        yy = np.sqrt(abs(res @ r.inv(res)) / kh)
        fm = max(float(np.max(np.abs(r.y[:r.n]))), abs(r.oc) * r.os)
        # size of the terms that are added
        sz = max(float(np.abs(r.inv(r.h)) @ np.abs(r.y)) / kh, fm)
        tb = amp * (yy + abs(beta)) + FACTOR * EPS * (sz + fm)
        b = float(np.squeeze(hp.beta))
        ctx.probe('closed_form_judged')
        if not abs(b - beta) <= tb:
            raise Violation('beta', f'the mean is {b} but the optimum is {beta} (tolerance {tb:.3g}, cond {r.cond:.3g})')
        if not noisy(c):
            tv = amp * (var * r.nd + 1e-300) + FACTOR * EPS * (fm ** 2 * kh + sz * abs(res @ r.inv(r.h))) + 2e-32
            e = float(r.y @ r.inv(r.y)) / r.nd
            tv += FACTOR * EPS * e + amp * EPS * e
            # a difference of large values
            tv += 2 * np.sqrt(var * kh / r.nd) * tb + kh * tb ** 2 / r.nd
            if not abs(vK - var) <= tv:
                raise Violation('varK', f'the variance is {vK} but the optimum is {var} (tolerance {tv:.3g}, '
                                f'cond {r.cond:.3g})')
        return r.cond

    def initial(self, hp):
        """The documented initial hyperparameters."""
        d, gp, c = self.d, self.gp, self.c
        f = gp.data_init_2_scl(d.args['fval'], None)[0]
        want = {'theta': gp.hp_theta_init, 'beta': float(np.mean(f)), 'varK': gp.hp_varK_init}
        if c['nf'] == 'unknown':
            want['var_fval'] = gp.hp_var_fval_init
        if c['ug'] and c['ng'] == 'unknown':
            want['var_fgrad'] = gp.hp_var_fgrad_init
        if c['kernel'] == 'RatQu':
            want['kernel'] = gp.hp_kernel_default
        for k, v in want.items():
            if not np.allclose(getattr(hp, k), v, rtol=1e-10, atol=1e-12 * (1 + np.max(np.abs(f)))):
                raise Violation('initial', f'initial hyperparameter {k} is {getattr(hp, k)} instead of {v}')
        self.ctx.probe('initial_judged')


def run(plan, ctx):
    s = Session(plan['cfg'], ctx)
    done = 0
    for op in plan['ops']:
        if op['op'] != 'optz':
            s.step(op)
            continue
        d = s.d
        if d.args is None or d.i >= s.c['hist']:
            continue
        d.allow_initial()
        if Judge(s).search(op.get('stub')):
            done += d.n() > s.gp.hp_const_n_eval
        from ..gpkit import hp_of
        ctx.ev('optz', hp_of(s.gp))
    ctx.nontrivial = done > 0
