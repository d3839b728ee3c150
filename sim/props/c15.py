"""C15: the history of the hyperparameter searches."""
import copy

import numpy as np

from ..core import Ctx, Violation, Skip, same
from ..gpkit import gen_cfg, quirks, hist_of, hp_of, TIMES, POOL
from ..ref import EPS, nugget_base, vreq
from ..search import Recorder, RefLkd, gen_stub, noisy
from ..session import Session, gen_ops, gen_fault, gen_opt, vary
from .common import shrink_default, REAL, STUB

ID = 'C15'
RUNS = {'quick': 800, 'thorough': 17000}
RULE = ('one run = one seeded session with repeated, failed and interrupted iterations, restored hyperparameters, '
        'restarts and a simulated optimiser that reports seeded outcomes; after every call the whole exported history is '
        'compared with a list of rows that the harness keeps; non-trivial: at least two completed searches were judged')
TECHNIQUE = ('deterministic simulation: seeded outcomes of the simulated optimiser, failing factorisations and '
             'interrupts; refinement of a reference model of the history')

NOTE = ('Seeded exploration. Condition numbers are compared within 1e-6 + 100 eps cond; a count or flag is not judged '
        'where the condition number is that close to its limit.')

ASSUMPTIONS = ['searches are made for consecutive iterations; an iteration may be repeated']


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg)
    o = cfg['opt']
    o['optz_iter_max'] = rng.choice([1, 3, 6])
    if rng.random() < 0.4:
        o['lkd_optz_start_mtd'] = 'lhs'
    if rng.random() < 0.3 and cfg['wc'] != 'precon':
        o['cond_max_target'] = rng.choice([1e3, 1e4, 1e6])
        o['cond_max'] = o['cond_max_target'] * rng.choice([1, 1, 1e1, 1e3])
    n = rng.choice([1, 1, 2])
    if rng.random() < 0.3:
        o['hp_const_n_eval'] = rng.choice([1, 2, 3])
    ops = []
    for _ in range(rng.choice([3, 4, 6])):
        ops.append({'op': 'data', 's': rng.choice([0, 0, rng.randrange(POOL)]), 'n': n})
        if rng.random() < 0.2:
            ops[-1]['opt'] = gen_opt(rng)
        op = {'op': 'optz', 'stub': gen_stub(rng, 3, 0.6)}
        if rng.random() < 0.3:
            op['fault'] = gen_fault(rng)
            op['retry'] = rng.random() < 0.6
        ops.append(op)
        ops += [q for q in gen_ops(rng, 3 + rng.choice([0, 1, 2, 3]), faults=0.3, bad=0.3,
                                   extra=(('direct', 1), ('reload', 3), ('report', 2)))[2:] if q['op'] != 'optz']
        q = rng.random()
        if q < 0.25:
            ops.append({'op': 'repeat'})
            if rng.random() < 0.5:
                ops.append({'op': 'data', 's': rng.randrange(POOL), 'n': rng.choice([1, 1, 2, 3])})
            ops.append({'op': 'optz', 'stub': gen_stub(rng, 3, 0.6)})
        n = max(1, min(6, n + rng.choice([-1, 0, 1, 1, 2])))
    ops.append({'op': 'finish'})
    return {'cfg': cfg, 'ops': vary(rng, ops, 0.25)}


def shrink(plan):
    for k, op in enumerate(plan['ops']):
        if op.get('stub'):
            p = copy.deepcopy(plan)
            p['ops'][k]['stub'] = None
            yield p
            for j in range(len(op['stub'])):
                if len(op['stub']) > 1:
                    p = copy.deepcopy(plan)
                    del p['ops'][k]['stub'][j]
                    yield p
    yield from shrink_default(plan)


def unname(h):
    """Keys without the name of the surrogate."""
    pre = next(k[:-len('hp_beta_all')] for k in h if k.endswith('hp_beta_all'))
    return {k[len(pre):]: v for k, v in h.items()}


def cond_at(d, v):
    """Condition number of the reference at a point of the search; the
    linear algebra of the harness is not part of the simulated world."""
    a, d.w.active = d.w.active, False
    try:
        q = RefLkd(d).at(v)
    finally:
        d.w.active = a
    return None if q is None else q['cond']


class Hist(Session):
    def start(self):
        self.now = self.table()
        self.judged = 0

    def table(self):
        return unname(hist_of(self.gp))

    def unchanged(self, what, but=None):
        h = self.table()
        for k, v in self.now.items():
            a, b = v, h[k]
            if but is not None:
                if a.shape != b.shape:
                    raise Violation('row_changed', f'{what} changed the size of {k} from {a.shape} to {b.shape}')
                a, b = np.delete(a, but, 0), np.delete(b, but, 0)
            if not same(a, b):
                raise Violation('row_changed', f'{what} changed {k} from {a.tolist()} to {b.tolist()}')
        self.now = h

    def op_repeat(self, op):
        """The caller makes the last iteration again."""
        if self.d.i == 0:
            raise Skip('repeat')
        self.d.i -= 1
        return 'ok'

    def op_report(self, op):
        if self.d.args is not None and self.d.i:
            self.d.call(self.gp.get_txt_info_surr, save2file=False)
        return 'ok'

    def op_reload(self, op):
        """Another process: an empty history and the exported one."""
        gp, d = self.gp, self.d
        e = d.call(gp.export_data_surr, save2file=False)
        d.call(gp.init_optz_surr, self.c['hist'] + op.get('room', 0))
        h = self.table()
        for k, v in h.items():
            if v.dtype.kind == 'f' and not np.all(np.isnan(v)):
                raise Violation('not_empty', f'{k} of a new history is {v.tolist()}')
        d.call(gp.load_data_surr, e)
        return 'ok'

    def op_finish(self, op):
        d, i = self.d, self.d.i
        d.call(self.gp.finish_optz_surr, i)
        h = self.table()
        for k, v in self.now.items():
            if not same(h[k], v[:i]):
                raise Violation('finish', f'closing the history after {i} iterations gives {k} = {h[k].tolist()} '
                                f'instead of {v[:i].tolist()}')
        self.now = h
        return 'ok'

    def op_optz(self, op):
        d = self.d
        if d.args is None or d.i >= self.c['hist']:
            raise Skip('optz')
        if d.i == 0 and d.n() > self.gp.hp_const_n_eval:
            self.gp.hp_const_n_eval = d.n()
        i = d.i
        box = {}

        def fn(min_hook=None, la_hook=None, **k):
            rec = Recorder(d, op.get('stub'))
            rec.conds, rec.fails = [], []

            def hook(o, fun, x0, kw, call):
                # which starts could be factorised is known at the seam
                q = cond_at(d, x0)
                rec.conds.append(q)
                inner = call
                if min_hook is not None:
                    inner = lambda: min_hook(o, fun, x0, kw, call)
                res = rec.min_hook(o, fun, x0, kw, inner)
                rec.calls[-1]['cond_x'] = cond_at(d, res.x)
                return res
            box['rec'] = rec
            box['injected'] = la_hook is not None
            d.call(self.gp.set_hpara, 'optz', i, min_hook=hook, la_hook=la_hook, lhs_hook=rec.lhs_hook, **k)
        self._nan = False

        def commit(fired):
            d.i = i + 1
            self._setup_done(fired)
            self.judge(i, box['rec'], fired and (op.get('fault') or {}).get('kind') in ('chol', 'la'))
            self.unchanged('a search', but=i)
            self.rows[i] = self.row(i)
        try:
            return self._update(op, fn, commit)
        except ValueError:
            # every outcome of the simulated optimiser was not a number
            if box.get('rec') and any(r['f'] != r['f'] for r in box['rec'].calls):
                self.ctx.probe('all_nan')
                return 'failed'
            raise

    # ---------------------------------------------------------------- judge --
    def judge(self, i, rec, injected):
        d, gp, c = self.d, self.gp, self.c
        h = {k: v[i] for k, v in self.table().items()}
        hp = gp.hp_vals

        def need(name, got, want, tol=0.0):
            want = np.nan if want is None else want
            got, want = np.asarray(got, float), np.asarray(want, float)
            if got.shape != want.shape:
                got, want = np.squeeze(got), np.squeeze(want)
            bad = not same(got, want) if tol == 0 else not (
                np.array_equal(np.isnan(got), np.isnan(want)) and
                np.all(np.abs(np.nan_to_num(got) - np.nan_to_num(want)) <= tol * np.abs(np.nan_to_num(want)) + 1e-300))
            if bad:
                raise Violation('row:' + name, f'row {i} has {name} = {got.tolist()} instead of {want.tolist()}')
        for k in ('beta', 'theta', 'varK', 'var_fval', 'var_fgrad'):
            need(f'hp_{k}_all', h[f'hp_{k}_all'], getattr(hp, k))
        need('hp_kernel_all', h['hp_kernel_all'], hp.kernel)
        # variance of the data
        v = float(np.var(d.args['fval']))
        need('var_fval', h['var_fval'], v, 1e-12)
        need('varK_var_fval', h['varK_var_fval'], float(np.squeeze(hp.varK)) / float(h['var_fval'])
             if h['var_fval'] > 0 else np.nan, 1e-12)
        # conditioning
        r = d.ref()
        cond = r.cond
        tol = 1e-6 + 100 * EPS * cond
        if cond < 1e13:
            need('Kcov_cond_all', h['Kcov_cond_all'], cond, tol)
            self.ctx.probe('cond_judged')
        need('Kcov_cond_at_max_all', float(h['Kcov_cond_at_max_all']),
             float(h['Kcov_cond_all'] >= 0.99 * gp.cond_max))
        xs = d.scale()[0]
        need('xvec_rescaling_all', h['xvec_rescaling_all'],
             np.full(c['dim'], np.nan) if c['wc'] in ('precon', 'base') else xs, 1e-10)
        n = d.n()
        x = d.args['x_eval']
        if n > 1:
            dist = min(float(np.linalg.norm(x[a] - x[b])) for a in range(n) for b in range(a))
            need('vmin_init_all', h['vmin_init_all'], dist, 1e-9)
        need('vmin_req_grad_all', h['vmin_req_grad_all'],
             vreq(n, c['dim']) if c['wc'] == 'rescale_origin' and c['ug'] else np.nan, 1e-9)
        eb, eg = float(h['eta_Kbase_all']), float(h['eta_Kgrad_all'])
        o = c['opt']
        dflt = o.get('cond_eta_set_mtd') == 'dflt_eta'
        need('eta_Kbase_all', eb, o.get('cond_eta_dflt', 1e-8) if dflt else nugget_base(n, gp.cond_max_target), 1e-9)
        if c['ug']:
            need('eta_Kgrad_all', eg, r.eta0, 1e-9)
        need('min_nugget_all', h['min_nugget_all'], eg if c['ug'] else eb)
        # outcome of the search
        names = ('hp_optz_success', 'hp_optz_iter_mean', 'hp_optz_iter_max', 'hp_optz_con_good', 'optz_n_cho_fail_all',
                 'optz_n_cond2big_all', 'optz_max_init_cond_all')
        if not rec.calls:
            for q in names:
                need(q, h[q], np.nan)
            for q in TIMES:
                need(q, h[q], 0.0)
            self.ctx.probe('initial_row')
        else:
            ng = 1 if gp.lkd_optz_start_mtd == 'hp_best' else gp.optz_n_x0
            g, conds = rec.calls[:ng], rec.conds[:ng]
            need('hp_optz_success', h['hp_optz_success'], np.mean([r['ok'] for r in g]))
            need('hp_optz_iter_mean', h['hp_optz_iter_mean'], np.mean([float(r['nit']) for r in g]), 1e-13)
            need('hp_optz_iter_max', h['hp_optz_iter_max'], max(float(r['nit']) for r in g))
            if gp.wellcond_mtd == 'precon':
                need('hp_optz_con_good', h['hp_optz_con_good'], 1.0)
                need('optz_n_cho_fail_all', h['optz_n_cho_fail_all'], 0.0)
                need('optz_n_cond2big_all', h['optz_n_cond2big_all'], 0.0)
                need('optz_max_init_cond_all', h['optz_max_init_cond_all'], np.nan)
            else:
                self.starts(need, h, g, conds, injected)
            self.ctx.probe(f'row_of_{ng}')
        self.judged += 1
        self.ctx.probe('rows_judged')

    def starts(self, need, h, g, conds, injected):
        gp, ctx = self.gp, self.ctx

        def near(q, lim):
            return q is None or abs(q / lim - 1) < 1e-5 + 100 * EPS * q
        # results within the limit, judged with the scaling of the search
        con = []
        for r in g:
            q = r.get('cond_x')
            if q is None or near(q, 1.01 * gp.cond_max):
                con = None
                break
            con.append(q < 1.01 * gp.cond_max)
        if con is not None:
            need('hp_optz_con_good', h['hp_optz_con_good'], np.mean(con))
            ctx.probe('con_good_judged')
        if not any(near(q, gp.cond_max) for q in conds):
            need('optz_n_cond2big_all', h['optz_n_cond2big_all'], float(sum(q > gp.cond_max for q in conds)))
            ctx.probe('cond2big_judged')
        if all(q is not None and q < 1e12 for q in conds):
            need('optz_max_init_cond_all', h['optz_max_init_cond_all'], max(conds), 1e-6 + 100 * EPS * max(conds))
            if not injected:
                need('optz_n_cho_fail_all', h['optz_n_cho_fail_all'], 0.0)
        if injected:
            k = float(h['optz_n_cho_fail_all'])
            if not (0 <= k <= len(g) and k == int(k)):
                raise Violation('row:optz_n_cho_fail_all', f'{k} failures for {len(g)} starts')


def run(plan, ctx):
    s = Hist(plan['cfg'], ctx)
    s.posterior = False
    s.start()
    for op in plan['ops']:
        before = s.judged
        s.step(op)
        if op['op'] == 'finish':
            break
        if s.judged == before and op['op'] != 'optz':
            s.unchanged(f"{op['op']}")
        elif s.judged == before:
            s.unchanged('a search that was not completed')
    ctx.nontrivial = s.judged >= 2
