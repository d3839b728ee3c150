"""C19: searches with failing factorisations."""
import copy
import random

import numpy as np

from ..core import Violation, Skip, finite, same
from ..gpkit import gen_cfg, quirks, hist_of, hp_of, POOL
from ..search import Recorder, RefLkd, gen_stub
from ..session import Session, gen_t, dry_lines, vary
from .common import shrink_default, REAL, STUB

ID = 'C19'
RUNS = {'quick': 700, 'thorough': 28000}
RULE = ('one run = one seeded session whose searches meet a seeded pattern of failing Cholesky factorisations (single, '
        'burst, periodic, random, from or up to a point, all, by condition number, only at the trial points, matrices '
        'that really are indefinite); non-trivial: at least one search in which a factorisation failed was judged')
TECHNIQUE = ('deterministic simulation: Cholesky factorisations that fail by seeded patterns and by condition number, '
             'with the real and a simulated optimiser; a bound on the number of factorisations, comparison with the '
             'exact posterior, before/after comparison of the surrogate, retry without faults')

NOTE = ('Seeded exploration. That a search succeeds is only required where failures stay at trial points or above 1.3 '
        'times the limit of the condition number.')

ASSUMPTIONS = ['a factorisation fails with LinAlgError, as LAPACK reports it',
               'matrices below the limit of the condition number can be factorised once the failures stop']

CHOL = ('cho_factor', 'cholesky', 'np.cholesky')
KINDS = ('single', 'burst', 'every', 'random', 'from', 'until', 'all', 'cond', 'cond', 'cond', 'trial', 'trial', 'trial1')


def gen_pat(rng, hard=False):
    k = 'cond' if hard and rng.random() < 0.7 else rng.choice(KINDS)
    p = {'kind': k}
    if k in ('single', 'burst', 'from', 'until'):
        p['frac'] = round(rng.choice([rng.random(), rng.random() ** 4, 1 - rng.random() ** 4]), 6)
    if k == 'burst':
        p['n'] = rng.choice([2, 3, 10, 50])
    if k == 'every':
        p['m'], p['o'] = rng.choice([2, 3, 7]), rng.randrange(7)
    if k in ('random', 'trial'):
        p['p'], p['seed'] = rng.choice([0.03, 0.2, 0.5, 0.9]), rng.randrange(1 << 30)
    if k == 'trial1':
        p['seed'] = rng.randrange(1 << 30)
    if k == 'trial':
        p['where'] = rng.choice(['min', 'start', 'both'])
    if k == 'cond':
        p['T'] = rng.choice([1.3, 1.3, 2.0, 10.0, 100.0])
    return p


def gen(rng, tier):
    cfg = gen_cfg(rng)
    quirks(rng, cfg, 0.25)
    o = cfg['opt']
    o['optz_iter_max'] = rng.choice([3, 6, 10])
    if rng.random() < 0.3:
        o['lkd_optz_start_mtd'] = 'lhs'
    hard = False
    if rng.random() < 0.45:
        # matrices near the limit
        cfg['near'] = rng.choice([1e-2, 1e-3, 1e-4])
        o['cond_max'] = o['cond_max_target'] = rng.choice([1e3, 1e5, 1e6, 1e8])
        hard = True
        if rng.random() < 0.4:
            o['lkd_optz_start_mtd'] = 'lhs'
            o['optz_n_x0'] = rng.choice([2, 3, 4])
        if rng.random() < 0.3:
            cfg['wc'] = 'base'
    if rng.random() < 0.12:
        # factorisations that fail of their own accord
        o.update(cond_eta_set_mtd='dflt_eta', cond_eta_dflt=rng.choice([1e-18, 1e-16, 1e-14]))
        cfg['near'] = rng.choice([1e-5, 1e-7])
    if rng.random() < 0.2:
        o['hp_const_n_eval'] = rng.choice([1, 2])
    n = rng.choice([1, 1, 2])
    ops = [{'op': 'data', 's': 0, 'n': n}, {'op': 'optz'}]
    for _ in range(rng.choice([1, 2, 2, 3])):
        if rng.random() < 0.85:
            n = max(1, min(7, n + rng.choice([0, 1, 1, 2])))
            ops.append({'op': 'data', 's': rng.choice([0, 0, 0, rng.randrange(POOL)]), 'n': n})
            if rng.random() < 0.25:
                ops.append({'op': 'set', **gen_t(rng)})
        op = {'op': 'optz', 'pat': gen_pat(rng, hard), 'stub': gen_stub(rng, 3, 0.25), 'cond': rng.random() < 0.2}
        for q in op['stub'] or ():
            q['kind'] = 'any' if q['kind'] == 'nan' else q['kind']
        ops.append(op)
        if rng.random() < 0.5:
            ops.append({'op': 'eval', 's': rng.randrange(16), 'n': 2, 'grad': rng.random() < 0.5})
    return {'cfg': cfg, 'ops': vary(rng, ops, 0.2)}


def shrink(plan):
    for k, op in enumerate(plan['ops']):
        if op.get('stub'):
            p = copy.deepcopy(plan)
            p['ops'][k]['stub'] = None
            yield p
        if op.get('pat') and op['pat']['kind'] in ('random', 'every', 'trial', 'all'):
            p = copy.deepcopy(plan)
            p['ops'][k]['pat'] = {'kind': 'single', 'frac': 0.5}
            yield p
    yield from shrink_default(plan)


class Failing(Session):
    def start(self):
        self.judged = self.hit = 0

    def op_eval(self, op):
        if self.real_trouble():
            x = self.points(op)
            q = self.try_eval(x, bool(op.get('grad')))
            if not isinstance(q, Exception) and self.d.ready and not finite(q[0], q[1]):
                raise Violation('invalid', 'the surrogate evaluates to values that are not finite')
            return 'evaluated'
        return self.eval_checked(op, self.posterior)

    def view(self):
        """What a caller can see of the surrogate."""
        x = self.d.pool.xe[:3].copy()
        out = None
        if self.d.args is not None:
            out = self.try_eval(x, True)
        return hist_of(self.gp), hp_of(self.gp), type(out).__name__ if isinstance(out, Exception) else out

    def cond(self, a):
        w = np.linalg.eigvalsh.__wrapped__(np.array(a, float))
        return float(w[-1] / w[0]) if w[0] > 0 else np.inf

    def pattern(self, p, n, seen, fired):
        """la_hook of a pattern.  seen: phase, number and the failures."""
        kind = p['kind']
        r = random.Random(p.get('seed', 0))
        at = 1 + min(int(p.get('frac', 0) * n), max(n - 1, 0))
        lim = p.get('T', 0) * self.gp.cond_max
        last = [False]
        pick = 1 + r.randrange(max(seen.get('n_min', 1), 1))

        def la(name, o, a):
            if name not in CHOL:
                return None
            seen['n'] += 1
            k = seen['n']
            if seen['phase'] == 'min':
                seen['m'] += 1
            u = r.random()
            bad = {'single': k == at, 'burst': at <= k < at + p.get('n', 1), 'every': (k + p.get('o', 0)) % p.get('m', 1) == 0,
                   'random': u < p.get('p', 0), 'from': k >= at, 'until': k <= at, 'all': True}.get(kind, False)
            if kind == 'cond':
                bad = self.cond(a[0]) > lim
            elif kind == 'trial':
                w = p.get('where')
                ph = seen['phase']
                bad = u < p['p'] and (ph == 'min' and w != 'start' or ph == 'start' and w != 'min' and not last[0])
            elif kind == 'trial1':
                bad = seen['phase'] == 'min' and seen['m'] == pick
            last[0] = seen['bad'] = bad
            if seen['phase'] == 'start':
                seen['cand'].append(bad)
            if bad:
                seen['fails'].append((seen['phase'], seen['ord']))
                fired[0] = True
                return np.linalg.LinAlgError('injected failure of a factorisation')
        return la

    def op_optz(self, op):
        d, gp, c = self.d, self.gp, self.c
        if d.args is None or d.i >= c['hist']:
            raise Skip('optz')
        d.allow_initial()
        i = d.i
        pat = op.get('pat')
        before = self.view()
        box = {}

        def search(la=None, seen=None):
            rec = Recorder(d, op.get('stub'))
            box['rec'] = rec
            if seen is not None:
                seen.update(n=0, m=0, phase='start', ord=0, fails=[], bad=False, cand=[])

            def hook(o, fun, x0, kw, call):
                if seen is not None:
                    seen['phase'], seen['ord'] = 'min', o
                cond0 = self.cond0(x0)
                try:
                    return rec.min_hook(o, fun, x0, kw, call)
                finally:
                    if seen is not None:
                        seen['phase'] = 'after'
                    if len(rec.calls) == o:
                        rec.calls[-1]['cond0'] = cond0
            d.call(gp.set_hpara, 'optz', i, calc_cond=bool(op.get('cond')), la_hook=la, min_hook=hook,
                   lhs_hook=rec.lhs_hook, la_budget=self.budget())
        fired = [False]
        seen = {}
        la = None
        if pat is not None:
            n, nm = self.measure(search)
            seen['n_min'] = nm
            la = self.pattern(pat, n, seen, fired)
        try:
            search(la, seen)
            err = None
        except (Violation, Skip):
            raise
        except Exception as e:
            err = e
        self.ctx.ev('optz', type(err).__name__, seen.get('n'), seen.get('fails', [])[:50])
        if fired[0]:
            self.ctx.faults['cholesky:' + pat['kind']] += len(seen['fails'])
            self.hit += 1
        if err is not None:
            self.failed(op, err, before, fired, seen, pat, i)
            try:
                search()
            except (Violation, Skip):
                raise
            except Exception:
                if not self.real_trouble():
                    raise
                self.same_as(before)
                self.ctx.probe('indefinite_search')
                return 'failed'
            self.ctx.probe('retried')
        d.i = i + 1
        self._setup_done(False)
        self.rows[i] = self.row(i)
        self.good(i, box['rec'], pat if err is None else None, seen, fired)
        return 'ok' if err is None else 'retried'

    def cond0(self, v):
        a, self.d.w.active = self.d.w.active, False
        try:
            q = RefLkd(self.d).at(v)
        finally:
            self.d.w.active = a
        return None if q is None else q['cond']

    def real_trouble(self):
        return self.c['opt'].get('cond_eta_set_mtd') == 'dflt_eta'

    def budget(self):
        """Calls of linear algebra that one search may take: the optimiser
        makes up to maxiter iterations of at most 30 evaluations of value,
        constraint and their gradients; a handful of calls for each."""
        gp = self.gp
        starts = max(gp.optz_n_x0, 1)
        trials = starts * (gp.optz_iter_max + 2) * 30 + max(gp.lkd_hp_best_n_eval, 1) + 10
        return 60 * trials * (1 + gp.cond_vreq_max_iter) + 2000

    def measure(self, search):
        def probe():
            n, m = [0], [0]
            seen = {}

            def la(name, o, a):
                if name in CHOL:
                    n[0] += 1
                    m[0] += seen.get('phase') == 'min'
            try:
                search(la, seen)
            except BaseException:
                pass
            return n[0], m[0], 0
        return dry_lines(probe)[:2]

    # --------------------------------------------------------------- judge --
    def failed(self, op, err, before, fired, seen, pat, i):
        if not fired[0] and not self.real_trouble():
            raise err
        must = None
        phases = {p for p, _ in seen.get('fails', [])}
        if not self.real_trouble() and fired[0]:
            if pat['kind'] in ('trial', 'trial1') or phases == {'min'}:
                must = 'only trial points could not be factorised'
            elif pat['kind'] == 'cond' and i > 0 and self.c['wc'] == 'precon':
                must = f"only matrices with a condition number above {pat['T']} cond_max could not be factorised"
        if must:
            raise Violation('search_failed', f'{must} ({len(seen["fails"])} of {seen["n"]} failed) but the search ended '
                            f'with {type(err).__name__}: {str(err)[:160]}')
        self.same_as(before)
        self.ctx.probe('failed_search')

    def same_as(self, before):
        now = self.view()
        for a, b, what in zip(before, now, ('history', 'hyperparameters', 'evaluations')):
            if not same(a, b):
                bad = [k for k in a if not same(a[k], b[k])] if isinstance(a, dict) and isinstance(b, dict) else ''
                raise Violation('failed_search_changed', f'a search that failed changed the {what} {bad}')

    def good(self, i, rec, pat, seen, fired):
        d, gp, c = self.d, self.gp, self.c
        hp = gp.hp_vals
        row = {k: v for k, v in self.rows[i]['row'].items()}
        for k, v in hp_of(gp).items():
            if v is not None and not np.all(np.isfinite(v)):
                raise Violation('invalid', f'the search gave {k} = {v.tolist()}')
        if not same(self.rows[i]['hp']['theta'], np.squeeze(np.array(row[[k for k in row if k.endswith('hp_theta_all')][0]])).reshape(np.shape(hp.theta))):
            raise Violation('row', 'the stored hyperparameters are not the ones in use')
        if self.real_trouble():
            # without the nugget a comparison with the exact result is blunt
            q = self.try_eval(d.pool.xe[:3].copy(), True)
            self.posterior = False
            if isinstance(q, Exception):
                self.d.ready = False
                self.ctx.probe('refused_indefinite')
            elif not finite(q[0], q[1]):
                raise Violation('invalid', 'the surrogate evaluates to values that are not finite')
        else:
            x = d.pool.xe[:4].copy()
            out = self.try_eval(x, True)
            if isinstance(out, Exception) and fired[0] and pat is not None and seen['bad']:
                # the last factorisation, that of the chosen point, failed
                if pat['kind'] in ('trial', 'trial1', 'cond') and i > 0 and rec.calls:
                    raise Violation('chosen', f'the point that was chosen could not be factorised ({pat})')
                self.d.ready = False
                self.ctx.probe('refused_after_failure')
                return
            if isinstance(out, Exception):
                raise Violation('not_set_up', f'the search reported success but eval_model raised {out!r}')
            d.check_posterior(out[:2], x)
        if fired[0] and pat is not None:
            self.judged += 1
            self.ctx.probe('survived_' + pat['kind'])
            if pat['kind'] == 'cond' and rec.calls:
                self.by_cond(i, rec, pat, seen, row)

    def by_cond(self, i, rec, pat, seen, row):
        d, gp, c = self.d, self.gp, self.c
        T = pat['T'] * gp.cond_max
        r = d.ref()
        if not self.real_trouble() and r.cond > T * 1.001 + 100 * 2.3e-16 * r.cond * T:
            raise Violation('chosen', f'the hyperparameters that were chosen give a condition number of {r.cond:.4g}; '
                            f'matrices above {T:.4g} could not be factorised')
        self.ctx.probe('chosen_judged')
        q = rec.calls[0].get('cond0')
        if gp.lkd_optz_start_mtd == 'hp_best' and not all(seen['cand']) and q is not None and T > 1e5:
            if q > T * (1 + 1e-4 + 1e-13 * q):
                raise Violation('start', f'the search starts where the condition number is {q:.4g} and the matrix could '
                                f'not be factorised; {seen["cand"].count(False)} of {len(seen["cand"])} candidates could')
            self.ctx.probe('start_judged')
            if any(seen['cand']):
                self.ctx.probe('start_chosen')
        if gp.wellcond_mtd == 'precon':
            return
        ng = 1 if gp.lkd_optz_start_mtd == 'hp_best' else gp.optz_n_x0
        n = 0
        for q in rec.calls[:ng]:
            if q.get('cond0') is None or abs(q['cond0'] / T - 1) < 1e-4:
                return
            n += q['cond0'] > T
        k = [x for x in row if x.endswith('optz_n_cho_fail_all')][0]
        if float(row[k]) != n:
            raise Violation('logged', f'{float(row[k])} failures are logged but {n} of the {ng} starts could not be '
                            'factorised')
        self.ctx.probe('count_judged')
        if n:
            self.ctx.probe('count_positive')


def run(plan, ctx):
    s = Failing(plan['cfg'], ctx)
    s.start()
    for op in plan['ops']:
        s.step(op)
    ctx.nontrivial = s.hit > 0
