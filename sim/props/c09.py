"""C09: matrices that the preconditioning method factorises, observed at the
factorisation seam."""
import copy

import numpy as np

from ..core import Violation
from ..gpkit import gen_cfg, quirks, hist_of, POOL
from ..ref import EPS
from ..search import layout, noisy, value_of, jac_of, RefLkd
from ..session import Session, gen_opt, gen_t, vary
from .common import shrink_default, REAL, STUB

ID = 'C09'
RUNS = {'quick': 1200, 'thorough': 16000}
RULE = ('one run = one session with the preconditioning method on seeded (often nearly coinciding) points; the '
        'simulated optimiser visits seeded points of the search box; every matrix that is factorised is inspected; '
        'non-trivial: at least ten matrices of two or more evaluations were inspected')
TECHNIQUE = ('deterministic simulation: seeded visits of the search box by a simulated optimiser; invariant on every '
             'matrix at the factorisation seam')

NOTE = ('Seeded exploration. The eigenvalues are computed in floating point: the smallest is compared with a tolerance '
        'of a few eps times the largest, which matters only for targets near 1e16 (not generated).')

ASSUMPTIONS = ['the nugget is set by the method (cond_eta_set_mtd is not dflt_eta)']


def gen(rng, tier):
    cfg = gen_cfg(rng, ug=True, wc='precon')
    quirks(rng, cfg)
    o = cfg['opt']
    if o.get('cond_eta_set_mtd') == 'dflt_eta':
        del o['cond_eta_set_mtd']
    cfg['near'] = rng.choice([0, 1e-2, 1e-4, 1e-6, 1e-9])
    cfg['dim'] = rng.choice([1, 2, 3, 3, 4, 5])
    if rng.random() < 0.4:
        cfg['nf'] = cfg['ng'] = 'zero'
    if rng.random() < 0.4:
        o['cond_max_target'] = o['cond_max'] = rng.choice([1e3, 1e5, 1e8, 1e12])
    o['cond_eta_is_const'] = rng.random() < 0.75
    o['optz_iter_max'] = rng.choice([1, 3, 10])
    n = rng.choice([1, 1, 2])
    ops = [{'op': 'data', 's': rng.randrange(POOL), 'n': n}, {'op': 'optz'}]
    for _ in range(rng.choice([1, 2, 3])):
        n = min(7, n + rng.choice([0, 1, 1, 2, 3]))
        ops.append({'op': 'data', 's': rng.choice([0, 1, 2, rng.randrange(POOL)]), 'n': n})
        if rng.random() < 0.3:
            ops[-1]['opt'] = gen_opt(rng, ('Kbase_eta', 'Kbase_eta_w_dim'))
        pts = [{'k': rng.choice(['box', 'mid', 'mid', 'iso']), 'u': [round(rng.random(), 4) for _ in range(12)]}
               for _ in range(rng.choice([4, 12]))]
        ops.append({'op': 'optz', 'pts': pts, 'cond': rng.random() < 0.5, 'real': rng.random() < 0.5})
        if rng.random() < 0.4:
            ops.append(dict(op='set', cond=rng.random() < 0.7, **gen_t(rng)))
        if rng.random() < 0.2:
            ops.append({'op': 'stored', 'j': rng.randrange(4), 'cond': rng.random() < 0.7})
    return {'cfg': cfg, 'ops': vary(rng, ops, 0.25)}


def shrink(plan):
    for k, op in enumerate(plan['ops']):
        v = op.get('pts', [])
        if len(v) > 1:
            for a, b in ((0, len(v) // 2), (len(v) // 2, len(v))):
                p = copy.deepcopy(plan)
                del p['ops'][k]['pts'][a:b]
                yield p
    yield from shrink_default(plan)


class Watch:
    def __init__(self, s):
        self.s, self.d, self.gp, self.c, self.ctx = s, s.d, s.gp, s.c, s.ctx
        self.n = 0

    def matrices(self, mats):
        lim = self.gp.cond_max_target
        d = self.d
        nd = d.n() + (d.args['grad'].size if d.args['grad'] is not None else 0)
        if not mats:
            raise Violation('no_matrix', 'a setup or search made no factorisation')
        for A in mats:
            if A.shape != (nd, nd):
                raise Violation('matrix_size', f'a matrix of size {A.shape} was factorised for {nd} data')
            if not np.all(np.isfinite(A)):
                raise Violation('not_finite', 'the factorised matrix has entries that are not finite')
            if np.max(np.abs(A - A.T)) > 1e-10 * np.max(np.abs(A)):
                raise Violation('asymmetric', 'the factorised matrix is not symmetric')
            w = np.linalg.eigvalsh(A)
            q = w[-1] / lim - w[0]
            if d.n() > 1:
                self.n += 1
            k = 'worst_cond_permille'
            if w[0] > 0:
                self.ctx.stats[k] = max(self.ctx.stats[k], int(1000 * w[-1] / w[0] / lim))
            if q > 1e-6 * w[-1] / lim + 60 * EPS * nd * w[-1]:
                raise Violation('ill_conditioned', f'a matrix with eigenvalues from {w[0]:.6g} to {w[-1]:.6g} (condition '
                                f'number {w[-1] / w[0]:.6g}) was factorised, the target is {lim:.6g}')
        self.ctx.probe('matrices', len(mats))

    def nugget(self, eta, what):
        r = self.d.ref_model()
        if not eta > 0:
            raise Violation('nugget', f'the {what} nugget is {eta}')
        if not eta <= r.eta0 * (1 + 1e-9):
            raise Violation('nugget', f'the {what} nugget is {eta}, the documented bound is {r.eta0}')

    def client(self, op):
        d, c = self.d, self.c

        def hook(o, fun, x0, k, call):
            b = k['bounds']
            lb, ub = np.asarray(b.lb, float), np.asarray(b.ub, float)
            for p in op.get('pts', ()):
                u = np.array(p['u'])
                x = lb + (ub - lb) * u[:x0.size]
                if p['k'] != 'box':
                    # correlation lengths of the order of the distances
                    far = np.max(np.ptp(d.args['x_eval'], axis=0)) or 1.0
                    for j, (name, i, lg) in enumerate(layout(c)):
                        if name == 'theta':
                            v = -1.5 + 3 * (u[j] if p['k'] == 'mid' else u[8]) - 2 * np.log10(far)
                            x[j] = v if lg else 10 ** v
                        elif name in ('var_fval', 'var_fgrad') and p['k'] == 'iso':
                            x[j] = lb[j]
                x = np.minimum(np.maximum(x, lb), ub)
                value_of(fun, k, x)
            return call()
        return hook

    def setup(self, op, k):
        """A state-changing call with its matrices and what it reports."""
        s, d, gp = self.s, self.d, self.gp
        mats = []
        kind = op['op']
        if kind == 'optz':
            d.allow_initial()
            if d.i >= self.c['hist']:
                return
            d.call(gp.set_hpara, 'optz', d.i, calc_cond=bool(op.get('cond')), mats=mats, min_hook=self.client(op))
            d.i += 1
            s._setup_done(False)
        elif kind == 'set':
            hp = gp.make_hp_class(**d.custom_hp(op))
            d.call(gp.set_hpara, 'set', max(d.i, 1), hp, calc_cond=bool(op.get('cond')), mats=mats)
            s._setup_done(False)
        else:
            if d.i == 0:
                return
            d.call(gp.set_hpara, 'stored', op['j'] % d.i, calc_cond=bool(op.get('cond')), mats=mats)
            s._setup_done(False)
        self.matrices(mats)
        r = d.ref()
        # the model must use the nugget that keeps the condition number
        tol = 1e-6 + 100 * EPS * r.cond
        if op.get('cond'):
            if gp.condK is None or not abs(gp.condK - r.cond) <= tol * r.cond:
                raise Violation('reported', f'the reported condition number is {gp.condK}, the one of the matrix is {r.cond}')
            self.ctx.probe('reported_checked')
        if not r.cond <= gp.cond_max_target * (1 + tol):
            raise Violation('documented', f'the documented matrix has condition number {r.cond:.6g}, the target is '
                            f'{gp.cond_max_target:.6g}')
        if kind == 'optz':
            h = {q[q.index('_') + 1:] if not q.startswith(('hp_', 'eta', 'Kcov')) else q: v
                 for q, v in hist_of(gp).items()}
            i = d.i - 1
            row = lambda name: next(v[i] for q, v in h.items() if q.endswith(name))
            self.nugget(float(row('eta_Kgrad_all')), 'logged')
            if not abs(row('Kcov_cond_all') - r.cond) <= tol * r.cond:
                raise Violation('logged', f'the logged condition number is {row("Kcov_cond_all")}, the one of the matrix '
                                f'is {r.cond}')
            at = row('Kcov_cond_at_max_all')
            m = r.cond / (0.99 * gp.cond_max)
            if abs(m - 1) > 1e-5 + tol and bool(at) != (m >= 1):
                raise Violation('logged', f'the log says that the condition number {r.cond} is{"" if at else " not"} at '
                                f'its limit {gp.cond_max}')
        self.ctx.ev(kind, [m for m in mats[-3:]], gp.condK)
        self.ctx.state(kind, d.n(), self.c['dim'], self.c['kernel'], self.c['nf'], self.c['ng'], self.c['near'],
                       gp.cond_eta_is_const, gp.cond_max_target)


def run(plan, ctx):
    s = Session(plan['cfg'], ctx)
    w = Watch(s)
    for k, op in enumerate(plan['ops']):
        if op['op'] == 'data':
            s.step(op)
        elif s.d.args is not None:
            w.setup(op, k)
    ctx.nontrivial = w.n >= 10
