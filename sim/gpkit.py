"""Workload side: configurations, data, and a driver that applies operations
to a GP through its public interface and keeps its own record of what it did."""
import contextlib
import io

import numpy as np

from . import seams
from .core import Violation, Skip, same
from .ref import RefGP

KERNELS = ('SqExp', 'Ma5f2', 'RatQu')
WELL = ('precon', 'base', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax')
LINE_BUDGET = 6_000_000


# ------------------------------------------------------------------ plans --
def gen_cfg(rng, **fix):
    """Swarm: every run draws its own configuration, most knobs at default."""
    c = {'dim': rng.choice([1, 2, 2, 2, 3, 3, 4]),
         'kernel': rng.choice(KERNELS),
         'ug': rng.random() < 0.75,
         'wc': rng.choice(WELL[:2] * 2 + WELL),
         'nf': rng.choice(['zero', 'zero', 'known', 'unknown']),
         'ng': rng.choice(['zero', 'zero', 'known', 'unknown']),
         'mask': rng.random() < 0.3,
         'fun': rng.randrange(5),
         'fs': rng.choice([1.0, 1.0, 1.0, 1e-2, 50.0]),
         'fo': rng.choice([0.0, 0.0, 3.0, -200.0]),
         'xr': rng.choice([1.0, 2.0, 2.0, 5.0]),
         'sn': rng.choice([1e-3, 1e-2, 0.1]),
         'ds': rng.randrange(1 << 30),
         'near': rng.choice([0, 0, 0, 1e-2, 1e-4]),
         'hist': 8,
         'opt': {}}
    o = c['opt']
    o['optz_iter_max'] = rng.choice([3, 6, 10, 20])
    o['lkd_hp_best_n_eval'] = rng.choice([2, 4, 8, 12])
    o['optz_n_x0'] = rng.choice([1, 2, 3])

    def maybe(p, k, vals):
        if rng.random() < p:
            o[k] = rng.choice(vals)
    maybe(0.25, 'lkd_optz_start_mtd', ['lhs'])
    maybe(0.15, 'lkd_use_adj_mtd', [False])
    maybe(0.15, 'lkd_varK_pnlt_use', [True])
    maybe(0.2, 'cond_eta_is_const', [False])
    maybe(0.2, 'cond_eta_set_mtd', ['Kbase_eta_w_dim', 'dflt_eta'])
    maybe(0.25, 'cond_max_target', [1e6, 1e8])
    maybe(0.15, 'optz_log_hp_theta', [False])
    maybe(0.15, 'optz_log_hp_var', [False])
    maybe(0.15, 'optz_log_hp_kernel', [False])
    maybe(0.15, 'b_optz_hp_kernel', [False])
    maybe(0.15, 'hp_theta_init', [1e-1, 1.0])
    maybe(0.15, 'hp_median_n_idx', [1, 2])
    maybe(0.15, 'hp_box_bound_factor', [1e3])
    maybe(0.2, 'hp_theta_range', [[1e-3, 1e2], [1e-2, 1e1]])
    maybe(0.15, 'cond_vreq_max_iter', [1, 2])
    maybe(0.1, 'hp_varK_init', [0.1, 20.0])
    maybe(0.1, 'hp_lhs_bound_factor', [10.0, 1e2])
    maybe(0.1, 'cond_dist_min_dflt', [0.5, 3.0])
    maybe(0.1, 'cond_dist_max_dflt', [2.0, 10.0])
    maybe(0.1, 'vmin_rescale_eta_vary', [0.5, 2.0])
    maybe(0.1, 'hp_var_fval_range', [[1e-6, 1e-1]])
    maybe(0.1, 'hp_var_fgrad_range', [[1e-3, 1e2]])
    if rng.random() < 0.15:
        # cond_max_target <= cond_max
        o['cond_max'] = o.get('cond_max_target', 1e10) * rng.choice([1e1, 1e3])
    c.update(fix)
    return tidy(c)


def quirks(rng, c, p=0.35):
    """Less usual but legitimate data: what the points and values are (dup,
    const, flat, some), how many (dims, big), how they are passed (dtype, nan, col)."""
    q = c['q'] = {}
    if rng.random() > p:
        return c

    def maybe(pr, k, vals):
        if rng.random() < pr:
            q[k] = rng.choice(vals)
    maybe(0.2, 'dup', ['same', 'same', 'value'])
    maybe(0.12, 'const', [1, 2])
    maybe(0.1, 'flat', [1])
    maybe(0.15, 'some', [1])
    maybe(0.1, 'none', [1])
    maybe(0.25, 'dtype', ['f32', 'int', 'f32'])
    maybe(0.25, 'nan', ['all', 'one'])
    maybe(0.15, 'col', [1])
    if rng.random() < 0.15:
        c['dim'] = rng.choice([5, 6])
    elif rng.random() < 0.15:
        q['many'] = rng.choice([2, 3, 3])
    if rng.random() < 0.2:
        c['xr'] = rng.choice([0.02, 60.0])
    if rng.random() < 0.2:
        c['fs'] = rng.choice([1e-6, 1e5])
        c['fo'] = rng.choice([0.0, 30.0 * c['fs']])
    if q.get('dtype') == 'int':
        for k in ('dup', 'const'):
            q.pop(k, None)
    if q.get('dup') == 'value' and c['nf'] == 'zero':
        # two different values at one point are possible for noisy data only
        q['dup'] = 'same'
    if q.get('none') and not c['mask']:
        del q['none']
    if c['wc'] not in ('precon', 'base'):
        # a rescaling needs points and values that can be told apart
        for k in ('dup', 'const'):
            q.pop(k, None)
    return c


def tight(rng, c, p=0.12):
    """Sometimes a limit on the condition number that searches can violate."""
    o = c['opt']
    if rng.random() < p and c['wc'] != 'precon':
        o['cond_max'] = rng.choice([1e1, 1e2, 1e4])
        if rng.random() < 0.4:
            o['lkd_optz_start_mtd'] = 'lhs'
    return c


def gen_alt(rng):
    """Evaluations at the same points that differ in some respect."""
    return rng.choice([{'f': -1}, {'f': 2}, {'mask': 1}, {'mask': 'all'}, {'std': 4}, {'noise': 'zero'}, {'noise': 'known'},
                       {'noise': 'known', 'std': 2}, {'f': 2, 'mask': 1}, {'f': -1, 'noise': 'zero'}])


def canon(a):
    """Arguments of set_data in the plain form that the harness works with."""
    o = {}
    for k, v in a.items():
        if v is None or k == 'bvec_use_grad':
            o[k] = None if v is None else np.array(v)
        else:
            o[k] = np.array(v, dtype=float)
            if k in ('fval', 'std_fval'):
                o[k] = o[k].ravel()
    return o


def tidy(c):
    """Keep a configuration inside the documented input domain."""
    if not c['ug']:
        c['wc'] = 'base'
        c['mask'] = False
    o = c['opt']
    if not o.get('optz_log_hp_theta', True) and 'hp_theta_range' not in o:
        o['hp_theta_range'] = [1e-3, 1e2]
    if c['wc'] in ('dflt_vmin', 'dflt_vmax', 'base') and o.get('cond_eta_set_mtd') == 'dflt_eta':
        o['cond_eta_dflt'] = 1e-8
    if o.get('cond_max_target') and 'cond_max' not in o:
        o['cond_max'] = o['cond_max_target']
    if not o.get('optz_log_hp_var', True):
        o['hp_varK_range'] = [1e-3, 1e4]
        o.setdefault('hp_var_fval_range', [1e-8, 1e2])
        o.setdefault('hp_var_fgrad_range', [1e-8, 1e2])
    return c


# ------------------------------------------------------------------- data --
def fun_val(k, x):
    if k == 0:
        return np.sum(np.sin(1.3 * x) + 0.2 * x ** 2, axis=1)
    if k == 1:
        d = x.shape[1]
        return np.sum((np.arange(d) + 1.0) * x ** 2, axis=1) + x[:, 0]
    if k == 2:
        return np.exp(-0.3 * np.sum(x ** 2, axis=1)) + 0.1 * np.sum(x, axis=1)
    if k == 3:
        s = 0.05 * (1 - x[:, 0]) ** 2
        for i in range(x.shape[1] - 1):
            s = s + 0.3 * (x[:, i + 1] - 0.5 * x[:, i] ** 2) ** 2
        return s
    return np.cos(np.sum(x * 0.7, axis=1)) + 0.3 * x[:, -1]


def fun_grad(k, x):
    d = x.shape[1]
    if k == 0:
        return 1.3 * np.cos(1.3 * x) + 0.4 * x
    if k == 1:
        g = 2 * (np.arange(d) + 1.0) * x
        g[:, 0] += 1
        return g
    if k == 2:
        return -0.6 * x * np.exp(-0.3 * np.sum(x ** 2, axis=1))[:, None] + 0.1
    if k == 3:
        g = np.zeros_like(x)
        g[:, 0] = -0.1 * (1 - x[:, 0])
        for i in range(d - 1):
            t = x[:, i + 1] - 0.5 * x[:, i] ** 2
            g[:, i + 1] += 0.6 * t
            g[:, i] += -0.6 * t * x[:, i]
        return g
    g = np.repeat((-0.7 * np.sin(np.sum(x * 0.7, axis=1)))[:, None], d, axis=1)
    g[:, -1] += 0.3
    return g


POOL = 12           # times the number 'many' of a plan


class Pool:
    """All the evaluations a run can use, from the plan alone."""

    def __init__(self, c):
        d = c['dim']
        q = c.get('q') or {}
        self.many = q.get('many', 1)
        N = POOL * self.many
        r = np.random.RandomState(c['ds'] % (1 << 31))
        x = r.uniform(-1, 1, (N, d)) * c['xr']
        if c['near']:
            for j in (2, 5, 9):
                x[j] = x[j - 1] + c['near'] * c['xr'] * r.uniform(0.5, 1, d)
        dt = q.get('dtype')
        if dt == 'int':
            x = np.round(x * 3)
            x[:, 0] = r.permutation(N) - 5.0
        elif dt == 'f32':
            x = x.astype(np.float32).astype(float)
        if q.get('flat') and d > 1:
            x[:, -1] = x[0, -1]
        if q.get('dup'):
            for j in (1, 4, 8):
                x[j] = x[j - 1]
        f = fun_val(c['fun'], x)
        g = fun_grad(c['fun'], x)
        if q.get('const') == 1:
            f, g = 0 * f, 0 * g
        elif q.get('const') == 2:
            f, g = 0 * f + 1.5, 0 * g
        sf = c['sn'] * r.uniform(0.3, 1.5, N)
        sg = c['sn'] * r.uniform(0.3, 1.5, (N, d))
        if c['nf'] != 'zero':
            f = f + sf * r.standard_normal(N)
        if c['ng'] != 'zero':
            g = g + sg * r.standard_normal((N, d))
        if q.get('dup') == 'same':
            for j in (1, 4, 8):
                f[j], g[j] = f[j - 1], g[j - 1]
        self.x, self.f, self.g = x, f * c['fs'] + c['fo'], g * c['fs']
        self.sf, self.sg = sf * c['fs'], sg * c['fs']
        if q.get('some'):
            # exact and noisy evaluations next to each other
            self.sf[r.uniform(size=N) < 0.5] = 0
            self.sg[r.uniform(size=(N, d)) < 0.5] = 0
        if dt == 'f32':
            for k in ('f', 'g', 'sf', 'sg'):
                setattr(self, k, getattr(self, k).astype(np.float32).astype(float))
        elif dt == 'int':
            # integer values, no two of them equal, with gradients to match
            k = 100 / c['fs']
            self.f = np.round(self.f * k)
            for j in range(1, N):
                while self.f[j] in self.f[:j]:
                    self.f[j] += 1
            self.g, self.sf, self.sg = self.g * k, self.sf * k, self.sg * k
        self.dt = dt
        m = r.uniform(size=N) < 0.6
        m[::4] = True
        self.mask = m
        self.xe = r.uniform(-1.3, 1.3, (16, d)) * c['xr']

    def take(self, c, s, n, alt=None):
        """Arguments of set_data for n points from number s (fresh arrays).
        alt: what is different from the evaluations of the pool."""
        n *= self.many
        alt = alt or {}
        nf, ng = (alt.get('noise', v) if v != 'unknown' else v for v in (c['nf'], c['ng']))
        if (c.get('q') or {}).get('dup') == 'value':
            nf, ng = c['nf'], c['ng']
        i = np.arange(s, s + n) % len(self.x)
        x, f = self.x[i].copy(), self.f[i].copy()
        if 'f' in alt:
            f = c['fo'] * (self.dt != 'int') + alt['f'] * (f - c['fo'] * (self.dt != 'int'))
        sf = {'zero': np.zeros(n), 'known': self.sf[i] * alt.get('std', 1), 'unknown': None}[nf]
        G = sG = bv = None
        if c['ug']:
            G, sG = self.g[i] * alt.get('f', 1), self.sg[i] * alt.get('std', 1)
            if c['mask'] and n > 1 and alt.get('mask') != 'all':
                bv = self.mask[i].copy()
                bv[0] = True
                bv = np.roll(bv, alt.get('mask', 0))
                if (c.get('q') or {}).get('none'):
                    bv[:] = False
                G, sG = G[bv], sG[bv]
            sG = {'zero': np.zeros(G.shape), 'known': sG, 'unknown': None}[ng]
        q = c.get('q')
        if q:
            f, sf, sG = self.form(q, x, f, sf, sG)
            if self.dt == 'int':
                x, f = x.astype(int), f.astype(int)
            elif self.dt == 'f32':
                x, f, sf, G, sG = [None if v is None else v.astype(np.float32) for v in (x, f, sf, G, sG)]
        return dict(x_eval=x, fval=f, std_fval=sf, grad=G, std_grad=sG, bvec_use_grad=bv)


    def form(self, q, x, f, sf, sG):
        if q.get('nan'):
            # unknown noise, given as not-a-number
            if sf is None:
                sf = np.full(f.shape, np.nan)
                if q['nan'] == 'one':
                    sf[1:] = 0.1
        if q.get('col'):
            f = f[:, None]
            sf = sf if sf is None else sf[:, None]
        return f, sf, sG


def quiet():
    if seams.SCHED is not None:         # redirected once for all threads
        return contextlib.nullcontext()
    return contextlib.redirect_stdout(io.StringIO())


def make_gp(c, **kw):
    from gpgradpy.src import GaussianProcess
    gp = GaussianProcess(c['dim'], c['ug'], c['kernel'], c['wc'], **kw)
    for k, v in c['opt'].items():
        if k == 'cond_eta_is_const' and c['wc'] == 'rescale_eta_vary':
            continue
        setattr(gp, k, list(v) if isinstance(v, list) else v)
    # the conditioning constraint is built from cond_max
    gp.set_wellcond_mtd(c['wc'])
    if not c.get('noinit'):             # without it nothing is stored
        gp.init_optz_surr(c['hist'])
    return gp


class Driver:
    """One GP plus the harness's own record of its data and hyperparameters."""

    def __init__(self, c, ctx, pool=None, world=None, **kw):
        self.c, self.ctx = c, ctx
        self.pool = pool or Pool(c)
        self.w = world if world is not None else seams.World()
        if self.w.clock is None:
            self.w.clock = seams.Clock([1e-3, 2e-3, 0.0], [1e-3, 2e-3, 0.0])
        self.kw = kw
        self.gp = make_gp(c, **kw)
        self.args = None          # private copies of the accepted data
        self.ready = False        # a setup was completed for the current data
        self.i = 0                # next row of the history
        self.lines = 0
        self.scan = False         # find the lines that can be interrupted
        self.bare = False         # leave output and error handling of numpy alone

    # ---------------------------------------------------------- operations --
    def call(self, fn, *a, at=None, exc=None, la_hook=None, min_hook=None,
             lhs_hook=None, mats=None, la_budget=None, **k):
        """One operation of the GP under the simulator.  Returns its result;
        an exception of the GP, or an injected one, propagates."""
        w = self.w
        seams.set_world(w)
        cnt = seams.LineCounter(at, exc, LINE_BUDGET, self.scan)
        w.la_ord = w.min_ord = 0
        w.stalls, w.marks = [], []
        w.la_hook, w.min_hook, w.lhs_hook = la_hook, min_hook, lhs_hook
        w.mats, w.la_budget = mats, la_budget
        w.active = True
        t0 = w.clock.t
        try:
            with quiet() if not self.bare else contextlib.nullcontext(), \
                    np.errstate(all='ignore') if not self.bare else contextlib.nullcontext(), seams.LineHook(cnt):
                return fn(*a, **k)
        except seams.NoProgress as e:
            raise Violation('no_progress', str(e))
        finally:
            w.active = False
            self.ctx.sim_time += w.clock.t - t0
            self.elapsed = w.clock.t - t0
            w.la_hook = w.min_hook = w.lhs_hook = w.mats = w.la_budget = None
            self.lines = cnt.n
            if self.scan:
                cnt.close()
                self.spots = cnt.spots
            self.where = cnt.where
            seams.set_world(None)

    def set_data(self, s, n, **k):
        args = self.pool.take(self.c, s, n)
        keep = canon(args)
        self.call(self.gp.set_data, **args, **k)
        self.args, self.ready = keep, False
        return args

    def n(self):
        return 0 if self.args is None else self.args['fval'].size

    def allow_initial(self):
        """The first setup may use the initial hyperparameters only."""
        if self.i == 0 and self.n() > self.gp.hp_const_n_eval:
            self.gp.hp_const_n_eval = self.n()

    def optz(self, **k):
        if self.args is None or self.i >= self.c['hist']:
            raise Skip('optz')
        self.allow_initial()
        self.call(self.gp.set_hpara, 'optz', self.i, **k)
        self.i += 1
        self.ready = True

    def custom_hp(self, t):
        """Hyperparameters for set_hpara('set'), from a few plan numbers."""
        c, gp = self.c, self.gp
        d = c['dim']
        f = self.args['fval']
        lt = [t['lt'] + 0.4 * (((j * 7 + 3) % 5) / 2.0 - 1) for j in range(d)]
        sc = gp.data_init_2_scl(f, None)[0]
        return dict(beta=np.array([float(np.mean(sc)) + t.get('b', 0.0)]),
                    theta=10.0 ** np.array(lt) / c['xr'] ** 2,
                    kernel=(t.get('al', 1.7) if c['kernel'] == 'RatQu' else gp.hp_kernel_default),
                    varK=max(float(np.var(sc)), 1e-3) * t.get('v', 2.0),
                    var_fval=None if c['nf'] != 'unknown' else t.get('vf', 1e-3),
                    var_fgrad=None if (not c['ug'] or c['ng'] != 'unknown') else t.get('vg', 2e-3))

    def set_hp(self, t, **k):
        if self.args is None:
            raise Skip('set')
        hp = self.gp.make_hp_class(**self.custom_hp(t))
        self.call(self.gp.set_hpara, 'set', max(self.i, 1), hp, **k)
        self.ready = True

    def evaluate(self, x, grad=False, hess=False, **k):
        return self.call(self.gp.eval_model, x, calc_grad=grad, calc_hess=hess, **k)

    # ------------------------------------------------------------- oracles --
    def scale(self):
        """The affine maps of the rescaling, through the public interface."""
        gp, d = self.gp, self.c['dim']
        z = gp.x_init_2_scl(np.zeros((1, d)))[0]
        o = gp.x_init_2_scl(np.ones((1, d)))[0]
        xs = o - z
        if self.c['wc'] in ('precon', 'base'):
            return np.ones(d), np.zeros(d), 1.0, 0.0
        xb = self.args['x_eval'][-1]
        fb = self.args['fval'][-1]
        s1 = gp.data_init_2_scl(np.array([0.0]), np.array([1.0]))
        os_ = float(s1[1][0])
        # accurate shifts: the scaled images of the last point are the origin
        xc = xb - gp.x_init_2_scl(xb[None, :])[0] / xs
        oc = fb - float(gp.data_init_2_scl(np.array([fb]))[0][0]) / os_
        return xs, xc, os_, oc

    def ref_model(self):
        """The reference model of the present data and scaling."""
        c, a = self.c, self.args
        xs, xc, os_, oc = self.scale()
        o = c['opt']
        G = a['grad']
        n, d = a['x_eval'].shape
        mask = a['bvec_use_grad']
        return RefGP(c['kernel'], c['wc'] if c['ug'] else 'base', a['x_eval'], a['fval'],
                  None if c['nf'] == 'unknown' else a['std_fval'],
                  G, None if (G is None or c['ng'] == 'unknown') else a['std_grad'],
                  mask, xs, xc, os_, oc,
                  eta_const=(o.get('cond_eta_is_const', True) if c['wc'] != 'rescale_eta_vary' or not c['ug'] else False),
                  cmax=o.get('cond_max_target', 1e10),
                  eta_mtd=o.get('cond_eta_set_mtd', 'Kbase_eta'),
                  eta_dflt=o.get('cond_eta_dflt', 1e-8))

    def ref(self, hp=None):
        hp = self.gp.hp_vals if hp is None else hp
        r = self.ref_model()
        al = hp.kernel
        ok = r.setup(np.array(hp.theta, float), None if al is None else float(np.squeeze(al)),
                     float(np.squeeze(hp.varK)), float(np.squeeze(hp.beta)),
                     None if hp.var_fval is None else float(np.squeeze(hp.var_fval)),
                     None if hp.var_fgrad is None else float(np.squeeze(hp.var_fgrad)))
        if not ok:
            if r.singular:
                raise Skip('numerically singular')
            raise Violation('indefinite', 'the documented regularised matrix is not positive definite')
        return r

    def check_posterior(self, out, x, r=None, tag='posterior', factor=20.0):
        """out = (mu, sig, ...) of eval_model at the rows of x."""
        r = r or self.ref()
        mu, var, mt, vt = r.predict(x)
        m, s = np.asarray(out[0]), np.asarray(out[1])
        if m.shape != mu.shape or s.shape != mu.shape:
            raise Violation(tag + '_shape', f'{m.shape} {s.shape} instead of {mu.shape}')
        if not np.all(np.isfinite(m)) or not np.all(np.isfinite(s)):
            raise Violation(tag + '_nan', f'mu {m} sig {s}')
        if np.any(s < 0):
            raise Violation(tag + '_negstd', f'{s}')
        e1 = np.abs(m - mu) / (factor * mt + 1e-300)
        vv = np.maximum(var, 0)
        e2 = np.abs(s ** 2 - vv) / (factor * vt + 1e-300)
        q = float(max(np.max(e1), np.max(e2)))
        self.ctx.stats['worst_tol_permille'] = max(self.ctx.stats['worst_tol_permille'], int(1000 * q))
        # how sharp the comparison was: tolerance relative to prior std
        sharp = factor * np.max(mt) / np.sqrt(r.varK) * r.os
        self.ctx.probe('sharp' if sharp < 1e-4 else 'blunt')
        if not np.all(e1 <= 1):
            k = int(np.argmax(e1))
            raise Violation(tag + '_mean', f'mean {m[k]!r} but the exact posterior is {mu[k]!r} '
                            f'(tolerance {factor * mt[k]:.3g}, cond {r.cond:.3g})')
        if not np.all(e2 <= 1):
            k = int(np.argmax(e2))
            raise Violation(tag + '_std', f'std {s[k]!r} but the exact posterior is {np.sqrt(vv[k])!r} '
                            f'(variance tolerance {factor * vt[k]:.3g}, cond {r.cond:.3g})')
        return r

    def check_derivs(self, out, x, r, tag='derivative', factor=20.0):
        """Gradients and Hessians of eval_model at the rows of x."""
        mu, sig, dmu, dsig, d2mu, d2sig = out
        n, d = x.shape

        def cmp(name, got, want, tol):
            e = np.abs(np.asarray(got) - want) / (factor * tol + 1e-300)
            q = np.max(e) if np.all(np.isfinite(e)) else np.inf
            self.ctx.stats['worst_derivative_permille'] = max(self.ctx.stats['worst_derivative_permille'],
                                                              int(1000 * min(q, 1e6)))
            if not q <= 1:
                raise Violation(f'{tag}_{name}', f'{name} {np.asarray(got).tolist()} but the exact one is '
                                f'{want.tolist()} (tolerance {(factor * tol).tolist()}, cond {r.cond:.3g})')
        if dmu is not None:
            if np.shape(dmu) != (n, d) or np.shape(dsig) != (n, d):
                raise Violation(tag + '_shape', f'gradients of shape {np.shape(dmu)}, {np.shape(dsig)}')
            for k in range(n):
                g1, g2, t1, t2 = r.derivs(x[k])
                cmp('grad_mean', dmu[k], g1, t1)
                if sig[k] > 0:
                    cmp('grad_std', 2 * sig[k] * np.asarray(dsig[k]), g2, t2 + 1e-14 * np.abs(g2))
                self.ctx.probe('grads_checked')
        if d2mu is not None:
            if np.shape(d2mu) != (n, d, d) or np.shape(d2sig) != (n, d, d):
                raise Violation(tag + '_shape', f'Hessians of shape {np.shape(d2mu)}, {np.shape(d2sig)}')
            for k in range(n):
                h1, h2, t1, t2 = r.second(x[k])
                cmp('hess_mean', d2mu[k], h1, t1)
                if sig[k] > 0:
                    o = 2 * np.outer(dsig[k], dsig[k])
                    cmp('hess_std', 2 * sig[k] * np.asarray(d2sig[k]) + o, h2, t2 + 1e-14 * (np.abs(o) + np.abs(h2)))
                self.ctx.probe('hessians_checked')

    def check_var(self, out, x, r, tag='variance', factor=20.0):
        """Result of eval_model_var(calc_grad=True)."""
        v, dv = out[:2]
        _, var, _, vt = r.predict(x)
        s = np.asarray(v)
        if s.shape != var.shape or not np.all(s >= 0):
            raise Violation(tag + '_shape', f'{s}')
        if not np.all(np.abs(s - np.maximum(var, 0)) <= factor * vt):
            raise Violation(tag + '_value', f'variance {s.tolist()} but the exact one is {var.tolist()}')
        if dv is not None:
            for k in range(len(x)):
                _, g2, _, t2 = r.derivs(x[k])
                if not np.all(np.abs(dv[k] - g2) <= factor * (t2 + 1e-14 * np.abs(g2))):
                    raise Violation(tag + '_grad', f'gradient of the variance {dv[k].tolist()} but the exact one is '
                                    f'{g2.tolist()} (tolerance {(factor * t2).tolist()})')
        self.ctx.probe('variances_checked')


HIST = ('hp_beta_all', 'hp_varK_all', 'hp_var_fval_all', 'hp_var_fgrad_all', 'hp_theta_all', 'hp_kernel_all',
        'min_nugget_all', 'Kcov_cond_all', 'Kcov_cond_at_max_all', 'eta_Kbase_all', 'eta_Kgrad_all',
        'vmin_init_all', 'vmin_req_grad_all', 'xvec_rescaling_all', 'hp_optz_success', 'hp_optz_iter_mean',
        'hp_optz_iter_max', 'hp_optz_con_good', 'optz_n_cho_fail_all', 'optz_n_cond2big_all',
        'optz_max_init_cond_all', 'time_pick_hp0_all', 'time_hp_optz_all', 'time_chofac_all',
        'var_fval', 'varK_var_fval')
TIMES = ('time_pick_hp0_all', 'time_hp_optz_all', 'time_chofac_all')


def hist_of(gp):
    """The exported history (public interface), as plain copies."""
    with quiet():
        d = gp.export_data_surr(save2file=False)
    return {k: np.array(v) for k, v in d.items()}


def hp_of(gp):
    h = gp.hp_vals
    if h is None:
        return None
    return {k: (None if v is None else np.array(v, dtype=float)) for k, v in vars(h).items()}


def same_hp(a, b):
    if a is None or b is None:
        return a is b
    for k in a:
        x, y = a[k], b[k]
        x = np.array(np.nan) if x is None else np.squeeze(x)
        y = np.array(np.nan) if y is None else np.squeeze(y)
        if not same(x, y):
            return False
    return True
