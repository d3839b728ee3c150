"""C16: rescaled data under sequences of updates."""
import copy

import numpy as np

from .. import seams
from ..core import Violation, Skip, same
from ..gpkit import gen_cfg, quirks, tight, quiet, POOL
from ..ref import EPS, vreq
from ..session import Session, gen_ops, mk_exc, STOP
from .common import shrink_default, REAL, STUB

ID = 'C16'
RUNS = {'quick': 3000, 'thorough': 40000}
RULE = ('one run = a seeded sequence of updates (some rejected, some interrupted at a seeded line) of one or two '
        'Rescaling objects, or of the rescaling inside a surrogate, where every view is compared with the affine map '
        'after every update; non-trivial: at least three updates were accepted and one was rejected or interrupted, or '
        '(surrogate) two setups were judged')
TECHNIQUE = ('deterministic simulation: seeded sequences of updates with rejections and interrupts at executed lines; '
             'refinement of a reference state and metamorphic relations (round trips, images)')

NOTE = ('Seeded exploration. Values are compared within a few hundred eps of the size of the terms.')

ASSUMPTIONS = ['scales are between 1e-4 and 1e4']


def gen_vec(rng, d, lo=-4, hi=4):
    return [round(rng.uniform(lo, hi), 3) for _ in range(d)]


def gen(rng, tier):
    if rng.random() < 0.3:
        cfg = gen_cfg(rng, ug=True, wc=rng.choice(['rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax']))
        quirks(rng, cfg, 0.25)
        tight(rng, cfg)
        cfg['opt']['optz_iter_max'] = rng.choice([2, 4])
        return {'mode': 'gp', 'cfg': cfg,
                'ops': [o for o in gen_ops(rng, rng.choice([5, 8]), faults=0.4, bad=0.2) if o['op'] != 'eval'],
                'seed': rng.randrange(1 << 30)}
    k = rng.choice([1, 1, 2])
    objs = []
    for _ in range(k):
        objs.append({'n': rng.choice([1, 2, 3, 5]), 'd': rng.choice([1, 2, 2, 3, 4]), 'm': rng.choice([1, 2, 3]),
                     'seed': rng.randrange(1 << 30), 'method': rng.choice(['set_vmin', 'set_vmax', None]),
                     'dist': rng.choice([None, None, 0.5, 3.0]), 'use_shift': rng.random() < 0.7,
                     'best': rng.choice([None, 0]), 'near': rng.choice([0, 0, 1e-3, 1e-6]),
                     'size': rng.choice([1.0, 1.0, 1e-2, 1e3])})
    ops = []
    for _ in range(rng.choice([5, 8, 12])):
        op = {'o': rng.randrange(k), 'op': rng.choice(['x', 'x', 'x', 'obj', 'obj', 'oscl', 'nlc', 'nlc', 'nscl', 'box', 'lin']),
              'seed': rng.randrange(1 << 30), 'shift': rng.random() < 0.5, 'scale': rng.random() < 0.7,
              'use': rng.random() < 0.5, 'meth': rng.random() < 0.5, 'parts': rng.choice([3, 3, 3, 2, 1])}
        q = rng.random()
        if q < 0.2:
            op['bad'] = rng.choice(['size', 'method', 'negative', 'ndim'])
        elif q < 0.45:
            op['stop'] = [round(rng.choice([rng.random(), rng.random() ** 3, 1 - rng.random() ** 3]), 4), rng.choice(STOP)]
            op['retry'] = rng.random() < 0.4
        ops.append(op)
    return {'mode': 'obj', 'objs': objs, 'ops': ops}


def shrink(plan):
    if plan['mode'] == 'gp':
        yield from shrink_default(plan)
        return
    yield from shrink_default({k: v for k, v in plan.items()})
    for k, op in enumerate(plan['ops']):
        for f in ('stop', 'bad'):
            if op.get(f):
                p = copy.deepcopy(plan)
                del p['ops'][k][f]
                yield p
    for j, o in enumerate(plan['objs']):
        for f, v in (('near', 0), ('size', 1.0), ('d', o['d'] - 1), ('n', o['n'] - 1), ('m', 1), ('dist', None)):
            if o[f] != v and (f not in 'dn' or v >= 1):
                p = copy.deepcopy(plan)
                p['objs'][j][f] = v
                yield p
    if len(plan['objs']) > 1 and all(op['o'] == 0 for op in plan['ops']):
        p = copy.deepcopy(plan)
        p['objs'] = p['objs'][:1]
        yield p


def need(kind, got, want, tol, what):
    got, want, tol = np.asarray(got, float), np.asarray(want, float), np.asarray(tol, float)
    if got.shape != want.shape:
        raise Violation(kind + '_shape', f'{what} has the shape {got.shape} instead of {want.shape}')
    fin = np.isfinite(want)
    if not np.array_equal(got[~fin], want[~fin]):
        raise Violation(kind, f'{what} is {got.tolist()} instead of {want.tolist()}')
    t = np.broadcast_to(tol, want.shape)[fin]
    if not np.all(np.abs(got[fin] - want[fin]) <= t):
        raise Violation(kind, f'{what} is {got.tolist()} instead of {want.tolist()} (largest difference '
                        f'{np.max(np.abs(got[fin] - want[fin]))!r}, tolerance {np.max(t)!r})')


U = 200 * EPS


class Map:
    """The affine map of x as it can be observed, and its checks."""

    def __init__(self, to, back, d, shift):
        z, o = to(np.zeros((1, d)))[0], to(np.ones((1, d)))[0]
        self.shift = shift
        # 0 and 1 cancel where the shift is large
        step = 2.0 ** np.ceil(np.log2(1 + np.max(np.abs(shift))))
        o = to(np.full((1, d), step))[0]
        self.scale = (o - z) / step
        self.to, self.back, self.d = to, back, d

    def image(self, x):
        return (x - self.shift) * self.scale

    def tol(self, x):
        return U * (np.abs(x) + np.abs(self.shift) + 1e-300) * self.scale + U * (1 + np.max(np.abs(self.shift))) * self.scale

    def check(self, r, ctx):
        d = self.d
        if not (np.all(np.isfinite(self.scale)) and np.all(self.scale > 0)):
            raise Violation('scale', f'the scale of x is {self.scale.tolist()}')
        x = self.shift + r.uniform(-2, 2, (3, d)) * r.choice([0.1, 1.0, 10.0])
        y = self.to(x.copy())
        need('map', y, self.image(x), self.tol(x), 'the image of x')
        need('round_trip_x', self.back(y.copy()), x, U * (np.abs(x) + np.abs(self.shift) + np.abs(y) / self.scale),
             'x after mapping it forth and back')
        need('map_1d', self.to(x[0].copy()), y[0], 0 * y[0], 'the image of a single point')
        need('map_1d', self.back(y[0].copy()), self.back(y)[0], 0 * y[0], 'the preimage of a single point')
        ctx.probe('maps_judged')


def distances(x):
    n = len(x)
    return [float(np.linalg.norm(x[i] - x[j])) for i in range(n) for j in range(i)]


def required(m, x_scl, method, dist, x):
    """The distance that the method demands is met by the scaled points."""
    if len(x_scl) == 1 or method is None:
        return
    ds = distances(x_scl)
    got = min(ds) if method == 'set_vmin' else max(ds)
    if min(distances(x)) * np.min(m.scale) == 0:
        return
    t = U * (dist + np.max(np.abs(x_scl)) + np.max(np.abs(m.shift) * m.scale))
    need('required_distance', got, dist, t, 'the smallest distance' if method == 'set_vmin' else 'the largest distance')


def views_of_values(m, to, back, os_, oc, r, n, m_out, ctx, kind):
    """Round trips and the chain rule of values, gradients and Hessians.
    m_out: number of constraints (None for the objective)."""
    d = m.d
    tail = () if m_out is None else (m_out,)
    mu = r.uniform(-3, 3, (n,) + tail) / os_ + oc
    sig = r.uniform(0.1, 2, (n,) + tail) / os_
    g, dg = r.uniform(-1, 1, (2, n) + tail + (d,))
    H, dH = r.uniform(-1, 1, (2, n) + tail + (d, d))
    tag = kind + '_'
    want = (mu - oc) * os_
    got = to(mu.copy(), sig.copy(), g.copy(), dg.copy(), H.copy(), dH.copy())
    need(tag + 'value', got[0], want, U * (np.abs(mu) + np.abs(oc)) * os_, f'the scaled {kind}')
    need(tag + 'std', got[1], sig * os_, U * sig * os_, f'the scaled standard deviation of the {kind}')
    sc = os_ / m.scale
    for a, b, q in ((got[2], g, 'gradient'), (got[3], dg, 'gradient of the standard deviation')):
        need(tag + 'gradient', a, b * sc, U * np.abs(b * sc), f'the scaled {q} of the {kind}')
    sh = os_ / (m.scale[:, None] * m.scale[None, :])
    for a, b, q in ((got[4], H, 'Hessian'), (got[5], dH, 'Hessian of the standard deviation')):
        need(tag + 'hessian', a, b * sh, U * np.abs(b * sh), f'the scaled {q} of the {kind}')
    bk = back(*[None if v is None else v.copy() for v in got])
    for a, b, q in zip(bk, (mu, sig, g, dg, H, dH), ('value', 'std', 'gradient', 'gradient of std', 'hessian', 'hessian of std')):
        t = U * (np.abs(b) + (np.abs(oc) + 3 / os_ if q == 'value' else 0))
        need(tag + 'round_trip', a, b, t, f'{q} of the {kind} after mapping it forth and back')
    part = to(mu.copy(), None) if m_out is not None else to(mu.copy())
    if not same(part[0], got[0]) or any(v is not None for v in part[1:]):
        raise Violation(tag + 'partial', f'the scaled {kind} alone is {part}')
    # any selection of the arguments gives the same values, and None for the others
    full = (mu, sig, g, dg, H, dH)
    for fn, vals, ref, name in ((to, full, got, 'to'), (back, got, bk, 'from')):
        sel = r.uniform(size=6) < 0.5
        sel[0] |= m_out is not None
        part = fn(*[v.copy() if s else None for v, s in zip(vals, sel)])
        for i, s in enumerate(sel):
            if (part[i] is None) == s or (s and not same(part[i], ref[i])):
                raise Violation(tag + 'partial', f'{kind}: mapping {name} the scaled problem with arguments given {list(map(bool, sel))}: '
                                f'result {i} is {part[i]} instead of {ref[i] if s else None}')
    ctx.probe(kind + '_views_judged')


class Model:
    """One Rescaling object, the caller's data and what they must look like."""

    def __init__(self, o, ctx):
        from gpgradpy.src.base import Rescaling
        self.o, self.ctx = o, ctx
        r = np.random.RandomState(o['seed'] % (1 << 31))
        n, d = o['n'], o['d']
        x = r.uniform(-1, 1, (n, d)) * o['size'] + r.uniform(-1, 1, d) * o['size']
        if o['near'] and n > 1:
            x[-1] = x[0] + o['near'] * o['size'] * r.uniform(0.5, 1, d)
        self.x, self.keep = x, [(x, x.copy())]
        k = {}
        if o['best'] is not None:
            k['idx_xbest'] = 0
        self.best = 0 if o['best'] is not None else n - 1
        self.R = Rescaling(x, use_x_shift=o['use_shift'], x_scl_method=o['method'], dist_set=o['dist'], **k)
        self.shift = self.dflt_shift()
        self.dir = np.ones(d)
        self.obj = self.nlc = self.box = self.lin = None

    def dflt_shift(self):
        return self.x[self.best].copy() if self.o['use_shift'] else np.zeros(self.o['d'])

    def own(self, *a):
        for v in a:
            if v is not None:
                self.keep.append((v, v.copy()))
        return a

    # ------------------------------------------------------------- requests --
    def request(self, op):
        """(callable of the real object, effect on the model) or None where it
        must be refused."""
        o, R = self.o, self.R
        n, d, m = o['n'], o['d'], o['m']
        r = np.random.RandomState(op['seed'] % (1 << 31))
        bad = op.get('bad')
        k = op['op']
        if k == 'x':
            kw = {}
            sh = self.dflt_shift()
            if op['shift']:
                sh = r.uniform(-1, 1, d) * o['size']
                kw['x_shift_in'] = sh
            dr = np.ones(d)
            if op['scale']:
                dr = 10 ** r.uniform(-2, 2, d)
                kw['xvec_scale_in'] = dr
            if bad:
                if bad in ('size', 'method'):
                    kw['x_shift_in' if r.rand() < 0.5 else 'xvec_scale_in'] = np.ones(d + 1)
                elif bad == 'negative':
                    kw['xvec_scale_in'] = dr * np.where(np.arange(d) == d - 1, r.choice([-1, 0]), 1)
                else:
                    kw['x_shift_in'] = np.ones((1, d))
            self.own(*kw.values())

            def eff():
                self.shift, self.dir = np.array(sh), np.array(dr)
            return (lambda: R.set_xscale_data(**kw)), eff, bool(bad)
        if k == 'obj':
            f = r.uniform(-3, 3, n) * 10 ** r.uniform(-2, 2) + r.choice([0, 0, 30])
            if n > 1 and r.rand() < 0.1:
                f[:] = f[0]
            sf, G, sG = r.uniform(0, 1, n), r.uniform(-1, 1, (n, d)), r.uniform(0, 1, (n, d))
            if op['parts'] < 3:
                sG = None
            if op['parts'] < 2:
                G = sf = None
            meth = 'dflt_max' if op['meth'] else None
            use = op['use']
            if bad == 'method':
                meth = 'max'
            elif bad:
                f = r.uniform(-1, 1, n + 1)
            self.own(f, sf, G, sG)

            def eff():
                fl = f[self.best] if use else 0.0
                sc = None if (meth == 'dflt_max' and n > 1) else 1.0
                self.obj = {'data': (f, sf, G, sG), 'oc': float(fl), 'os': sc}
            return (lambda: R.set_obj_data(f, sf, G, sG, use_obj_shift=use, obj_scl_method=meth)), eff, bool(bad)
        if k == 'oscl':
            if self.obj is None:
                return (lambda: R.set_obj_scaling(1.0, 2.0)), None, True
            a = {}
            if op['shift']:
                a['obj_shift'] = float(r.uniform(-5, 5))
            if op['scale']:
                a['obj_scale'] = float(10 ** r.uniform(-2, 2))

            def eff():
                if 'obj_shift' in a:
                    self.obj['oc'] = a['obj_shift']
                if 'obj_scale' in a:
                    self.obj['os'] = a['obj_scale']
            return (lambda: R.set_obj_scaling(**a)), eff, False
        if k == 'nlc':
            v = r.uniform(-3, 3, (n, m))
            sv, G, sG = r.uniform(0, 1, (n, m)), r.uniform(-1, 1, (n, m, d)), r.uniform(0, 1, (n, m, d))
            if op['parts'] < 3:
                sG = None
            if op['parts'] < 2:
                G = sv = None
            meth = 'obj_scl' if op['meth'] else None
            refuse = bool(bad)
            if meth == 'obj_scl' and self.obj is None and n > 1:
                refuse = True
            if bad == 'method':
                meth = 'obj'
            elif bad == 'ndim':
                v = v[:, 0]
            elif bad:
                v = r.uniform(-3, 3, (n + 1, m))
            use = op['use']
            self.own(v, sv, G, sG)

            def eff():
                self.nlc = {'data': (v, sv, G, sG), 'oc': v[self.best].copy() if use else np.zeros(m),
                            'os': self.os() if meth == 'obj_scl' and n > 1 else 1.0}
            return (lambda: R.set_nlc_data(v, sv, G, sG, use_nlc_shift=use, nlc_scl_method=meth)), eff, refuse
        if k == 'nscl':
            if self.nlc is None:
                return (lambda: R.set_nlc_scaling(np.zeros(m), 2.0)), None, True
            a = {}
            if op['shift']:
                a['nlc_shift'] = r.uniform(-5, 5, m)
            if op['scale']:
                a['nlc_scale'] = float(10 ** r.uniform(-2, 2))
            self.own(a.get('nlc_shift'))

            def eff():
                if 'nlc_shift' in a:
                    self.nlc['oc'] = a['nlc_shift'].copy()
                if 'nlc_scale' in a:
                    self.nlc['os'] = a['nlc_scale']
            return (lambda: R.set_nlc_scaling(**a)), eff, False
        if k == 'box':
            lb = r.uniform(-2, 0, d) * o['size']
            ub = lb + r.uniform(0.5, 3, d) * o['size']
            if r.rand() < 0.2:
                lb[0] = -np.inf
            bad = bad and d > 1
            if bad:
                # cannot be combined with the shift of the points
                lb = np.zeros(d + 2)
            self.own(lb, ub)

            def eff():
                self.box = (lb, ub)
            return (lambda: R.set_boxcon(lb, ub)), eff, bool(bad)
        A = r.uniform(-1, 1, (m, d))
        c = A @ self.x[0]
        lb, ub = c - r.uniform(0, 2, m), c + r.uniform(0, 2, m)
        if r.rand() < 0.2:
            ub[0] = np.inf
        if bad:
            A = np.ones((m, d + 1))
        self.own(A, lb, ub)

        def eff():
            self.lin = (A, lb, ub)
        return (lambda: R.set_lincon(A, lb, ub)), eff, bool(bad)

    def os(self):
        """Scale of the objective: the one of the method is observed."""
        if self.obj['os'] is None:
            a = self.R.obj_init_2_scl(np.array([0.0, 1.0]))[0]
            f = self.obj['data'][0]
            sc = float(self.R.obj_init_2_scl(np.array([self.obj['oc'], self.obj['oc'] + 2.0 ** np.ceil(np.log2(1 + abs(self.obj['oc'])))]))[0] @ [-1, 1]
                       ) / 2.0 ** np.ceil(np.log2(1 + abs(self.obj['oc'])))
            rng_ = max(float(np.max(f) - np.min(f)), 1e-20)
            need('objective_scale', sc, 100 / rng_, U * 100 / rng_ * (1 + np.max(np.abs(f)) / rng_), 'the scale of the objective')
            self.obj['os'] = sc
        return self.obj['os']

    # --------------------------------------------------------------- checks --
    def check(self, r):
        R, o = self.R, self.o
        n, d = o['n'], o['d']
        for v, k in self.keep:
            if not same(v, k):
                raise Violation('original_changed', f'data of the caller changed from {k.tolist()} to {v.tolist()}')
        if R.get_init_x() is not self.x and not same(R.get_init_x(), self.x):
            raise Violation('original_changed', f'get_init_x gives {R.get_init_x()}')
        m = Map(R.x_init_2_scl, R.x_scl_2_init, d, self.shift)
        m.check(r, self.ctx)
        q = m.scale / self.dir
        need('direction', q / q[0], np.ones(d), 20 * U, 'the ratio of scale and requested scale')
        xs = R.get_scl_x()
        need('scaled_x', xs, m.image(self.x), m.tol(self.x), 'the scaled points')
        x2, rt = R.get_scl_x_w_dist()
        if not same(x2, xs):
            raise Violation('scaled_x', f'two views of the scaled points differ: {x2.tolist()}, {xs.tolist()}')
        diff = np.array([xs[:, [i]] - xs[:, [i]].T for i in range(d)])
        need('distances', rt, diff, U * (np.abs(diff) + np.max(np.abs(xs)) * 1e-3), 'the table of differences')
        if o['method'] is None or n == 1:
            need('scale_free', m.scale, self.dir, U * self.dir * (1 + 10), 'the scale of x')
        required(m, xs, o['method'], o['dist'] if o['dist'] is not None else 1.0, self.x)
        l = float(r.uniform(0.1, 3))
        s = R.dist_init_2_scl(l)
        need('distance', s, l * np.mean(m.scale), U * s * 10, 'a scaled distance')
        need('distance', R.dist_scl_2_init(s), l, U * l * 10, 'a distance after mapping it forth and back')
        if self.obj:
            oc, os_ = self.obj['oc'], self.os()
            self.data('objective', m, self.obj, os_, oc, R.get_init_obj_data(), R.get_scl_obj_data())
            views_of_values(m, R.obj_init_2_scl, R.obj_scl_2_init, os_, oc, r, 1, None, self.ctx, 'objective')
        if self.nlc:
            oc, os_ = self.nlc['oc'], self.nlc['os']
            self.data('constraint', m, self.nlc, os_, oc, R.get_init_nlc_data(), R.get_scl_nlc_data())
            views_of_values(m, R.nlc_init_2_scl, R.nlc_scl_2_init, os_, oc, r, n, o['m'], self.ctx, 'constraint')
        p = self.shift + r.uniform(-3, 3, (6, d)) * o['size']
        ps = R.x_init_2_scl(p)
        if self.box:
            lb, ub = self.box
            if not same(R.get_init_boxcon()[0], lb) or not same(R.get_init_boxcon()[1], ub):
                raise Violation('bounds', 'the original bounds are not those that were set')
            ls, us = R.get_scl_boxcon()
            for a, b, g in ((lb, ls, 1), (ub, us, -1)):
                want = (p - a) * g * m.scale
                need('bounds', (ps - b) * g, want, m.tol(p) + m.tol(np.where(np.isfinite(a), a, 0)), 'the distance of a scaled point to its bound')
            self.ctx.probe('bounds_judged')
        if self.lin:
            A, lb, ub = self.lin
            z = R.get_init_lincon()
            if not all(same(u, v) for u, v in zip(z, self.lin)):
                raise Violation('linear', 'the original linear constraints are not those that were set')
            As, ls, us = R.get_scl_lincon()
            t = U * (np.abs(p) @ np.abs(A).T + np.abs(A) @ np.abs(self.shift)
                     + np.max(np.abs(np.where(np.isfinite(lb), lb, 0))) + np.max(np.abs(np.where(np.isfinite(ub), ub, 0)))) * 10
            for a, b in ((lb, ls), (ub, us)):
                need('linear', ps @ As.T - b, p @ A.T - a, t, 'the residual of a scaled linear constraint')
            self.ctx.probe('linear_judged')

    def data(self, kind, m, rec, os_, oc, init, scl):
        for a, b, q in zip(init, rec['data'], ('values', 'standard deviations', 'gradients', 'standard deviations of gradients')):
            if (a is None) != (b is None) or not same(a, b):
                raise Violation('original_changed', f'the original {q} of the {kind} are {a} instead of {b}')
        f, sf, G, sG = rec['data']
        need(kind + '_data', scl[0], (f - oc) * os_, U * (np.abs(f) + np.abs(oc)) * os_, f'the scaled values of the {kind}')
        for k, (a, s) in enumerate(((sf, os_), (G, os_ / m.scale), (sG, os_ / m.scale))):
            if a is None:
                if scl[k + 1] is not None:
                    raise Violation(kind + '_data', f'there are scaled data of the {kind} without original ones')
                continue
            need(kind + '_data', scl[k + 1], a * s, U * np.abs(a * s), f'the scaled data (entry {k + 1}) of the {kind}')


def call(fn, at=None, exc=None, scan=False):
    c = seams.LineCounter(at, exc, 200000, scan)
    with np.errstate(all='ignore'), quiet(), seams.LineHook(c):
        try:
            return fn()
        finally:
            c.close()
            call.spots, call.where = c.spots, c.where


def run_objects(plan, ctx):
    ms = [Model(o, ctx) for o in plan['objs']]
    r = np.random.RandomState(7)
    good = odd = 0
    for m in ms:
        m.check(r)
    for op in plan['ops']:
        m = ms[op['o'] % len(ms)]
        fn, eff, refuse = m.request(op)
        if refuse:
            try:
                call(fn)
            except Exception:
                odd += 1
                ctx.faults['rejected:' + op['op']] += 1
            else:
                raise Violation('accepted', f'an invalid update was accepted: {op}')
        elif op.get('stop'):
            # dry run on a copy of the object
            R = m.R
            c = copy.copy(R)
            m.R = c
            call(m.request(op)[0], scan=True)
            n = call.spots
            m.R = R
            fn, eff, _ = m.request(op)
            exc = mk_exc(op['stop'][1])
            try:
                call(fn, seams.spot(n, op['stop'][0]), exc)
                if call.where:
                    raise Violation('swallowed', f'{exc!r} at {call.where} was swallowed')
                eff()
                good += 1
            except Violation:
                raise
            except BaseException as e:
                if e is not exc:
                    raise
                odd += 1
                ctx.faults['line:' + op['stop'][1]] += 1
                if op.get('retry'):
                    call(fn)
                    eff()
                    good += 1
        else:
            call(fn)
            eff()
            good += 1
        for x in ms:
            with np.errstate(all='ignore'):
                x.check(r)
        ctx.ev(op['op'], m.R.get_scl_x(), m.shift)
        ctx.state('update', op['op'], op.get('bad'), bool(op.get('stop')), m.o['method'], m.obj is None, m.nlc is None,
                  m.box is None, m.lin is None)
    ctx.nontrivial = good >= 3 and odd >= 1


class GPModel:
    """The rescaling inside of a surrogate."""

    def __init__(self, s):
        self.s = s

    def check(self, r, ctx):
        s = self.s
        gp, d, c = s.gp, s.d, s.c
        a = d.args
        if a is None:
            return
        with np.errstate(all='ignore'):
            shift = a['x_eval'][-1]
            m = Map(gp.x_init_2_scl, gp.x_scl_2_init, c['dim'], shift)
            m.check(r, ctx)
            xs, rt = gp.get_scl_x_w_dist()
            need('scaled_x', xs, m.image(a['x_eval']), m.tol(a['x_eval']), 'the scaled points')
            diff = np.array([xs[:, [i]] - xs[:, [i]].T for i in range(c['dim'])])
            need('distances', rt, diff, U * (np.abs(diff) + np.max(np.abs(xs)) * 1e-3), 'the table of differences')
            n = d.n()
            method = 'set_vmax' if c['wc'] == 'dflt_vmax' else 'set_vmin'
            dist = {'rescale_origin': vreq(n, c['dim']), 'rescale_eta_vary': gp.vmin_rescale_eta_vary,
                    'dflt_vmin': gp.cond_dist_min_dflt, 'dflt_vmax': gp.cond_dist_max_dflt}[c['wc']]
            required(m, xs, method, dist, a['x_eval'])
            f = a['fval']
            oc = f[-1]
            step = 2.0 ** np.ceil(np.log2(1 + abs(oc)))
            v = gp.data_init_2_scl(np.array([oc, oc + step]))[0]
            os_ = float(v[1] - v[0]) / step
            if n > 1:
                rg = max(float(np.max(f) - np.min(f)), 1e-20)
                need('objective_scale', os_, 100 / rg, 100 / rg * U * (1 + np.max(np.abs(f)) / rg), 'the scale of the objective')
            init = gp.get_init_eval_data()
            want = (f, None if c['nf'] == 'unknown' else a['std_fval'], a['grad'],
                    None if c['ng'] == 'unknown' else a['std_grad'])
            for x, y in zip(init, want):
                if (x is None) != (y is None) or not same(x, y):
                    raise Violation('original_changed', f'the original data are {x} instead of {y}')
            scl = gp.get_scl_eval_data()
            need('objective_data', scl[0], (f - oc) * os_, U * (np.abs(f) + abs(oc)) * os_, 'the scaled values')
            for k, (x, sc) in enumerate(((want[1], os_), (want[2], os_ / m.scale), (want[3], os_ / m.scale))):
                if (x is None) != (scl[k + 1] is None):
                    raise Violation('objective_data', f'scaled data {k + 1} are {scl[k + 1]} but the original ones {x}')
                if x is not None:
                    need('objective_data', scl[k + 1], x * sc, U * np.abs(x * sc), f'the scaled data (entry {k + 1})')
            views_of_values(m, gp.data_init_2_scl, gp.data_scl_2_init, os_, oc, r, 1, None, ctx, 'objective')
        self.scale = m.scale


def run(plan, ctx):
    if plan['mode'] == 'obj':
        return run_objects(plan, ctx)
    s = Session(plan['cfg'], ctx)
    s.posterior = False
    g = GPModel(s)
    r = np.random.RandomState(plan['seed'] % (1 << 31))
    n = 0
    for op in plan['ops']:
        res = s.step(op)
        g.check(r, ctx)
        n += res == 'ok' and op['op'] in ('optz', 'set', 'stored', 'current')
    ctx.nontrivial = n >= 2
