"""Sessions: a list of operations with faults on one GP, interpreted against
the harness's own model of what the GP must hold."""
import copy
import os
import pickle
import signal

import numpy as np

from . import seams
from .core import Violation, Skip, same
from .gpkit import Driver, POOL, WELL, canon, gen_alt, hp_of, hist_of, same_hp, quiet, TIMES


class SimSignal(Exception):
    """What a signal handler (alarm, watchdog) of the caller raises."""


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
       'SystemExit': SystemExit, 'SimSignal': SimSignal,
       'LinAlgError': np.linalg.LinAlgError, 'TimeoutError': TimeoutError}
STOP = ('KeyboardInterrupt', 'MemoryError', 'SystemExit', 'SimSignal', 'TimeoutError')


def mk_exc(name):
    return EXC[name](f'injected {name}')


def dry_lines(fn):
    """Number of gpgradpy lines that fn executes and of linear-algebra and
    optimizer calls, measured in a forked copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = (0, 0, 0)
        try:
            out = fn()
        except BaseException:
            out = (0, 0, 0)
        finally:
            os.write(w, pickle.dumps(out))
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        out = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(out) if out else (0, 0, 0)


def gen_fault(rng, kinds=('line', 'la', 'min', 'chol')):
    k = rng.choice(kinds)
    if k == 'line':
        # interrupts cluster at the start and the end of an operation, where
        # state is taken over and handed back
        fr = rng.choice([rng.random(), rng.random(), rng.random() ** 4, 1 - rng.random() ** 4])
        return {'kind': 'line', 'frac': round(fr, 6), 'exc': rng.choice(STOP)}
    if k == 'la':
        return {'kind': 'la', 'frac': round(rng.choice([rng.random(), 1 - rng.random() ** 3]), 6),
                'exc': rng.choice(['MemoryError', 'KeyboardInterrupt', 'LinAlgError', 'SimSignal'])}
    if k == 'min':
        return {'kind': 'min', 'call': rng.choice([1, 1, 2]), 'after': rng.choice([0, 1, 2, 5]),
                'exc': rng.choice(STOP)}
    return {'kind': 'chol', 'frac': round(rng.choice([rng.random(), 1.0]), 6), 'n': rng.choice([1, 1, 2])}


class Session:
    def __init__(self, c, ctx, pool=None, world=None, **kw):
        # the options of this surrogate; they can change with new data
        c = dict(c, opt=dict(c['opt']))
        self.c, self.ctx = c, ctx
        self.d = Driver(c, ctx, pool, world, **kw)
        self.row_wc = {}
        self.rows = {}            # history rows as they were when stored
        self.posterior = True     # compare evaluations with the reference
        self.maybe = False        # the last setup met an injected Cholesky failure
        self.dirty = False        # hp changed by the caller since the setup

    @property
    def gp(self):
        return self.d.gp

    # -------------------------------------------------------------- faults --
    def _measure(self, fn):
        d = self.d

        def probe():
            n = [0, 0]

            def la(name, k, a):
                if name in ('cho_factor', 'cholesky', 'np.cholesky'):
                    n[1] += 1
                n[0] = k
                return None
            d.scan, d.spots = True, []
            try:
                fn(la_hook=la)
            except BaseException:
                pass
            return d.spots, n[0], n[1]
        return dry_lines(probe)

    def run_faulted(self, fn, fault):
        """Run fn(**call-options) under a fault.  Returns (ok, exc, fired)."""
        ctx, d = self.ctx, self.d
        fired = [False]
        k = {}
        exc = None
        d.where = None
        if fault is not None:
            kind = fault['kind']
            if kind == 'line':
                n = self._measure(fn)[0]
                exc = mk_exc(fault['exc'])
                k['at'] = seams.spot(n, fault['frac'])
                k['exc'] = exc
            elif kind == 'la':
                n = self._measure(fn)[1]
                exc = mk_exc(fault['exc'])
                at = 1 + min(int(fault['frac'] * n), max(n - 1, 0))

                def la(name, o, a):
                    if o == at:
                        fired[0] = True
                        return exc
                k['la_hook'] = la
            elif kind == 'chol':
                n = self._measure(fn)[2]
                exc = mk_exc('LinAlgError')
                at = 1 + min(int(fault['frac'] * n), max(n - 1, 0))
                seen = [0]

                def la(name, o, a):
                    if name in ('cho_factor', 'cholesky', 'np.cholesky'):
                        seen[0] += 1
                        if at <= seen[0] < at + fault['n']:
                            fired[0] = True
                            return exc
                k['la_hook'] = la
            elif kind == 'min':
                exc = mk_exc(fault['exc'])
                left = [fault['after']]

                def mh(o, fun, x0, kw, call):
                    if o != fault['call']:
                        return call()
                    if left[0] == 0:
                        fired[0] = True
                        raise exc

                    def la(name, oo, a):
                        left[0] -= 1
                        if left[0] <= 0 and not fired[0]:
                            fired[0] = True
                            return exc
                    d.w.la_hook = la
                    return call()
                k['min_hook'] = mh
        try:
            out = fn(**k)
            ok, err = True, None
        except (Violation, Skip):
            raise
        except BaseException as e:
            ok, err, out = False, e, None
        if fault is not None and fault['kind'] == 'line' and d.where is not None:
            fired[0] = True
        if fired[0]:
            ctx.faults[f"{fault['kind']}:{fault.get('exc', 'LinAlgError')}"] += 1
        if not ok and not fired[0]:
            raise err
        if not ok and err is not exc and not isinstance(err, Exception):
            raise Violation('exc_changed', f'injected {exc!r}, the caller got {err!r}')
        if fired[0] and ok and fault.get('exc') in STOP:
            raise Violation('swallowed', f"{fault['exc']} injected at {d.where or fault} was swallowed: "
                            'the call reported success to its caller')
        self.result = out
        return ok, err, fired[0]

    # ---------------------------------------------------------- operations --
    def step(self, op):
        """Apply one operation; returns 'ok', 'failed', 'skip'."""
        try:
            r = getattr(self, 'op_' + op['op'])(op)
        except Skip:
            self.ctx.probe('skipped_op')
            return 'skip'
        self.ctx.ev(op['op'], r, None if self.d.args is None else self.d.args['fval'],
                    hp_of(self.gp))
        self.ctx.state(op['op'], r, self.d.n(), self.d.ready, self.c['wc'], self.c['kernel'],
                       self.c['nf'], self.c['ng'], self.dirty, (op.get('fault') or {}).get('kind'))
        return r

    def _update(self, op, fn, commit):
        """A state-changing call: with its fault first, then (op['retry'])
        again without.  The model changes only if the call succeeded."""
        fault = op.get('fault')
        ok, err, fired = self.run_faulted(fn, fault)
        if ok:
            commit(fired)
            return 'ok'
        self.ctx.probe('failed_call')
        if op.get('retry'):
            self.run_faulted(fn, None)
            commit(False)
            self.ctx.probe('retried_call')
            return 'ok'
        return 'failed'

    def op_data(self, op):
        """New data, for which the caller may have changed options before; a
        caller whose data are not taken puts them back."""
        d, n = self.d, max(1, op['n'])
        gp, o = self.gp, self.c['opt']
        opt = {k: v for k, v in op.get('opt', {}).items()
               if not (k == 'cond_max_target' and v > gp.cond_max)
               and not (k.startswith('cond_eta') and self.c['wc'] == 'rescale_eta_vary')}
        old = {k: getattr(gp, k) for k in opt}

        def fn(**k):
            self.tmp = d.pool.take(self.c, op['s'], n, op.get('alt'))
            for q, v in opt.items():
                setattr(gp, q, v)
            try:
                d.call(self.gp.set_data, **self.tmp, **k)
            except BaseException:
                for q, v in old.items():
                    setattr(gp, q, v)
                raise

        def commit(fired):
            o.update(opt)
            if opt:
                self.ctx.probe('options_changed')
            d.args = canon(d.pool.take(self.c, op['s'], n, op.get('alt')))
            a = d.args
            self.c['exact'] = bool(a['std_fval'] is not None and not np.any(a['std_fval']) and
                                   (a['grad'] is None or (a['std_grad'] is not None and not np.any(a['std_grad']))))
            if op.get('alt'):
                self.ctx.probe('data_differ')
            d.ready = False
            self.dirty = False
        return self._update(op, fn, commit)

    def op_method(self, op):
        """Another method against ill-conditioning; it needs the data again."""
        d, gp, o = self.d, self.gp, self.c['opt']
        wc = op['wc']
        if not self.c['ug'] or wc == self.c['wc']:
            raise Skip('method')
        if wc not in ('base', 'precon') and any(self.c.get('q', {}).get(k) for k in ('dup', 'const')):
            raise Skip('method')
        if o.get('cond_eta_set_mtd') == 'dflt_eta' and 'cond_eta_dflt' not in o:
            raise Skip('method')
        gp.set_wellcond_mtd(wc)
        # an option that this method sets, and that keeps its value
        if 'rescale_eta_vary' in (wc, self.c['wc']):
            o['cond_eta_is_const'] = False
        self.c['wc'] = wc
        args, d.args, d.ready = d.args, None, False
        if args is None:
            return 'ok'
        t = op.get('try')
        if t:
            try:
                if t == 'eval':
                    d.call(gp.eval_model, args['x_eval'][:1] + 0.1)
                else:
                    d.call(gp.set_hpara, 'current', max(d.i, 1))
            except (Violation, Skip):
                raise
            except Exception:
                self.ctx.probe('refused_after_method')
                return 'ok'
            # an answer must be the right one for the present method
            d.args = args
            if t == 'eval':
                raise Violation('evaluated_unset', 'the model was evaluated after the method against ill-conditioning '
                                'was changed')
            x = args['x_eval'][:1] + 0.1
            d.check_posterior(d.call(gp.eval_model, x), x)
            self._setup_done(False)
        return 'ok'

    def op_optz(self, op):
        d = self.d
        if d.args is None or d.i >= self.c['hist'] or self.c.get('noinit'):
            raise Skip('optz')
        d.allow_initial()
        i = d.i

        def fn(**k):
            d.call(self.gp.set_hpara, 'optz', i, calc_cond=bool(op.get('cond')), **k)

        def commit(fired):
            d.i = i + 1
            self._setup_done(fired, op)
            self.rows[i] = self.row(i)
            self.row_wc[i] = self.c['wc']
        return self._update(op, fn, commit)

    def _setup_done(self, fired, op={}):
        self.cond_asked = bool(op.get('cond'))
        self.d.ready, self.dirty = True, False
        self.maybe = bool(fired)
        self.setup_hp = copy.deepcopy(hp_of(self.gp))

    def op_set(self, op):
        d = self.d
        if d.args is None:
            raise Skip('set')
        want = d.custom_hp(op)
        hp = self.gp.make_hp_class(**want)

        def fn(**k):
            d.call(self.gp.set_hpara, 'set', max(d.i, 1), hp, calc_cond=bool(op.get('cond')), **k)

        def commit(fired):
            self._setup_done(fired, op)
            if not same_hp(hp_of(self.gp), hp_of_dict(want)):
                raise Violation('hp_differs', f'set_hpara was given {want} but uses {self.gp.hp_vals}')
        return self._update(op, fn, commit)

    def op_direct(self, op):
        """The caller assigns the hyperparameters and sets the model up itself.
        If that fails the model may have been set up already, or not."""
        d, gp = self.d, self.gp
        if d.args is None:
            raise Skip('direct')
        want = d.custom_hp(op)
        hp = gp.make_hp_class(**want)

        def fn(**k):
            gp.hp_vals = hp
            d.call(gp.setup_eval_model, calc_cond=bool(op.get('cond')), **k)

        def commit(fired):
            self._setup_done(fired, op)
            if not same_hp(hp_of(gp), hp_of_dict(want)):
                raise Violation('hp_differs', f'the hyperparameters {want} were assigned but are {gp.hp_vals}')
        r = self._update(op, fn, commit)
        if r == 'failed':
            self._setup_done(True, op)
        return r

    def op_custom(self, op):
        """The caller changes the hyperparameters without a new setup."""
        d = self.d
        if d.args is None:
            raise Skip('custom')
        want = d.custom_hp(op)
        fn = lambda **k: d.call(self.gp.set_custom_hp, **want, **k)

        def commit(fired):
            self.dirty = d.ready and not same_hp(hp_of(self.gp), self.setup_hp)
        return self._update(op, fn, commit)

    def op_poke(self, op):
        """The caller changes a hyperparameter in place."""
        d = self.d
        if not d.ready or self.gp.hp_vals is None:
            raise Skip('poke')
        h = self.gp.hp_vals
        what = op['what']
        if what == 'theta':
            h.theta[0] *= 1.25
        elif what == 'beta':
            h.beta[0] += 0.5
        elif what == 'varK':
            h.varK = h.varK * 1.5
        elif what == 'kernel' and self.c['kernel'] == 'RatQu':
            h.kernel = h.kernel * 1.2
        elif what == 'theta_last':
            h.theta[-1] *= 0.8
        elif what == 'theta_new':
            h.theta = h.theta * 1.1
        elif what in ('var_fval', 'var_fgrad') and getattr(h, what) is not None:
            setattr(h, what, np.squeeze(getattr(h, what)) * 1.3)
        elif what == 'object':
            # another set of hyperparameters altogether
            h = self.gp.hp_vals = copy.deepcopy(h)
            h.theta[0] *= 0.9
        elif what == 'undo':
            if not self.dirty:
                raise Skip('poke')
            for k, v in copy.deepcopy(self.setup_hp).items():
                setattr(h, k, v)
            self.maybe = True
        else:
            raise Skip('poke')
        self.dirty = not same_hp(hp_of(self.gp), self.setup_hp)
        return 'ok'

    def op_current(self, op):
        d = self.d
        if d.args is None or self.gp.hp_vals is None:
            raise Skip('current')
        h = self.gp.hp_vals
        if (h.var_fval is None) != (self.c['nf'] != 'unknown'):
            raise Skip('current')
        before = copy.deepcopy(hp_of(self.gp))
        fn = lambda **k: d.call(self.gp.set_hpara, 'current', max(d.i, 1), calc_cond=bool(op.get('cond')), **k)

        def commit(fired):
            self._setup_done(fired, op)
            if not same_hp(before, hp_of(self.gp)):
                raise Violation('hp_differs', f"'current' changed the hyperparameters {before} to {self.gp.hp_vals}")
        return self._update(op, fn, commit)

    def op_stored(self, op):
        d = self.d
        if d.args is None or not self.rows:
            raise Skip('stored')
        rows = [j for j in sorted(self.rows) if self.row_wc.get(j, self.c['wc']) == self.c['wc']]
        if not rows:
            raise Skip('stored')
        j = rows[op['j'] % len(rows)]
        fn = lambda **k: d.call(self.gp.set_hpara, 'stored', j, calc_cond=bool(op.get('cond')), **k)

        def commit(fired):
            self._setup_done(fired, op)
            if not same_hp(hp_of(self.gp), self.rows[j]['hp']):
                raise Violation('stored_differs', f'row {j} was stored with {self.rows[j]["hp"]} '
                                f'but was restored as {self.gp.hp_vals}')
        return self._update(op, fn, commit)

    def row(self, i):
        h = hist_of(self.gp)
        return {'hp': hp_of(self.gp), 'row': {k: np.array(v[i]) for k, v in h.items()}}

    # -------------------------------------------------------------- evaluate --
    def points(self, op):
        s, n = op.get('s', 0), max(1, op.get('n', 1))
        idx = (s + np.arange(n)) % len(self.d.pool.xe)
        x = self.d.pool.xe[idx].copy()
        if op.get('at') and self.d.args is not None:
            # close to an evaluated point, or at one
            x[0] = self.d.args['x_eval'][0] + (0.01 * self.c['xr'] if op['at'] != 'exact' else 0)
        f = op.get('form')
        if f == 'f32':
            x = x.astype(np.float32)
        elif f == 'int':
            x = np.round(x).astype(int)
        elif f == 'F':
            x = np.asfortranarray(x)
        elif f == 'ro':
            x.flags.writeable = False
        elif f == 'far':
            x = x * 40.0
        elif f in ('1d', 'squeeze'):
            x = x[:1]
        return x

    def try_eval(self, x, grad=False, hess=False, var=False, **k):
        """eval_model or its refusal."""
        gp, d = self.gp, self.d
        try:
            if var:
                return d.call(gp.eval_model_var, x, calc_grad=grad, **k)
            return d.call(gp.eval_model, x, calc_grad=grad, calc_hess=hess, **k)
        except (Violation, Skip):
            raise
        except Exception as e:
            return e

    def op_eval(self, op):
        return self.eval_checked(op, self.posterior)

    def eval_checked(self, op, posterior=True):
        """Evaluation: right for the present data and hyperparameters, or a
        refusal where the model is not set up for them."""
        d = self.d
        x = self.points(op)
        hess = bool(op.get('hess'))
        if hess:
            x = x[:1]
        xin, kw = x, {}
        if op.get('form') == '1d':
            xin = x[0]
        elif op.get('form') == 'squeeze':
            kw = {'squeeze_nx': True}
        grad = bool(op.get('grad')) or hess
        keep = x.copy()
        if op.get('fault') is not None:
            self.run_faulted(lambda **k: d.call(self.gp.eval_model, x.copy(), calc_grad=grad, calc_hess=hess, **k)
                             if d.ready and not self.dirty and not self.maybe else None, op['fault'])
        out = self.try_eval(xin, grad, hess, **kw)
        if kw and not isinstance(out, Exception):
            out = tuple(None if v is None else np.asarray(v)[None] for v in out)
        x = x.astype(float)
        if not same(x, keep.astype(float)):
            raise Violation('input_changed', 'eval_model changed the points it was given')
        self.out, self.x = out, x
        if isinstance(out, Exception):
            if d.ready and not self.dirty and not self.maybe:
                # the matrix is not factorised above cond_max_abs
                if not (self.cond_asked and d.ref().cond > 0.1 * self.gp.cond_max_abs):
                    raise out
                self.ctx.probe('refused_singular')
            self.ctx.probe('refused')
            return 'refused'
        if not d.ready:
            raise Violation('evaluated_unset', 'the model was evaluated although no setup was completed for the '
                            'present data')
        if self.dirty:
            raise Violation('evaluated_stale', 'the model was evaluated although its hyperparameters were changed '
                            'after the setup')
        self.maybe = False
        if posterior:
            self.r = d.check_posterior(out, x)
        self.ctx.probe('evaluated')
        return 'evaluated'

    def op_bad(self, op):
        """A call that must be rejected; nothing may change."""
        d, gp = self.d, self.gp
        a = d.pool.take(self.c, op.get('s', 0), max(2, op.get('n', 2)))
        kind = op['kind']
        if kind == 'f_size':
            a['std_fval'] = np.zeros(a['fval'].size + 1)
        elif kind == 'x_dim':
            a['x_eval'] = a['x_eval'].ravel()
        elif kind == 'grad_shape':
            if self.c['ug']:
                a['grad'] = a['grad'][:-1] if len(a['grad']) else np.zeros((1, self.c['dim']))
            else:
                a['grad'] = np.zeros((a['fval'].size, self.c['dim']))
        elif kind == 'no_grad':
            if not self.c['ug']:
                raise Skip('bad')
            a['grad'] = None
        elif kind == 'std_grad':
            if not self.c['ug']:
                raise Skip('bad')
            a['std_grad'] = np.zeros((a['grad'].shape[0] + 1, self.c['dim']))
        elif kind in ('method', 'no_hp', 'nan_row'):
            if d.args is None:
                raise Skip('bad')
            if kind == 'method':
                fn = lambda **k: d.call(gp.set_hpara, 'nonsense', 1, **k)
            elif kind == 'no_hp':
                fn = lambda **k: d.call(gp.set_hpara, 'set', 1, **k)
            else:
                if d.i >= self.c['hist']:
                    raise Skip('bad')
                fn = lambda **k: d.call(gp.set_hpara, 'stored', self.c['hist'] - 1, **k)
            try:
                fn()
            except Exception:
                self.ctx.faults['rejected:' + kind] += 1
                return 'rejected'
            raise Violation('accepted', f'set_hpara accepted an invalid request ({kind})')
        try:
            d.call(gp.set_data, **a)
        except Exception:
            self.ctx.faults['rejected:' + kind] += 1
            return 'rejected'
        raise Violation('accepted', f'set_data accepted inconsistent input ({kind})')


def hp_of_dict(h):
    return {k: (None if v is None else np.array(v, dtype=float)) for k, v in h.items()}


def gen_t(rng):
    return {'lt': round(rng.uniform(-1.6, 0.6), 3), 'v': rng.choice([0.5, 2.0, 5.0]),
            'b': rng.choice([0.0, 0.7]), 'al': rng.choice([0.4, 1.7, 6.0]),
            'vf': rng.choice([1e-5, 1e-3]), 'vg': rng.choice([1e-4, 2e-3])}


def gen_opt(rng, eta=('Kbase_eta', 'Kbase_eta_w_dim', 'dflt_eta')):
    """Options that a caller changes between two iterations."""
    o = {}
    for k, v in (('cond_max_target', (1e4, 1e6, 1e8, 1e10)), ('cond_eta_is_const', (True, False)),
                 ('cond_eta_set_mtd', eta), ('lkd_hp_best_n_eval', (2, 6)), ('lkd_optz_start_mtd', ('lhs', 'hp_best')),
                 ('b_optz_hp_kernel', (True, False)), ('lkd_use_adj_mtd', (True, False))):
        if rng.random() < 0.3:
            o[k] = rng.choice(v)
    return o


def vary(rng, ops, p=0.25):
    """Other evaluations, often at the points of the previous ones."""
    last = None
    for op in ops:
        if op['op'] == 'data':
            if rng.random() < p:
                op['alt'] = gen_alt(rng)
                if last and rng.random() < 0.7:
                    op.update(s=last['s'], n=last['n'])
            last = op
    return ops


def gen_ops(rng, n_ops, faults=0.3, bad=0.1, kinds=('line', 'la', 'min', 'chol'), extra=(),
            opts=0.0):
    """A random history.  Starts with data and a setup so that most
    operations act on a live model."""
    ops = [{'op': 'data', 's': rng.randrange(POOL), 'n': rng.choice([1, 1, 2, 3])}, {'op': 'optz'}]
    n = ops[0]['n']
    w = {'data': 3, 'optz': 3, 'set': 2, 'custom': 1, 'poke': 1, 'current': 1, 'stored': 2, 'eval': 6, 'bad': 10 * bad}
    for name, k in extra:
        w[name] = k
    names, wts = list(w), [w[k] for k in w]
    after_data = False
    while len(ops) < n_ops:
        k = 'optz' if after_data and rng.random() < 0.5 else rng.choices(names, wts)[0]
        op = {'op': k}
        after_data = False
        if k == 'data':
            n = rng.choice([n, n + 1, n + 1, n + 2, max(1, n - 1), rng.choice([1, 2, 4])])
            n = min(n, 6)
            if rng.random() < 0.06:
                n = rng.choice([8, 10, 12])
            op.update(s=rng.choice([0, 0, rng.randrange(POOL)]), n=n)
            if opts and rng.random() < opts:
                op['opt'] = gen_opt(rng)
            after_data = True
        elif k in ('set', 'custom', 'direct'):
            op.update(gen_t(rng))
        elif k == 'poke':
            op['what'] = rng.choice(['theta', 'theta', 'beta', 'varK', 'kernel', 'theta_last', 'theta_new', 'var_fval',
                                     'var_fgrad', 'object', 'undo'])
        elif k == 'stored':
            op['j'] = rng.randrange(8)
        elif k == 'method':
            op.update(wc=rng.choice(WELL), **({'try': rng.choice(['eval', 'current'])} if rng.random() < 0.5 else {}))
            ops.append(op)
            op = {'op': k}
            op.update(op='data', s=rng.choice([0, rng.randrange(POOL)]), n=n)
            k, after_data = 'data', True
        elif k == 'eval':
            op.update(s=rng.randrange(16), n=rng.choice([1, 1, 2, 5]), grad=rng.random() < 0.6,
                      hess=rng.random() < 0.3, at=rng.random() < 0.2)
            if rng.random() < 0.05:
                op['n'] = rng.choice([16, 40, 80])
            if rng.random() < 0.15:
                op['form'] = rng.choice(['f32', 'int', 'F', 'ro', 'far', '1d', 'squeeze'])
            if op['at'] and rng.random() < 0.5:
                op['at'] = 'exact'
        elif k == 'bad':
            op.update(kind=rng.choice(['f_size', 'x_dim', 'grad_shape', 'no_grad', 'std_grad', 'method', 'no_hp',
                                       'nan_row']), s=rng.randrange(POOL), n=rng.choice([2, 3]))
        if k in ('optz', 'set', 'current', 'stored', 'direct') and rng.random() < 0.2:
            op['cond'] = True
        if k in ('data', 'optz', 'set', 'current', 'stored', 'eval', 'direct') and rng.random() < faults:
            op['fault'] = gen_fault(rng, kinds if k == 'optz' else
                                    tuple(q for q in kinds if q in ('line', 'la', 'chol') and
                                          not (k == 'data' and q != 'line')
                                          and not (k == 'eval' and q == 'chol')) or ('line',))
            op['retry'] = rng.random() < 0.6
        ops.append(op)
        if k in ('data',) and op.get('fault') and not op.get('retry'):
            after_data = False
    return vary(rng, ops)
