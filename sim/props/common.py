"""Shared by the property modules."""
import copy


def shrink_default(plan):
    """Candidates, simplest first: drop operations, drop faults, put options
    back to their defaults, simplify the configuration."""
    ops = plan.get('ops')
    if ops:
        n = len(ops)
        size = max(1, n // 2)
        while size >= 1:
            for a in range(0, n, size):
                p = copy.deepcopy(plan)
                del p['ops'][a:a + size]
                yield p
            size //= 2
        for k, op in enumerate(ops):
            for f in ('fault', 'opt', 'alt', 'cond', 'at', 'hess', 'near'):
                if op.get(f):
                    p = copy.deepcopy(plan)
                    del p['ops'][k][f]
                    yield p
            if op.get('n', 1) > 1:
                p = copy.deepcopy(plan)
                p['ops'][k]['n'] = op['n'] - 1
                yield p
    c = plan.get('cfg')
    if c:
        for k in list(c['opt']):
            if k in ('optz_iter_max', 'lkd_hp_best_n_eval'):
                continue
            p = copy.deepcopy(plan)
            del p['cfg']['opt'][k]
            yield p
        for k, v in (('mask', False), ('near', 0), ('fo', 0.0), ('fs', 1.0), ('nf', 'zero'), ('ng', 'zero'),
                     ('kernel', 'SqExp'), ('dim', c['dim'] - 1), ('xr', 1.0)):
            if c.get(k) != v and not (k == 'dim' and v < 1):
                p = copy.deepcopy(plan)
                p['cfg'][k] = v
                yield p


REAL = ['all of gpgradpy (kernels, likelihood, hyperparameter search, rescaling, evaluation, history)',
        'numpy / LAPACK / scipy.optimize / smt sampling (called through pass-through seams)']
STUB = ['numba JIT is disabled (NUMBA_DISABLE_JIT=1): the same kernel functions run as Python']
