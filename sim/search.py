"""Observation and control of the hyperparameter search at its two library
seams: the sampler of starts and the local optimiser."""
import numpy as np
from scipy.optimize import OptimizeResult

from .core import Violation
from .ref import EPS


def noisy(c):
    # what is known of the noise is a matter of the present data
    if 'exact' in c:
        return not c['exact']
    return c['nf'] != 'zero' or (c['ug'] and c['ng'] != 'zero')


def layout(c):
    """[(name, index, log?)] of the vector that is optimised."""
    o, d = c['opt'], c['dim']
    out = [('theta', i, o.get('optz_log_hp_theta', True)) for i in range(d)]
    if c['kernel'] == 'RatQu' and o.get('b_optz_hp_kernel', True):
        out.append(('kernel', 0, o.get('optz_log_hp_kernel', True)))
    if noisy(c):
        out.append(('varK', 0, o.get('optz_log_hp_var', True)))
    if c['nf'] == 'unknown':
        out.append(('var_fval', 0, o.get('optz_log_hp_var', True)))
    if c['ug'] and c['ng'] == 'unknown':
        out.append(('var_fgrad', 0, o.get('optz_log_hp_var', True)))
    return out


def natural(c, gp, v):
    """Hyperparameters (in natural units) of a vector of the optimiser."""
    h = {'theta': np.zeros(c['dim']), 'kernel': gp.hp_kernel_default, 'varK': None, 'var_fval': None,
         'var_fgrad': None}
    lay = layout(c)
    v = np.asarray(v, float).ravel()
    if v.size != len(lay):
        raise Violation('vector_size', f'the search has {v.size} variables but there are {len(lay)} hyperparameters')
    for (name, i, lg), x in zip(lay, v):
        x = 10.0 ** x if lg else float(x)
        if name == 'theta':
            h['theta'][i] = x
        else:
            h[name] = x
    return h


def factors(c):
    """d(natural)/d(vector) needs the natural value for log entries."""
    return [lg for _, _, lg in layout(c)]


def penalty(c, gp):
    if not c['opt'].get('lkd_varK_pnlt_use', False):
        return None
    return gp.lkd_varK_pnlt_lb_var, gp.lkd_varK_pnlt_c1, gp.lkd_varK_pnlt_c2


class RefLkd:
    """Reference likelihood, constraint and gradients for the present data and
    scaling of a driver."""

    def __init__(self, d):
        self.d, self.c, self.gp = d, d.c, d.gp
        self.noisy = noisy(self.c)

    def model(self):
        return self.d.ref_model()

    def at(self, v, grad=False):
        """dict(lkd, tol, cond, ...) or None where the matrix is indefinite."""
        h = natural(self.c, self.gp, v)
        r = self.model()
        al = None if h['kernel'] is None else float(h['kernel'])
        out = {'h': h, 'r': r}
        if self.noisy:
            z = r.loglik_noisy(h['theta'], al, h['varK'], h['var_fval'], h['var_fgrad'])
            if z is None:
                return None
            out['lkd'], out['beta'] = z
            varK = h['varK']
            out['varK'] = varK
            res = r.y - out['beta'] * r.h
            q = (res @ r.inv(res)) / varK
        else:
            z = r.loglik_noisefree(h['theta'], al, penalty(self.c, self.gp))
            if z is None:
                return None
            out['lkd'], out['varK'], out['beta'], pen = z
            q = r.nd + 2 * abs(pen)
        st = np.sqrt(h['theta'])
        big = float(np.max(np.abs(r.X) @ st)) + float(np.max(np.abs(r.X0 * r.xs) @ st))
        fm = max(float(np.max(np.abs(r.y[:r.n]))), abs(r.oc) * r.os)
        uy = 4 * EPS * fm / max(float(np.max(np.abs(r.y - out['beta'] * r.h))), 1e-14 * fm, 1e-300)
        amp = EPS * r.cond + 10 * EPS * (1 + big) + uy
        out['cond'] = r.cond
        if self.c['opt'].get('cond_norm') == 'fro' and r.wellcond != 'precon':
            w = np.linalg.eigvalsh(r.con)
            out['cond'] = np.sqrt(np.sum(w ** 2) * np.sum(w ** -2.0))
        # the mean is a least-squares estimate: its error has the scale of the data
        yy = float(r.y @ r.inv(r.y)) / out['varK']
        out['tol'] = amp * (q + 4 * r.nd) + EPS * (abs(out['lkd']) + amp * yy + yy)
        if grad:
            out['grad'], out['gtol'], out['cgrad'], out['cgtol'] = self.grads(v, h, al, out, r, amp)
        return out

    def grads(self, v, h, al, out, r, amp):
        lay = layout(self.c)
        n = len(lay)
        step = 1e-30
        g, gt, cg, ct = np.zeros(n), np.zeros(n), np.zeros(n), np.zeros(n)
        # concentrated likelihood of noise-free data: correlation matrix only
        varK = h['varK'] if self.noisy else 1.0
        base = [h['theta'], al, varK, h['var_fval'], h['var_fgrad']]
        if not self.noisy:
            base[3] = base[4] = 0.0
        w, V = np.linalg.eigh(r.con)
        mx, mn = V[:, -1], V[:, 0]
        gap = max(w[1] - w[0], 0.0) if w.size > 1 else np.inf
        gap2 = max(w[-1] - w[-2], 0.0) if w.size > 1 else np.inf
        res = r.y - out['beta'] * r.h
        a = r.inv(res)
        Li = np.linalg.solve(r.L, np.diag(1 / r.p))
        pen_w = 0.0
        if not self.noisy and penalty(self.c, self.gp):
            lb, c1, c2 = penalty(self.c, self.gp)
            vf = max(np.var(r.y[:r.n]), lb)
            pen_w = 2 * c1 * vf * max(out['varK'] - c2 * vf, 0)
        for k, (name, i, lg) in enumerate(lay):
            b = [np.array(base[0], complex), base[1], base[2], base[3], base[4]]
            nat = {'theta': h['theta'][i] if name == 'theta' else 0, 'kernel': al, 'varK': varK,
                   'var_fval': h['var_fval'], 'var_fgrad': h['var_fgrad']}[name]
            s = step * max(abs(nat), 1e-200)
            pos = {'theta': 0, 'kernel': 1, 'varK': 2, 'var_fval': 3, 'var_fgrad': 4}[name]
            if name == 'theta':
                b[0][i] += 1j * s
            else:
                b[pos] = b[pos] + 1j * s
            reg, con, full = r.matrix_c(*b)
            dR = reg.imag / s * (varK if name != 'varK' else 1)
            # d(varK * reg)/d(varK) includes the noise term
            if name == 'varK':
                dR = full.imag / s
            dC = (full if name == 'varK' and r.wellcond != 'precon' else con * varK).imag / s
            M = Li @ dR @ Li.T
            if self.noisy:
                g[k] = 0.5 * (a @ dR @ a / varK - np.trace(M)) / varK
                sc = 0.5 * (abs(a @ dR @ a) / varK + np.sqrt(r.nd) * np.linalg.norm(M)
                            + np.abs(a) @ np.abs(dR) @ np.abs(a) / varK * 1e-3) / varK
            else:
                dvK = -(a @ dR @ a) / r.nd
                if out['varK'] <= 1e-32:
                    dvK = 0.0
                g[k] = -0.5 * (r.nd * dvK / out['varK'] + np.trace(M)) - pen_w * dvK
                sc = 0.5 * (np.abs(a) @ np.abs(dR) @ np.abs(a) / out['varK'] + np.sqrt(r.nd) * np.linalg.norm(M)) \
                    + pen_w * np.abs(a) @ np.abs(dR) @ np.abs(a) / r.nd
            # the entries of the derivative are rounded before they cancel
            aa = 0.5 * np.abs(a) @ np.abs(dR) @ np.abs(a) / (varK * varK if self.noisy else out['varK'])
            gt[k] = amp * sc + 4 * EPS * aa + EPS * np.abs(r.inv(np.eye(r.nd))).ravel() @ np.abs(dR).ravel() / varK
            if name == 'kernel':
                # differences of logarithms cancel for large and small values
                ri = np.sqrt(np.diag(r.reg))
                dErr = 8 * EPS * (np.outer(ri, ri) + np.abs(dR))
                Ki = np.abs(r.inv(np.eye(r.nd)))
                ww = varK if self.noisy else out['varK']
                gt[k] += 0.5 * np.sum((Ki + np.outer(np.abs(a), np.abs(a)) / ww) * dErr) \
                    + pen_w * np.abs(a) @ dErr @ np.abs(a) / r.nd
            # condition number of the matrix that is constrained (not precon)
            l1, l0 = w[-1], w[0]
            if self.c['opt'].get('cond_norm') == 'fro':
                F, Fi = np.sqrt(np.sum(w ** 2)), np.sqrt(np.sum(w ** -2))
                D = np.einsum('ki,kl,li->i', V, dC, V) / varK
                cg[k] = Fi * np.sum(w * D) / F - F * np.sum(D / w ** 3) / Fi
                ct[k] = amp * (Fi * np.sum(w * np.abs(D)) / F + F * np.sum(np.abs(D) / w ** 3) / Fi
                               + F / Fi / l0 ** 3 * np.linalg.norm(dC, 2) / varK)
                if lg:
                    f = nat * np.log(10)
                    g[k] *= f
                    gt[k] *= abs(f)
                    cg[k] *= f
                    ct[k] *= abs(f)
                continue
            cg[k] = (mx @ dC @ mx / l0 - l1 * (mn @ dC @ mn) / l0 ** 2) / varK
            nrm = np.linalg.norm(dC, 2) / varK
            err = EPS * l1 * (1 / max(gap, 1e-300) + 1 / max(gap2, 1e-300))
            ct[k] = nrm / l0 * (EPS + err) + (l1 / l0 ** 2) * nrm * (EPS + 2 * err) + amp * abs(cg[k])
            if lg:
                f = nat * np.log(10)
                g[k] *= f
                gt[k] *= abs(f)
                cg[k] *= f
                ct[k] *= abs(f)
        gt += 1e-13 * np.abs(g) + 1e-15 * np.max(np.abs(g))
        ct += 1e-13 * np.abs(cg) + 1e-15 * np.max(np.abs(cg))
        return g, gt, cg, ct


# ---------------------------------------------------------------- bounds --
RANGE = {'theta': 'hp_theta_range', 'kernel': 'hp_kernel_range', 'varK': 'hp_varK_range',
         'var_fval': 'hp_var_fval_range', 'var_fgrad': 'hp_var_fgrad_range'}
HISTKEY = {'theta': 'hp_theta_all', 'kernel': 'hp_kernel_all', 'varK': 'hp_varK_all',
           'var_fval': 'hp_var_fval_all', 'var_fgrad': 'hp_var_fgrad_all'}


def box(d, hist, i, which):
    """Documented bounds (in natural units) for the search of row i:
    median of the last rows, times and over the factor, within the range."""
    c, gp = d.c, d.gp
    fac = getattr(gp, 'hp_box_bound_factor' if which == 'box' else 'hp_lhs_bound_factor')
    j = max(0, i - gp.hp_median_n_idx)
    lo, hi = [], []
    for name, k, lg in layout(c):
        r = getattr(gp, RANGE[name])
        a = hist['obj_' + HISTKEY[name]][j:i]
        m = np.median(a[:, k] if name == 'theta' else a)
        m = min(max(m, r[0]), r[1])
        lo.append(max(m / fac, r[0]))
        hi.append(min(m * fac, r[1]))
    return np.array(lo), np.array(hi)


def to_natural(c, v):
    v = np.asarray(v, float)
    return np.array([10.0 ** x if lg else x for (_, _, lg), x in zip(layout(c), v)])


def split_constraints(k):
    """The nonlinear constraints of a minimise call."""
    cs = k.get('constraints', ())
    if cs is None:
        return []
    if not isinstance(cs, (list, tuple)):
        cs = [cs]
    return [x for x in cs if hasattr(x, 'fun') and hasattr(x, 'ub')]


def value_of(fun, k, x):
    v = fun(x)
    return v[0] if k.get('jac') is True else v


def jac_of(fun, k, x):
    if k.get('jac') is True:
        return fun(x)[1]
    return k['jac'](x) if callable(k.get('jac')) else None


class Recorder:
    """min_hook: records every local optimisation; may replace the optimiser
    by outcomes from the plan (the optimiser is then a stub)."""

    def __init__(self, d, stub=None):
        self.d, self.stub, self.calls = d, stub, []
        self.lhs = []

    def lhs_hook(self, out):
        self.lhs.append(out)

    def min_hook(self, o, fun, x0, k, call):
        d = self.d
        x0 = np.array(x0, float)
        rec = {'x0': x0.copy(), 'bounds': k.get('bounds'), 'cons': split_constraints(k),
               'scale': d.scale(), 'fun': fun, 'k': k, 'n_lhs': len(self.lhs)}
        st = None
        if self.stub:
            st = self.stub[(o - 1) % len(self.stub)]
        if st is None or st['kind'] == 'real':
            res = call()
            rec['real'] = True
        else:
            b = k['bounds']
            lb, ub = np.asarray(b.lb, float), np.asarray(b.ub, float)
            if st['kind'] == 'start':
                x = x0.copy()
            elif st['kind'] == 'near':
                x = x0 + np.array(st['u'][:x0.size]) * 0.3
            else:
                x = lb + (ub - lb) * np.array(st['u'][:x0.size])
            x = np.minimum(np.maximum(x, lb), ub)
            f = float(value_of(fun, k, x))
            if st['kind'] == 'nan':
                f = float('nan')
            res = OptimizeResult(x=x, fun=f, success=bool(st['ok']), nit=int(st['nit']), nfev=1, njev=1,
                                 status=0 if st['ok'] else 9, message='simulated outcome', jac=np.zeros(x.size))
            rec['real'] = False
        rec.update(x=np.array(res.x, float), f=float(np.squeeze(res.fun)), ok=bool(res.success), nit=int(res.nit))
        self.calls.append(rec)
        return res


def gen_stub(rng, n=3, p=0.5):
    if rng.random() > p:
        return None
    out = []
    for _ in range(rng.choice([1, 2, n])):
        out.append({'kind': rng.choice(['any', 'any', 'near', 'near', 'start', 'real', 'nan']),
                    'u': [round(rng.random(), 4) for _ in range(12)], 'ok': rng.random() < 0.6,
                    'nit': rng.choice([0, 1, 7, 250])})
    return out
