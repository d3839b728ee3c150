"""Independent reference model: an exact (gradient-enhanced) Gaussian process.

Nothing in here imports gpgradpy.  The kernel is built from scalar radial
profiles phi(s), s = sum_i theta_i r_i^2, and the linear algebra is plain
Cholesky in float64, so that it shares neither formulas nor code paths with the
implementation under test.
"""
import numpy as np

SQ5 = np.sqrt(5.0)
EPS = np.finfo(float).eps


def profile(kernel, s, alpha, order):
    """phi and its first `order` derivatives with respect to s."""
    out = []
    if kernel == 'SqExp':
        e = np.exp(-s)
        out = [e, -e, e]
    elif kernel == 'RatQu':
        b = 1.0 + s / alpha
        out = [b ** (-alpha), -(b ** (-alpha - 1.0)),
               (1.0 + 1.0 / alpha) * b ** (-alpha - 2.0)]
    elif kernel == 'Ma5f2':
        nu = np.sqrt(s if np.iscomplexobj(s) else np.maximum(s, 0.0))
        e = np.exp(-SQ5 * nu)
        out = [(1.0 + SQ5 * nu + 5.0 / 3.0 * s) * e,
               -(5.0 / 6.0) * (1.0 + SQ5 * nu) * e,
               (25.0 / 12.0) * e]
    else:
        raise ValueError(kernel)
    return out[:order + 1]


def blocks(kernel, X, Y, theta, alpha, order=2):
    """ff, fg[i] = d/dY_i, gf[i] = d/dX_i, gg[i][j] = d2/dX_i dY_j."""
    d = X.shape[1]
    r = [X[:, i][:, None] - Y[:, i][None, :] for i in range(d)]
    s = sum(theta[i] * r[i] ** 2 for i in range(d))
    p = profile(kernel, s, alpha, 2)
    ff = p[0]
    gf = [2 * theta[i] * r[i] * p[1] for i in range(d)]
    fg = [-g for g in gf]
    gg = [[(-2 * theta[i] * p[1] if i == j else 0.0)
           - 4 * theta[i] * theta[j] * r[i] * r[j] * p[2]
           for j in range(d)] for i in range(d)]
    return ff, fg, gf, gg


def kern(kernel, X, Y, theta, alpha, gx=None, gy=None):
    """Full matrix; gx / gy are boolean masks of the rows whose gradient is
    used (None: no gradients on that side)."""
    ff, fg, gf, gg = blocks(kernel, X, Y, theta, alpha)
    d = X.shape[1]
    row0 = [ff] + ([b[:, gy] for b in fg] if gy is not None else [])
    rows = [np.hstack(row0)]
    if gx is not None:
        for i in range(d):
            row = [gf[i][gx, :]]
            if gy is not None:
                row += [gg[i][j][gx, :][:, gy] for j in range(d)]
            rows.append(np.hstack(row))
    return np.vstack(rows)


def nugget_base(n, cmax):
    return n / (cmax - 1.0)


def nugget_grad(kernel, wellcond, n, d, cmax, mtd='Kbase_eta', dflt=1e-8):
    """Nugget documented for the gradient-enhanced matrix (constant nugget)."""
    if mtd == 'dflt_eta':
        return dflt
    if n == 1:
        return nugget_base(n, cmax)
    if wellcond == 'precon':
        if kernel in ('SqExp', 'RatQu'):
            q = np.sqrt(1.0 + 4.0 * d)
            off = 0.5 * (n - 1) * (1 + q) * np.exp(-(1 + 2 * d - q) / (4.0 * d))
        else:
            q = np.sqrt(3.0 * d)
            a = (q - 1 + np.sqrt(15.0 * d + 2 * q + 1)) / (2 * (3.0 * d + q))
            off = (n - 1) * (1 + (d + q) * a + d * (1 + q) * a ** 2) * np.exp(-q * a)
        return (1 + off) / (cmax - 1)
    if 'rescale' in wellcond:
        v = vreq(n, d)
        frac = 2 * np.sqrt(d) / v
        return (1 + (n - 1) * frac * np.exp(1 / frac - 1)) / (cmax - 1)
    if mtd == 'Kbase_eta_w_dim':
        return nugget_base(n, cmax) * (d + 1)
    return nugget_base(n, cmax)


def vreq(n, d):
    if n == 1:
        return 1.0
    star = 2 * np.sqrt(d)
    v = (2 + np.sqrt(4 + 2 * np.exp(2) * np.log((n - 1) * (1 + star) / 2))) / np.exp(1)
    return min(v, star)


class RefGP:
    """Posterior for data (in the original coordinates), hyperparameters (in
    the scaled coordinates) and the affine scaling between both."""

    def __init__(self, kernel, wellcond, X, f, sf, G=None, sG=None, mask=None,
                 xs=None, xc=None, os=1.0, oc=0.0, eta_const=True, cmax=1e10,
                 eta_mtd='Kbase_eta', eta_dflt=1e-8):
        n, d = X.shape
        self.kernel, self.wellcond, self.n, self.d = kernel, wellcond, n, d
        self.X0 = X
        self.xs = np.ones(d) if xs is None else np.asarray(xs, float)
        self.xc = np.zeros(d) if xc is None else np.asarray(xc, float)
        self.os, self.oc = os, oc
        self.X = (X - self.xc) * self.xs
        self.ugrad = G is not None
        self.mask = None
        if self.ugrad:
            self.mask = np.ones(n, bool) if mask is None else np.asarray(mask, bool)
        f_s = (f - oc) * os
        y = [f_s]
        nf = n
        if self.ugrad:
            Gs = G * os / self.xs[None, :]
            y += [Gs[:, i] for i in range(d)]
        self.y = np.concatenate(y)
        self.nd = self.y.size
        self.sf = None if sf is None else sf * os
        self.sG = None if (sG is None or not self.ugrad) else sG * os / self.xs[None, :]
        self.eta_const, self.cmax = eta_const, cmax
        self.eta0 = (nugget_grad(kernel, wellcond, n, d, cmax, eta_mtd, eta_dflt) if self.ugrad
                     else (eta_dflt if eta_mtd == 'dflt_eta' else nugget_base(n, cmax)))
        self.h = np.concatenate([np.ones(n), np.zeros(self.nd - n)])

    def noise(self, var_f, var_g):
        a = np.full(self.n, var_f) if self.sf is None else self.sf ** 2
        if not self.ugrad:
            return a
        m = self.nd - self.n
        b = np.full(m, var_g) if self.sG is None else self.sG.T.ravel() ** 2
        return np.concatenate([a, b])

    def matrix(self, theta, alpha, varK, var_f=None, var_g=None):
        """Kern, regularised matrix / varK (the model is varK times it), its
        conditioned form (precon: unit diagonal + nugget) and the nugget."""
        K = kern(self.kernel, self.X, self.X, theta, alpha, self.mask, self.mask)
        A = K + np.diag(self.noise(var_f, var_g) / varK)
        if self.wellcond == 'precon':
            p = np.sqrt(np.diag(A))
            C = A / np.outer(p, p)
            eta = self.eta0 if self.eta_const else np.max(np.sum(np.abs(C), 1)) / (self.cmax - 1)
            reg = A + eta * np.diag(np.diag(A))
            con = C + eta * np.eye(self.nd)
        else:
            eta = self.eta0 if self.eta_const else np.max(np.sum(np.abs(K), 1)) / (self.cmax - 1)
            reg = A + eta * np.eye(self.nd)
            con = reg
            p = np.ones(self.nd)
        return K, reg, con, eta, p

    def matrix_c(self, theta, alpha, varK, var_f=None, var_g=None):
        """reg, con and varK * reg for complex arguments (complex step)."""
        K = kern(self.kernel, self.X, self.X, theta, alpha, self.mask, self.mask)
        nf = np.full(self.n, var_f) if self.sf is None else self.sf ** 2
        if self.ugrad:
            m = self.nd - self.n
            nf = np.concatenate([nf, np.full(m, var_g) if self.sG is None else self.sG.T.ravel() ** 2])
        A = K + np.diag(nf / varK)
        dg = np.diag(A)
        C = K
        if self.wellcond == 'precon':
            p = np.sqrt(dg)
            C = A / np.outer(p, p)
        eta = self.eta0
        if not self.eta_const:
            k = np.argmax(np.sum(np.abs(C.real), 1))
            eta = np.sum(np.sign(C[k].real) * C[k]) / (self.cmax - 1)
        # varK * A without the cancellation of the noise
        B = varK * K + np.diag(nf)
        if self.wellcond == 'precon':
            return A + eta * np.diag(dg), C + eta * np.eye(self.nd), B + eta * np.diag(np.diag(B))
        return A + eta * np.eye(self.nd), A + eta * np.eye(self.nd), B + varK * eta * np.eye(self.nd)

    def solve_setup(self, theta, alpha, varK, var_f=None, var_g=None):
        K, reg, con, eta, p = self.matrix(theta, alpha, varK, var_f, var_g)
        w, V = np.linalg.eigh(con)
        cond = w[-1] / w[0] if w[0] > 0 else np.inf
        self.p, self.con, self.reg, self.cond, self.eta = p, con, reg, cond, eta
        # round-off decides whether this one can be factorised
        self.singular = w[0] > -1e-13 * len(w) * w[-1]
        if w[0] <= 0:
            return False
        try:
            self.L = np.linalg.cholesky(con)
        except np.linalg.LinAlgError:
            return False
        return True

    def inv(self, B):
        B2 = (B.T / self.p).T
        z = np.linalg.solve(self.L.T, np.linalg.solve(self.L, B2))
        return (z.T / self.p).T

    def gls(self):
        kh, ky = self.inv(self.h), self.inv(self.y)
        return (self.h @ ky) / (self.h @ kh)

    def loglik_noisefree(self, theta, alpha, pnlt=None):
        """concentrated log-likelihood (without constants), varK, beta."""
        if not self.solve_setup(theta, alpha, 1.0, 0.0, 0.0):
            return None
        beta = self.gls()
        r = self.y - beta * self.h
        varK = max(1e-32, (r @ self.inv(r)) / self.nd)
        ld = 2 * np.sum(np.log(np.diag(self.L))) + 2 * np.sum(np.log(self.p))
        pen = 0.0
        if pnlt is not None:
            lb, c1, c2 = pnlt
            vf = max(np.var(self.y[:self.n]), lb)
            pen = c1 * vf * max(varK - c2 * vf, 0) ** 2
        return -(self.nd * np.log(varK) + ld) / 2 - pen, varK, beta, pen

    def loglik_noisy(self, theta, alpha, varK, var_f, var_g):
        if not self.solve_setup(theta, alpha, varK, var_f, var_g):
            return None
        beta = self.gls()
        r = self.y - beta * self.h
        ld = 2 * np.sum(np.log(np.diag(self.L))) + 2 * np.sum(np.log(self.p)) + self.nd * np.log(varK)
        return -(ld + (r @ self.inv(r)) / varK) / 2, beta

    def setup(self, theta, alpha, varK, beta, var_f=None, var_g=None):
        self.theta, self.alpha, self.varK, self.beta = theta, alpha, varK, beta
        ok = self.solve_setup(theta, alpha, varK, var_f, var_g)
        if ok:
            self.res = self.y - beta * self.h
            self.a = self.inv(self.res)
        return ok

    def predict(self, x):
        """mean, variance, and error scales, in the original coordinates, at
        the rows of x (original coordinates)."""
        xs = (x - self.xc) * self.xs
        k = kern(self.kernel, self.X, xs, self.theta, self.alpha, self.mask, None)
        mu = self.beta + k.T @ self.a
        v = np.linalg.solve(self.L, (k.T / self.p).T)
        q = np.sum(v * v, axis=0)
        var = self.varK * (1.0 - q)
        # round-off: backward error of the solves, amplified by the condition
        z = np.linalg.solve(self.L, self.res / self.p)
        ztol = np.sqrt(z @ z)
        amp = EPS * self.cond
        mu_t = amp * np.sqrt(np.maximum(q, EPS)) * ztol + EPS * (np.abs(mu) + np.abs(self.beta) + np.abs(k.T) @ np.abs(self.a))
        var_t = self.varK * (amp * np.maximum(q, 1e-3) + 4 * EPS)
        return (mu / self.os + self.oc, var / self.os ** 2,
                mu_t / self.os + EPS * abs(self.oc), var_t / self.os ** 2)

    def derivs(self, x, hess=False):
        """grad of mean, grad of variance, and Hessians at one point, in the
        original coordinates, with error scales."""
        d = self.d
        xs = ((x - self.xc) * self.xs)[None, :]
        g = np.array([True])
        full = kern(self.kernel, self.X, xs, self.theta, self.alpha, self.mask, g)
        k = full[:, 0]
        dk = full[:, 1:1 + d]          # column i: d/dx_i
        dmu = dk.T @ self.a
        va = np.linalg.solve(self.L, k / self.p)
        vb = np.linalg.solve(self.L, (dk.T / self.p).T)
        dvar = -2 * self.varK * (vb.T @ va)
        z = np.linalg.solve(self.L, self.res / self.p)
        nz, nva = np.sqrt(z @ z), np.sqrt(va @ va)
        nvb = np.sqrt(np.sum(vb * vb, axis=0))
        amp = EPS * self.cond
        dmu_t = amp * nvb * nz + EPS * (np.abs(dk.T) @ np.abs(self.a))
        u1, ra, rk = self.rounding(xs, k)
        st = np.sqrt(self.theta)
        dmu_t = dmu_t + u1 * st * ra
        dvar_t = 2 * self.varK * (amp * nvb * max(nva, 1e-8) + u1 * st * rk)
        s = self.xs
        out = [dmu * s / self.os, dvar * s / self.os ** 2, dmu_t * s / self.os, dvar_t * s / self.os ** 2]
        return out

    def rounding(self, xs, k):
        """Unit of the round-off of a kernel entry (relative to its natural
        size) and the sums it is multiplied with."""
        st = np.sqrt(self.theta)
        w = [np.ones(self.n)]
        if self.ugrad:
            w += [np.full(int(np.sum(self.mask)), st[i]) for i in range(self.d)]
        w = np.concatenate(w)
        big = max(np.max(np.abs(self.X) @ st), float(np.max(np.abs(xs) @ st)))
        u = 10 * EPS * (1 + big)
        return u, float(w @ np.abs(self.a)), float(w @ np.abs(self.inv(k)))

    def second(self, x):
        """Hessians of mean and variance at one point, in the original
        coordinates, with error scales.  The second derivatives of the kernel
        are complex-step derivatives of its first ones."""
        d = self.d
        xs = ((x - self.xc) * self.xs)[None, :]
        g = np.array([True])
        h = 1e-30
        d2k = np.zeros((self.nd, d, d))
        for j in range(d):
            xj = xs.astype(complex)
            xj[0, j] += 1j * h / np.sqrt(self.theta[j])
            full = kern(self.kernel, self.X, xj, self.theta, self.alpha, self.mask, g)
            d2k[:, :, j] = full[:, 1:1 + d].imag / (h / np.sqrt(self.theta[j]))
        full = kern(self.kernel, self.X, xs, self.theta, self.alpha, self.mask, g)
        k, dk = full[:, 0], full[:, 1:1 + d]
        va = np.linalg.solve(self.L, k / self.p)
        vb = np.linalg.solve(self.L, (dk.T / self.p).T)
        v2 = np.linalg.solve(self.L, (d2k.reshape(self.nd, -1).T / self.p).T)
        z = np.linalg.solve(self.L, self.res / self.p)
        nz, nva = np.sqrt(z @ z), np.sqrt(va @ va)
        nvb = np.sqrt(np.sum(vb * vb, axis=0))
        nv2 = np.sqrt(np.sum(v2 * v2, axis=0)).reshape(d, d)
        H1 = np.einsum('kij,k->ij', d2k, self.a)
        H2 = -2 * self.varK * ((v2.T @ va).reshape(d, d) + vb.T @ vb)
        amp = EPS * self.cond
        t1 = amp * nv2 * nz + EPS * np.einsum('kij,k->ij', np.abs(d2k), np.abs(self.a))
        t2 = 2 * self.varK * amp * (nva * nv2 + np.outer(nvb, nvb))
        u1, ra, rk = self.rounding(xs, k)
        st = np.sqrt(self.theta)
        t1 = t1 + u1 * np.outer(st, st) * ra
        t2 = t2 + 2 * self.varK * u1 * np.outer(st, st) * rk
        q = np.outer(self.xs, self.xs)
        o = self.os
        return H1 * q / o, H2 * q / o ** 2, t1 * q / o, t2 * q / o ** 2
