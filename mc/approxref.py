"""Reference for the approximation: definitions in plain NumPy, one time at a time.

The integrals are taken from the public compute_* methods, which C03 and C04 check against
quadrature.
"""
import numpy as np


def _np(x):
    from .core import to_np

    return np.array(to_np(x), dtype=float)


class Gauss:
    """Normal distribution by natural parameters."""

    def __init__(self, lam, prec):
        self.prec = np.array(prec, dtype=float)
        self.lam = np.array(lam, dtype=float) if np.ndim(lam) else np.full((len(self.prec), 1), float(lam))
        self.var = np.linalg.inv(self.prec)
        self.mean = self.var @ self.lam
        self.m2 = self.var + self.mean @ self.mean.T

    def kl(self, o):
        d = self.mean - o.mean
        return 0.5 * (
            np.trace(o.prec @ self.var) + float(d.T @ o.prec @ d) - len(d)
            - np.linalg.slogdet(o.prec)[1] + np.linalg.slogdet(self.prec)[1]
        )

    def logpdf(self, x):
        d = x - self.mean
        return 0.5 * (np.linalg.slogdet(self.prec)[1] - len(d) * np.log(2 * np.pi) - float(d.T @ self.prec @ d))


class Moments:
    """Moments of f(t) given u and z at every time in t."""

    def __init__(self, inst, t):
        import jax.numpy as jnp

        self.noise = float(_np(inst.noise))
        self.K_u, self.K_z = _np(inst.compute_K_u()), _np(inst.compute_K_z())
        self.p_u, self.p_z = Gauss(0, self.K_u), Gauss(0, self.K_z)
        Kui, Kzi = np.linalg.inv(self.K_u), np.linalg.inv(self.K_z)
        I_ux = _np(inst.compute_I_ux())
        self.parts = []
        for x in np.array(t, dtype=float):
            x = jnp.array([x])
            I_hz, I_uz = _np(inst.compute_I_hz(x))[0], _np(inst.compute_I_uz(x))[0]
            i_hx = float(_np(inst.compute_i_hx(x, x)).reshape(()))
            A = I_ux - I_uz @ Kzi @ I_uz.T
            B = I_hz - I_uz.T @ Kui @ I_uz
            c = i_hx - np.sum(Kui * I_ux) - np.sum(Kzi * I_hz) + np.trace(Kui @ I_uz @ Kzi @ I_uz.T)
            self.parts.append((A, B, c, I_uz))

    def mean(self, Eu, Ez):
        return np.array([(Eu.T @ I @ Ez)[0, 0] for _, _, _, I in self.parts])

    def second(self, Euu, Ezz):
        return np.array([
            np.sum(A * Euu) + np.sum(B * Ezz) + c + np.trace(Euu @ I @ Ezz @ I.T) for A, B, c, I in self.parts
        ])

    def exp_loglik(self, y, q_u, q_z):
        m1, m2 = self.mean(q_u.mean, q_z.mean), self.second(q_u.m2, q_z.m2)
        return float(np.sum(-0.5 * np.log(2 * np.pi * self.noise) - (y**2 - 2 * y * m1 + m2) / (2 * self.noise)))

    def elbo(self, y, q_u, q_z, p_u=None, p_z=None):
        return self.exp_loglik(y, q_u, q_z) - q_u.kl(p_u or self.p_u) - q_z.kl(p_z or self.p_z)

    def q_u(self, y, mz, m2z, prior=None):
        prior = prior or self.p_u
        lam = prior.lam + sum(yi * I @ mz for yi, (_, _, _, I) in zip(y, self.parts)) / self.noise
        prec = prior.prec + sum(A + I @ m2z @ I.T for A, _, _, I in self.parts) / self.noise
        return Gauss(lam, prec)

    def q_z(self, y, mu, m2u, prior=None):
        prior = prior or self.p_z
        lam = prior.lam + sum(yi * I.T @ mu for yi, (_, _, _, I) in zip(y, self.parts)) / self.noise
        prec = prior.prec + sum(B + I.T @ m2u @ I for _, B, _, I in self.parts) / self.noise
        return Gauss(lam, prec)

    def log_Z_u(self, y, u):
        """log int p(z) exp(E log p(y | f)) dz for given u."""
        q = self.q_z(y, u, u @ u.T)
        quad = sum(yi**2 + float(u.T @ A @ u) + c for yi, (A, _, c, _) in zip(y, self.parts))
        return 0.5 * (
            -len(y) * np.log(2 * np.pi * self.noise) - quad / self.noise
            + np.linalg.slogdet(self.K_z)[1] - np.linalg.slogdet(q.prec)[1] + float(q.lam.T @ q.mean)
        )

    def log_Z_u_batch(self, y, us):
        """As `log_Z_u` for many columns of `us` at once."""
        n = us.shape[1]
        prec = np.broadcast_to(self.K_z, (n,) + self.K_z.shape).copy()
        lam = np.zeros((n, len(self.K_z)))
        quad = np.zeros(n)
        for yi, (A, B, c, I) in zip(y, self.parts):
            v = us.T @ I
            prec += (B + v[:, :, None] * v[:, None, :]) / self.noise
            lam += yi * v / self.noise
            quad += yi**2 + np.einsum("in,ij,jn->n", us, A, us) + c
        sol = np.linalg.solve(prec, lam[:, :, None])[:, :, 0]
        return 0.5 * (
            -len(y) * np.log(2 * np.pi * self.noise) - quad / self.noise
            + np.linalg.slogdet(self.K_z)[1] - np.linalg.slogdet(prec)[1] + np.sum(lam * sol, axis=1)
        )

    def log_evidence(self, y, n=160):
        """log int p(u) Z_u du by a Gauss-Hermite product rule. For two-dimensional u."""
        x, w = np.polynomial.hermite_e.hermegauss(n)
        w = w / w.sum()
        L = np.linalg.cholesky(self.p_u.var)
        X = np.stack([a.ravel() for a in np.meshgrid(x, x)])
        W = np.outer(w, w).ravel()
        keep = W > 1e-60
        v = self.log_Z_u_batch(y, L @ X[:, keep]) + np.log(W[keep])
        return float(np.logaddexp.reduce(v))

    def exp_log_Z(self, y, q_u, n=80):
        """E_q(u)[log Z_u]."""
        x, w = np.polynomial.hermite_e.hermegauss(n)
        w = w / w.sum()
        L = np.linalg.cholesky(q_u.var)
        X = np.stack([a.ravel() for a in np.meshgrid(x, x)])
        W = np.outer(w, w).ravel()
        keep = W > 1e-40
        return float(np.sum(W[keep] * self.log_Z_u_batch(y, q_u.mean + L @ X[:, keep])))


def gauss(q):
    """Reference version of a NaturalNormal."""
    return Gauss(_np(q.lam), _np(q.prec))


def some_q(n, k):
    """A few natural parameters."""
    i = np.arange(n, dtype=float)
    lam = [np.sin(2 * i + 1), np.zeros(n), 3 * (-1) ** i, 0.5 + 0 * i][k][:, None]
    v = np.cos(i + k)[:, None]
    prec = [np.diag(1 + i), 0.1 * np.eye(n), np.diag(4 + 0 * i) + 2 * v @ v.T, 30 * np.eye(n)][k]
    return lam, prec
