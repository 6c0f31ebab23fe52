"""Reference model of the RGPCM integrals by quadrature, straight from their definitions."""
import numpy as np

from .quad import breaks, composite


class Ref:
    def __init__(self, alpha, alpha_t, lam, gamma, gamma_t, a, b, m_max, ms, t_u):
        self.alpha, self.alpha_t, self.lam = float(alpha), float(alpha_t), float(lam)
        self.gamma, self.gamma_t = float(gamma), float(gamma_t)
        self.a, self.b, self.m_max = float(a), float(b), int(m_max)
        self.ms = [int(m) for m in np.asarray(ms)]
        self.t_u = np.asarray(t_u, float)

    @classmethod
    def of(cls, m):
        from .core import to_np as n

        return cls(
            n(m.alpha), n(m.alpha_t), n(m.lam), n(m.gamma), n(m.gamma_t),
            n(m.a), n(m.b), m.m_max, n(m.ms), n(m.t_u),
        )

    # Basis functions and derivatives.
    def phi(self, m, t):
        if m <= self.m_max:
            return np.cos(2 * np.pi * m * (t - self.a) / (self.b - self.a))
        return np.sin(2 * np.pi * (m - self.m_max) * (t - self.a) / (self.b - self.a))

    def dphi(self, m, t):
        if m <= self.m_max:
            w = 2 * np.pi * m / (self.b - self.a)
            return -w * np.sin(w * (t - self.a))
        w = 2 * np.pi * (m - self.m_max) / (self.b - self.a)
        return w * np.cos(w * (t - self.a))

    def K_u(self):
        """Covariance of the exponentially smoothed white noise."""
        r = 45 / self.gamma
        lo = self.t_u.min() - r
        n = len(self.t_u)
        K = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                hi = min(self.t_u[i], self.t_u[j])
                x, w = composite(lo, hi, panels=60)
                K[i, j] = (
                    w * self.gamma_t**2 * np.exp(-self.gamma * (self.t_u[i] - x) - self.gamma * (self.t_u[j] - x))
                ).sum()
        return K

    def K_z(self):
        """Gram matrix of the basis in the RKHS of the Matern-1/2 kernel on [a, b]."""
        x, w = composite(self.a, self.b, panels=60)
        f = np.array([self.dphi(m, x) + self.lam * self.phi(m, x) for m in self.ms])
        fa = np.array([self.phi(m, np.array(self.a)) for m in self.ms])
        return (f * w) @ f.T / (2 * self.lam) + np.outer(fa, fa)

    def i_hx(self, t1, t2):
        # White-noise filter: the same filter variable for both times.
        x, w = composite(0, 45 / (2 * self.alpha), panels=30)
        p = (w * self.alpha_t**2 * np.exp(-2 * self.alpha * x)).sum()
        return p * np.exp(-self.lam * abs(t1 - t2))

    def I_ux(self, t1, t2):
        """Symmetric part over the two inducing points."""
        n = len(self.t_u)
        d = t1 - t2
        out = np.zeros((n, n))

        def k(tau, u):
            return self.alpha_t * np.exp(-self.alpha * tau) * self.gamma_t * np.exp(-self.gamma * (u - tau))

        for i in range(n):
            for j in range(n):
                u1, u2 = self.t_u[i], self.t_u[j]
                if u1 <= 0 or u2 <= 0:
                    continue
                # Outer variable pairs with t1 and u1. Split at the kink and where it leaves.
                x, wx = breaks([0, u1] + [p for p in (d, u2 + d) if 0 < p < u1], panels=3)
                tot = 0.0
                for xi, wi in zip(x, wx):
                    kink = xi - d
                    y, wy = breaks([0, u2] + ([kink] if 0 < kink < u2 else []), panels=2, n=16)
                    tot += wi * k(xi, u1) * (wy * k(y, u2) * np.exp(-self.lam * np.abs((xi - y) - d))).sum()
                out[i, j] = tot
        return (out + out.T) / 2

    def I_hz(self, t):
        out = []
        for ti in np.atleast_1d(t):
            # Inside the interval.
            x, w = composite(self.a, ti, panels=40)
            f = np.array([self.phi(m, x) for m in self.ms])
            g = w * self.alpha_t**2 * np.exp(-2 * self.alpha * (ti - x))
            I = (f * g) @ f.T
            # Left of the interval, the covariance with the features decays from its boundary value.
            fa = np.array([self.phi(m, np.array(self.a)) for m in self.ms])
            x, w = composite(self.a - 45 / (2 * (self.alpha + self.lam)), self.a, panels=30)
            tail = (w * self.alpha_t**2 * np.exp(-2 * self.alpha * (ti - x) - 2 * self.lam * (self.a - x))).sum()
            out.append(I + tail * np.outer(fa, fa))
        return np.array(out)

    def I_uz(self, t):
        out = []
        for ti in np.atleast_1d(t):
            rows = []
            for u in self.t_u:
                x, w = composite(0, u, panels=30)
                g = w * self.alpha_t * np.exp(-self.alpha * x) * self.gamma_t * np.exp(-self.gamma * (u - x))
                rows.append([(g * self.phi(m, ti - x)).sum() for m in self.ms])
            out.append(rows)
        return np.array(out)
