"""Reference model of the (C)GPCM integrals by quadrature, straight from their definitions."""
import numpy as np

from .quad import composite


class Ref:
    def __init__(self, alpha, alpha_t, gamma, omega, omega_t, t_u, t_z, causal):
        self.alpha, self.alpha_t, self.gamma = float(alpha), float(alpha_t), float(gamma)
        self.omega, self.omega_t = float(omega), float(omega_t)
        self.t_u = np.asarray(t_u, float)
        self.t_z = np.asarray(t_z, float)
        self.causal = causal
        r = np.sqrt(45 / self.alpha)
        # Variable of integration s = t - tau.
        self.s, self.w = composite(0 if causal else -r, r, panels=24)

    @classmethod
    def of(cls, m):
        from .core import to_np

        return cls(
            to_np(m.alpha), to_np(m.alpha_t), to_np(m.gamma), to_np(m.omega), to_np(m.omega_t),
            to_np(m.t_u), to_np(m.t_z), m.causal,
        )

    def k_h(self, a, b):
        return self.alpha_t**2 * np.exp(-self.alpha * (a**2 + b**2) - self.gamma * (a - b) ** 2)

    def k_xs(self, a, b):
        return self.omega_t * np.exp(-self.omega * (a - b) ** 2)

    def K_u(self):
        return self.k_h(self.t_u[:, None], self.t_u[None, :])

    def K_z(self):
        r = np.sqrt(45 / self.omega)
        tau, w = composite(self.t_z.min() - r, self.t_z.max() + r, panels=60)
        k = self.k_xs(tau[:, None], self.t_z[None, :])
        return (k * w[:, None]).T @ k

    def _s2(self, t1, t2):
        """Nodes for a pair of times: filter arguments of t1 and t2."""
        if self.causal:
            m = min(t1, t2)
        else:
            m = (t1 + t2) / 2
        return t1 - m + self.s, t2 - m + self.s

    def i_hx(self, t1, t2):
        a, b = self._s2(t1, t2)
        return float((self.w * self.k_h(a, b)).sum())

    def I_ux(self, t1, t2):
        a, b = self._s2(t1, t2)
        ka = self.k_h(a[:, None], self.t_u[None, :])
        kb = self.k_h(self.t_u[None, :], b[:, None])
        return (ka * self.w[:, None]).T @ kb

    def I_hz(self, t):
        k = self.k_h(self.s[:, None], self.s[None, :]) * self.w[:, None] * self.w[None, :]
        out = []
        for ti in np.atleast_1d(t):
            x = self.k_xs((ti - self.s)[:, None], self.t_z[None, :])
            out.append(x.T @ k @ x)
        return np.array(out)

    def I_uz(self, t):
        h = self.k_h(self.s[:, None], self.t_u[None, :]) * self.w[:, None]
        out = []
        for ti in np.atleast_1d(t):
            x = self.k_xs((ti - self.s)[:, None], self.t_z[None, :])
            out.append(h.T @ x)
        return np.array(out)
