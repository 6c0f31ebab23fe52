"""C05: kernel reconstructed from inducing values of the filter."""
import itertools

ID = "C05"
RULE = (
    "Exhaustive product of models x parameter settings x inducing-point layouts x time layouts x inducing "
    "values (zero, unit vectors, sigma points, mixed, large). Every kernel matrix is compared with the "
    "conditional second moment of the filter from quadrature; symmetry, stationarity and "
    "positive semi-definiteness are checked on every one, and the sigma-point average with the prior kernel."
)
BOUNDS = {
    "quick": "3 models x 4 configurations x 4 time layouts x (2 n_u + n_u + 4) inducing values",
    "thorough": "3 models x 8 configurations x 6 time layouts x (2 n_u + n_u + 4) inducing values",
}
ASSUMPTIONS = ["inducing points spaced so that K_u is well conditioned"]

TS = {
    "grid": [0.0, 0.5, 1.0],
    "dup": [0.7, 0.7, -0.3],
    "far": [0.0, 9.0],
    "one": [0.4],
    "irr": [2.0, -1.0, 0.25, 0.3],
    "shift": [5.0, 5.5, 6.0],
}


def configs(tier):
    out = []
    for name in ("GPCM", "CGPCM"):
        for a, g, at, tu in (
            (0.8, 0.7, None, [0.1, 1.0]),
            (0.4, 2.0, 1.3, [-1.1, 0.0, 1.1]),
            (1.5, 3.0, None, [-0.4, 0.1, 0.6, 1.1]),
            (0.3, 0.5, None, [0.5]),
            (2.0, 6.0, 0.6, [1.0, -0.5, 0.3]),
            (0.8, 5.0, None, [-0.8, 0.8]),
            (0.5, 1.0, 2.0, [0.0, 1.5, 3.0]),
            (1.0, 1.0, None, [-0.2, 1.3]),
        )[: 4 if tier == "quick" else 8]:
            out.append((name, dict(alpha=a, gamma=g, alpha_t=at, omega=1.0, t_u=tu, t_z=[0.0, 1.0])))
    for a, g, lam, at, tu in (
        (0.9, 0.5, 1.3, None, [0.0, 0.9]),
        (0.6, 0.2, 0.7, 0.8, [0.2, 1.4, 2.6]),
        (2.0, 1.1, 0.3, None, [1.1, 0.1, 0.6, 1.8]),
        (0.5, 0.3, 2.0, None, [0.8]),
        (1.0, 0.6, 0.9, 1.4, [0.0, 2.0]),
        (0.7, 0.1, 1.1, None, [0.5, 1.0, 1.5]),
        (1.4, 0.9, 0.2, None, [0.3, 2.0]),
        (0.4, 0.2, 3.0, 0.5, [0.0, 1.0, 4.0]),
    )[: 4 if tier == "quick" else 8]:
        out.append(("RGPCM", dict(alpha=a, gamma=g, lam=lam, alpha_t=at, t_u=tu, m_max=1, t=[0.0, 3.0])))
    return out


def units(tier):
    return [{"config": c, "ts": [k for k in TS][: 4 if tier == "quick" else 6]} for c in configs(tier)]


def run(unit, rep):
    import numpy as np
    from mc.core import to_np
    from mc.models import classes, ref

    name, kw = unit["config"]
    kw = {k: (np.array(v) if isinstance(v, list) else v) for k, v in kw.items()}
    m = classes()[name](scheme="mean-field", **kw)
    r = ref(m)
    n = len(r.t_u)
    K_u = r.K_u()
    Ki = np.linalg.inv(K_u)
    L = np.linalg.cholesky(K_u)
    us = {"zero": np.zeros(n), "mixed": (np.arange(n) - 0.7) * 1.3, "large": 20.0 * (-1.0) ** np.arange(n), "ones": np.ones(n)}
    for i in range(n):
        us[f"e{i}"] = np.eye(n)[i]
        us[f"s+{i}"] = np.sqrt(n) * L[:, i]
        us[f"s-{i}"] = -np.sqrt(n) * L[:, i]

    cache = {}

    def I(t1, t2):
        if (t1, t2) not in cache:
            I_ux = r.I_ux(t1, t2)
            cache[t1, t2] = r.i_hx(t1, t2), (I_ux + I_ux.T) / 2
        return cache[t1, t2]

    inst = m()
    for tn in unit["ts"]:
        t = np.array(TS[tn])
        scale = 1.0
        total = np.zeros((len(t), len(t)))
        for un, u in us.items():
            case = [name, unit["config"][1], tn, un]
            rep.begin(case)
            K = to_np(inst.kernel_approx(t, t, u))
            rep.step()
            want = np.zeros((len(t), len(t)))
            for a, b in itertools.product(range(len(t)), repeat=2):
                i_hx, I_ux = I(t[a], t[b])
                v = Ki @ u
                want[a, b] = i_hx - (Ki * I_ux).sum() + v @ I_ux @ v
            tol = 1e-6 * max(1.0, np.abs(want).max())
            rep.close(K, want, "kernel", rtol=0, atol=tol)
            rep.close(K, K.T, "symmetry", rtol=0, atol=tol)
            rep.true(np.linalg.eigvalsh((K + K.T) / 2).min() > -10 * tol, "kernel matrix is not positive semi-definite")
            if un.startswith("s"):
                total += K / (2 * n)
            if un in ("mixed", "zero"):
                # Stationarity and cross-covariances.
                Ks = to_np(inst.kernel_approx(t + 1.7, t + 1.7, u))
                rep.close(Ks, K, "stationarity", rtol=0, atol=tol)
                Kc = to_np(inst.kernel_approx(t, t[:1] + 0.4, u))
                wantc = []
                for a in range(len(t)):
                    i_hx, I_ux = I(t[a], t[0] + 0.4)
                    v = Ki @ u
                    wantc.append([i_hx - (Ki * I_ux).sum() + v @ I_ux @ v])
                rep.close(Kc, np.array(wantc), "cross-covariance", rtol=0, atol=tol)
                rep.step(2)
                if tn == "grid" and un == "mixed":
                    # On the model rather than the instance.
                    rep.close(m.kernel_approx(t, t, u), want, "kernel through model", rtol=0, atol=tol)
            rep.state(case)
            rep.trace(case if un == "mixed" else None, group=name)
            rep.outcome(K.round(6).tolist())
        prior = np.array([[I(a, b)[0] for b in t] for a in t])
        rep.begin([name, unit["config"][1], tn, "prior expectation"])
        rep.close(total, prior, "average over the prior is not the prior kernel", rtol=0, atol=1e-6)
        if kw.get("alpha_t") is None:
            rep.close(np.diag(total), np.ones(len(t)), "prior power is not one", rtol=0, atol=1e-6)
