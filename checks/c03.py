"""C03: covariance integrals of the GPCM and CGPCM."""
import itertools

ID = "C03"
RULE = (
    "Exhaustive product of parameter values x inducing-point layouts x time layouts x argument forms, "
    "for the acausal and causal model, before and after instantiation. Every entry of "
    "every tensor is compared with quadrature of its defining integral."
)
BOUNDS = {
    "quick": "2 models x 8 parameter settings x 6 inducing-point layouts x 8 time layouts; all combinations of omitted and given time arguments",
    "thorough": "2 models x 96 parameter settings x 12 inducing-point layouts x 8 time layouts",
}
ASSUMPTIONS = ["model equations as in the documentation: white-noise excitation, decaying EQ filter, interdomain EQ transform"]

TUS = {
    "sym3": [-1.0, 0.0, 1.0],
    "one": [0.3],
    "unsorted": [0.9, -0.4, 0.2, 1.7],
    "causal": [-0.5, 0.0, 0.5, 1.0],
    "far": [-6.0, 0.1, 5.0],
    "pair": [0.0, 0.05],
}
TZS = {
    "grid4": [0.0, 0.7, 1.4, 2.1],
    "one": [0.4],
    "unsorted": [2.0, -1.0, 0.5],
    "five": [-2.0, -1.0, 0.3, 1.0, 4.0],
    "pair": [0.0, 0.1],
    "neg": [-3.0, -2.5],
}
TS = {
    "grid": [0.0, 0.5, 1.0],
    "one": [0.3],
    "dup": [0.7, 0.7, 0.2],
    "desc": [2.0, 1.0, -1.0, 0.0],
    "neg": [-2.0, -0.4],
    "far": [0.0, 30.0],
    "int": [0, 1, 2],
    "tiny": [1e-9, 1.0],
}


def units(tier):
    us = []
    combos = list(zip(TUS, TZS)) if tier == "quick" else list(zip(TUS, TZS)) + list(zip(TUS, list(TZS)[::-1]))
    for causal in (False, True):
        for tu, tz in combos:
            us.append({"kind": "integrals", "causal": causal, "t_u": tu, "t_z": tz, "tier": tier})
    for causal in (False, True):
        us.append({"kind": "instance", "causal": causal})
    return us


def params(tier):
    alphas = (0.4, 1.7) if tier == "quick" else (0.2, 0.4, 1.7, 5.0)
    gammas = (0.3, 6.0) if tier == "quick" else (0.05, 0.3, 2.5, 9.0)
    omegas = (1.1, 6.0) if tier == "quick" else (0.5, 1.1, 6.0)
    for a, g, o in itertools.product(alphas, gammas, omegas):
        if tier == "quick":
            # The scale multiplies everything, so it is enough to alternate it.
            yield a, g, o, (None if (a < 1) == (o < 2) else 1.3)
        else:
            yield a, g, o, None
            yield a, g, o, 1.3


def run(unit, rep):
    if unit["kind"] == "instance":
        return run_instance(unit, rep)
    import numpy as np
    from gpcm import GPCM, CGPCM
    from mc.refgpcm import Ref

    causal = unit["causal"]
    M = CGPCM if causal else GPCM
    t_u, t_z = np.array(TUS[unit["t_u"]]), np.array(TZS[unit["t_z"]])
    for a, g, o, at in params(unit["tier"]):
        kw = dict(alpha=a, gamma=g, omega=o, t_u=t_u, t_z=t_z)
        if at is not None:
            kw["alpha_t"] = at
        m = M(**kw)
        r = Ref.of(m)
        base = [M.__name__, a, g, o, at, unit["t_u"], unit["t_z"]]
        rep.begin(base)
        want_at = at if at is not None else ((8 if causal else 2) * a / np.pi) ** 0.25
        rep.close(m.alpha_t, want_at, "alpha_t")
        rep.close(m.omega_t, (2 * o / np.pi) ** 0.25, "omega_t")
        compare(m, r, rep, base)
        compare_kernel(m, r, rep, base)


def compare_kernel(m, r, rep, base):
    """The kernel of the filter. The filter of the causal model is zero at negative times."""
    import numpy as np
    from mc.core import to_np

    ts = np.array([0.0, -1.2, 0.3, 2.0, -1e-3, 1e-3, 0.3])
    on = (ts >= 0) | (not r.causal)
    want = r.k_h(ts[:, None], ts[None, :]) * on[:, None] * on[None, :]
    case = base + ["kernel of the filter"]
    rep.begin(case)
    k = m.k_h()
    got = to_np(k(ts))
    rep.close(got, want, "k_h()", rtol=1e-9, atol=1e-12)
    for i, t in enumerate(ts):
        rep.close(to_np(k(ts[i : i + 1], ts)), want[i : i + 1], f"k_h() at {t}", rtol=1e-9, atol=1e-12)
        rep.step()
    rep.state(case)
    rep.trace(case, group="kernel of the filter")


def compare(m, r, rep, base, ts=TS, wrap=lambda x: x):
    import numpy as np

    tol = dict(rtol=1e-6, atol=1e-9)
    rep.begin(base + ["K"])
    rep.close(m.compute_K_u(), r.K_u(), "K_u", **tol)
    rep.close(m.compute_K_z(), r.K_z(), "K_z", **tol)
    # Interdomain process has unit variance.
    rep.close(np.diag(r.K_z()), np.ones(len(r.t_z)), "unit variance of z", rtol=1e-8)
    rep.step(2)
    rep.begin(base + ["default times"])
    rep.close(m.compute_i_hx(), r.i_hx(0.0, 0.0), "i_hx()", **tol)
    rep.close(m.compute_I_ux(), r.I_ux(0.0, 0.0), "I_ux()", **tol)
    rep.step(2)
    for tn, t in ts.items():
        t = wrap(np.array(t))
        tn_ = [float(v) for v in t]
        case = base + [tn]
        rep.begin(case)
        rep.close(m.compute_I_hz(t), r.I_hz(tn_), "I_hz", **tol)
        rep.close(m.compute_I_uz(t), r.I_uz(tn_), "I_uz", **tol)
        # Elementwise and outer evaluation of I_hx.
        rep.close(m.compute_i_hx(t, t), np.array([r.i_hx(v, v) for v in tn_]), "i_hx(t, t)", **tol)
        rep.close(
            m.compute_i_hx(t[:, None], t[None, :]),
            np.array([[r.i_hx(v, w) for w in tn_] for v in tn_]),
            "i_hx(t[:, None], t[None, :])",
            **tol,
        )
        rep.close(m.compute_i_hx(t1=t), np.array([r.i_hx(v, 0.0) for v in tn_]), "i_hx(t1=t)", **tol)
        rep.close(m.compute_i_hx(t2=t), np.array([r.i_hx(0.0, v) for v in tn_]), "i_hx(t2=t)", **tol)
        ref = np.array([[r.I_ux(v, w) for w in tn_] for v in tn_])
        rep.close(m.compute_I_ux(t, t), ref, "I_ux(t, t)", **tol)
        rep.close(m.compute_I_ux(t1=t), np.array([r.I_ux(v, 0.0) for v in tn_]), "I_ux(t1=t)", **tol)
        rep.close(m.compute_I_ux(t2=t), np.array([r.I_ux(0.0, v) for v in tn_]), "I_ux(t2=t)", **tol)
        # Differently sized first and second times.
        t2 = t[:1] + 0.25
        rep.close(
            m.compute_I_ux(t, t2),
            np.array([[r.I_ux(v, tn_[0] + 0.25)] for v in tn_]),
            "I_ux(t, t2)",
            **tol,
        )
        rep.step(10)
        rep.state(case)
        rep.trace(case if tn == "dup" else None, group=tn)
        rep.outcome([round(float(v), 6) for v in ref.ravel()[:4]])


def run_instance(unit, rep):
    """Instantiated models (JAX arrays) compute the same tensors."""
    import numpy as np
    import jax.numpy as jnp
    from gpcm import GPCM, CGPCM
    from mc.refgpcm import Ref

    causal = unit["causal"]
    M = CGPCM if causal else GPCM
    for a, g, o in ((0.4, 0.3, 6.0), (1.7, 2.5, 1.1)):
        for tu, tz in (([-1.0, 0.2, 1.0], [0.0, 0.7, 1.9]), ([-0.5, 0.0, 0.8], [-1.0, 1.0])):
            m = M(alpha=a, gamma=g, omega=o, t_u=np.array(tu), t_z=np.array(tz), scheme="mean-field")
            i = m()
            base = ["instance", M.__name__, a, g, o, tu, tz]
            rep.begin(base)
            r = Ref.of(m)
            ri = Ref.of(i)
            for n in ("alpha", "alpha_t", "gamma", "omega", "omega_t"):
                rep.close(getattr(ri, n), getattr(r, n), n)
            ts = {k: TS[k] for k in ("dup", "desc", "one")}
            compare(i, r, rep, base, ts=ts, wrap=jnp.array)
            compare_kernel(i, r, rep, base)
            rep.close(i.K_u, r.K_u(), "instance K_u", atol=1e-8)
            rep.close(i.K_z, r.K_z(), "instance K_z", atol=1e-8)
