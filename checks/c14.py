"""C14: fitting under every scheme."""
import itertools

ID = "C14"
RULE = (
    "Exhaustive product of models, documented schemes and settings of what is fixed. Every fit runs on the implementation from known variables, with the standard normal draws of structured fits scripted. The variables before and after are compared, the "
    "ELBO is compared with the reference of C09 before and after, and fits are repeated under other global random states. Stored samples of structured fits are replayed: the transition of the Gibbs sampler without noise "
    "is computed by the reference from every stored sample. Second fits of fitted models and fits of conditioned models extend the histories."
)
BOUNDS = {
    "quick": "3 models x 6 mean-field spellings x 2 settings of the fix flags (half of the product), 10 iterations; structured fits with 5 settings of iterations and hyperparameter optimisation; histories of two fits",
    "thorough": "3 models x 7 schemes x 4 settings of the fix flags, 10 and 25 iterations; structured fits with 7 settings of iterations and hyperparameter optimisation; histories of up to three fits",
}
ASSUMPTIONS = ["10 to 25 iterations of optimisers on small models stand for longer fits", "a variable that may be learned by gradients is expected to change, because its gradient does not vanish for the data used"]

MF = [
    "mean-field",
    "mean-field-ca",
    "mean-field-gradient",
    "mean-field-collapsed-gradient",
    "mean-field-ca-gradient",
    "mean-field-ca-collapsed-gradient",
]
FIX = [
    {},
    {"fix_noise": True, "fix_window": True, "fix_scale": True},
    {"fix_noise": True},
    {"fix_window": True, "fix_scale": True},
]
# Variables that each flag keeps from being learned.
FLAGS = {
    "GPCM": {"fix_noise": ["noise"], "fix_window": ["alpha"], "fix_scale": ["gamma"]},
    "CGPCM": {"fix_noise": ["noise"], "fix_window": ["alpha"], "fix_scale": ["gamma"]},
    "RGPCM": {"fix_noise": ["noise"], "fix_window": ["alpha"], "fix_scale": ["lambda"]},
}
T, Y = [0.3, 1.1, 1.9, 2.6], [0.7, -0.4, 1.1, 0.2]
T2, Y2 = [2.4, 0.5], [-1.2, 0.3]


def units(tier):
    q = tier == "quick"
    us = []
    for m in ("GPCM", "CGPCM", "RGPCM"):
        for i, s in enumerate(MF):
            for f in range(2 if q else 4):
                if q and (i + f + (m == "CGPCM")) % 2 and not (m == "GPCM" and f == 0):
                    continue
                for iters in (10,) if q else (10, 25):
                    us.append({"kind": "mean_field", "model": m, "scheme": s, "fix": f, "iters": iters})
        settings = [(40, False, 0), (20, True, 0), (20, 3, 1), (20, 0, 0)] if q else [(40, False, 0), (20, 0, 0), (20, True, 0), (20, True, 2), (20, 3, 1), (60, 5, 3)]
        for iters, opt, f in settings:
            us.append({"kind": "structured", "model": m, "iters": iters, "optimise": opt, "fix": f})
        for s in ["mean-field-ca"] + (["mean-field"] if m == "GPCM" else []):
            us.append({"kind": "conditioned", "model": m, "scheme": s})
    us.append({"kind": "structured", "model": "GPCM", "iters": 2500, "optimise": False, "fix": 0})
    us.append({"kind": "structured", "model": "RGPCM", "iters": 1000, "optimise": False, "fix": 0})
    if not q:
        us.append({"kind": "structured", "model": "CGPCM", "iters": 5000, "optimise": False, "fix": 0})
        us.append({"kind": "structured", "model": "RGPCM", "iters": 3999, "optimise": False, "fix": 0})
        for m, s in itertools.product(("GPCM", "CGPCM", "RGPCM"), MF):
            us.append({"kind": "conditioned", "model": m, "scheme": s})
    us.append({"kind": "conditioned_structured", "model": "GPCM"})
    us.append({"kind": "unknown"})
    # Long ones first.
    return sorted(us, key=lambda u: u["kind"] == "mean_field")


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def variables(m):
    import numpy as np
    import lab as B

    return {n: np.array(B.to_numpy(B.dense(m.vs[n]))) for n in m.vs.names}


def build(name, scheme, fix, k=0):
    from checks.c09 import set_q
    from mc.models import small

    model = small(name, scheme=scheme, **FIX[fix])
    set_q(model(), 0, 2 + k)
    return model


def seed(k):
    import jax.numpy as jnp
    import lab.jax as B
    import numpy as np

    np.random.seed(k)
    B.set_global_random_state(B.create_random_state(jnp.float64, seed=k))


def valid(rep, model):
    """All parameters are in their domains."""
    import numpy as np
    from mc.core import to_np

    inst = model()
    names = ["noise", "alpha", "alpha_t"] + (["lam", "gamma", "gamma_t"] if hasattr(inst, "ms") else ["gamma", "omega", "omega_t"])
    for n in names:
        v = to_np(getattr(inst, n))
        rep.true(np.all(np.isfinite(v)) and np.all(v > 0), f"{n} is {v} after fitting")
    if hasattr(inst, "ms"):
        rep.true(to_np(inst.gamma) < to_np(inst.alpha), "gamma is not smaller than alpha after fitting")
    for n, v in variables(model).items():
        rep.true(np.all(np.isfinite(v)), f"{n} is not finite after fitting")
        if n.endswith("prec"):
            rep.true(np.linalg.eigvalsh(v)[0] > 0, f"{n} is not positive definite after fitting")


def elbo(model, t, y):
    """Mean-field ELBO by the reference."""
    import numpy as np
    from mc.approxref import Moments, gauss

    inst = model()
    ref = Moments(inst, t)
    return ref.elbo(np.array(y), gauss(inst.approximation.q_u), gauss(inst.approximation.q_z))


def compare(rep, before, after, may, must, what):
    import numpy as np

    for n in before:
        if not rep.true(n in after, f"{what}: {n} disappeared"):
            continue
        changed = not np.array_equal(before[n], after[n])
        if n not in may:
            rep.true(not changed, f"{what}: {n} was changed")
        if n in must:
            rep.true(changed, f"{what}: {n} was not learned")


def hypers(name, vs, fix):
    fixed = {v for f in FIX[fix] for v in FLAGS[name][f]}
    out = {n for n in vs if not n.startswith("q_")}
    if fix:
        # Fixed parameters are not variables, or not learned.
        out -= fixed
    return out


def run_mean_field(unit, rep):
    import numpy as np

    name, scheme, fix = unit["model"], unit["scheme"], unit["fix"]
    base = [name, scheme, fix, unit["iters"]]
    t, y = np.array(T), np.array(Y)
    results = []
    for run_ in range(2):
        case = base + [run_]
        rep.begin(case)
        model = build(name, scheme, fix)
        before = variables(model)
        e0 = elbo(model, t, y)
        inst = model()
        own = {n: np.array(getattr(inst, n)) for n in ("noise", "alpha", "t_u")}
        ts, ys = t.copy(), y.copy()
        seed(3 + 4 * run_)
        model.fit(ts, ys, iters=unit["iters"])
        rep.step()
        after = variables(model)
        rep.true(np.array_equal(t, ts) and np.array_equal(y, ys), "data were changed")
        rep.true(set(before) == set(after), f"variables {sorted(set(before) ^ set(after))} appeared or disappeared")
        hyp = hypers(name, before, fix)
        qs = {n for n in before if n.startswith("q_")}
        learns = scheme != "mean-field-ca"
        must = qs | (hyp if learns else set())
        compare(rep, before, after, qs | (hyp if learns else set()), must, "fit")
        valid(rep, model)
        inst = model()
        for f in FIX[fix]:
            for v in FLAGS[name][f]:
                a = "lam" if v == "lambda" else v
                rep.close(getattr(inst, a), getattr(model, a), f"{v} is fixed", rtol=0, atol=0)
        e1 = elbo(model, t, y)
        rep.true(e1 >= e0 - 1e-7 * (1 + abs(e0)), f"the ELBO decreased from {e0} to {e1}")
        rep.close(model.elbo(t, y), e1, "ELBO", rtol=1e-6, atol=1e-6)
        rep.state(case)
        rep.outcome([round(e1, 5)])
        results.append(after)
        rep.trace(case, group=scheme)
        if run_ == 0:
            # Fit once more.
            rep.begin(base + ["again"])
            model.fit(ts, ys, iters=unit["iters"])
            rep.step()
            e2 = elbo(model, t, y)
            rep.true(e2 >= e1 - 1e-6 * (1 + abs(e1)), f"the ELBO decreased from {e1} to {e2} in a second fit")
            again = variables(model)
            compare(rep, after, again, qs | (hyp if learns else set()), set(), "second fit")
            valid(rep, model)
            rep.state(base + ["again"])
            rep.trace(base + ["again"], group="second fit")
    for n in results[0]:
        rep.true(np.array_equal(results[0][n], results[1][n]), f"{n} depends on the global random state", case=base)


def run_structured(unit, rep):
    import jax.numpy as jnp
    import numpy as np
    from mc.approxref import Moments
    from mc.core import to_np
    from mc.noise import scripted_jax

    name, fix, opt = unit["model"], unit["fix"], unit["optimise"]
    base = [name, "structured", unit["iters"], opt, fix]
    t, y = np.array(T), np.array(Y)

    def fit(k, script=None):
        model = build(name, "structured", fix)
        before = variables(model)
        seed(k)
        kw = {} if opt is True else {"optimise_hypers": opt}
        if script is None:
            model.fit(t, y, iters=unit["iters"], **kw)
        else:
            with scripted_jax(script):
                model.fit(t, y, iters=unit["iters"], **kw)
        rep.step()
        after = variables(model)
        hyp = hypers(name, before, fix)
        compare(rep, before, after, hyp if opt else set(), hyp if opt else set(), "fit")
        new = set(after) - set(before)
        rep.true(new == {"q_u[0].samples", "q_z[0].samples"}, f"variables {sorted(new)} appeared")
        valid(rep, model)
        inst = model()
        us, zs = after["q_u[0].samples"], after["q_z[0].samples"]
        rep.true(us.shape == (inst.n_u, 1000) and zs.shape == (inst.n_z, 1000), f"samples of shapes {us.shape} and {zs.shape}, expected 1000")
        rep.close(inst.approximation.q_u_samples, us, "q_u_samples")
        rep.close(inst.approximation.q_z_samples, zs, "q_z_samples")
        return model, inst, us, zs, after

    # With random draws: deterministic whatever the global random state.
    rep.begin(base + ["random"])
    model, inst, us, zs, after = fit(1)
    rep.true(len(np.unique(us[0])) > 990 and len(np.unique(zs[0])) > 990, "samples are repeated")
    rep.state(base + ["random"])
    rep.outcome(np.round(us[:, 0], 6))
    if unit["iters"] <= 40 and opt is not True:
        again = fit(77)[4]
        for n in after:
            rep.true(np.array_equal(after[n], again[n]), f"{n} depends on the global random state")
    rep.trace(base + ["random"], group="structured")

    # Without noise: all samples are means given the other, and follow the transition of the Gibbs sampler.
    if opt is not True:
        rep.begin(base + ["no noise"])
        model, inst, us, zs, after = fit(2, script=[])
        ref = Moments(inst, t)
        thin = max(unit["iters"] // 1000, 1) if unit["iters"] > 1000 else 1
        step = 1 if thin == 1 else 97
        for i in list(range(0, 40)) + list(range(40, 999, 1 if thin == 1 else 13)):
            if i % step and i > 60:
                continue
            u = us[:, i : i + 1]
            for j in range(thin):
                z = ref.q_z(y, u, u @ u.T).mean
                if j == 0:
                    rep.close(zs[:, i], z[:, 0], f"sample {i} of z is not paired with that of u", rtol=1e-6, atol=1e-7)
                u = ref.q_u(y, z, z @ z.T).mean
            rep.close(us[:, i + 1], u[:, 0], f"sample {i + 1} of u is not the next state of the Gibbs sampler", rtol=1e-6, atol=1e-7)
            rep.step()
        z = ref.q_z(y, us[:, -1:], us[:, -1:] @ us[:, -1:].T).mean
        rep.close(zs[:, -1], z[:, 0], "the last sample of z is not paired with that of u", rtol=1e-6, atol=1e-7)
        rep.state(base + ["no noise"])
        rep.trace(base + ["no noise"], group="structured replay")

        # The samples are used in predictions.
        p = model.condition(t, y)
        m, v = p.predict(np.array([0.4, 1.5]))
        r = Moments(inst, [0.4, 1.5])
        want = np.mean([r.mean(us[:, i : i + 1], ref.q_z(y, us[:, i : i + 1], us[:, i : i + 1] @ us[:, i : i + 1].T).mean) for i in range(0, 1000)], axis=0)
        rep.close(m, want, "predictive mean", rtol=1e-5, atol=1e-6)


def run_conditioned(unit, rep):
    """Fit a conditioned model: the previous posterior is the prior, and is not changed."""
    import numpy as np
    from mc.approxref import Moments, gauss

    name, scheme = unit["model"], unit["scheme"]
    base = [name, scheme, "conditioned"]
    t, y, t2, y2 = (np.array(x) for x in (T, Y, T2, Y2))
    rep.begin(base)
    model = build(name, scheme, 0)
    model.fit(t, y, iters=10)
    rep.step()
    post = model.condition(t, y)
    inst = post()
    inst.approximation.q_u, inst.approximation.q_z = inst.approximation.p_u, inst.approximation.p_z
    before = variables(post)
    rep.true({"q_u[1].lam", "q_z[1].prec"} <= set(before), f"no new posterior: {sorted(before)}")

    def bound():
        i = post()
        a = i.approximation
        return Moments(i, t2).elbo(y2, gauss(a.q_u), gauss(a.q_z), gauss(a.p_u), gauss(a.p_z))

    e0 = bound()
    post.fit(t2, y2, iters=10)
    rep.step()
    after = variables(post)
    hyp = hypers(name, before, 0) if scheme != "mean-field-ca" else set()
    now = {n for n in before if n.startswith(("q_u[1]", "q_z[1]"))}
    compare(rep, before, after, hyp | now, now, "second fit")
    e1 = bound()
    rep.true(e1 >= e0 - 1e-6 * (1 + abs(e0)), f"the ELBO with the previous posterior as prior decreased from {e0} to {e1}")
    rep.close(post.elbo(t2, y2), e1, "ELBO with the previous posterior as prior", rtol=1e-6, atol=1e-6)
    rep.outcome(round(e1, 5))
    valid(rep, post)
    rep.state(base)
    rep.trace(base, group="conditioned")


def run_conditioned_structured(unit, rep):
    import numpy as np

    t, y, t2, y2 = (np.array(x) for x in (T, Y, T2, Y2))
    rep.begin([unit["model"], "structured", "conditioned"])
    model = build(unit["model"], "structured", 0)
    model.fit(t, y, iters=20, optimise_hypers=False)
    post = model.condition(t, y)
    post()
    before = variables(model)
    # Refitting the model replaces the samples.
    model.fit(t2, y2, iters=20, optimise_hypers=False)
    after = variables(model)
    rep.step(2)
    s = {"q_u[0].samples", "q_z[0].samples"}
    compare(rep, before, after, s, s, "refit")
    rep.true(after["q_u[0].samples"].shape[1] == 1000, "expected 1000 samples after refitting")
    rep.state("refit")
    rep.outcome("refit")
    rep.trace([unit["model"], "structured", "refit"], group="conditioned")


def run_unknown(unit, rep):
    """Unknown schemes are rejected, whatever one does with the model, and the spelling is not case sensitive."""
    import numpy as np
    from mc.models import small

    t, y = np.array(T), np.array(Y)
    for name in ("GPCM", "CGPCM", "RGPCM"):
        for s in ("", "mean_field", "ca", "structured-ca", "mean-field-bfgs", "mean-field-collapsed", "meanfield", "gibbs", "mean-field-ca-", "mean-field-gradient-ca"):
            for what, f in (
                ("call", lambda m: m()),
                ("fit", lambda m: m.fit(t, y, iters=2)),
                ("elbo", lambda m: m.elbo(t, y)),
            ):
                rep.begin([name, s, what])
                try:
                    f(small(name, scheme=s))
                    rep.fail(f"accepted the scheme {s!r}")
                except ValueError:
                    pass
                rep.step()
                rep.trace([name, s, what], group="unknown")
        for s in MF + ["structured"]:
            for v in (s.upper(), s.title()):
                rep.begin([name, v])
                a, b = small(name, scheme=v)(), small(name, scheme=s)()
                rep.true(type(a.approximation) is type(b.approximation), "scheme depends on the case")
                rep.state([name, v])
                rep.step()
                rep.trace([name, v], group="spelling")
