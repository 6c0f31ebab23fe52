"""C09: evidence lower bounds and optimal conditionals."""
import itertools

ID = "C09"
RULE = (
    "Exhaustive product of models, parameters, data sets, variational distributions and ways to collapse. Every ELBO and optimal conditional of "
    "the implementation is compared with the definition evaluated in NumPy one observation at a time, and the bounds are ordered: "
    "mean field <= collapsed <= structured <= log evidence, the latter by a dense Gauss-Hermite rule over u. Random draws are scripted."
)
BOUNDS = {
    "quick": "3 models x 2 parameter settings x 5 data sets of up to 37 observations x 3 x 3 variational distributions x 3 ways to collapse; structured: 3 x 2 x 4 data sets x 3 variational distributions x 1-3 samples x 3 scripts of draws",
    "thorough": "3 models x 2 parameter settings x 3 noise levels x 8 data sets of up to 131 observations x 4 x 4 variational distributions x 3 ways to collapse; structured likewise",
}
ASSUMPTIONS = ["the compute_* integrals are those of the model (C03, C04)"]

DATA = {
    "plain": ([0.3, 1.1, 1.9], [0.7, -0.4, 1.1]),
    "repeated": ([2.4, 0.5, 1.5, 0.5], [-1.2, 0.3, 0.8, 0.5]),
    "adjacent": ([1.4, 1.4, 0.6, 0.6, 0.6, 2.0], [-0.2, 0.9, 1.3, 0.1, -0.8, 0.6]),
    "single": ([1.0], [2.0]),
    "zeros": ([0.5, 1.5], [0.0, 0.0]),
    "large": ([0.1, 2.8, 1.4], [30.0, -20.0, 5.0]),
}


def _many(n):
    """Many observations, in no order, some of which coincide."""
    t = [round(((i * 37) % n) * 3.0 / n, 1) for i in range(n)]
    return t, [round(((i * 7919) % 101) / 50 - 1, 3) for i in range(n)]


DATA["many"] = _many(37)
DATA["lots"] = _many(131)


def units(tier):
    us = []
    noises = (0.1,) if tier == "quick" else (0.1, 0.01, 3.0)
    data = list(DATA)[:4] + ["many"] if tier == "quick" else list(DATA)
    for m in ("GPCM", "CGPCM", "RGPCM"):
        for v, noise, d in itertools.product((0, 1), noises, data):
            us.append({"kind": "mean_field", "model": m, "variant": v, "noise": noise, "data": d, "nq": 3 if tier == "quick" else 4})
            if d in ("many", "lots") and v:
                continue
            if d != "zeros":
                us.append({"kind": "structured", "model": m, "variant": v, "noise": noise, "data": d, "full": d == "plain" and v == 0, "nq": 3 if tier == "quick" else 4})
    return us


def setup(unit, scheme):
    import numpy as np
    import jax.numpy as jnp
    from mc.models import small
    from mc.approxref import Moments

    model = small(unit["model"], scheme=scheme, variant=unit["variant"], noise=unit["noise"])
    inst = model()
    t, y = (np.array(x) for x in DATA[unit["data"]])
    return model, inst, t, y, jnp.array(t), jnp.array(y), Moments(inst, t)


def set_q(inst, ku, kz):
    from gpcm.normal import NaturalNormal
    from mc.approxref import some_q

    inst.approximation.q_u = NaturalNormal(*some_q(inst.n_u, ku))
    inst.approximation.q_z = NaturalNormal(*some_q(inst.n_z, kz))


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def run_mean_field(unit, rep):
    import numpy as np
    import lab.jax as B
    from mc.approxref import Gauss, gauss, some_q
    from gpcm.normal import NaturalNormal

    model, inst, t, y, jt, jy, ref = setup(unit, "mean-field")
    base = [unit["model"], unit["variant"], unit["noise"], unit["data"]]
    evidence = ref.log_evidence(y) if inst.n_u == 2 else np.inf
    ap = inst.approximation
    ts = ap.construct_terms(jt, jy)
    kw = dict(rtol=1e-6, atol=1e-6)
    for ku, kz in itertools.product(range(unit["nq"]), repeat=2):
        set_q(inst, ku, kz)
        q_u, q_z = Gauss(*some_q(inst.n_u, ku)), Gauss(*some_q(inst.n_z, kz))
        case = base + [ku, kz]
        rep.begin(case)
        # Optimal factors and conditionals.
        o_u, o_z = ref.q_u(y, q_z.mean, q_z.m2), ref.q_z(y, q_u.mean, q_u.m2)
        for name, got, want in [
            ("q(u)", ap.q_u_optimal_mean_field(ts, NaturalNormal(*some_q(inst.n_z, kz))), o_u),
            ("q(z)", ap.q_z_optimal_mean_field(ts, NaturalNormal(*some_q(inst.n_u, ku))), o_z),
        ]:
            rep.step()
            rep.close(got.lam, want.lam, f"optimal {name}: lam", rtol=1e-6, atol=1e-6)
            rep.close(got.prec, want.prec, f"optimal {name}: prec", rtol=1e-6, atol=1e-6)
        # ELBOs, through the model and through the instance, and with a state.
        values = {}
        for collapsed, want in ((None, ref.elbo(y, q_u, q_z)), ("z", ref.elbo(y, q_u, o_z)), ("u", ref.elbo(y, o_u, q_z))):
            got = float(inst.elbo(t, y, collapsed=collapsed))
            values[collapsed] = got
            rep.close(got, want, f"ELBO, collapsed={collapsed}", **kw)
            rep.step()
        if ku == kz:
            state = B.create_random_state(inst.dtype, seed=1)
            _, got = inst.elbo(state, jt, jy)
            rep.close(float(got), values[None], "ELBO with a random state", rtol=1e-10)
            rep.close(float(model.elbo(t, y)), values[None], "ELBO of the model", rtol=1e-10)
        slack = 1e-6 * (1 + abs(values[None]))
        rep.true(values[None] <= values["z"] + slack and values[None] <= values["u"] + slack, f"collapsing lowers the ELBO: {values}")
        rep.true(max(values.values()) <= evidence + slack, f"ELBO {values} exceeds the log evidence {evidence}")
        rep.true(set(values.values()) and not (ku == 0 and kz == 0 and len({round(v, 9) for v in values.values()}) == 1), "vacuous")
        rep.outcome([round(v, 6) for v in values.values()])
        rep.state(case)
        rep.trace(case, group="mean field")
        if ku != kz:
            continue
        # The order of the observations does not matter.
        perm = np.arange(len(t))[::-1]
        rep.close(float(inst.elbo(t[perm], y[perm])), values[None], "ELBO depends on the order of the data", rtol=1e-8, atol=1e-8)
        # Nor do repeated calls.
        rep.close(float(inst.elbo(t, y)), values[None], "second evaluation differs", rtol=1e-12)
    try:
        inst.elbo(t, y, collapsed="x")
        rep.fail("invalid value for `collapsed` accepted", case=base)
    except ValueError:
        pass
    # Conditional on a posterior, the KL is with respect to that posterior.
    set_q(inst, 0, 2)
    post = model.condition(t, y)()
    p_u, p_z = gauss(post.approximation.p_u), gauss(post.approximation.p_z)
    want_u, want_z = Gauss(*some_q(inst.n_u, 0)), Gauss(*some_q(inst.n_z, 2))
    rep.close(p_u.mean, want_u.mean, "posterior does not become the prior", rtol=1e-6, atol=1e-8)
    rep.close(p_z.var, want_z.var, "posterior does not become the prior", rtol=1e-6, atol=1e-8)
    ts = post.approximation.construct_terms(jt, jy)
    for ku, kz in itertools.product(range(unit["nq"]), repeat=2):
        case = base + ["posterior", ku, kz]
        rep.begin(case)
        set_q(post, ku, kz)
        q_u, q_z = Gauss(*some_q(inst.n_u, ku)), Gauss(*some_q(inst.n_z, kz))
        o_u, o_z = ref.q_u(y, q_z.mean, q_z.m2, want_u), ref.q_z(y, q_u.mean, q_u.m2, want_z)
        values = {}
        for collapsed, a, b in ((None, q_u, q_z), ("z", q_u, o_z), ("u", o_u, q_z)):
            values[collapsed] = float(post.elbo(t, y, collapsed=collapsed))
            rep.close(values[collapsed], ref.elbo(y, a, b, want_u, want_z), f"ELBO relative to a posterior, collapsed={collapsed}", **kw)
            rep.step()
        slack = 1e-6 * (1 + abs(values[None]))
        rep.true(values[None] <= values["z"] + slack and values[None] <= values["u"] + slack, f"collapsing lowers the ELBO: {values}")
        rep.state(case)
        rep.trace(case, group="mean field relative to a posterior")


def run_structured(unit, rep):
    import numpy as np
    import lab.jax as B
    from gpcm.normal import NaturalNormal
    from mc.approxref import Gauss, gauss, some_q
    from mc.noise import scripted_jax

    model, inst, t, y, jt, jy, ref = setup(unit, "structured")
    base = [unit["model"], unit["variant"], unit["noise"], unit["data"], "structured"]
    ap = inst.approximation
    ts = ap.construct_terms(jt, jy)
    n_u, n_z = inst.n_u, inst.n_z
    evidence = ref.log_evidence(y) if n_u == 2 else np.inf

    # Conditionals given the other variable.
    points = [np.zeros(n_u), np.ones(n_u), *np.eye(n_u), -2 * np.arange(n_u)]
    for i, u in enumerate(points):
        u = u[:, None].astype(float)
        want = ref.q_z(y, u, u @ u.T)
        got = ap.q_z_optimal(ts, B.cast(inst.dtype, u))
        rep.begin(base + ["q(z|u)", u.ravel().tolist()])
        rep.close(got.lam, want.lam, "q(z|u): lam", rtol=1e-6, atol=1e-7)
        rep.close(got.prec, want.prec, "q(z|u): prec", rtol=1e-6, atol=1e-7)
        rep.step()
        rep.state([*base, "u", i])
    for i, z in enumerate([np.zeros(n_z), np.ones(n_z), *np.eye(n_z), 2 * np.sin(np.arange(n_z))]):
        z = z[:, None].astype(float)
        want = ref.q_u(y, z, z @ z.T)
        got = ap.q_u_optimal(ts, B.cast(inst.dtype, z))
        rep.begin(base + ["q(u|z)", z.ravel().tolist()])
        rep.close(got.lam, want.lam, "q(u|z): lam", rtol=1e-6, atol=1e-7)
        rep.close(got.prec, want.prec, "q(u|z): prec", rtol=1e-6, atol=1e-7)
        rep.step()
        rep.state([*base, "z", i])

    # ELBO collapsed over q(z|u) for scripted draws of u.
    scripts = [[], [0, -1.0], [0.3, -0.7, 1.1, 2.0, -1.5, 0.2]]
    for ku in range(unit["nq"]):
        set_q(inst, ku, 0)
        q_u = Gauss(*some_q(n_u, ku))
        for num, script in itertools.product((1, 2, 3), scripts):
            rep.begin(base + ["elbo", ku, num, script])
            state = B.create_random_state(inst.dtype, seed=3)
            with scripted_jax(script):
                _, us = ap.q_u.sample(state, num)
            with scripted_jax(script) as tape:
                new, got = ap.elbo_collapsed_z(state, jt, jy, num_samples=num)
            us = np.array(us)
            want = np.mean([ref.log_Z_u(y, us[:, i : i + 1]) for i in range(num)]) - q_u.kl(ref.p_u)
            rep.close(float(got), want, "structured ELBO", rtol=1e-6, atol=1e-6)
            rep.true(tape.consumed == n_u * num, f"{tape.consumed} draws for {num} samples of u")
            rep.true(not np.array_equal(np.array(new), np.array(state)), "random state not advanced")
            rep.step()
            rep.state([*base, "elbo", ku, num, script])
            rep.trace([*base, "elbo", ku, num, script], group="structured")
        if n_u == 2:
            # In expectation, it lies between the mean-field bound and the evidence.
            want = ref.exp_log_Z(y, q_u) - q_u.kl(ref.p_u)
            mf = ref.elbo(y, q_u, ref.q_z(y, q_u.mean, q_u.m2))
            rep.true(mf <= want + 1e-6 * (1 + abs(want)) and want <= evidence + 1e-6 * (1 + abs(evidence)), f"not ordered: {mf}, {want}, {evidence}")

    # Objective for the hyperparameters.
    for num, script in itertools.product((1, 2), ([], [0.5, -0.3, 0.8, 0.1, -0.9, 0.4, 1.2, -0.2, 0.6, 0.7])):
        u, z = np.full((n_u, 1), 0.4), np.linspace(-1, 1, n_z)[:, None]
        rep.begin(base + ["gibbs", num, script])
        state = B.create_random_state(inst.dtype, seed=3)
        with scripted_jax(script) as tape:
            _, got, u1, z1 = ap.elbo_gibbs(state, jt, jy, B.cast(inst.dtype, u), B.cast(inst.dtype, z), num_samples=num)
        rep.true(tape.consumed == num * (n_u + n_z), f"{tape.consumed} draws in {num} Gibbs sweeps")
        u1, z1 = np.array(u1), np.array(z1)
        rep.close(float(got), ref.log_Z_u(y, u1) + ref.p_u.logpdf(u1), "objective at the sample", rtol=1e-6, atol=1e-6)
        # The sample, by replaying the Gibbs sweeps in the reference.
        script_ = list(script) + [0.0] * (num * (n_u + n_z))
        for i in range(num):
            for kind in "uz":
                q = ref.q_u(y, z, z @ z.T) if kind == "u" else ref.q_z(y, u, u @ u.T)
                e, script_ = script_[: len(q.lam)], script_[len(q.lam) :]
                # Convert the noise in the same manner as the distribution does.
                with scripted_jax(e):
                    _, x = NaturalNormal(B.cast(inst.dtype, q.lam), B.cast(inst.dtype, q.prec)).sample(state)
                if kind == "u":
                    u = np.array(x)
                else:
                    z = np.array(x)
        rep.close(u1, u, "Gibbs sample of u", rtol=1e-5, atol=1e-6)
        rep.close(z1, z, "Gibbs sample of z", rtol=1e-5, atol=1e-6)
        rep.step()
        rep.trace(base + ["gibbs", num, script], group="gibbs")

    if unit["full"]:
        # The complete ELBO: after coordinate ascent.
        rep.begin(base + ["full"])
        with scripted_jax([]):
            got = float(model.elbo(t, y, num_samples=2))
        q_u = gauss(model().approximation.q_u)
        q_z = gauss(model().approximation.q_z)
        rep.close(got, ref.log_Z_u(y, q_u.mean) - q_u.kl(ref.p_u), "complete structured ELBO", rtol=1e-6, atol=1e-6)
        o_z = ref.q_z(y, q_u.mean, q_u.m2)
        rep.close(q_z.prec, o_z.prec, "coordinate ascent did not converge", rtol=1e-4, atol=1e-4)
        exact = ref.exp_log_Z(y, q_u) - q_u.kl(ref.p_u)
        rep.true(ref.elbo(y, q_u, q_z) <= exact + 1e-6 and exact <= evidence + 1e-6, "not ordered")
        rep.trace(base + ["full"], group="full")
