"""C10: coordinate ascent."""
import itertools

ID = "C10"
RULE = (
    "State: (q(u), q(z)) of a model with given data. Transition: one iteration of coordinate ascent. From every initial state in a grid, every number of iterations up to the bound "
    "is run on the implementation and every iterate is compared with a reference implementation of the transition; along every trace the ELBO of the "
    "implementation and of the reference never decreases, and converged states are fixed points."
)
BOUNDS = {
    "quick": "3 models x 2 parameter settings x 2 data sets x 3 x 3 initial states, traces of 6 iterations; every stored result after 0-3 iterations for 3 initial states; runs to convergence, also from states of which one half is optimal given the other",
    "thorough": "3 models x 2 parameter settings x 2 noise levels x 4 data sets x 4 x 4 initial states, traces of 12 iterations; every stored result after 0-6 iterations for 4 initial states; runs to convergence, also from states of which one half is optimal given the other",
}
ASSUMPTIONS = ["the compute_* integrals are those of the model (C03, C04)"]


def units(tier):
    us = []
    for m in ("GPCM", "CGPCM", "RGPCM"):
        for v, noise, d in itertools.product((0, 1), (0.1,) if tier == "quick" else (0.1, 1.0), ("plain", "repeated") if tier == "quick" else ("plain", "repeated", "single", "zeros")):
            us.append({"kind": "trace", "model": m, "variant": v, "noise": noise, "data": d, "n": 3 if tier == "quick" else 4, "k": 6 if tier == "quick" else 12})
            us.append({"kind": "fit", "model": m, "variant": v, "noise": noise, "data": d, "n": 3 if tier == "quick" else 4, "k": 3 if tier == "quick" else 6})
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def make(unit, ku, kz):
    import numpy as np
    import jax.numpy as jnp
    from checks.c09 import DATA, set_q
    from mc.models import small
    from mc.approxref import Moments

    model = small(unit["model"], scheme="mean-field-ca", variant=unit["variant"], noise=unit["noise"])
    inst = model()
    set_q(inst, ku, kz)
    t, y = (np.array(x) for x in DATA[unit["data"]])
    return model, inst, t, y, jnp.array(t), jnp.array(y)


def step(ref, y, q_u, q_z):
    q_u = ref.q_u(y, q_z.mean, q_z.m2)
    return q_u, ref.q_z(y, q_u.mean, q_u.m2)


def compare(rep, q, want, what, rtol=1e-5, atol=1e-6):
    ok = rep.close(q.lam, want.lam, f"{what}: lam", rtol=rtol, atol=atol)
    return rep.close(q.prec, want.prec, f"{what}: prec", rtol=rtol, atol=atol) and ok


def others(model):
    import numpy as np

    return {n: np.array(model.vs[n]) for n in model.vs.names if not n.startswith("q_")}


def run_trace(unit, rep):
    """Every iterate of a trace, through the callback."""
    import numpy as np
    from gpcm import approx
    from mc.approxref import Gauss, Moments, gauss, some_q

    run_ca = getattr(approx, "_fit_mean_field_ca", None)
    if run_ca is None:
        return  # Not public: the stored results are checked anyway.
    base = [unit["model"], unit["variant"], unit["noise"], unit["data"]]
    ref = None
    for ku, kz in itertools.product(range(unit["n"]), repeat=2):
        model, inst, t, y, jt, jy = make(unit, ku, kz)
        ref = ref or Moments(inst, t)
        q_u, q_z = Gauss(*some_q(inst.n_u, ku)), Gauss(*some_q(inst.n_z, kz))
        hypers = others(model)
        rep.begin(base + [ku, kz, "trace"])
        values = [float(inst.elbo(t, y))]
        rep.close(values[0], ref.elbo(y, q_u, q_z), "initial ELBO", rtol=1e-6, atol=1e-6)
        got = []
        run_ca(inst, jt, jy, iters=unit["k"], callback=lambda a, b: got.append((a, b)))
        rep.true(1 <= len(got) <= unit["k"], f"{len(got)} calls of the callback for {unit['k']} iterations")
        prev = None
        for i, (a, b) in enumerate(got):
            prev = (q_u, q_z)
            q_u, q_z = step(ref, y, q_u, q_z)
            rep.step()
            rep.state(base + [ku, kz, i])
            compare(rep, a, q_u, f"q(u) after iteration {i + 1}")
            compare(rep, b, q_z, f"q(z) after iteration {i + 1}")
            values.append(ref.elbo(y, gauss(a), gauss(b)))
            rep.true(values[-1] >= values[-2] - 1e-7 * (1 + abs(values[-2])), f"ELBO decreased: {values}")
        if len(got) < unit["k"]:
            change = max(np.sqrt(np.mean((p.lam - q.lam) ** 2)) for p, q in zip(prev, (q_u, q_z)))
            rep.true(change < 1e-5, f"stopped after {len(got)} iterations while the parameters still change by {change}")
        compare(rep, inst.approximation.q_u, q_u, "stored q(u)")
        compare(rep, inst.approximation.q_z, q_z, "stored q(z)")
        rep.close(float(inst.elbo(t, y)), values[-1], "ELBO after coordinate ascent", rtol=1e-6, atol=1e-6)
        after = others(model)
        rep.true(hypers.keys() == after.keys() and all(np.array_equal(hypers[k], after[k]) for k in hypers), "hyperparameters were changed")
        rep.outcome([round(v, 6) for v in values])
        rep.trace(base + [ku, kz, "trace", [round(v, 4) for v in values]], group="trace")


def run_fit(unit, rep):
    """What is stored after every number of iterations, through `fit`."""
    import numpy as np
    from mc.approxref import Gauss, Moments, gauss, some_q

    base = [unit["model"], unit["variant"], unit["noise"], unit["data"], "fit"]
    ref = None
    for q in range(unit["n"]):
        for k in range(unit["k"] + 1):
            if q and k not in (1, unit["k"]):
                continue
            model, inst, t, y, _, _ = make(unit, q, (q + 1) % 3)
            ref = ref or Moments(inst, t)
            q_u, q_z = Gauss(*some_q(inst.n_u, q)), Gauss(*some_q(inst.n_z, (q + 1) % 3))
            hypers = others(model)
            rep.begin(base + [q, k])
            model.fit(t, y, iters=k)
            for _ in range(k):
                q_u, q_z = step(ref, y, q_u, q_z)
                rep.step()
            inst = model()
            # Depending on the data, coordinate ascent might have converged earlier.
            compare(rep, inst.approximation.q_u, q_u, f"stored q(u) after {k} iterations", rtol=1e-5, atol=1e-5)
            compare(rep, inst.approximation.q_z, q_z, f"stored q(z) after {k} iterations", rtol=1e-5, atol=1e-5)
            after = others(model)
            rep.true(hypers.keys() == after.keys() and all(np.array_equal(hypers[n], after[n]) for n in hypers), "hyperparameters were changed")
            rep.state(base + [q, k])
            rep.trace(base + [q, k], group="fit")
    # To convergence, and once more from there.
    model, inst, t, y, _, _ = make(unit, 0, 0)
    rep.begin(base + ["convergence"])
    q_u, q_z = Gauss(*some_q(inst.n_u, 0)), Gauss(*some_q(inst.n_z, 0))
    model.fit(t, y)
    for i in range(5000):
        new = step(ref, y, q_u, q_z)
        change = sum(np.sqrt(np.mean((a - b) ** 2)) for p, q in zip(new, (q_u, q_z)) for a, b in ((p.lam, q.lam), (p.prec, q.prec)))
        q_u, q_z = new
        if change < 1e-6:
            break
    inst = model()
    a, b = gauss(inst.approximation.q_u), gauss(inst.approximation.q_z)
    rep.close(ref.elbo(y, a, b), ref.elbo(y, q_u, q_z), "ELBO at convergence", rtol=1e-6, atol=1e-6)
    c, d = step(ref, y, a, b)
    compare(rep, inst.approximation.q_u, c, "converged q(u) is not a fixed point", rtol=1e-4, atol=1e-4)
    compare(rep, inst.approximation.q_z, d, "converged q(z) is not a fixed point", rtol=1e-4, atol=1e-4)
    rep.state(base + ["convergence", i])
    rep.trace(base + ["convergence", i], group="convergence")
    # The same with a callback, which receives every iterate including the last one.
    from gpcm import approx

    run_ca = getattr(approx, "_fit_mean_field_ca", None)
    if run_ca is not None:
        model, inst, t, y, jt, jy = make(unit, 0, 0)
        rep.begin(base + ["convergence", "callback"])
        got = []
        run_ca(inst, jt, jy, callback=lambda a, b: got.append((a, b)))
        rep.true(0 < len(got) <= 5000, f"{len(got)} calls of the callback")
        if got:
            for q, c, what in zip(got[-1], (inst.approximation.q_u, inst.approximation.q_z), ("q(u)", "q(z)")):
                rep.close(q.lam, c.lam, f"the stored {what} is not the last one which was reported: lam", rtol=1e-9, atol=1e-12)
                rep.close(q.prec, c.prec, f"the stored {what} is not the last one which was reported: prec", rtol=1e-9, atol=1e-12)
        rep.step(len(got))
        rep.trace(base + ["convergence", "callback", len(got)], group="convergence")
    # To convergence from where one of the two is already optimal given the other.
    for side, k in itertools.product(("u", "z"), range(unit["n"])):
        from gpcm.normal import NaturalNormal

        half, inst, t, y, _, _ = make(unit, k, (k + 1) % 3)
        rep.begin(base + ["half converged", side, k])
        s_u, s_z = Gauss(*some_q(inst.n_u, k)), Gauss(*some_q(inst.n_z, (k + 1) % 3))
        if side == "u":
            o = ref.q_u(y, s_z.mean, s_z.m2)
            inst.approximation.q_u = NaturalNormal(np.array(o.lam), np.array(o.prec))
        else:
            o = ref.q_z(y, s_u.mean, s_u.m2)
            inst.approximation.q_z = NaturalNormal(np.array(o.lam), np.array(o.prec))
        half.fit(t, y)
        rep.step()
        inst = half()
        a, b = gauss(inst.approximation.q_u), gauss(inst.approximation.q_z)
        c, d = step(ref, y, a, b)
        compare(rep, inst.approximation.q_u, c, "converged q(u) is not a fixed point", rtol=1e-4, atol=1e-4)
        compare(rep, inst.approximation.q_z, d, "converged q(z) is not a fixed point", rtol=1e-4, atol=1e-4)
        rep.state(base + ["half converged", side, k])
        rep.trace(base + ["half converged", side, k], group="half converged")
    # Coordinate ascent of a posterior leaves the earlier posterior alone.
    model, inst, t, y, _, _ = make(unit, 0, 0)
    model.fit(t, y)
    inst = model()
    a, b = gauss(inst.approximation.q_u), gauss(inst.approximation.q_z)
    before = {n: np.array(model.vs[n]) for n in model.vs.names}
    post = model.condition(t, y)
    rep.begin(base + ["posterior"])
    p_u, p_z = a, b
    from checks.c09 import set_q

    set_q(post(), 2, 1)
    q_u, q_z = Gauss(*some_q(inst.n_u, 2)), Gauss(*some_q(inst.n_z, 1))
    post.fit(t, y, iters=3)
    for _ in range(3):
        q_u = ref.q_u(y, q_z.mean, q_z.m2, p_u)
        q_z = ref.q_z(y, q_u.mean, q_u.m2, p_z)
        rep.step()
    now = post()
    compare(rep, now.approximation.q_u, q_u, "q(u) of a posterior", rtol=1e-4, atol=1e-4)
    compare(rep, now.approximation.q_z, q_z, "q(z) of a posterior", rtol=1e-4, atol=1e-4)
    for n in before:
        rep.true(np.array_equal(before[n], np.array(post.vs[n])), f"{n} changed when fitting a posterior")
    rep.true(len(post.vs.names) >= len(before) + 4, f"no new variational posterior: {post.vs.names}")
