"""C22: what optimisers are given."""
import itertools

ID = "C22"
RULE = (
    "Exhaustive product of models, parameters, objectives and states, where a state moves one of the latent coordinates of the model. At every state the objective is evaluated compiled and not "
    "compiled, and its derivative with respect to every latent coordinate is compared with a sixth-order difference of its values. During fits, every function that reaches "
    "the optimiser is compared with the reference of C09 and with differences at every point that the optimiser visits."
)
BOUNDS = {
    "quick": "3 models x 2 parameter settings x 3 ways to collapse or 2 scripts of draws x 3 sets of times; every latent hyperparameter moved to 2 values; 3 models x 4 gradient-based schemes with 10 iterations",
    "thorough": "3 models x 2 parameter settings x 3 ways to collapse or 3 scripts of draws x 4 sets of times; every latent coordinate moved to 4 values; 3 models x 4 gradient-based schemes x 4 settings of the fix flags with 50 iterations",
}
ASSUMPTIONS = [
    "the values of the objectives are right (C09)",
    "a sixth-order difference is accurate to 1e-4, relative to the largest derivative",
]

DATA = {
    "plain": ([0.3, 1.1, 1.9], [0.7, -0.4, 1.1]),
    "repeated": ([2.4, 0.5, 0.5, 1.5], [-1.2, 0.3, 0.5, 0.8]),
    # At inducing points.
    "inducing": ([0.0, 1.2, 1.0, 0.1, 0.9], [1.0, -0.3, 0.2, 0.4, -0.8]),
    "single": ([1.3], [2.0]),
}
GRADIENT = ["mean-field-gradient", "mean-field-collapsed-gradient", "mean-field-ca-gradient", "mean-field-ca-collapsed-gradient"]


def units(tier):
    q = tier == "quick"
    us = []
    for m, v, d in itertools.product(("GPCM", "CGPCM", "RGPCM"), (0, 1), list(DATA)[: 3 if q else 4]):
        for c in (None, "z", "u"):
            us.append({"kind": "mean_field", "model": m, "variant": v, "data": d, "collapsed": c, "tier": tier})
        us.append({"kind": "structured", "model": m, "variant": v, "data": d, "tier": tier})
    for m, s, f in itertools.product(("GPCM", "CGPCM", "RGPCM"), GRADIENT, range(1 if q else 4)):
        us.append({"kind": "optimiser", "model": m, "scheme": s, "fix": f, "iters": 10 if q else 50})
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


WEIGHTS = ((1, 3 / 4), (2, -3 / 20), (3, 1 / 60))


def differences(f, x, step=2e-3):
    """Derivative by sixth-order differences."""
    import numpy as np

    g = np.zeros(len(x))
    for i in range(len(x)):
        e = np.zeros(len(x))
        e[i] = step
        g[i] = sum(w * (float(f(x + k * e)) - float(f(x - k * e))) for k, w in WEIGHTS) / step
    return g


def check_gradient(rep, case, f, x, names):
    """Check the derivative of `f`, compiled and not, at `x`."""
    import numpy as np

    value, grad = f.both(x)
    grad = np.array(grad)
    rep.step()
    rep.true(np.all(np.isfinite(grad)), f"derivative is not finite: {grad}")
    rep.close(float(f.compiled(x)), float(value), "value with and without derivatives", rtol=1e-9, atol=1e-9)
    want = differences(f.compiled, x)
    scale = 1 + np.max(np.abs(want))
    for n, a, b in zip(names, grad, want):
        rep.close(a, b, f"derivative with respect to {n}", rtol=1e-4, atol=1e-5 * scale)
    return grad


def prepare(f):
    import jax

    f.compiled = jax.jit(f)
    f.both = jax.jit(jax.value_and_grad(f))
    return f


def latents(model):
    """Names of all latent coordinates, in order."""
    import numpy as np

    out = []
    for n in model.vs.names:
        k = len(np.array(model.vs.get_latent_vector(n)))
        out += [f"{n}[{i}]" if k > 1 else n for i in range(k)]
    return out


def states(x0, names, tier):
    """The initial state and those with one coordinate moved."""
    yield ["initial"], x0
    moves = (-0.7, 0.6) if tier == "quick" else (-1.5, -0.7, 0.6, 1.4)
    for i, n in enumerate(names):
        if tier == "quick" and (n.startswith("q_") or n.startswith("t_")):
            continue
        for d in moves:
            x = x0.copy()
            x[i] += d
            yield [n, d], x


def setup(unit, scheme):
    import jax.numpy as jnp
    from checks.c09 import set_q
    from mc.models import small

    model = small(unit["model"], scheme=scheme, variant=unit["variant"])
    set_q(model(), 0, 1)
    t, y = (jnp.array(x) for x in DATA[unit["data"]])
    return model, t, y


def run_mean_field(unit, rep):
    import jax.numpy as jnp
    import lab.jax as B
    import numpy as np

    model, t, y = setup(unit, "mean-field")
    names = latents(model)
    state = B.create_random_state(jnp.float64, seed=0)
    base = [unit["model"], unit["variant"], unit["data"], unit["collapsed"]]

    def f(x):
        vs = model.vs.copy()
        vs.set_latent_vector(x, *model.vs.names)
        return model(vs).approximation.elbo(state, t, y, collapsed=unit["collapsed"])[1]

    prepare(f)
    x0 = np.array(model.vs.get_latent_vector(*model.vs.names))
    rep.begin(base)
    rep.close(float(f(x0)), float(f.compiled(x0)), "compiled and not", rtol=1e-8, atol=1e-8)
    rep.close(float(f(x0)), float(model.elbo(np.array(t), np.array(y), collapsed=unit["collapsed"])), "ELBO as a function of the latent vector", rtol=1e-8, atol=1e-8)
    for case, x in states(x0, names, unit["tier"]):
        rep.begin(base + case)
        g = check_gradient(rep, case, f, x, names)
        c = unit["collapsed"]
        for n, v in zip(names, g):
            if c and n.startswith("q_" + c):
                rep.close(v, 0, f"derivative with respect to {n}, which is collapsed over", atol=1e-8)
        rep.state(base + case)
        rep.trace(base + case if case == ["initial"] else None, group=str(c))
        rep.outcome([round(float(v), 5) for v in g[:3]])


def run_structured(unit, rep):
    import jax
    import jax.numpy as jnp
    import lab.jax as B
    import numpy as np
    from mc.noise import scripted_jax

    model, t, y = setup(unit, "structured")
    hypers = [n for n in model.vs.names if not n.startswith("q_")]
    names = [n for n in latents(model) if not n.startswith("q_")]
    inst = model()
    u, z = jnp.full((inst.n_u, 1), 0.4), jnp.linspace(-1, 1, inst.n_z)[:, None]
    x0 = np.array(model.vs.get_latent_vector(*hypers))
    scripts = [[], [0.5, -0.3, 0.8, 0.1, -0.9, 0.4, 1.2, -0.2, 0.6, 0.7]] + ([[-1.0, 2.0, 0.3]] if unit["tier"] == "thorough" else [])

    def instance(x):
        vs = model.vs.copy()
        vs.set_latent_vector(x, *hypers)
        return model(vs)

    # The objective at a given sample.
    def fixed(x, u1):
        a = instance(x).approximation
        return a.log_Z_u(a.construct_terms(t, y), u1) + a.p_u.logpdf(u1)

    both = jax.jit(jax.value_and_grad(fixed))
    only = jax.jit(fixed)
    runs = list(itertools.product(scripts, (1, 2)))
    for script, num in runs if unit["tier"] == "thorough" else runs[::3]:
        base = [unit["model"], unit["variant"], unit["data"], "structured", script, num]

        def g(x):
            state = B.create_random_state(jnp.float64, seed=0)
            _, elbo, u1, _ = instance(x).approximation.elbo_gibbs(state, t, y, u, z, num_samples=num)
            return elbo, u1

        with scripted_jax(script):
            compiled = jax.jit(jax.value_and_grad(g, has_aux=True))
            compiled(x0)  # The script is baked in whilst compiling.
        for case, x in states(x0, names, unit["tier"]):
            rep.begin(base + case)
            (value, u1), grad = compiled(x)
            value2, _ = both(x, u1)
            rep.close(float(value), float(value2), "value at the sample", rtol=1e-7, atol=1e-7)
            want = differences(lambda xx: only(xx, u1), x)
            scale = 1 + np.max(np.abs(want))
            rep.true(np.all(np.isfinite(np.array(grad))), f"derivative is not finite: {grad}")
            for n, a, b in zip(names, np.array(grad), want):
                rep.close(a, b, f"derivative with respect to {n} at the sample", rtol=1e-4, atol=1e-5 * scale)
            rep.step()
            rep.state(base + case)
            rep.outcome([round(float(v), 5) for v in np.array(grad)[:3]])
        rep.trace(base, group="structured")


def run_optimiser(unit, rep):
    """The function that reaches the optimiser during a fit."""
    import sys

    import numpy as np
    from checks.c09 import set_q
    from checks.c14 import FLAGS
    from mc.approxref import Moments, gauss
    from mc.models import small

    name, scheme = unit["model"], unit["scheme"]
    fix = [{"fix_noise": True}, {}, {"fix_window": True, "fix_scale": True}, {"fix_noise": True, "fix_window": True, "fix_scale": True}][unit["fix"]]
    base = [name, scheme, fix]
    t, y = (np.array(x) for x in DATA["repeated"])
    rep.begin(base)
    model = small(name, scheme=scheme, **fix)
    set_q(model(), 0, 2)
    collapsed = "collapsed" in scheme
    learnable = [n for n in model.vs.names if not (collapsed and n.startswith("q_z"))]
    fixed = [n for f in fix for n in FLAGS[name][f]]
    learnable = [n for n in learnable if n not in fixed]
    calls = []

    def spy(original):
        def wrapped(func, x0, *args, **kw):
            def f(x, *a):
                out = func(x, *a)
                calls.append((np.array(x, dtype=float).copy(), out[0], np.array(out[1], dtype=float).copy()))
                return out

            spied.append((np.array(x0, dtype=float).copy(), func))
            return original(f, x0, *args, **kw)

        return wrapped

    spied = []
    vm = sys.modules["varz.minimise"]
    saved = vm.fmin_l_bfgs_b
    vm.fmin_l_bfgs_b = spy(saved)
    try:
        model.fit(t, y, iters=unit["iters"])
    finally:
        vm.fmin_l_bfgs_b = saved
    if not rep.true(len(spied) == 1 and len(calls) > 0, f"{len(spied)} optimisations"):
        return
    x0, func = spied[0][:2]
    # Which variables are they? The reference model has the same variables, which are moved along.
    probe = small(name, scheme=scheme, **fix)
    set_q(probe(), 0, 2)
    for n in model.vs.names:
        probe.vs.assign(n, model.vs[n])
    size = len(np.array(probe.vs.get_latent_vector(*learnable)))
    if not rep.true(len(x0) == size, f"{len(x0)} values are optimised, expected {size}"):
        return
    order = [n for n in probe.vs.names if n in learnable]
    for k, (x, value, grad) in enumerate(calls[:12]):
        rep.begin(base + ["call", k])
        probe.vs.set_latent_vector(x, *order)
        inst = probe()
        ref = Moments(inst, t)
        q_u = gauss(inst.approximation.q_u)
        q_z = ref.q_z(y, q_u.mean, q_u.m2) if collapsed else gauss(inst.approximation.q_z)
        rep.close(-float(value), ref.elbo(y, q_u, q_z), "the objective is not the ELBO", rtol=1e-6, atol=1e-6)
        if k in (0, 3):
            want = differences(lambda xx: func(xx)[0], x)
            rep.close(grad, want, "gradient given to the optimiser", rtol=1e-4, atol=1e-5 * (1 + np.max(np.abs(want))))
        rep.step()
        rep.state(base + ["call", k])
        rep.outcome(round(float(value), 5))
    rep.trace(base, group="optimiser")
