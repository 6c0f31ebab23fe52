"""C07: constraints and fixing of parameters."""
import itertools

ID = "C07"
RULE = (
    "State: model configuration (fix flags, initial inducing points) and latent vector of the learnable parameters. Every "
    "coordinate is moved to every value of a grid, alone and jointly over all corners for the hyperparameters; the model is instantiated at every such state and "
    "the constraints are checked. Which attributes respond to which coordinates is compared with the specification of what is learnable."
)
BOUNDS = {
    "quick": "3 models x 8 settings of the fix flags x 5-6 initialisations, every latent coordinate at 4 values, and joint corners {-18, 8}^k",
    "thorough": "3 models x 8 settings of the fix flags x 5-6 initialisations, every latent coordinate at 10 values, and joint grids {-18, -8, 0, 8, 18}^k",
}
ASSUMPTIONS = ["latent parameters within [-18, 18] in double precision"]

FLAGS = list(itertools.product((False, True), repeat=3))


def configs(name):
    import numpy as np

    if name == "RGPCM":
        return [
            dict(alpha=0.9, gamma=0.5, lam=1.3, t_u=np.array([0.0, 0.9]), m_max=1, a=-2.0, b=3.0, noise=0.1),
            dict(alpha=0.6, gamma=5.0, lam=0.7, alpha_t=0.8, t_u=np.array([1.4, 2.6, 0.2]), m_max=2, a=-2.0, b=3.0, noise=0.02),
            dict(window=2, scale=1, n_u=3, n_z=4, t=np.array([0.0, 4.0])),
            dict(alpha=1e-5, gamma=1e-6, lam=2e5, alpha_t=1e-5, t_u=np.array([0.0, 2e-5, 4e4]), m_max=1, a=-2.0, b=3.0, noise=1e-7),
            dict(alpha=3e5, gamma=2e4, lam=1e-6, alpha_t=2e5, t_u=np.array([0.0, 0.9]), m_max=1, a=-2.0, b=3.0, noise=1e6),
        ]
    return [
        dict(alpha=0.8, gamma=0.7, omega=1.5, t_u=np.array([0.1, 1.0]), t_z=np.array([0.0, 1.2]), noise=0.1),
        dict(alpha=0.4, gamma=1.1, omega=0.9, alpha_t=1.2, t_u=np.array([-1.6, -0.7, -0.4]), t_z=np.array([-0.4, 1.0, 2.2]), noise=0.3),
        dict(alpha=0.4, gamma=1.1, omega=0.9, t_u=np.array([1.2, -1.0, 0.0]), t_z=np.array([2.0, -1.0])),
        dict(window=2, scale=1, n_u=3, n_z=4, t=np.array([0.0, 4.0])),
        dict(alpha=1e-5, gamma=1e-6, omega=2e-5, alpha_t=3e-5, t_u=np.array([2e-5, 3e4]), t_z=np.array([-3e4, 1e-5]), noise=1e-7),
        dict(alpha=2e5, gamma=3e5, omega=1e5, alpha_t=4e4, t_u=np.array([0.1, 1.0]), t_z=np.array([0.0, 1.2]), noise=1e6),
    ]


def units(tier):
    us = []
    for m in ("GPCM", "CGPCM", "RGPCM"):
        for c in range(len(configs(m))):
            for fl in FLAGS:
                us.append({"model": m, "config": c, "flags": list(fl), "tier": tier})
        us.append({"model": m, "qs": True, "tier": tier})
    return us


SPEC = {
    # Attribute -> whether it is learnable given (fix_noise, fix_window, fix_scale).
    "GPCM": {
        "noise": lambda n, w, s: not n, "alpha": lambda n, w, s: not w, "alpha_t": lambda *_: True,
        "gamma": lambda n, w, s: not s, "omega": lambda *_: True, "omega_t": lambda *_: False,
        "t_u": lambda *_: True, "t_z": lambda *_: True,
    },
    "RGPCM": {
        "noise": lambda n, w, s: not n, "alpha": lambda n, w, s: not w, "alpha_t": lambda *_: True,
        "lam": lambda n, w, s: not s, "gamma": lambda *_: True, "gamma_t": lambda *_: False,
        "t_u": lambda *_: True, "a": lambda *_: False, "b": lambda *_: False, "ms": lambda *_: False,
    },
}


def snapshot(m, attrs):
    import numpy as np

    return {a: np.array(getattr(m, a), dtype=float).copy() for a in attrs}


def own_attributes(m):
    """Numeric attributes of the model object, for detecting changes."""
    import numpy as np

    return {k: np.array(v, dtype=float).copy() for k, v in vars(m).items()
            if isinstance(v, (int, float, np.ndarray)) or (hasattr(v, "dtype") and hasattr(v, "shape"))}


def same(a, b):
    import numpy as np

    return all(k in b and np.array_equal(a[k], b[k]) for k in a)


def run(unit, rep):
    import copy
    import numpy as np
    from mc.models import classes

    if unit.get("qs"):
        return run_qs(unit, rep)
    name, tier = unit["model"], unit["tier"]
    kw = dict(configs(name)[unit["config"]])
    fl = unit["flags"]
    kw.update(fix_noise=fl[0], fix_window=fl[1], fix_scale=fl[2], scheme="mean-field")
    spec = SPEC["RGPCM" if name == "RGPCM" else "GPCM"]
    attrs = list(spec)
    M = classes()[name]
    model = M(**kw)
    base = [name, unit["config"], fl]
    rep.begin(base)
    init = snapshot(model, attrs)
    own = own_attributes(model)

    inst = model()
    rep.step()
    first = snapshot(inst, attrs)
    for a in attrs:
        rep.close(first[a], init[a], f"initial value of {a}", rtol=1e-7, atol=1e-9)
    rep.true(same(own, own_attributes(model)), "instantiation changed the model")
    for a, b in zip(attrs, attrs):
        if a in kw and not (a == "gamma" and name == "RGPCM"):
            rep.close(first[a], np.array(kw[a], dtype=float), f"{a} given to the constructor", rtol=1e-7, atol=1e-9)

    vs = model.vs
    x0 = np.array(vs.get_latent_vector())
    k = len(x0)
    sizes = sum(np.size(init[a]) for a in attrs if spec[a](*fl))
    rep.true(k == sizes, f"{k} learnable values, expected {sizes}")

    t_u = np.array(model.t_u, dtype=float)
    if name == "RGPCM":
        lo, hi = -1e-4, 1.5 * t_u.max()
    else:
        lo = t_u.min() - max(0.5 * abs(t_u.min()), 1e-4)
        hi = t_u.max() + max(0.5 * abs(t_u.max()), 1e-4)

    def visit(x, case):
        rep.begin(base + [case])
        v = vs.copy()
        v.set_latent_vector(np.asarray(x))
        before = np.array(vs.get_latent_vector())
        m = model(v)
        rep.step()
        s = snapshot(m, attrs)
        for a in attrs:
            if not rep.true(np.all(np.isfinite(s[a])), f"{a} is not finite"):
                return s
            if a in ("noise", "alpha", "alpha_t", "gamma", "omega", "omega_t", "lam", "gamma_t"):
                rep.true(np.all(s[a] > 0), f"{a} is not positive: {s[a]}")
            if not spec[a](*fl):
                rep.true(np.array_equal(s[a], first[a]), f"{a} is not learnable, but changed from {first[a]} to {s[a]}")
        if name == "RGPCM":
            rep.true(s["gamma"] < s["alpha"], f"gamma={s['gamma']} is not smaller than alpha={s['alpha']}")
        rep.true(np.all(s["t_u"] > lo - 1e-12) and np.all(s["t_u"] < hi + 1e-12), f"t_u={s['t_u']} not within ({lo}, {hi})")
        rep.true(same(own, own_attributes(model)), "instantiation changed the model")
        rep.true(np.array_equal(before, np.array(vs.get_latent_vector())), "instantiation with other parameters changed the parameters of the model")
        rep.state(base + [case])
        rep.trace(base + [case] if case[0] == "joint" else None, group=case[0])
        return s

    # Instantiation is reproducible.
    again = snapshot(model(), attrs)
    rep.true(same(first, again), "second instantiation differs")

    # Every coordinate alone.
    grid = (-18.0, -1.0, 1.0, 18.0) if tier == "quick" else (-18.0, -8.0, -4.0, -1.0, -0.1, 0.3, 1.0, 4.0, 8.0, 18.0)
    responds = {a: set() for a in attrs}
    hyper_coords = []
    for i in range(k):
        for v in grid:
            x = x0.copy()
            x[i] = v
            s = visit(x, ["single", i, v])
            moved = [a for a in attrs if not np.allclose(s[a], first[a], rtol=1e-9, atol=1e-9)]
            for a in moved:
                responds[a].add(i)
        mine = [a for a in attrs if i in responds[a]]
        rep.true(len(mine) >= 1, f"learnable coordinate {i} affects nothing", case=base)
        if name == "RGPCM" and "alpha" in mine:
            rep.true(set(mine) == {"alpha", "gamma"}, f"coordinate {i} affects {mine}", case=base)
        else:
            rep.true(len(mine) == 1, f"coordinate {i} affects {mine}", case=base)
        if not {"t_u", "t_z"} & set(mine):
            hyper_coords.append(i)
    for a in attrs:
        if spec[a](*fl):
            n = np.size(init[a]) + (1 if name == "RGPCM" and a == "gamma" and spec["alpha"](*fl) else 0)
            rep.true(len(responds[a]) == n, f"{a} responds to {len(responds[a])} coordinates, expected {n}", case=base)

    # Everything jointly.
    for c in itertools.product((-18.0, 8.0) if tier == "quick" else (-18.0, -8.0, 0.0, 8.0, 18.0), repeat=len(hyper_coords)):
        for r in (-18.0, 8.0):
            x = np.full(k, r)
            x[hyper_coords] = c
            visit(x, ["joint", list(c), r])
    # Order of inducing points never matters for the bounds.
    for vals in itertools.product((-8.0, 8.0), repeat=min(k, 5)):
        x = x0.copy()
        x[-len(vals):] = vals
        visit(x, ["tail", list(vals)])


def run_qs(unit, rep):
    """Variational posteriors are proper whatever the latent values."""
    import numpy as np
    from mc.models import small

    name, tier = unit["model"], unit["tier"]
    model = small(name)
    inst = model()
    inst.approximation.q_u, inst.approximation.q_z
    names = [x for x in model.vs.names if x.startswith("q_")]
    rep.begin([name, "qs"])
    rep.true(len(names) == 4, f"variables of the variational posteriors: {names}")
    x0 = np.array(model.vs.get_latent_vector(*names))
    for i in range(len(x0)):
        for v in (-6.0, -1.0, 2.0, 6.0):
            x = x0.copy()
            x[i] = v
            vs = model.vs.copy()
            vs.set_latent_vector(x, *names)
            m = model(vs)
            rep.begin([name, "qs", i, v])
            for q in (m.approximation.q_u, m.approximation.q_z):
                prec = np.array(q.prec.mat)
                rep.close(prec, prec.T, "precision is not symmetric", rtol=1e-12, atol=1e-12)
                rep.true(np.linalg.eigvalsh(prec).min() > -1e-9 and np.all(np.isfinite(prec)), "precision is not positive definite")
            rep.step()
            rep.state([name, "qs", i, v])
        rep.trace([name, "qs", i], group="qs")
