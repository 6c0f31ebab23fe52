"""C28: the synthetic experiments of the paper."""
import itertools

ID = "C28"
RULE = (
    "The scripts are executed on coarse grids with stand-ins for models, files and plots. Laws of simulated data and samples are identified from the images of all standard normal draws and compared with the kernels that they are said to come from. Everything that models are given, saved, "
    "reported and shown is compared with its definition, for results computed anew and loaded from files."
)
BOUNDS = {
    "quick": "7 scripts; grids of 12 to 33 points; all basis vectors of the noise; all sequences of at most 3 rejections; 3 data sets per script",
    "thorough": "7 scripts; grids of 10 to 57 points; all basis vectors of the noise; all sequences of at most 9 rejections; 24 data sets per script",
}
ASSUMPTIONS = ["models are replaced by stand-ins, except in the comparison of methods of inference: they are checked by C03 to C26", "the times that are measured are replaced by a counter"]


def units(tier):
    q = tier == "quick"
    us = []
    for factor in (12, 17) if q else (12, 17, 15, 9, 7):
        us.append({"kind": "comparison", "factor": factor, "seeds": 3 if q else 24})
    for factor in (8, 11) if q else (8, 11, 7, 5, 4):
        us.append({"kind": "smk", "factor": factor, "seeds": 3 if q else 24})
    for factor in (25, 33) if q else (25, 33, 40, 20, 14, 12, 10, 8):
        us.append({"kind": "sample", "factor": factor})
    us.append({"kind": "interpolation", "depth": 3 if q else 9})
    us.append({"kind": "priors"})
    us += [{"kind": "inference", "seed": i} for i in range(2 if q else 16)]
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def coarse(factor):
    return lambda n: max(5, int(n) // factor)


def noise_script(seed, n):
    import numpy as np

    return list(np.sin(1 + seed + 2.3 * np.arange(n) + 0.1 * (seed + 1) * np.arange(n) ** 2))


def smll(mean, var, y):
    import numpy as np
    from checks.c27 import mll

    return mll(mean, var, y) - mll(np.mean(y), np.var(y), y)


def kernels():
    import numpy as np
    from scipy.special import erf

    return {
        "eq": lambda r: np.exp(-0.5 * r**2),
        "ceq-1": lambda r: (1 - erf(np.abs(r) / 4)) * np.exp(-0.5 * r**2),
        "matern12": lambda r: np.exp(-np.abs(r)),
    }


MODELS = [("eq", "gpcm"), ("ceq-1", "cgpcm"), ("matern12", "rgpcm")]


def run_comparison(unit, rep):
    import numpy as np
    from checks.c27 import rmse
    from mc.noise import linear_map
    from mc.paper import World, execute, stand_ins

    root = "_experiments/comparison/"
    small = coarse(unit["factor"])
    case = ["comparison", unit["factor"]]
    rep.begin(case + ["law"])
    info = {}

    def f(script):
        w = World()
        info["made"] = stand_ins(w)
        k = execute(w, "comparison", noise=script, linspace=small)
        info["store"] = w.store
        rep.step()
        return np.concatenate([np.ravel(w.store[f"{root}{n}/data.pickle"][x]) for n, _ in MODELS for x in ("f", "y")]), k

    f0, A = linear_map(f, max_k=400)
    t = np.ravel(info["store"][f"{root}eq/data.pickle"]["t"])
    n = len(t)
    K = np.zeros((6 * n, 6 * n))
    for i, (name, _) in enumerate(MODELS):
        k = kernels()[name](t[:, None] - t[None, :])
        K[2 * i * n : 2 * (i + 1) * n, 2 * i * n : 2 * (i + 1) * n] = np.block([[k, k], [k, k + np.eye(n)]])
    rep.close(f0, np.zeros(6 * n), "mean of the data", rtol=0, atol=1e-5)
    rep.close(A @ A.T, K, "covariance of functions and data", rtol=1e-5, atol=1e-5)
    rep.state(case + ["law"])
    rep.trace(case + ["law"], group="laws")
    for seed in range(unit["seeds"]):
        rep.begin(case + [seed])
        f(noise_script(seed, A.shape[1]))
        store, made = info["store"], info["made"]
        rep.true(len(made) == 6, f"{len(made)} models")
        expected = {}
        for name, model in MODELS:
            data = store[f"{root}{name}/data.pickle"]
            y = np.ravel(data["y"])
            C = kernels()[name](t[:, None] - t[None, :]) + np.eye(n)
            rep.close(np.ravel(data["t"]), t, "times", rtol=0, atol=1e-12)
            want = -0.5 * (y @ np.linalg.solve(C, y) + np.linalg.slogdet(C)[1] + n * np.log(2 * np.pi))
            rep.close(float(np.squeeze(data["true_logpdf"])), want, "log-density of the data", rtol=1e-6)
            mine = [m for m in made if m.name.lower() == model]
            schemes = [m.kw["scheme"] for m in mine]
            if not rep.true(sorted(schemes) == ["mean-field", "structured"], f"schemes of {model} are {schemes}"):
                continue
            conf = [{k: v for k, v in m.kw.items() if k not in ("scheme", "t")} for m in mine]
            rep.true(conf[0] == conf[1], f"configurations of {model} differ between schemes")
            for m in mine:
                rep.close(np.ravel(m.kw["t"]), t, "times given to the model", rtol=0, atol=1e-12)
                rep.close(float(m.kw["noise"]), 1.0, "noise given to the model")
                if not rep.true(len(m.fits) == 1 and len(m.conditions) >= 1, f"{model} is trained {len(m.fits)} times"):
                    continue
                for a, b in [m.fits[0][:2]] + m.conditions:
                    rep.close(a, t, "times of the data", rtol=0, atol=1e-12)
                    rep.close(b, y, "data", rtol=1e-9, atol=1e-12)
                files = f"{root}{name}/{m.kw['scheme']}/{model}/"
                rep.close(float(store[files + "elbo.pickle"]), m.elbo(t, y), "ELBO", rtol=1e-8)
                rep.true(store[files + "model.pickle"] == ("model", m.name, m.state), "saved model")
                post = m.Posterior(m, t, y)
                a, b = post.predict(t)
                got = store[files + "f_pred.pickle"]
                for g, x, what in zip(got, (t, a, b), ("times", "mean", "variance")):
                    rep.close(np.ravel(g), x, f"{what} of the predictions", rtol=1e-8, atol=1e-10)
                got = store[files + "k_pred.pickle"]
                pred = post.predict_kernel(np.ravel(got[0]))
                rep.true(np.min(got[0]) == 0 and np.max(got[0]) == 4, "times of the kernel")
                rep.close(np.ravel(got[1]), pred.mean, "mean of the kernel", rtol=1e-8)
                rep.close(np.ravel(got[2]), pred.var, "variance of the kernel", rtol=1e-8)
                truth = kernels()[name](np.ravel(got[0]))
                rep.close(np.ravel(data["k"]), truth, "true kernel", rtol=1e-7, atol=1e-9)
                expected[model, m.kw["scheme"]] = smll(pred.mean, pred.var, truth), rmse(pred.mean, truth), pred, truth
        # The processed results.
        w = World(store)
        execute(w, "comparison_process")
        rep.step()
        for (model, scheme), (s, r, pred, truth) in expected.items():
            key = {"mean-field": "MF", "structured": "S"}[scheme]
            rep.close(float(w.values[model.upper(), "SMLL", key]), s, f"SMLL of {model} {scheme}", rtol=1e-7)
            rep.close(float(w.values[model.upper(), "RMSE", key]), r, f"RMSE of {model} {scheme}", rtol=1e-7)
        for i, (name, model) in enumerate(MODELS):
            for label, scheme in (("Structured", "structured"), ("Mean-field", "mean-field")):
                shown = w.curves(label)
                if rep.true(len(shown) == 3, f"{len(shown)} predictions are shown"):
                    rep.close(shown[i][1], expected[model, scheme][2].mean, f"shown kernel of {model}, {label}", rtol=1e-8)
            shown = w.curves("Truth")
            if rep.true(len(shown) == 3, f"{len(shown)} true kernels are shown"):
                rep.close(shown[i][1], expected[model, "structured"][3], "shown true kernel", rtol=1e-7, atol=1e-9)
            bands = w.curves(name="fill_between")
            if rep.true(len(bands) == 6, f"{len(bands)} credible regions are shown"):
                for j, scheme in enumerate(("structured", "mean-field")):
                    p = expected[model, scheme][2]
                    b = sorted(bands[2 * i + j][1:3], key=np.sum)
                    if not (np.allclose(b[0], p.mean - 1.96 * np.sqrt(p.var)) and np.allclose(b[1], p.mean + 1.96 * np.sqrt(p.var))):
                        p = expected[model, {"structured": "mean-field", "mean-field": "structured"}[scheme]][2]  # The order does not matter.
                    rep.close(b[0], p.mean - 1.96 * np.sqrt(p.var), "lower bound", rtol=1e-7, atol=1e-9)
                    rep.close(b[1], p.mean + 1.96 * np.sqrt(p.var), "upper bound", rtol=1e-7, atol=1e-9)
        rep.state(case + [seed])
        rep.outcome(case + [seed, round(float(expected["gpcm", "structured"][0]), 6)])
        rep.trace(case + [seed], group="comparisons")


def run_smk(unit, rep):
    import numpy as np
    from checks.c27 import mll, rmse
    from mc.noise import linear_map
    from mc.paper import World, execute, stand_ins

    small = coarse(unit["factor"])
    case = ["smk", unit["factor"]]
    rep.begin(case + ["law"])
    info = {}

    def kern(r):
        return np.cos(np.pi * r) * np.exp(-0.5 * r**2)

    def f(script, argv=("--train",), store=None):
        w = World(store)
        made = info["made"] = stand_ins(w)
        k = execute(w, "smk", argv, noise=script, linspace=small)
        info["world"] = w
        rep.step()
        if not made:
            return None
        info["t"] = made[0].fits[0][0]
        return made[0].fits[0][1], k

    f0, A = linear_map(f, max_k=400)
    t = info["t"]
    n = len(t)
    rep.close(f0, np.zeros(n), "mean of the data", rtol=0, atol=1e-5)
    rep.close(A @ A.T, kern(t[:, None] - t[None, :]) + 0.1 * np.eye(n), "covariance of the data", rtol=1e-5, atol=1e-5)
    # The PSD of the true kernel, on the original grids.
    w = World()
    stand_ins(w)
    execute(w, "smk", ["--train"], noise=[])
    rep.step()
    truth = w.curves("Truth")
    if rep.true(len(truth) == 2, f"{len(truth)} truths are shown"):
        fr, p = truth[1]
        S = 10 * np.log10(np.sqrt(2 * np.pi) / 2 * sum(np.exp(-0.5 * (2 * np.pi * fr + a * np.pi) ** 2) for a in (-1, 1)))
        rep.true(len(fr) >= 5 and np.max(fr) <= 1 and np.max(fr) > 0.8, f"shown frequencies are {fr}")
        rep.close(p, S, "shown true PSD", rtol=0, atol=0.5)
    rep.state(case + ["law"])
    rep.trace(case + ["law"], group="laws")
    for seed in range(unit["seeds"]):
        rep.begin(case + [seed])
        script = noise_script(seed, A.shape[1])
        f(script)
        w, made = info["world"], info["made"]
        schemes = sorted(m.kw["scheme"] for m in made)
        if not rep.true(schemes == ["mean-field", "structured"], f"schemes are {schemes}"):
            continue
        conf = [{k: v for k, v in m.kw.items() if k not in ("scheme", "t")} for m in made]
        rep.true(conf[0] == conf[1], "configurations differ between schemes")
        y = A @ np.array(script)
        w2 = (f(script, (), w.store), info["world"])[1]
        for m in made:
            for a, b in [x[:2] for x in m.fits] + m.conditions:
                rep.close(a, t, "times of the data", rtol=0, atol=1e-12)
                rep.close(b, y, "data", rtol=1e-5, atol=1e-5)
            section = {"structured": "Structured", "mean-field": "Mean field"}[m.kw["scheme"]]
            label = {"structured": "Structured", "mean-field": "Mean-field"}[m.kw["scheme"]]
            post = m.Posterior(m, *m.fits[0][:2])
            for world in (w, w2):
                shown = world.curves(label)
                if not rep.true(len(shown) == 2, f"{len(shown)} predictions of {label} are shown"):
                    continue
                tk = shown[0][0]
                pred = post.predict_kernel(tk)
                rep.close(shown[0][1], pred.mean, "shown kernel", rtol=1e-8)
                near = tk <= 3
                rep.close(float(world.values[section, "MLL"]), mll(pred.mean[near], pred.var[near], kern(tk[near])), f"MLL of {label}", rtol=1e-7)
                rep.close(float(world.values[section, "RMSE"]), rmse(pred.mean[near], kern(tk[near])), f"RMSE of {label}", rtol=1e-7)
                p = post.predict_psd()
                near = p.x <= 1
                rep.close(shown[1][0], p.x[near], "shown frequencies", rtol=1e-8, atol=1e-12)
                rep.close(shown[1][1], p.mean[near], "shown PSD", rtol=1e-8)
                truth = world.curves("Truth")
                rep.close(truth[0][1], kern(truth[0][0]), "shown true kernel", rtol=1e-7, atol=1e-9)
                bands = [b[1:3] for b in world.curves(name="fill_between")]
                for lo, hi in ((pred.err_95_lower, pred.err_95_upper), (p.err_95_lower[near], p.err_95_upper[near])):
                    rep.true(any(len(b[0]) == len(lo) and np.allclose(b[0], lo) and np.allclose(b[1], hi) for b in bands), f"credible region of {label} is not shown")
        rep.state(case + [seed])
        rep.outcome(case + [seed, round(float(y[0]), 5)])
        rep.trace(case + [seed], group="smk")


def stub_models(world, dim):
    """Models with simple kernels given u."""
    import numpy as np

    def arr(x):
        import lab as B

        return np.array(B.to_numpy(B.dense(x)), dtype=float)

    class Stub:
        def __init__(self, **kw):
            self.kw = kw
            self.n_u = dim
            self.t_u = -0.5 + 1.5 / (dim - 1) * np.arange(dim)
            if self.name != "RGPCM":
                self.t_z = -1.0 + np.arange(4)
            self.us = []

        def __call__(self):
            return self

        def compute_K_u(self):
            return np.eye(dim)

        def k_h(self):
            from stheno import EQ

            return EQ()

        def kernel_approx(self, t1, t2, u):
            return given(self.name, arr(t1), arr(t2), arr(u))

    def given(name, t1, t2, u):
        # Not stationary, like the RGPCM, and not largest at the first point.
        r = t1[:, None] - t2[None, :]
        grow = (1 + 0.05 * t1[:, None]) * (1 + 0.05 * t2[None, :])
        s = {"GPCM": 1.0, "CGPCM": 0.7, "RGPCM": 0.5}[name]
        return grow * (1 + u[0] ** 2) * np.exp(-0.5 * r**2 / s**2) + 0.3 * u[-1] ** 2 * np.exp(-0.5 * r**2) * np.cos(2 * r)

    for name in ("GPCM", "CGPCM", "RGPCM"):
        world.models[name] = type(name, (Stub,), {"name": name})
    return given


def run_sample(unit, rep):
    import numpy as np
    from mc.paper import World, execute

    case = ["sample", unit["factor"]]
    rep.begin(case)
    small = coarse(unit["factor"])
    root = "_experiments/sample/"

    def f(script, argv=("--train",), store=None):
        w = World(store)
        stub_models(w, 2)
        k = execute(w, "sample", argv, noise=script, linspace=small)
        rep.step()
        ks, fs = w.store[root + "samples.pickle"]
        return np.array([[np.ravel(k) for k in x] for x in ks]), np.array([[np.ravel(g) for g in x] for x in fs]), k, w

    _, _, k, _ = f([])
    base = np.array(noise_script(0, k))
    ks0, fs0, _, w0 = f(list(base))
    t = np.ravel(w0.plots[0][1].args[0])
    n = ks0.shape[2]
    rep.true(ks0.shape[:2] == (3, 5) and fs0.shape == ks0.shape, f"shapes of the samples: {ks0.shape} and {fs0.shape}")
    cols, us = [], []
    for i in range(k):
        rep.begin(case + [i])
        s = base.copy()
        s[i] += 0.5
        ks, fs, _, _ = f(list(s))
        if np.max(np.abs(ks - ks0)) > 1e-9:
            d = np.argwhere(np.max(np.abs(ks - ks0), axis=2) > 1e-9)
            rep.true(len(d) == 1, f"draw {i} affects {len(d)} kernels")
            us.append((tuple(d[0]), i))
        else:
            cols.append((fs - fs0) / 0.5)
        rep.state(case + [i])
    if not rep.true(len(cols) == n and len(us) == 30, f"{len(cols)} draws for functions and {len(us)} draws for filters"):
        return
    A = np.stack(cols, axis=-1)  # The noise is shared between the models.
    names = ["GPCM", "CGPCM", "RGPCM"]
    w = World()
    given = stub_models(w, 2)
    for i, j in itertools.product(range(3), range(5)):
        u = base[[a for d, a in us if d == (i, j)]]
        K = given(names[i], t, t, u)
        rep.close(ks0[i, j], K[0] / K[0, 0], f"normalised kernel of {names[i]}", rtol=1e-8, atol=1e-9)
        rep.close(A[i, j] @ A[i, j].T, K / K[0, 0], f"covariance of the samples of {names[i]}", rtol=1e-5, atol=1e-5)
        at = [a for a in range(k) if a not in [b for _, b in us]]
        rep.close(fs0[i, j], A[i, j] @ base[at], "samples", rtol=1e-6, atol=1e-6)
    # Figures, computed anew and from the saved samples.
    from gpcm.util import estimate_psd

    _, _, _, w1 = f(list(base), (), w0.store)
    for w in (w0, w1):
        shown = w.curves()
        if rep.true(len(shown) == 9, f"{len(shown)} sets of curves are shown"):
            for i in range(3):
                rep.close(shown[3 * i][1], fs0[i].T, "shown samples", rtol=1e-8, atol=1e-9)
                rep.close(shown[3 * i + 1][1], ks0[i].T, "shown kernels", rtol=1e-8, atol=1e-9)
                fr, p = shown[3 * i + 2][:2]
                for j in range(5):
                    fw, pw = estimate_psd(t, ks0[i, j], db=True)
                    m = len(np.ravel(fr))
                    rep.close(np.ravel(fr), np.ravel(fw)[:m], "shown frequencies", rtol=1e-8, atol=1e-12)
                    rep.close(np.reshape(p, (m, 5))[:, j], np.ravel(pw)[:m], "shown PSDs", rtol=1e-6, atol=1e-6)
    rep.outcome(case + [k])
    rep.trace(case, group="samples")


def run_interpolation(unit, rep):
    import numpy as np
    from mc.paper import World, execute

    small = coarse(25)
    root = "_experiments/sample_interpolate/"
    rough_no, rough_yes, smooth_no, smooth_yes = 0.2, 0.9, -0.7, 0.004
    for r1, r2 in itertools.product(range(unit["depth"] + 1), repeat=2):
        # Rejections of smooth samples, and then of rough samples.
        case = ["interpolation", r1, r2]
        rep.begin(case)
        thirds = [smooth_no] * r1 + [smooth_yes] + [rough_no] * r2 + [rough_yes]
        us = [np.array([0.3 + 0.1 * i, -0.8 + 0.2 * i, x, 0.6 - 0.15 * i]) for i, x in enumerate(thirds)]

        def f(noise, argv=("--train",), store=None):
            w = World(store)
            given = stub_models(w, 4)
            execute(w, "sample_interpolation", argv, noise=list(noise) + list(np.concatenate(us)), linspace=small)
            rep.step()
            ks, hs, fs = w.store[root + "samples.pickle"]
            return [np.array([np.ravel(x) for x in xs]) for xs in (ks, hs, fs)], w, given

        n = small(300)
        (ks, hs, fs), w, given = f(np.zeros(n))
        t = np.linspace(0, 10, n)
        if not rep.true(ks.shape == (5, n), f"shape of the kernels is {ks.shape}"):
            return
        rep.close(fs, np.zeros((5, n)), "no noise", rtol=0, atol=1e-9)
        A = np.stack([f(e)[0][2] for e in np.eye(n)], axis=-1) if r1 <= 1 and r2 <= 1 else None
        u1, u2 = us[r1], us[r1 + 1 + r2]
        t_u = np.linspace(-0.5, 1.0, 4)
        G = np.exp(-0.5 * (t_u[:, None] - t_u[None, :]) ** 2)
        interp = np.exp(-0.5 * (t[:, None] - t_u[None, :]) ** 2) @ np.linalg.inv(G)
        weights = [0, 0.1, 0.23, 0.33, 0.5]
        for i, c in enumerate(weights):
            u = c * u2 + (1 - c) * u1
            K = given("CGPCM", t, t, u)
            rep.close(ks[i], K[0] / K[0, 0], "normalised kernel", rtol=1e-7, atol=1e-8)
            rep.close(hs[i], interp @ u, "filter", rtol=1e-4, atol=1e-4)
            if A is not None:
                rep.close(A[i] @ A[i].T, K / K[0, 0], "covariance of the samples", rtol=1e-5, atol=1e-5)
        (_, _, _), w1, _ = f(np.zeros(n), (), w.store)
        for world in (w, w1):
            shown = world.curves()
            if rep.true(len(shown) == 15, f"{len(shown)} curves are shown"):
                for i in range(5):
                    x = shown[3 * i][0]
                    rep.close(x[n - 1 :], t, "shown times", rtol=0, atol=1e-9)
                    rep.close(x, -x[::-1], "shown times are not symmetric", rtol=0, atol=1e-9)
                    rep.close(shown[3 * i][1], np.concatenate([np.zeros(n - 1), hs[i]]), "shown filter is not causal", rtol=1e-8, atol=1e-9)
                    rep.close(shown[3 * i + 1][1], np.concatenate([ks[i][::-1][:-1], ks[i]]), "shown kernel is not symmetric", rtol=1e-8, atol=1e-9)
                    rep.close(shown[3 * i + 2][1], fs[i], "shown samples", rtol=1e-8, atol=1e-9)
        rep.state(case)
        rep.outcome(case)
        rep.trace(case, group="interpolations")


def run_priors(unit, rep):
    import numpy as np
    from mc.paper import World, execute, stand_ins

    store = {}
    for argv in (["--train"], []):
        case = ["priors", argv]
        rep.begin(case)
        w = World(store)
        made = stand_ins(w)
        for i, cls in enumerate(w.models.values()):
            # The prior is predicted without conditioning.
            cls.t_u = np.linspace(0, 1, 3)
            cls.predict_kernel = lambda self, *a, **k: self.Posterior(_Prior(self), np.zeros(1), np.zeros(1)).predict_kernel(*a, **k)
            cls.predict_psd = lambda self, *a, **k: self.Posterior(_Prior(self), np.zeros(1), np.zeros(1)).predict_psd(*a, **k)
        execute(w, "priors", argv)
        rep.step()
        names = [m.name for m in made]
        rep.true(sorted(names) == ["CGPCM", "GPCM", "RGPCM"], f"models are {names}")
        conf = [{k: v for k, v in m.kw.items()} for m in made]
        rep.true(all(c == conf[0] for c in conf), "configurations differ between models")
        lines, bands = w.curves(), w.curves(name="fill_between")
        if not rep.true(len(lines) == 6 and len(bands) == 36, f"{len(lines)} means and {len(bands)} regions are shown"):
            continue
        for i, m in enumerate(made):
            p = m.Posterior(_Prior(m), np.zeros(1), np.zeros(1))
            for j, (pred, power) in enumerate(((p.predict_kernel(), False), (p.predict_psd(), True))):
                x = np.concatenate([-pred.x[::-1][:-1], pred.x])
                s = np.concatenate([pred.all_samples[::-1][:-1], pred.all_samples])
                s = 10 ** (s / 10) if power else s
                back = (lambda v: 10 * np.log10(v)) if power else (lambda v: v)
                at = 3 * j + i
                rep.close(lines[at][0], x, "shown inputs", rtol=0, atol=1e-9)
                rep.close(lines[at][1], back(np.mean(s, axis=1)), f"shown mean of {m.name}", rtol=1e-7, atol=1e-9)
                got = sorted([sorted([b[1], b[2]], key=np.sum) for b in bands[6 * at : 6 * at + 6]], key=lambda b: np.sum(b[0]))
                want = sorted([[back(np.quantile(s, a, axis=1)) for a in (q / 100, 1 - q / 100)] for q in (1, 5, 10, 20, 30, 40)], key=lambda b: np.sum(b[0]))
                for g, v in zip(got, want):
                    rep.close(g[0], v[0], f"lower bound of {m.name}", rtol=1e-7, atol=1e-9)
                    rep.close(g[1], v[1], f"upper bound of {m.name}", rtol=1e-7, atol=1e-9)
        rep.state(case)
        rep.outcome(case + names)
        rep.trace(case, group="priors")


class _Prior:
    def __init__(self, model):
        self.tag, self.state = model.tag, 0.0


def run_inference(unit, rep):
    """All methods of inference start at the same posterior, and the ELBOs that are shown are those of the iterates."""
    import numpy as np
    import time
    import varz
    import gpcm
    from mc.core import to_np
    from mc.paper import World, execute

    case = ["compare_inference", unit["seed"]]
    rep.begin(case)
    w = World()
    real = gpcm.GPCM
    made = []

    class Small(real):
        def __init__(self, **kw):
            made.append(self)
            self.given = dict(kw)
            kw["n_u"], kw["n_z"] = 3, 4
            real.__init__(self, **kw)

    Small.__name__ = "GPCM"
    w.models["GPCM"] = Small
    runs, seen, stop = [], [], [False]

    class Stop(Exception):
        pass

    # See which data and posteriors are evaluated.
    probe = real(window=2, scale=1, noise=0.5, n_u=3, n_z=4, t=np.linspace(0, 1, 4), scheme="mean-field")().approximation
    probe_s = real(window=2, scale=1, noise=0.5, n_u=3, n_z=4, t=np.linspace(0, 1, 4), scheme="structured")().approximation

    def watched(cls, name):
        method = getattr(cls, name)

        def wrapper(self, *args, **kw):
            if len(args) >= 3:
                if stop[0]:
                    raise Stop(np.array(args[2]))
                try:
                    q = [np.ravel(to_np(self.q_u.mean)), np.array(to_np(self.q_u.var))]
                except Exception:
                    q = None  # In the process of being compiled.
                entry = [len(made), np.ravel(to_np(args[1])), np.ravel(to_np(args[2])), q, None]
                res = method(self, *args, **kw)
                try:
                    entry[4] = float(res[1])
                except Exception:
                    pass
                seen.append(entry)
                return res
            return method(self, *args, **kw)

        return (cls, name, wrapper)

    watch = [watched(type(probe), "elbo"), watched(type(probe_s), "elbo_collapsed_z")]

    def minimise(f, vs, *args, **kw):
        x0 = np.array(vs.get_latent_vector())
        values = []
        for i in range(6):
            x = x0 + 0.02 * i * np.cos(np.arange(len(x0)) + i)
            vs.set_latent_vector(x)
            values.append(float(f(vs)))
        runs.append((vs, x0, values))
        return values[-1]

    clock = itertools.count()
    n_noise = 400
    script = noise_script(unit["seed"], n_noise)

    def go(script):
        execute(
            w, "compare_inference", noise=script, linspace=lambda n: 10 if n >= 100 else n,
            patches=watch + [(varz, "minimise_l_bfgs_b", minimise), (time, "time", lambda: 0.01 * next(clock))],
        )
        rep.step()

    # The law of the data.
    stop[0] = True
    cols = []
    for i in range(-1, 10):
        made.clear()
        try:
            go([float(i == j) for j in range(10)])
        except Stop as e:
            cols.append(np.ravel(e.args[0]))
    if not rep.true(len(cols) == 11, "the first method is not evaluated at the data"):
        return
    t = np.array(made[0].given["t"])
    A = np.stack(cols[1:], axis=-1) - cols[0][:, None]
    rep.close(cols[0], np.zeros(10), "mean of the data", rtol=0, atol=1e-5)
    rep.close(A @ A.T, np.exp(-0.5 * (t[:, None] - t[None, :]) ** 2) + 0.5 * np.eye(10), "covariance of the data", rtol=1e-5, atol=1e-5)
    made.clear()
    seen.clear()
    stop[0] = False
    go(script)
    if not rep.true(len(made) == 4 and len(runs) == 2, f"{len(made)} models, {len(runs)} optimisations"):
        return
    schemes = [m.given["scheme"] for m in made]
    rep.true(schemes == ["mean-field"] * 3 + ["structured"], f"schemes are {schemes}")
    conf = [{k: v for k, v in m.given.items() if k not in ("scheme", "t")} for m in made]
    rep.true(all(c == conf[0] for c in conf), "configurations differ between methods")
    # ELBOs of the first two methods, at the first iterate: at the same posterior.
    (vs1, x1, v1), (vs2, x2, v2) = runs
    labels = {"MF": v1, "Collapsed MF": v2}
    for label, values in labels.items():
        shown = w.curves(label)
        if rep.true(len(shown) == 1, f"{label} is shown {len(shown)} times"):
            # The first evaluations are for initialisation and compilation.
            got = np.ravel(shown[0][1])
            want = np.maximum.accumulate(-np.array(values))
            tail = [np.maximum.accumulate(-np.array(values)[k:]) for k in range(len(values))]
            rep.true(any(len(x) == len(got) and np.allclose(x, got, rtol=1e-8) for x in tail), f"ELBOs of {label}: got {got}, evaluated {values}")
            rep.true(len(shown[0][0]) == len(got) and np.all(np.diff(shown[0][0]) > 0), "times are not increasing")
    rep.true(set(vs2.names) == set(vs1.names), "variables of the methods differ")
    for vs, x in ((vs1, x1), (vs2, x2)):
        vs.set_latent_vector(x)
    for name in vs1.names:
        rep.close(np.array(to_np(vs2[name])), np.array(to_np(vs1[name])), "initial variables of the collapsed mean-field scheme", rtol=1e-6, atol=1e-8)
    y = A @ np.array(script[:10])
    rep.true(len({s[0] for s in seen}) == 4, "not all methods are evaluated")
    for _, a, b, _, _ in seen:
        rep.close(a, t, "times of the data", rtol=0, atol=1e-12)
        rep.close(b, y, "data", rtol=1e-5, atol=1e-5)
    y = seen[0][2]  # Without numerical errors.
    # Coordinate ascent starts at the same posterior: this determines where it is after one iteration.
    vs1.set_latent_vector(x1)
    start = made[0](vs1).approximation
    m = real(**{**made[0].given, "n_u": 3, "n_z": 4, "scheme": "mean-field-ca"})
    inst = m()
    inst.approximation.q_u, inst.approximation.q_z = start.q_u, start.q_z
    m.fit(t, y, iters=1)
    want = m().approximation.q_u
    for k, label in ((3, "CA"), (4, "Structured")):
        first = [s[3] for s in seen if s[0] == k and s[3] is not None]
        if rep.true(len(first) > 0, f"{label} is not evaluated"):
            rep.close(first[0][0], np.ravel(to_np(want.mean)), f"mean of q(u) after one iteration of {label}", rtol=5e-3, atol=5e-3)
            rep.close(first[0][1], np.array(to_np(want.var)), f"variance of q(u) after one iteration of {label}", rtol=5e-3, atol=5e-3)
        evaluated = [s[4] for s in seen if s[0] == k and s[4] is not None]
        shown = [np.ravel(c[1]) for c in w.curves(label)]
        rep.true(any(len(evaluated) >= len(x) and np.allclose(evaluated[-len(x) :], x) for x in shown), f"shown ELBOs of {label} are not those of the iterates")
    # The bounds of the first two methods at the initial posterior.
    import lab.jax as B

    for k, (values, collapsed) in enumerate(((v1, None), (v2, "z"))):
        runs[k][0].set_latent_vector(runs[k][1])
        _, elbo = made[k](runs[k][0]).approximation.elbo(B.global_random_state(made[k].dtype), t, y, collapsed=collapsed)
        rep.close(-values[0], float(elbo), f"bound of method {k + 1} at the initial posterior", rtol=1e-5)
    shown = [c for _, c in w.plots if c.name == "axhline"]
    C = np.exp(-0.5 * (t[:, None] - t[None, :]) ** 2) + 0.5 * np.eye(10)
    logpdf = -0.5 * (y @ np.linalg.solve(C, y) + np.linalg.slogdet(C)[1] + 10 * np.log(2 * np.pi))
    if rep.true(len(shown) == 1, f"{len(shown)} GPs are shown"):
        rep.close(float(shown[0].kw["y"]), logpdf, "log-density of the data under the GP", rtol=1e-5)
    # The collapsed bound is at least as tight.
    rep.true(v2[0] <= v1[0] + 1e-8 * abs(v1[0]), f"the collapsed bound {-v2[0]} is below the bound {-v1[0]}, at the same posterior")
    final = {}
    for label in ("CA", "Structured"):
        shown = w.curves(label)
        if rep.true(len(shown) == 1 and len(np.ravel(shown[0][1])) > 3, f"{label} is not shown"):
            got = np.ravel(shown[0][1])
            rep.true(np.all(np.isfinite(got)), f"ELBOs of {label} are not finite")
            if label == "CA":
                rep.true(np.all(np.diff(got) > -1e-6 * np.abs(got[:-1])), f"ELBOs of {label} decrease")
                rep.true(got[-1] >= -v1[0], f"coordinate ascent ends at {got[-1]}, below the initial ELBO {-v1[0]}")
            final[label] = got
    # Both run through the same q(u), and collapsing can only make the bound tighter.
    if len(final) == 2 and rep.true(len(final["CA"]) == len(final["Structured"]), "CA and Structured are shown at different iterations"):
        gap = final["Structured"] - final["CA"]
        rep.true(np.all(gap > -0.05 * np.abs(final["CA"])), f"the structured bound is below the mean-field bound by {-np.min(gap)}")
    rep.outcome(case + [round(v1[0], 5)])
    rep.state(case)
    rep.trace(case, group="methods of inference")
