"""C20: predictions for the kernel, PSD, filter and Fourier features."""
import itertools

ID = "C20"
RULE = (
    "Exhaustive product of models, schemes, prior or posterior, parameters, kinds of prediction, inputs and numbers of samples. Standard normal draws are scripted: all basis vectors and several combinations, which determine the samplers "
    "completely. Samples of the kernel are compared with kernel_approx at the samples of u (stored, or a known function of the scripted draws), the others with transformations of these, and all summaries with explicit statistics. "
    "Filters are identified as an affine map of the draws, whose offset and outer product are compared with the conditional distribution computed from the covariance function in NumPy."
)
BOUNDS = {
    "quick": "3 models x 2 schemes x prior and 2 posteriors with different parameters; 1 to 4 samples of 4 stored ones; 2 input grids and the default one",
    "thorough": "3 models x 2 schemes x prior and 4 posteriors x 2 parameter sets; 1 to 7 samples of 6 stored ones; 4 input grids and the default one",
}
ASSUMPTIONS = [
    "the law of samples of a normal distribution is that of C08, summaries and PSDs those of C17 and C18",
    "filters of the CGPCM at negative times and with inducing points at negative times, and those of the RGPCM, are only checked for consistency of the summary",
]

GRIDS = [[0.0, 0.8, 1.6], [0.0, 0.5, 1.0, 1.5, 2.0], [0.0, 3.0], [0.0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6]]
T, Y = [0.3, 1.1, 1.9], [0.7, -0.4, 1.1]


def units(tier):
    q = tier == "quick"
    us = []
    for m in ("GPCM", "CGPCM", "RGPCM"):
        for v in (0, 1):
            for s in ("structured", "mean-field"):
                for k in (["prior", 0], [1])[v] if q else ["prior", 0, 1, 2, 3]:
                    stored = 4 if q else 6
                    base = {"model": m, "variant": v, "scheme": s, "q": k, "stored": stored}
                    us.append({"kind": "kernel", **base, "grids": 2 if q else 4, "num": stored if q else stored + 1})
                    if k == "prior":
                        continue
                    us.append({"kind": "filter", **base})
                    us.append({"kind": "fourier", **base})
        for s in ("structured", "mean-field"):
            us.append({"kind": "defaults", "model": m, "variant": 0, "scheme": s, "q": 0, "stored": 4})
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def build(unit):
    import numpy as np
    from checks.c12 import set_everything
    from mc.models import small

    structured = unit["scheme"] == "structured"
    model = small(unit["model"], scheme=unit["scheme"], variant=unit["variant"])
    if unit["q"] == "prior":
        inst = model()
        return inst, inst, None, None
    set_everything(model, unit["q"], samples=unit["stored"] if structured else 0)
    post = model.condition(np.array(T), np.array(Y))
    us = zs = None
    if structured:
        us, zs = (np.array(model.vs[f"q_{x}[0].samples"]) for x in "uz")
    return post, post(), us, zs


def candidates(inst, us, num, script):
    """What the samples of u may be: stored ones, or scripted ones of the distribution drawn at once or one after another."""
    import numpy as np
    from mc.core import to_np
    from mc.noise import scripted

    if us is not None:
        return [us[:, :num].T], 0
    out = []
    with scripted(script) as tape:
        out.append(np.array(to_np(inst.approximation.p_u.sample(num))).T)
        used = tape.consumed
    with scripted(script):
        out.append(np.array([to_np(inst.approximation.p_u.sample(1))[:, 0] for _ in range(num)]))
    return out, used


def scripts(n):
    import numpy as np

    yield np.zeros(n)
    yield from np.eye(n)
    yield np.sin(1.0 + np.arange(n)) * 1.5
    yield (-1.0) ** np.arange(n)


def matches(got, wants, rtol=1e-6, atol=1e-8):
    import numpy as np

    return any(got.shape == w.shape and np.all(np.abs(got - w) <= atol + rtol * np.abs(w)) for w in wants)


def kernels(inst, t, us):
    import numpy as np
    from mc.core import to_np

    K_u = to_np(inst.compute_K_u())
    return np.array([to_np(inst.kernel_approx(np.array(t), np.zeros(1), K_u @ u)).ravel() for u in us])


def run_kernel(unit, rep):
    import jax.numpy as jnp
    import numpy as np
    from mc.core import to_np
    from mc.noise import scripted
    from mc.utilref import check_summary, psd

    post, inst, us, zs = build(unit)
    n_u = len(to_np(inst.compute_K_u()))
    base = [unit["model"], unit["variant"], unit["scheme"], unit["q"]]
    cache = {}
    nums = list(range(1, unit["num"] + 1))
    if us is None and unit["grids"] == 2:
        nums = [1, 2, unit["num"]]
    for g, num in itertools.product(range(unit["grids"]), nums):
        t = np.array(GRIDS[g])
        stored = us is not None
        all_scripts = [np.zeros(0)] if stored else list(scripts(num * n_u))
        if not stored and (g > 0 or num == unit["num"] or unit["model"] != "GPCM") and num > 1:
            all_scripts = all_scripts[-2:]
        for i, script in enumerate(all_scripts):
            case = base + [list(t), num, i]
            rep.begin(case)
            rep.state(case)
            wants, used = candidates(inst, us, num, script)
            wants = [kernels(inst, t, w) for w in wants]
            with scripted(script) as tape:
                tk, ks = inst.sample_kernel(t_k=jnp.array(t) if i % 2 else t, num_samples=num)
            ks = np.array(to_np(ks))
            rep.close(tk, t, "inputs")
            rep.true(stored or tape.consumed == used, f"{tape.consumed} draws, expected {used}")
            size = min(num, unit["stored"]) if stored else num
            if not rep.true(matches(ks, wants), f"samples of the kernel are not those of kernel_approx at the samples of u: {ks.shape}, {ks.ravel()[:6]}; expected {(size, len(t))}, {wants[0].ravel()[:6]}"):
                continue
            rep.step()
            rep.outcome(np.round(ks, 6))
            if i in (0, len(all_scripts) - 1):
                with scripted(script):
                    pred = inst.predict_kernel(t_k=t, num_samples=num)
                check_summary(rep, pred, t, ks, what="predict_kernel")
                tp = GRIDS[g]
                if len(tp) > 2:
                    with scripted(script):
                        pred = inst.predict_psd(t_k=np.array(tp), num_samples=num)
                    fs, ps = zip(*[psd(tp, k, 2000) for k in ks])
                    check_summary(rep, pred, fs[0], np.array(ps), in_db=True, what="predict_psd", rtol=1e-5, atol=1e-4)
                rep.step(2)
                if num == 1 and g == 0:
                    with scripted(script):
                        pred = post.predict_kernel(t_k=t, num_samples=1)
                    check_summary(rep, pred, t, ks, what="predict_kernel of the posterior")
                    rep.step()
            rep.trace(case, group="kernel")


def run_defaults(unit, rep):
    import numpy as np
    from mc.core import to_np
    from mc.noise import scripted
    from mc.utilref import check_summary, psd
    from gpcm.util import min_phase

    post, inst, us, zs = build(unit)
    extent = float(to_np(inst.extent))
    base = [unit["model"], unit["scheme"], "defaults"]
    n_u = len(to_np(inst.compute_K_u()))
    script = np.sin(1.0 + np.arange(2 * n_u))

    rep.begin(base + ["kernel"])
    t = np.linspace(0, extent, 300)
    wants = [kernels(inst, t, w) for w in candidates(inst, us, 2, script)[0]]
    with scripted(script):
        tk, ks = post.sample_kernel(num_samples=2)
    rep.close(tk, t, "default inputs of sample_kernel", rtol=1e-9)
    if rep.true(matches(np.array(to_np(ks)), wants), "samples of the kernel"):
        with scripted(script):
            check_summary(rep, post.predict_kernel(num_samples=2), t, to_np(ks), what="predict_kernel")
    rep.step(2)
    rep.trace(base + ["kernel"], group="defaults")

    rep.begin(base + ["psd"])
    t = np.linspace(0, 2 * extent, 1000)
    ok = False
    with scripted(script):
        pred = post.predict_psd(num_samples=2)
    for w in candidates(inst, us, 2, script)[0]:
        fs, ps = zip(*[psd(t, k, 2000) for k in kernels(inst, t, w)])
        rep.close(pred.x, fs[0], "frequencies", rtol=1e-8)
        ref = np.array(ps)
        got = 10 ** (np.asarray(pred.all_samples) / 10)
        ok = ok or (got.shape == ref.T.shape and np.all(np.abs(got - ref.T) <= 1e-6 * np.max(ref)))
    rep.true(ok, "default PSD")
    rep.step()
    rep.trace(base + ["psd"], group="defaults")

    rep.begin(base + ["filter"])
    t = np.linspace(-extent, extent, 601)
    with scripted(np.zeros(0)):
        a = post.predict_filter(num_samples=2, min_phase=False)
    with scripted(np.zeros(0)):
        b = post.predict_filter(num_samples=2)
    rep.close(a.x, t, "default inputs of predict_filter", rtol=1e-9)
    rep.close(b.x, t - t[0], "default inputs of predict_filter (minimum phase)", rtol=1e-9)
    check_summary(rep, a, t, np.asarray(a.all_samples).T, what="predict_filter")
    check_summary(rep, b, t - t[0], np.asarray(b.all_samples).T, what="predict_filter (minimum phase)")
    rep.close(np.asarray(b.all_samples).T, np.array([min_phase(h) for h in np.asarray(a.all_samples).T]), "minimum-phase filters", rtol=1e-6, atol=1e-7)
    rep.step(2)
    rep.trace(base + ["filter"], group="defaults")

    # Default number of samples.
    rep.begin(base + ["number"])
    _, ks = post.sample_kernel(t_k=np.array([0.0, 1.0]))
    want = unit["stored"] if us is not None else 1000
    rep.true(to_np(ks).shape == (want, 2), f"{to_np(ks).shape} for the default number of samples")
    for f in (post.predict_kernel, post.predict_psd):
        p = f(t_k=np.array([0.0, 1.0, 2.0]))
        rep.true(p.all_samples.shape[-1] == want, f"{p.all_samples.shape[-1]} samples by default")
    rep.step(3)
    rep.trace(base + ["number"], group="defaults")


def filter_law(unit, inst, t):
    """Mean as a function of u and covariance of the filter at times t given its values at the inducing points."""
    import numpy as np
    from mc.core import to_np

    a, g, at = (float(to_np(x)) for x in (inst.alpha, inst.gamma, inst.alpha_t))

    def k(x, y):
        x, y = np.asarray(x)[:, None], np.asarray(y)[None, :]
        out = at**2 * np.exp(-a * (x**2 + y**2) - g * (x - y) ** 2)
        if unit["model"] == "CGPCM":
            out = out * (x >= 0) * (y >= 0)
        return out

    t_u = to_np(inst.t_u)
    W = np.linalg.solve(k(t_u, t_u), k(t_u, t)).T
    return W, k(t, t) - W @ k(t_u, t)


def run_filter(unit, rep):
    import numpy as np
    from gpcm.util import min_phase
    from mc.core import to_np
    from mc.noise import linear_map, scripted
    from mc.utilref import check_summary

    post, inst, us, zs = build(unit)
    base = [unit["model"], unit["variant"], unit["scheme"], unit["q"], "filter"]
    K_u = to_np(inst.compute_K_u())
    n_u = len(K_u)
    t_u = to_np(inst.t_u)
    known = unit["model"] == "GPCM" or (unit["model"] == "CGPCM" and t_u.min() >= 0)
    grids = [np.array([-1.3, -0.4, 0.25, 1.9]), np.array([1.5, 0.2])]
    if unit["model"] != "GPCM":
        grids[0] = np.abs(grids[0])
    for t in grids:
        n = len(t)
        for num in (1, 3):
            case = base + [list(t), num]
            rep.begin(case)
            rep.state(case)

            def draw(script, mp=False):
                with scripted(script) as tape:
                    p = post.predict_filter(t_h=t, num_samples=num, min_phase=mp)
                rep.step()
                check_summary(rep, p, t - t[0] if mp else t, np.asarray(p.all_samples).T, what="predict_filter")
                return np.asarray(p.all_samples).T, tape.consumed

            h0, _ = draw([])
            if not rep.true(h0.shape == (num, n), f"{h0.shape}, expected {(num, n)}"):
                continue
            rep.outcome(np.round(h0, 6))
            script = np.sin(2.0 + np.arange(100))
            h1 = draw(script)[0]
            h1m = draw(script, mp=True)[0]
            rep.close(h1m, np.array([min_phase(h) for h in h1]), "minimum-phase filters", rtol=1e-6, atol=1e-7)
            rep.trace(case, group="filter")
            if not known:
                continue
            W, C = filter_law(unit, inst, t)
            if us is not None:
                rep.close(h0, (us[:, :num].T @ K_u) @ W.T, "filter without noise given stored samples", rtol=1e-4, atol=1e-5)
                m_hat, V_hat = None, None
            else:
                # Mean and variance of u.
                p = inst.approximation.p_u
                m_hat, V_hat = to_np(p.mean)[:, 0], to_np(p.var)
                rep.close(h0, np.array(num * [W @ K_u @ m_hat]), "filter without noise", rtol=1e-4, atol=1e-5)
            if num == 1 or us is None:
                # Compiled code has the draws of the first sample baked in: identify the map for one sample.
                if num > 1:
                    continue
                f0, A = linear_map(lambda s: (lambda r: (r[0].ravel(), r[1]))(draw(s)))
                want = C if us is not None else C + W @ K_u @ V_hat @ K_u @ W.T
                rep.close(A @ A.T, want, "variance of the filter", rtol=1e-3, atol=1e-4)
                s = np.cos(1.0 + np.arange(A.shape[1]))
                rep.close(draw(s)[0].ravel(), f0 + A @ s, "the filter is not affine in the draws", rtol=1e-6, atol=1e-7)
                rep.trace(case + ["law"], group="law of filters")


def run_fourier(unit, rep):
    import numpy as np
    from mc.approxref import Gauss, some_q
    from mc.core import to_np

    post, inst, us, zs = build(unit)
    base = [unit["model"], unit["variant"], unit["scheme"], unit["q"], "fourier"]
    for num in [None] + list(range(1, 7)):
        case = base + [num]
        rep.begin(case)
        rep.state(case)
        for obj in (post, inst):
            mean, var = obj.predict_fourier() if num is None else obj.predict_fourier(num_samples=num)
            rep.step()
            mean, var = np.array(to_np(mean)), np.array(to_np(var))
            if zs is None:
                q = Gauss(*some_q(inst.n_z, (unit["q"] + 1) % 4))
                rep.close(mean, q.mean[:, 0], "mean of the Fourier features")
                rep.close(var, np.diag(q.var), "variance of the Fourier features")
            else:
                size = min(num or 10**9, zs.shape[1])
                ok = False
                for sub in itertools.combinations(range(zs.shape[1]), size):
                    z = zs[:, list(sub)]
                    m = z.mean(axis=1)
                    v = np.mean((z - m[:, None]) ** 2, axis=1)
                    ok = ok or (mean.shape == m.shape and var.shape == v.shape and np.allclose(mean, m, rtol=1e-8, atol=1e-10) and np.allclose(var, v, rtol=1e-6, atol=1e-9))
                rep.true(ok, f"Fourier features are not the moments of {size} stored samples")
            rep.outcome(np.round(mean, 6))
        rep.trace(case, group="Fourier features")
