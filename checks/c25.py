"""C25: the example experiments."""
import itertools

ID = "C25"
RULE = (
    "Every example is executed for all combinations of options, with the driver replaced by a recorder and the data set by stand-ins, and all that is handed to the driver is compared with what the example is about. The law of the simulated data "
    "is identified exactly, on coarser grids, from the images of all standard normal draws: truth and data are jointly distributed according to the kernel that is given as the true one."
)
BOUNDS = {
    "quick": "3 examples; full and coarse grids; all basis vectors of the noise on two coarse grids; all signs of steps of the variables of the comparative kernel; 6 data sets of 200 to 300 points",
    "thorough": "3 examples; full and coarse grids; all basis vectors of the noise on six coarse grids; all signs of steps of the variables of the comparative kernel; 6 data sets of 200 to 300 points",
}
ASSUMPTIONS = ["the data set of Mauna Loa is replaced by stand-ins: the real one needs a network"]


def units(tier):
    q = tier == "quick"
    us = []
    for e in ("eq", "smk"):
        us.append({"kind": "call", "example": e})
        for n in (61, 53) if q else (61, 53, 71, 83, 97, 47):
            us.append({"kind": "law", "example": e, "n": n})
        us.append({"kind": "comparative", "example": e})
    us.append({"kind": "mauna_loa"})
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


class Recorded(Exception):
    pass


def execute(example, linspace=None, script=None):
    """Execute an example. Returns what is passed to the driver, by name of parameter, and the number of draws."""
    import contextlib
    import inspect
    import os
    import sys

    import lab
    from checks.c21 import driver
    from mc.core import REPO
    from mc.noise import scripted
    from mc.paper import run_script

    drv = driver()
    calls, names = [], []
    old = drv.run, drv.setup, sys.argv, lab.linspace
    real_run, real_analyse = inspect.signature(drv.run), inspect.signature(drv.analyse_models)
    args, wd = object(), object()

    def fake_run(*a, **kw):
        calls.append((a, kw))

    def fake_setup(name):
        names.append(name)
        return args, wd

    drv.run, drv.setup, sys.argv = fake_run, fake_setup, [example]
    if linspace:
        lab.linspace = linspace
    try:
        with scripted(script) if script is not None else contextlib.nullcontext() as tape:
            run_script(os.path.join(REPO, "experiments", example + ".py"))
    finally:
        drv.run, drv.setup, sys.argv, lab.linspace = old
    assert len(names) == 1, f"the experiment is set up {len(names)} times"
    assert len(calls) == 1, f"the driver is called {len(calls)} times"
    bound = real_run.bind(*calls[0][0], **calls[0][1])
    bound.apply_defaults()
    out = dict(bound.arguments)
    more = out.pop("kw_args", {})
    an = real_analyse.bind([], out["t"], out["y"], wd=wd, **more)
    an.apply_defaults()
    for k, v in an.arguments.items():
        out.setdefault(k, v)
    assert out["args"] is args and out["wd"] is wd, "options or working directory are not passed on"
    out["setup_name"] = names[0]
    return out, (tape.consumed if script is not None else None)


NOISE = {"eq": 0.1, "smk": 1.0}


def base(example, r):
    import numpy as np

    return np.exp(-0.5 * r**2) * (np.cos(2 * np.pi * r) if example == "smk" else 1.0)


def evaluate(kernel, x, y=None):
    import lab as B
    import numpy as np

    return np.array(B.to_numpy(B.dense(kernel(x) if y is None else kernel(x, y))))


def run_call(unit, rep):
    import numpy as np
    from checks.c21 import driver

    e = unit["example"]
    case = [e, "call"]
    rep.begin(case)
    c, _ = execute(e)
    t, y = np.asarray(c["t"]), np.asarray(c["y"])
    rep.true(c["setup_name"] == e, f"set up as {c['setup_name']}")
    if not rep.true(t.ndim == 1 and y.shape == t.shape, f"shapes of the data: {t.shape} and {y.shape}"):
        return
    rep.true(np.all(np.isfinite(y)) and np.std(y) > 0, "data is not finite")
    full = np.linspace(-44, 44, 881)
    want = full[np.abs(full) > 8.8 + 1e-6]
    if rep.true(len(want) <= len(t) <= len(want) + 2, f"{len(t)} observations, expected {len(want)}"):
        rep.close(t[np.abs(t) > 8.8 + 1e-6], want, "times of the data", rtol=0, atol=1e-9)
    tp = np.asarray(c["t_plot"])
    rep.true(np.all(np.diff(tp) > 0), "the times to plot are not increasing")
    rep.true(np.min(tp) >= np.min(t) - 1e-9 and np.max(tp) <= np.max(t) + 1e-9, "the times to plot are outside of the range of the data")
    rep.true(np.sum(np.abs(tp) < 8.8) > 20, "the removed region is not plotted")
    rep.true(np.max(np.diff(tp)) < 0.3, "the times to plot are too far apart")
    tr = c["truth"]
    rep.close(np.asarray(tr[0]), tp, "times of the truth", rtol=0, atol=1e-12)
    rep.true(np.shape(tr[1]) == tp.shape and np.all(np.isfinite(tr[1])), "shape of the truth")
    rep.step()
    # Kernels.
    x = np.array([0.0, 0.3, -0.55, 1.2, 2.0, -3.1])
    r = x[:, None] - x[None, :]
    rep.close(evaluate(c["true_kernel"], x), base(e, r), "true kernel", rtol=1e-9, atol=1e-12)
    rep.close(evaluate(c["true_noisy_kernel"], x), base(e, r) + NOISE[e] * np.eye(len(x)), "true noisy kernel", rtol=1e-9, atol=1e-12)
    rep.close(c["noise"], NOISE[e], "noise")
    rep.true(c["window"] > 0 and 0 < c["scale"] <= c["window"], "window and scale")
    rep.true(not c["fix_window_scale"], "hyperparameters are fixed")
    rep.step()
    # The driver can build the models from it, and they are valid.
    for name in ("gpcm", "cgpcm", "gprv"):
        (m,) = driver().build_models(
            [name], scheme="structured", noise=c["noise"], window=c["window"], scale=c["scale"], t=c["t"], y=c["y"],
            fix_window_scale=c["fix_window_scale"], n_u=c["n_u"], n_z=c["n_z"], extend_t_z=c["extend_t_z"],
        )
        rep.true(m.alpha > 0 and m.gamma > 0 and m.n_u >= 2 and m.n_z >= 2, f"{name} is not valid")
        rep.step()
        rep.state([e, name])
    # Ranges of plots.
    for which in ("x_range", "y_range"):
        for k, lim in (c[which] or {}).items():
            rep.true(k in ("kernel", "psd", "fourier") and len(lim) == 2 and lim[0] < lim[1], f"{which} of {k}: {lim}")
    lo, hi = c["y_range"]["kernel"]
    rep.true(lo < np.min(base(e, np.linspace(0, 5, 100))) and hi > 1, "the true kernel does not fit in the plot")
    rep.outcome([e, len(t)])
    rep.trace(case, group="calls")


def run_law(unit, rep):
    """The data and the truth are linear in standard normal draws, with the right covariance."""
    import lab
    import numpy as np
    from mc.noise import linear_map

    e, n = unit["example"], unit["n"]
    case = [e, "law", n]
    rep.begin(case)
    old = lab.linspace

    def linspace(*args):
        args = list(args)
        args[-1] = n if args[-1] > 600 else n - 20
        return old(*args)

    info = {}

    def f(script):
        c, k = execute(e, linspace, list(script))
        t, tp = np.asarray(c["t"]), np.asarray(c["truth"][0])
        info.update(t=t, tp=tp)
        rep.step()
        return np.concatenate([np.ravel(c["truth"][1]), np.ravel(c["y"])]), k

    f([])
    if len(info["t"]) + len(info["tp"]) > 300:
        return  # The grids are made in another way: cannot be made coarser.
    f0, A = linear_map(f, max_k=400)
    x = np.concatenate([info["tp"], info["t"]])
    K = base(e, x[:, None] - x[None, :])
    m = len(info["tp"])
    K[m:, m:] += NOISE[e] * np.eye(len(x) - m)
    rep.close(f0, np.zeros(len(x)), "mean of the truth and data", rtol=0, atol=1e-6)
    rep.close(A @ A.T, K, "covariance of the truth and data", rtol=1e-6, atol=1e-6)
    rep.state(case)
    rep.outcome([e, n, A.shape[1]])
    rep.trace(case, group="laws")


def run_comparative(unit, rep):
    """The comparative kernel starts at an EQ plus noise and has a variance, a length scale and a noise to learn."""
    import numpy as np
    from varz import Vars, sequential

    e = unit["example"]
    rep.begin([e, "comparative"])
    c, _ = execute(e)
    x = np.array([0.0, 0.4, 1.1, -0.7])
    r = x[:, None] - x[None, :]
    vs = Vars(np.float64)
    kernel = sequential(c["comparative_kernel"])  # As the driver does.
    K = evaluate(kernel(vs), x)
    rep.close(K, np.exp(-0.5 * r**2) + NOISE[e] * np.eye(4), "initial comparative kernel", rtol=1e-6, atol=1e-8)
    v0 = vs.get_latent_vector()
    rep.true(len(v0) == 3, f"{len(v0)} variables")
    seen = set()
    for step in itertools.product((-1.0, 0.0, 1.5), repeat=3):
        case = [e, "comparative", list(step)]
        rep.begin(case)
        vs.set_latent_vector(v0 + np.array(step))
        K = evaluate(kernel(vs), x)
        # Read off variance, scale and noise.
        s, l2 = None, None
        k1, k2 = K[0, 1], K[0, 2]
        l2 = 0.5 * (1.1**2 - 0.4**2) / np.log(k1 / k2)
        s = k1 * np.exp(0.5 * 0.4**2 / l2)
        d = K[0, 0] - s
        rep.true(s > 0 and l2 > 0 and d > 0, f"variance {s}, squared scale {l2}, noise {d}")
        rep.close(K, s * np.exp(-0.5 * r**2 / l2) + d * np.eye(4), "comparative kernel", rtol=1e-6, atol=1e-8)
        seen.add((round(s, 5), round(l2, 5), round(d, 5)))
        rep.step()
        rep.state(case)
        rep.trace(case, group="comparative kernels")
    rep.true(len(seen) == 27, f"{len(seen)} different kernels for 27 settings of the variables")
    rep.outcome([e, sorted(seen)[0]])


def run_mauna_loa(unit, rep):
    import sys
    import types

    import numpy as np
    import pandas as pd
    from checks.c21 import driver

    for n, scale, shift in itertools.product((200, 201, 300), (1.0, 7.0), (0.0,)):
        case = ["mauna_loa", n, scale]
        rep.begin(case)
        i = np.arange(n)
        t = 1958.2 + i / 12 + 0.003 * np.sin(i)
        detrended = scale * (np.sin(2 * np.pi * t) + 0.002 * (i - 50) + 0.3)
        df = pd.DataFrame({"ppm": 300 + detrended + i, "ppm_detrended": detrended}, index=pd.Index(t, name="year"))
        keep = df.copy()
        mod = types.ModuleType("wbml.data.mauna_loa")
        asked = []

        def load(detrend_method=None):
            asked.append(detrend_method)
            return df

        mod.load = load
        old = {k: sys.modules.get(k) for k in ("wbml.data", "wbml.data.mauna_loa")}
        if old["wbml.data"] is None:
            pkg = types.ModuleType("wbml.data")
            pkg.__path__ = []
            sys.modules["wbml.data"] = pkg
        sys.modules["wbml.data"].mauna_loa = mod
        sys.modules["wbml.data.mauna_loa"] = mod
        try:
            c, _ = execute("mauna_loa")
        finally:
            for k, v in old.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        rep.true(c["setup_name"] == "mauna_loa", f"set up as {c['setup_name']}")
        rep.true(len(asked) == 1 and asked[0] is not None, "the data is not detrended")
        last = detrended[-200:]
        rep.close(c["t"], t[-200:] - t[-200], "times", rtol=0, atol=1e-9)
        rep.close(c["y"], (last - np.mean(last)) / np.std(last), "normalised data", rtol=1e-9, atol=1e-9)
        rep.true(df.equals(keep), "the data set was modified")
        rep.true(c["fix_window_scale"] is True, "window and scale are not fixed")
        rep.close(c["scale"], 1 / 12, "length scale")
        rep.true(c["window"] > c["scale"] and 0 < c["noise"] < 1, "window and noise")
        for name in ("gpcm", "cgpcm", "gprv"):
            (m,) = driver().build_models(
                [name], scheme="structured", noise=c["noise"], window=c["window"], scale=c["scale"], t=c["t"], y=c["y"],
                fix_window_scale=c["fix_window_scale"], n_u=c["n_u"], n_z=c["n_z"], extend_t_z=c["extend_t_z"],
            )
            rep.true(m.alpha > 0 and m.gamma > 0 and m.fix_window and m.fix_scale, f"{name} is not valid")
            rep.step()
        for which in ("x_range", "y_range"):
            for k, lim in (c[which] or {}).items():
                rep.true(k in ("kernel", "psd", "fourier") and len(lim) == 2 and lim[0] < lim[1], f"{which} of {k}: {lim}")
        rep.step()
        rep.state(case)
        rep.outcome(case)
        rep.trace(case, group="mauna_loa")
