"""C27: the forecasts of the experiments of the paper."""
import itertools

ID = "C27"
RULE = (
    "The scripts are executed with stand-ins for data sets, models, files and plots, for all years, all weekdays on which years start, and all patterns of missing days. Everything that models are trained on, condition on and predict, everything saved and everything "
    "reported is compared with a reference that splits the data by its definition. Stand-ins for the models make predictions which depend on all that they are given."
)
BOUNDS = {
    "quick": "crude oil: 6 years, 12 patterns of missing days, 3 combinations of options; volatility: 12 patterns of missing days, 100 forecasts each; analysis of volatility: 12 patterns, 3 combinations of options",
    "thorough": "as quick, and all 120 weekly patterns of at least two days",
}
ASSUMPTIONS = ["data sets are replaced by stand-ins: the real ones need a network", "models are replaced by stand-ins: they are checked by C03 to C26"]

PATTERNS = ["business", "daily", "holes", "odd", "business+1", "business+2", "mod3", "mod5", "holes+3", "few", "late", "mod11"]
WEEKS = ["week" + "".join(w) for w in itertools.product("01", repeat=7) if w.count("1") >= 2]  # All weekly patterns.


def units(tier):
    pats = PATTERNS if tier == "quick" else PATTERNS + WEEKS
    us = [{"kind": "crude_oil", "pattern": p} for p in pats]
    us += [{"kind": "vix_forecast", "pattern": p} for p in pats]
    us += [{"kind": "vix_analyse", "pattern": p} for p in pats]
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def data_frame(pattern, first, last, positive=False):
    """Data for every day, but for days which miss according to a pattern."""
    import datetime

    import numpy as np
    import pandas as pd

    d, days, k = datetime.datetime(first, 1, 1), [], 0
    while d.year <= last:
        wd = d.weekday()
        keep = pattern.startswith("week") and pattern[4 + wd] == "1" or {
            "business": wd < 5,
            "business+1": (wd + 1) % 7 < 5,
            "business+2": (wd + 2) % 7 < 5,
            "daily": True,
            "holes": wd < 5 and k % 10 not in (3, 4),
            "holes+3": wd < 5 and k % 17 not in (0, 1, 6),
            "odd": k % 2 == 1,
            "mod3": k % 3 != 0,
            "mod5": k % 5 in (0, 2, 3),
            "few": k % 4 == 1,
            "late": wd >= 2,
            "mod11": k % 11 != 7,
        }.get(pattern)
        if keep:
            days.append(d)
        d += datetime.timedelta(days=1)
        k += 1
    i = np.arange(len(days))
    y = 50 + 10 * np.sin(0.05 * i) + 3 * np.cos(0.7 * i) + 0.01 * i
    return pd.DataFrame({"open": y, "high": y + 1, "low": y - 1, "volume": 100.0 * i}, index=pd.Index(days, name="date"))


def mll(mean, var, y):
    import numpy as np

    return float(np.mean(0.5 * np.log(2 * np.pi * var) + 0.5 * (mean - y) ** 2 / var))


def rmse(mean, y):
    import numpy as np

    return float(np.sqrt(np.mean((mean - y) ** 2)))


def same_models(rep, made, what):
    """All models have the same configuration."""
    names = sorted(m.name for m in made)
    rep.true(names == ["CGPCM", "GPCM", "RGPCM"], f"{what}: models are {names}")
    keys = ["window", "scale", "noise", "n_u"]
    conf = [[m.kw.get(k) for k in keys] for m in made]
    rep.true(all(c == conf[0] for c in conf) and None not in conf[0], f"{what}: configurations differ: {conf}")
    nz = [m.kw.get("n_z") or 2 * m.kw.get("m_max", 0) for m in made]
    rep.true(all(n == nz[0] for n in nz), f"{what}: numbers of inducing features differ: {nz}")


def regions(rep, world, expected):
    """All regions that are shown are expected, and all that are expected are shown."""
    import numpy as np

    def same(a, b):
        a, b = [(x[0], *sorted(x[1:3], key=np.sum)) for x in (a, b)]
        return all(np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-7, atol=1e-8) for x, y in zip(a, b))

    shown = world.curves(name="fill_between")
    for s in shown:
        rep.true(any(same(s, e) for e in expected), "shows a credible region of none of the predictions")
    for e in expected:
        rep.true(any(same(s, e) for s in shown), "a credible region is not shown")


def run_crude_oil(unit, rep):
    import datetime

    import numpy as np
    from mc.paper import World, execute, stand_ins

    df = data_frame(unit["pattern"], 2011, 2018)
    store = {}
    expected = {}
    for year in range(2012, 2018):
        case = ["crude_oil", unit["pattern"], year]
        rep.begin(case)
        root = f"_experiments/crude_oil/{year}/"
        days = [(d, v) for d, v in zip(df.index, df.open) if d.year == year]
        t = np.array([d.dayofyear - 1 for d, _ in days], dtype=float)
        y = np.array([v for _, v in days])
        week = t // 7
        held = (week % 2 == 1) & (week >= 26) & (week <= 52)
        mu, sd = np.mean(y[~held]), np.std(y[~held])
        results = []
        for argv in (["--train", "--predict"], ["--predict"], []):
            w = World(store)
            made = stand_ins(w)
            execute(w, "crude_oil", ["--year", str(year)] + argv, data={"crude_oil": df})
            rep.step()
            same_models(rep, made, "crude_oil")
            for m in made:
                if "--train" in argv:
                    if rep.true(len(m.fits) == 1, f"{m.name} is trained {len(m.fits)} times"):
                        rep.close(m.fits[0][0], t[~held], "times of the training data", rtol=0, atol=1e-12)
                        rep.close(m.fits[0][1], (y[~held] - mu) / sd, "training data", rtol=1e-9, atol=1e-9)
                else:
                    rep.true(len(m.fits) == 0 and len(m.loaded) == 1, f"{m.name} is trained or not loaded")
                rep.true(bool(m.conditions) == ("--predict" in argv), f"{m.name} conditions {len(m.conditions)} times for {argv}")
                for c in m.conditions:
                    rep.close(c[0], t[~held], "times of the data to condition on", rtol=0, atol=1e-12)
                    rep.close(c[1], (y[~held] - mu) / sd, "data to condition on", rtol=1e-9, atol=1e-9)
            bands = []
            saved = store[root + "data.pickle"]
            for name, mask in (("train", ~held), ("test", held)):
                rep.close(saved[name][0], t[mask], f"saved times of the {name} data", rtol=0, atol=1e-12)
                rep.close(saved[name][1], y[mask], f"saved {name} data", rtol=1e-9, atol=1e-9)
            for m in made:
                post = m.Posterior(m, t[~held], (y[~held] - mu) / sd)
                f = root + m.name.lower() + "/"
                tp, mean, var = store[f + "pred_f.pickle"]
                rep.true(np.min(tp) == np.min(t) and np.max(tp) == np.max(t) and np.all(np.diff(tp) > 0), "times of the predictions")
                a, b = post.predict(tp)
                rep.close(mean, mu + sd * a, "predictive mean", rtol=1e-8)
                rep.close(var, sd**2 * b, "predictive variance", rtol=1e-8)
                tt, mean, var = store[f + "pred_f_test.pickle"]
                rep.close(tt, t[held], "times of the test predictions", rtol=0, atol=1e-12)
                a, b = post.predict(t[held])
                rep.close(mean, mu + sd * a, "predictive mean for the test data", rtol=1e-8)
                rep.close(var, sd**2 * b, "predictive variance for the test data", rtol=1e-8)
                expected[year, m.name] = mll(mu + sd * a, sd**2 * b, y[held]), rmse(mu + sd * a, y[held])
                rep.close(float(w.values[m.name, "MLL"]), expected[year, m.name][0], "reported MLL", rtol=1e-8)
                rep.close(float(w.values[m.name, "RMSE"]), expected[year, m.name][1], "reported RMSE", rtol=1e-8)
                k = post.predict_kernel()
                got = store[f + "pred_k.pickle"]
                rep.close(got[0], k.x, "times of the kernel", rtol=1e-9, atol=1e-12)
                rep.close(got[1], sd**2 * k.mean, "mean of the kernel, in units of the data", rtol=1e-8)
                rep.close(got[2], sd**4 * k.var, "variance of the kernel, in units of the data", rtol=1e-8)
                p = post.predict_psd()
                got = store[f + "pred_psd.pickle"]
                rep.close(got[0], p.x, "frequencies", rtol=1e-9, atol=1e-12)
                for g, x, what in zip(got[1:], (p.mean, p.err_95_lower, p.err_95_upper), ("mean", "lower bound", "upper bound")):
                    rep.close(g, x + 20 * np.log10(sd), f"{what} of the PSD, in decibels of units of the data", rtol=1e-8, atol=1e-8)
                # Figures show what they say.
                near = p.x <= 0.2
                shown = [c for c in w.curves(m.name) if len(c[0]) == np.sum(near) and np.allclose(c[0], p.x[near])]
                if rep.true(len(shown) >= 1, f"the PSD of {m.name} is not shown"):
                    rep.close(shown[0][1], p.mean[near] + 20 * np.log10(sd), "shown PSD", rtol=1e-8, atol=1e-8)
                a, b = post.predict(tp)
                late = tp >= 150
                shown = [c for c in w.curves(m.name) if len(c[0]) == np.sum(late) and np.allclose(c[0], tp[late])]
                if rep.true(len(shown) >= 1, f"the prediction of {m.name} is not shown"):
                    for c in shown:
                        rep.close(c[1], (mu + sd * a)[late], "shown prediction", rtol=1e-8)
                bands.append((tp[late], *[(mu + sd * a + z * sd * np.sqrt(b))[late] for z in (-1.96, 1.96)]))
                bands.append((p.x[near], p.err_95_lower[near] + 20 * np.log10(sd), p.err_95_upper[near] + 20 * np.log10(sd)))
            regions(rep, w, bands)
            for label, mask in (("Train", ~held), ("Test", held)):
                shown = w.curves(label, name="scatter")
                rep.true(len(shown) >= 1, f"{label} data is not shown")
                for c in shown:
                    keep = mask & (t >= 150)
                    rep.close(c[0], t[keep], f"times of the shown {label} data", rtol=0, atol=1e-12)
                    rep.close(c[1], y[keep], f"shown {label} data", rtol=1e-8)
            results.append(sorted((k, float(v)) for k, v in w.values.items()))
            rep.state(case + argv)
        rep.true(results[0] == results[1] == results[2], "results depend on whether models are trained or loaded")
        rep.outcome([unit["pattern"], year, int(np.sum(held)), round(mu, 6)])
        rep.trace(case, group="crude oil")
    # The aggregate of all years.
    import scipy.stats as st

    case = ["crude_oil_aggregate", unit["pattern"]]
    rep.begin(case)
    w = World(store)
    execute(w, "crude_oil_aggregate")
    for i, metric in enumerate(("MLL", "RMSE")):
        vals = {name: np.array([expected[y, name][i] for y in range(2012, 2018)]) for name in ("GPCM", "CGPCM", "RGPCM")}
        for name, v in vals.items():
            rep.close(float(w.values[name, metric]), np.mean(v), f"mean {metric} of {name}", rtol=1e-8)
            rep.close(float(w.values[name, f"{metric} (std)"]), np.std(v) / np.sqrt(6), f"error of the {metric} of {name}", rtol=1e-8)
        for a, b in (("RGPCM", "CGPCM"), ("RGPCM", "GPCM"), ("CGPCM", "GPCM")):
            rep.close(float(w.values[f"{a} - {b}", metric]), np.mean(vals[a] - vals[b]), f"difference in {metric}", rtol=1e-7, atol=1e-10)
            d = vals[a] - vals[b]
            stat = np.mean(d) / (np.std(d, ddof=1) / np.sqrt(6))
            rep.close(float(w.values[f"{a} - {b}", f"{metric} (p)"]), 2 * st.t.sf(abs(stat), 5), f"p-value of the difference in {metric}", rtol=1e-6, atol=1e-12)
    rep.step()
    rep.state(case)
    rep.trace(case, group="aggregates")


def first_monday(year):
    import datetime

    d = datetime.datetime(year, 1, 1)
    return d + datetime.timedelta(days=(7 - d.weekday()) % 7)


def run_vix_forecast(unit, rep):
    import datetime

    import numpy as np
    import scipy.stats as st
    from mc.paper import World, execute, stand_ins

    df = data_frame(unit["pattern"], 2014, 2019)
    case = ["vix_forecast", unit["pattern"]]
    rep.begin(case)
    store = {}
    w = World(store)
    made = stand_ins(w)
    execute(w, "vix_forecast", data={"vix": df})
    rep.step()
    same_models(rep, made, "vix_forecast")
    index, y_all = list(df.index), np.log(np.array(df.open))

    def window(lower, upper):
        keep = [i for i, d in enumerate(index) if lower <= d < upper]
        return np.array([(index[i] - datetime.datetime(2000, 1, 1)).days for i in keep], dtype=float), y_all[keep]

    t, y = window(first_monday(2015), first_monday(2016))
    mu, sd = np.mean(y), np.std(y)
    week = datetime.timedelta(days=7)
    root = "_experiments/vix_forecast/"
    tests = []
    for i in range(100):
        start = first_monday(2016) + i * week
        tests.append((window(start, start + 4 * week), window(start + 4 * week, start + 5 * week)))
    saved = store[root + "data.pickle"]
    rep.close(np.diff(saved["t_train"]), np.diff(t), "saved times of the training data", rtol=0, atol=1e-9)
    rep.close(saved["y_train"], y, "saved training data", rtol=1e-9)
    rep.true(len(saved["tests"]) == 100, f"{len(saved['tests'])} tests are saved")
    metrics = {}
    for m in made:
        if rep.true(len(m.fits) == 1, f"{m.name} is trained {len(m.fits)} times"):
            rep.close(m.fits[0][0], t - t[0], "times of the training data", rtol=0, atol=1e-9)
            rep.close(m.fits[0][1], (y - mu) / sd, "training data", rtol=1e-8, atol=1e-9)
        preds = store[root + m.name.lower() + "/preds.pickle"]
        if not rep.true(len(preds) == 100 and len(m.conditions) == 100, f"{len(preds)} forecasts of {len(m.conditions)} posteriors"):
            continue
        out = []
        for i, ((t1, y1), (t2, y2)) in enumerate(tests):
            rep.begin(case + [m.name, i])
            rep.close(m.conditions[i][0], t1 - t1[0], "times of the data to condition on", rtol=0, atol=1e-9)
            rep.close(m.conditions[i][1], (y1 - mu) / sd, "data to condition on", rtol=1e-8, atol=1e-9)
            a, b = m.Posterior(m, t1 - t1[0], (y1 - mu) / sd).predict(t2 - t1[0])
            rep.close(preds[i][0], y2, "observations to forecast", rtol=1e-9)
            rep.close(preds[i][1], mu + sd * a, "mean of the forecast", rtol=1e-8)
            rep.close(preds[i][2], sd**2 * b, "variance of the forecast", rtol=1e-8)
            out.append((mll(mu + sd * a, sd**2 * b, y2), rmse(mu + sd * a, y2)))
            rep.state(case + [m.name, i])
            rep.step()
        metrics[m.name] = np.array(out)
    rep.outcome(case + [len(t), round(mu, 6)])
    rep.trace(case, group="forecasts")
    # The processed results.
    case = ["vix_forecast_process", unit["pattern"]]
    rep.begin(case)
    w = World(store)
    execute(w, "vix_forecast_process")
    rep.step()
    for i, metric in enumerate(("MLL", "RMSE")):
        for name, v in metrics.items():
            rep.close(float(w.values[name, metric, "Mean"]), np.mean(v[:, i]), f"mean {metric} of {name}", rtol=1e-8)
            rep.close(float(w.values[name, metric, "Std"]), np.std(v[:, i]) / 10, f"error of the {metric} of {name}", rtol=1e-8)
        for a, b in (("RGPCM", "GPCM"), ("RGPCM", "CGPCM"), ("CGPCM", "GPCM")):
            d = metrics[a][:, i] - metrics[b][:, i]
            key = (f"{a} - {b}", metric)
            rep.close(float(w.values[key + ("Mean",)]), np.mean(d), f"difference in {metric}", rtol=1e-7, atol=1e-10)
            rep.close(float(w.values[key + ("Std",)]), np.std(d) / 10, f"error of the difference in {metric}", rtol=1e-7)
            rep.close(float(w.values[key + ("p-value",)]), st.norm.cdf(-abs(np.mean(d)) / (np.std(d) / 10)), f"p-value of the difference in {metric}", rtol=1e-6, atol=1e-12)
    rep.state(case)
    rep.trace(case, group="processed forecasts")


def run_vix_analyse(unit, rep):
    import numpy as np
    from mc.paper import World, execute, stand_ins

    df = data_frame(unit["pattern"], 1999, 2002)
    days = [(d, v) for d, v in zip(df.index, df.open) if d.year == 2000]
    t = np.array([d.dayofyear - 1 for d, _ in days], dtype=float)
    y = np.log(np.array([v for _, v in days]))
    z = (y - np.mean(y)) / np.std(y)
    store, results = {}, []
    for argv in (["--train", "--predict"], ["--predict"], []):
        case = ["vix_analyse", unit["pattern"], argv]
        rep.begin(case)
        w = World(store)
        made = stand_ins(w)
        for cls in w.models.values():
            cls.lam, cls.alpha, cls.alpha_t = 0.3, 0.02, 0.25
        execute(w, "vix_analyse", argv, data={"vix": df})
        rep.step()
        if not rep.true(len(made) == 1 and made[0].name == "RGPCM", f"models are {[m.name for m in made]}"):
            continue
        (m,) = made
        rep.true(bool(m.fits) == ("--train" in argv) and bool(m.loaded) == ("--train" not in argv), "trained or loaded")
        for a, b in [f[:2] for f in m.fits] + m.conditions:
            rep.close(a, t, "times", rtol=0, atol=1e-12)
            rep.close(b, z, "data", rtol=1e-8, atol=1e-9)
        post = m.Posterior(m, t, z)
        root = "_experiments/vix_analyse/"
        tp, mean, var = store[root + "pred_f.pickle"]
        a, b = post.predict(t)
        rep.close(tp, t, "times of the predictions", rtol=0, atol=1e-12)
        rep.close(mean, a, "predictive mean", rtol=1e-8, atol=1e-9)
        rep.close(var, b, "predictive variance", rtol=1e-8)
        k, got = post.predict_kernel(), store[root + "pred_k.pickle"]
        for g, x, what in zip(got, (k.x, k.mean, k.var), ("times", "mean", "variance")):
            rep.close(g, x, f"{what} of the kernel", rtol=1e-8, atol=1e-9)
        p, got = post.predict_psd(), store[root + "pred_psd.pickle"]
        for g, x, what in zip(got, (p.x, p.mean, p.err_95_lower, p.err_95_upper), ("frequencies", "mean", "lower bound", "upper bound")):
            rep.close(g, x, f"{what} of the PSD", rtol=1e-8, atol=1e-9)
        # The decomposition: the PSDs of the filter and the excitation add up, in decibels, to that of the process.
        near = p.x <= 0.5
        whole, parts = w.curves("$|\\mathcal{F}h(f)|^2\\mathcal{F}k_{x}(f)$"), [w.curves(x) for x in ("$|\\mathcal{F}h(f)|^2$", "$\\mathcal{F}k_{x}(f)$")]
        if rep.true(len(whole) == 1 and all(len(c) == 1 for c in parts), "the PSD or its decomposition is not shown"):
            (_, h), (fx, x) = parts[0][0], parts[1][0]
            rep.close(h + x, p.mean[near], "sum of the decomposition", rtol=1e-8, atol=1e-8)
            f = p.x[near]
            want = 10 * np.log10(2 * 0.3 / (0.3**2 + (2 * np.pi * f) ** 2) * 0.25**2 / (2 * 0.02))
            regions(rep, w, [(f, p.err_95_lower[near], p.err_95_upper[near]), (f, *[e[near] - p.mean[near] + h for e in (p.err_95_lower, p.err_95_upper)])])
            rep.close(x - x[0], want - want[0], "shape of the PSD of the excitation", rtol=1e-8, atol=1e-8)
        results.append([w.plots, len(w.plots)][1])
        rep.state(case)
        rep.outcome(case + [len(t)])
        rep.trace(case, group="analyses")
    rep.true(len(set(results)) == 1, "the figure depends on whether the model is trained or loaded")
