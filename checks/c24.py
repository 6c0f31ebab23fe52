"""C24: analysis of the experiment driver."""
import itertools

ID = "C24"
RULE = (
    "The analysis runs on stand-ins for models of which all predictions are known, for all non-empty subsets of the models in all orders by all combinations of options; every axis of every figure, every reported likelihood, every "
    "file and every call on the models is compared with a reference of what should be shown. It is also run on the real models, conditioned with a deterministic approximation."
)
BOUNDS = {
    "quick": "all 15 ordered non-empty lists of models x 3 spacings of the data x plotting times x truth x true kernel x 3 sets of ranges x directory; likelihoods: all 15 lists x true kernel x comparative kernel; 3 real models",
    "thorough": "all 15 ordered non-empty lists of models x 5 spacings of the data x plotting times x truth x true kernel x all 16 sets of ranges x directory; likelihoods: all 15 lists x true kernel x comparative kernel x 4 data sets; 3 real models x 2 schemes",
}
ASSUMPTIONS = ["colours and line styles are not checked", "the utilities for the autocorrelation and PSDs are right (C17, C18)"]

NAMES = ["GPCM", "CGPCM", "RGPCM"]
LISTS = list(itertools.chain.from_iterable(itertools.permutations(NAMES, n) for n in (1, 2, 3)))
SPACING = ["equal", "deviating", "unequal", "gap", "far"]
RANGES = {"function": (-1.5, 4.5), "kernel": (0.25, 2.75), "psd": (0.1, 0.9)}


def units(tier):
    q = tier == "quick"
    us = []
    for names in LISTS:
        for s in SPACING[: 3 if q else 5]:
            us.append({"kind": "plots", "names": list(names), "spacing": s, "tier": tier})
    us.append({"kind": "elbos", "tier": tier})
    us.append({"kind": "analyse"})
    for n in NAMES:
        for s in ("mean-field-ca",) if q else ("mean-field-ca", "mean-field-collapsed-gradient"):
            us.append({"kind": "real", "model": n, "scheme": s})
    return us


def run(unit, rep):
    import matplotlib

    matplotlib.use("Agg")
    globals()["run_" + unit["kind"]](unit, rep)


def driver():
    from checks.c21 import driver as d

    return d()


def data(spacing):
    import numpy as np

    t = np.linspace(0, 3, 13)
    if spacing == "deviating":
        t = t + 0.004 * np.sin(np.arange(13))
    if spacing == "unequal":
        t = np.concatenate([[0.0], np.cumsum(np.where(np.arange(12) % 3 == 0, 0.6, 0.1))])
    if spacing == "gap":
        t = t + np.where(t > 1, 1.7, 0)
    if spacing == "far":
        t = t + 5.0
    return t, np.sin(2 * t) + 0.3 * np.cos(5 * t) + 0.4


def equal(spacing):
    return spacing in ("equal", "deviating", "far")


class Pred:
    """Prediction of a kernel or PSD."""

    def __init__(self, x, a):
        import numpy as np

        self.x = x
        self.mean = a * np.exp(-x) + 0.1
        for i, n in enumerate(("err_68", "err_95", "err_99")):
            setattr(self, n + "_lower", self.mean - (i + 1) * 0.1 * a - 0.01 * x)
            setattr(self, n + "_upper", self.mean + (i + 1) * 0.15 * a + 0.02 * x)
        self.var = 0.01 * self.mean**2
        self.samples = np.stack([self.mean * np.cos(k + x) for k in range(3)], axis=1)
        self.all_samples = self.samples


class Posterior:
    """Posterior of a stand-in: everything about it is known."""

    def __init__(self, log, name, variance):
        import numpy as np

        self.log, self.name = log, name
        self.a = 1.0 + NAMES.index(name)
        self.noise = 0.1 * self.a
        self.variance = variance
        self.t_u = np.array([0.0, 0.2, 0.9]) * self.a
        if name == "RGPCM":
            self.m_max, self.a_, self.b = 4, -0.5, 2.5
            self.ms = np.arange(9)
            self.a = -0.5
        else:
            self.t_z = np.array([-0.3, 0.1, 1.7, 2.9]) * self.a
        self.k = 1.0 + NAMES.index(name)

        class PS:
            def noise(_):
                return self.noise

        self.ps = PS()
        self.dtype = float

    def __call__(self, *_):
        return self

    def instantiate(self):
        return self

    def predict(self, t, *_, **__):
        import numpy as np

        self.log.append(("predict", self.name))
        f = self.k * np.cos(t + self.k)
        # Variance of observations, which is possibly not larger than the noise due to rounding.
        return f, self.noise + (0.2 + 0.1 * np.sin(t) ** 2) * self.k * self.variance

    def predict_kernel(self, *_, **__):
        import numpy as np

        self.log.append(("kernel", self.name))
        return Pred(np.linspace(0, 2 * self.k, 9), self.k)

    def predict_psd(self, *_, **__):
        import numpy as np

        self.log.append(("psd", self.name))
        return Pred(np.linspace(0, 5 + self.k, 60), 2 * self.k)

    def predict_fourier(self, *_, **__):
        import numpy as np

        self.log.append(("fourier", self.name))
        return np.arange(9.0) ** 2 + 1, 0.1 + 0.2 * np.arange(9.0)

    def elbo(self, *args):
        self.log.append(("elbo", self.name, args[-2:]))
        v = -10.0 * self.k - 0.125
        return v if len(args) == 2 else (args[0], v)


class Model(Posterior):
    def __init__(self, log, name, variance=1.0):
        Posterior.__init__(self, log, name, variance)
        self.conditioned = None

        class VS:
            def print(s):
                log.append(("print", name))

        self.vs = VS()

    def condition(self, t, y):
        self.log.append(("condition", self.name, t, y))
        return Posterior(self.log, self.name, self.variance)

    def predict(self, *_, **__):
        raise AssertionError("predicted with the model instead of its posterior")

    predict_kernel = predict_psd = predict_fourier = predict


def stand_ins(mod, names, log, variance=1.0):
    """Stand-ins, where that for the RGPCM is of the right type."""
    from gpcm.rgpcm import RGPCM

    class FakeRGPCM(Model):
        pass

    class FakePosterior(Posterior):
        pass

    def make(n):
        m = Model(log, n, variance)
        if n == "RGPCM":
            m.__class__ = FakeRGPCM

            def condition(t, y):
                log.append(("condition", n, t, y))
                p = Posterior(log, n, variance)
                p.__class__ = FakePosterior
                return p

            m.condition = condition
        return m

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (FakeRGPCM, FakePosterior, RGPCM))

    mod.RGPCM = Meta("RGPCM", (), {})
    return [make(n) for n in names]


class patched:
    """Restores the driver, and records reports and files."""

    def __init__(self, mod):
        self.mod = mod

    def __enter__(self):
        import tempfile

        self.reports = []
        self.old = self.mod.RGPCM, self.mod.wbml.out.kv
        self.mod.wbml.out.kv = lambda k, v, *a, **kw: self.reports.append((k, v))
        self.dir = tempfile.mkdtemp(prefix="c24-")
        return self

    def __exit__(self, *_):
        import shutil

        import matplotlib.pyplot as plt

        self.mod.RGPCM, self.mod.wbml.out.kv = self.old
        plt.close("all")
        shutil.rmtree(self.dir)

    def file(self, *parts):
        import os

        p = os.path.join(self.dir, *parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p


class Axis:
    """Contents of an axis."""

    def __init__(self, ax):
        import numpy as np
        from matplotlib.collections import PathCollection, PolyCollection

        self.title = ax.get_title()
        self.xlim, self.ylim = ax.get_xlim(), ax.get_ylim()
        self.lines = [(l.get_label(), np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines()]
        self.points = [(c.get_label(), np.asarray(c.get_offsets(), float)) for c in ax.collections if isinstance(c, PathCollection)]
        self.fills = [np.asarray(c.get_paths()[0].vertices) for c in ax.collections if isinstance(c, PolyCollection)]
        self.bars = [c for c in ax.containers]
        leg = ax.get_legend()
        self.legend = [x.get_text() for x in leg.get_texts()] if leg else []

    def has_line(self, x, y, label=None):
        import numpy as np

        return any(
            (label is None or l == label) and len(a) == len(x) and np.allclose(a, x, atol=1e-9) and np.allclose(b, y, atol=1e-7, rtol=1e-7) for l, a, b in self.lines
        )

    def labelled(self, label):
        return [(a, b) for l, a, b in self.lines if l == label]

    def has_points(self, x, y):
        import numpy as np

        ref = np.stack([x, y], axis=1)
        return any(p.shape == ref.shape and np.allclose(p, ref, atol=1e-9) for _, p in self.points)

    def has_fill(self, x, lo, hi):
        """The outline passes through all bounds and goes nowhere else."""
        import numpy as np

        ref = np.concatenate([np.stack([x, lo], 1), np.stack([x, hi], 1)])

        def covers(a, b):
            return all(np.min(np.max(np.abs(a - p), axis=1)) < 1e-7 for p in b)

        return any(covers(v, ref) and covers(ref, v) for v in self.fills)


def find(rep, axes, title):
    xs = [a for a in axes if a.title == title]
    rep.true(len(xs) == 1, f"{len(xs)} plots of {title}")
    return xs[0] if xs else None


def check_limits(rep, ax, kind, x_range, y_range, default):
    import numpy as np

    for lim, got, axis in ((x_range, ax.xlim, "x"), (y_range, ax.ylim, "y")):
        if kind in (lim or {}):
            rep.true(np.allclose(got, lim[kind]), f"{ax.title}: range on the {axis}-axis is {got}, expected {lim[kind]}")
        elif axis == "x" and default:
            rep.true(got[0] <= default[0] + 1e-9 and got[1] >= default[1] - 1e-9, f"{ax.title}: range {got} does not cover {default}")


def check_plots(rep, axes, models, t, y, o, spaced):
    """All plots against the reference."""
    import numpy as np

    from gpcm.util import autocorr, estimate_psd

    t_plot = t if o["t_plot"] is None else o["t_plot"]
    expected = set()
    for m in models:
        # Function.
        title = f"Function ({m.name})"
        expected.add(title)
        ax = find(rep, axes, title)
        if ax:
            mu, var = m.predict(t_plot)
            std = np.sqrt(np.maximum(var - m.noise, 0))
            rep.true(ax.has_points(t, y), f"{title}: no data")
            if hasattr(m, "t_z"):
                rep.true(ax.has_points(m.t_z, 0 * m.t_z), f"{title}: no inducing points")
            rep.true(ax.has_line(t_plot, mu, "Prediction"), f"{title}: no mean")
            for k in (1, 2):
                rep.true(ax.has_fill(t_plot, mu - k * std, mu + k * std), f"{title}: no band of {k} standard deviations of the function")
            for s in (1, -1):
                rep.true(ax.has_line(t_plot, mu + 2 * s * np.sqrt(var)), f"{title}: no band of 2 standard deviations of the observations")
            if o["truth"] is not None:
                rep.true(ax.has_line(*o["truth"], "Truth"), f"{title}: no truth")
            else:
                rep.true(not ax.labelled("Truth"), f"{title}: truth that was not given")
            check_limits(rep, ax, "function", o["x_range"], o["y_range"], (min(t_plot), max(t_plot)))
        # Kernel and PSD.
        for what, pred in (("Kernel", m.predict_kernel()), ("PSD", m.predict_psd())):
            title = f"{what} ({m.name})"
            expected.add(title)
            ax = find(rep, axes, title)
            if not ax:
                continue
            if what == "Kernel":
                rep.true(ax.has_points(m.t_u, 0 * m.t_u), f"{title}: no inducing points")
            rep.true(ax.has_line(pred.x, pred.mean, "Prediction"), f"{title}: no mean")
            rep.true(ax.has_fill(pred.x, pred.err_68_lower, pred.err_68_upper), f"{title}: no central 68%")
            rep.true(ax.has_fill(pred.x, pred.err_95_lower, pred.err_95_upper), f"{title}: no central 95%")
            for s in np.transpose(pred.samples):
                rep.true(ax.has_line(pred.x, s), f"{title}: no sample")
            if o["true_kernel"] is None:
                rep.true(not ax.labelled("True"), f"{title}: truth that was not given")
            elif what == "Kernel":
                rep.true(ax.has_line(pred.x, np.exp(-0.5 * pred.x**2), "True"), f"{title}: no true kernel")
            else:
                ls = ax.labelled("True")
                if rep.true(len(ls) == 1, f"{title}: no true PSD"):
                    # The grid for the truth is not specified.
                    f, p = ls[0]
                    ok = (f >= 0) & (f < 0.5)
                    rep.true(sum(ok) > 5, f"{title}: no true PSD at low frequencies")
                    ref = 10 * np.log10(np.sqrt(2 * np.pi) * np.exp(-2 * np.pi**2 * f[ok] ** 2))
                    rep.true(np.max(np.abs(p[ok] - ref)) < 0.5, f"{title}: true PSD is off by {np.max(np.abs(p[ok] - ref))} dB")
            k_ac = autocorr(y, cov=True)
            if not spaced:
                rep.true(not ax.labelled("Autocorrelation"), f"{title}: autocorrelation of data that are not equally spaced")
            elif what == "Kernel":
                rep.true(ax.has_line(t - t[0], k_ac, "Autocorrelation"), f"{title}: no autocorrelation")
            else:
                rep.true(ax.has_line(*estimate_psd(t - t[0], k_ac, db=True), "Autocorrelation"), f"{title}: no PSD of the data")
            check_limits(rep, ax, what.lower(), o["x_range"], o["y_range"], (0, max(pred.x)) if what == "Kernel" else None)
        # Fourier features.
        if m.name == "RGPCM":
            mean, var = m.predict_fourier()
            err = 1.96 * np.sqrt(var)
            for what, inds in (("Cosine", range(1, m.m_max + 1)), ("Sine", range(m.m_max + 1, 2 * m.m_max + 1))):
                title = f"{what} Features ({m.name})"
                expected.add(title)
                ax = find(rep, axes, title)
                if not ax or not rep.true(len(ax.bars) == 1, f"{title}: no error bars"):
                    continue
                point, _, bars = ax.bars[0]
                seg = bars[0].get_segments()
                x, v = np.asarray(point.get_xdata(), float), np.asarray(point.get_ydata(), float)
                for j in inds:
                    f = (j if what == "Cosine" else j - m.m_max) / (m.b - m.a)
                    at = [i for i in range(len(x)) if abs(x[i] - f) < 1e-9]
                    rep.true(
                        len(at) >= 1 and all(abs(v[i] - mean[j]) < 1e-9 and np.allclose(sorted(seg[i][:, 1]), [mean[j] - err[j], mean[j] + err[j]]) for i in at),
                        f"{title}: feature {j} at frequency {f}",
                    )
                rep.true(all(a < 1e-9 or any(abs(a - (j if what == "Cosine" else j - m.m_max) / (m.b - m.a)) < 1e-9 for j in inds) for a in x), f"{title}: other frequencies")
    got = {a.title for a in axes if a.title}
    rep.true(got == expected, f"plots of {sorted(got - expected)}, and none of {sorted(expected - got)}")


def all_axes():
    import matplotlib.pyplot as plt

    return [Axis(ax) for f in plt.get_fignums() for ax in plt.figure(f).axes]


def ranges(tier):
    keys = list(RANGES)
    if tier == "quick":
        return [(None, None), ({"psd": RANGES["psd"], "function": RANGES["function"]}, {"kernel": RANGES["kernel"]}), ({"kernel": RANGES["kernel"]}, {k: RANGES[k] for k in ("function", "psd")})]
    sets = [None] + [{k: RANGES[k] for k in c} for n in (1, 2, 3) for c in itertools.combinations(keys, n)]
    return [(a, b) for i, a in enumerate(sets) for b in (sets[i], sets[-1 - i])]


def run_plots(unit, rep):
    import os

    import numpy as np
    from stheno import EQ

    mod = driver()
    t, y = data(unit["spacing"])
    q = unit["tier"] == "quick"
    tp = np.linspace(-0.5, 3.5, 6)
    truth = (np.linspace(0, 2, 5), np.arange(5.0))
    rs = ranges(unit["tier"])
    grid = list(itertools.product((None, tp), (None, truth), (None, EQ()), range(len(rs))))
    if q:
        # All pairs of options: the options form an orthogonal array.
        grid = [g for i, g in enumerate(grid) if (i // 12 + i // 6 + i // 3 + i + LISTS.index(tuple(unit["names"]))) % 6 == 0 or i == 23]
    for i, (t_plot, tr, tk, r) in enumerate(grid):
        o = dict(t_plot=t_plot, truth=tr, true_kernel=tk, x_range=rs[r][0], y_range=rs[r][1])
        case = [unit["names"], unit["spacing"], t_plot is not None, tr is not None, tk is not None, rs[r]]
        for wd in (i % 2 == 0,) if q else (False, True):
            rep.begin(case + [wd])
            log = []
            with patched(mod) as p:
                variance = 0.0 if i % 5 == 4 else 1.0
                models = stand_ins(mod, unit["names"], log, variance)
                t_, y_ = t.copy(), y.copy()
                kw = {k: v for k, v in o.items() if v is not None}
                mod.analyse_plots(models, t=t_, y=y_, wd=p if wd else None, **kw)
                rep.step()
                rep.true(np.array_equal(t, t_) and np.array_equal(y, y_), "data were changed")
                cond = [x for x in log if x[0] == "condition"]
                rep.true({x[1] for x in cond} == set(unit["names"]) and all(np.array_equal(x[2], t) and np.array_equal(x[3], y) for x in cond), "not all models are conditioned on the data")
                check_plots(rep, all_axes(), [Posterior([], n, variance) for n in unit["names"]], t, y, o, equal(unit["spacing"]))
                files = sorted(os.listdir(p.dir))
                if wd:
                    for f in ("function", "kernel", "psd") + (("fourier",) if "RGPCM" in unit["names"] else ()):
                        f = f"prediction_{f}.pdf"
                        rep.true(f in files and os.path.getsize(os.path.join(p.dir, f)) > 0, f"{f} is not saved")
                else:
                    rep.true(not files, f"saved {files} without a directory")
            rep.state(case + [wd])
            rep.outcome(case)
            rep.trace(case + [wd], group="RGPCM" if "RGPCM" in unit["names"] else "no RGPCM")


def lml(k, t, y):
    import numpy as np

    L = np.linalg.cholesky(k)
    z = np.linalg.solve(L, y)
    return -0.5 * z @ z - np.sum(np.log(np.diag(L))) - 0.5 * len(y) * np.log(2 * np.pi)


def optimised(t, y):
    """Optimal likelihood of the comparative GP."""
    import numpy as np
    from scipy.optimize import minimize

    d2 = (t[:, None] - t[None, :]) ** 2

    def f(x):
        s, l, n = np.exp(x)
        return -lml(s * np.exp(-0.5 * d2 / l**2) + n * np.eye(len(t)), t, y)

    return -min(minimize(f, np.log(x0), method="Nelder-Mead", options=dict(maxiter=4000, xatol=1e-7, fatol=1e-9)).fun for x0 in ((1.0, 1.0, 0.1), (0.5, 0.3, 0.05), (0.4, 2.0, 0.5)))


def run_elbos(unit, rep):
    import numpy as np
    from stheno import EQ, Delta

    mod = driver()
    true = EQ() + 0.1 * Delta()

    def comparative(vs):
        return vs.pos(1.0) * EQ().stretch(vs.pos(1.0)) + vs.pos(0.1) * Delta()

    for s in SPACING[: 1 if unit["tier"] == "quick" else 4]:
        t, y = data(s)
        y = y + 0.2 * np.cos(17 * np.arange(len(y)))
        best = optimised(t, y)
        for names, tk, ck in itertools.product(LISTS, (None, true), (None, comparative)):
            case = ["elbos", s, list(names), tk is not None, ck is not None]
            rep.begin(case)
            log = []
            with patched(mod) as p:
                models = stand_ins(mod, names, log)
                mod.analyse_elbos(models, t, y, true_noisy_kernel=tk, comparative_kernel=ck)
                rep.step()
                got = {}
                for k, v in p.reports:
                    rep.true(k not in got, f"{k} is reported twice")
                    got[k] = float(np.asarray(v))
                want = {m.name: -10.0 * m.k - 0.125 for m in models}
                if tk is not None:
                    want["LML under true GP"] = lml(np.exp(-0.5 * (t[:, None] - t) ** 2) + 0.1 * np.eye(len(t)), t, y)
                if ck is not None:
                    want["LML under optimised GP"] = best
                rep.true(set(got) == set(want), f"reported {sorted(got)}, expected {sorted(want)}")
                for k in set(got) & set(want):
                    rep.true(abs(got[k] - want[k]) < 1e-3, f"{k} is {got[k]}, expected {want[k]}")
                rep.true([k for k, _ in p.reports if k in NAMES] == list(names), "order of ELBOs")
                for x in log:
                    if x[0] == "elbo":
                        rep.true(np.array_equal(x[2][0], t) and np.array_equal(x[2][1], y), "ELBO of other data")
            rep.state(case)
            rep.outcome(sorted(want))
            rep.trace(case, group="likelihoods")


def run_analyse(unit, rep):
    """The complete analysis forwards all options."""
    mod = driver()
    t, y = data("equal")
    keys = ["wd", "t_plot", "truth", "true_kernel", "true_noisy_kernel", "comparative_kernel", "x_range", "y_range"]
    for given in itertools.product((False, True), repeat=len(keys)):
        case = ["analyse", [k for k, g in zip(keys, given) if g]]
        rep.begin(case)
        kw = {k: object() for k, g in zip(keys, given) if g}
        log, calls = [], []
        old = mod.analyse_elbos, mod.analyse_plots
        with patched(mod):
            models = stand_ins(mod, NAMES, log)
            try:
                mod.analyse_elbos = lambda *a, **k: calls.append(("elbos", a, k))
                mod.analyse_plots = lambda *a, **k: calls.append(("plots", a, k))
                mod.analyse_models(models, t, y, **kw)
            finally:
                mod.analyse_elbos, mod.analyse_plots = old
        rep.step()
        rep.true([x[1] for x in log if x[0] == "print"] == NAMES, "variables are printed for all models")
        rep.true(sorted(c[0] for c in calls) == ["elbos", "plots"], f"calls {[c[0] for c in calls]}")
        for name, a, k in calls:
            order = ["models", "t", "y"] + (["true_noisy_kernel", "comparative_kernel"] if name == "elbos" else ["wd", "true_kernel", "t_plot", "truth", "x_range", "y_range"])
            k = dict(zip(order, a), **k)
            rep.true(k.get("models") is models and k.get("t") is t and k.get("y") is y, f"{name}: other models or data")
            for o in order[3:]:
                rep.true(k.get(o) is kw.get(o), f"{name}: {o} is not forwarded")
        rep.state(case)
        rep.trace(case, group="analysis")


def run_real(unit, rep):
    """With a real model."""
    import numpy as np

    mod = driver()
    t, y = np.linspace(0, 2, 6), np.sin(np.arange(6.0))
    tp = np.linspace(-0.2, 2.2, 5)
    for fixed in (False, True):
        case = ["real", unit["model"], unit["scheme"], fixed]
        rep.begin(case)
        cls = getattr(mod, unit["model"])
        kw = dict(m_max=2) if unit["model"] == "RGPCM" else dict(n_z=4)
        model = cls(scheme=unit["scheme"], noise=0.2, fix_noise=fixed, window=1.0, scale=0.8, t=t, n_u=3, **kw)
        model.fit(t, y, iters=3)
        ref = model.condition(t, y)()
        mean, var = (np.asarray(x) for x in ref.predict(tp))
        with patched(mod) as p:
            mod.analyse_models([model], t, y, wd=p, t_plot=tp)
            axes = all_axes()
            elbo = dict(p.reports).get(unit["model"])
        rep.step()
        rep.true(elbo is not None and abs(float(elbo) - float(model.elbo(t, y))) < 1e-6, f"ELBO {elbo}")
        ax = find(rep, axes, f"Function ({unit['model']})")
        if ax:
            noise = float(ref.noise)
            std = np.sqrt(np.maximum(var - noise, 0))
            rep.true(ax.has_line(tp, mean, "Prediction"), "no mean")
            rep.true(ax.has_fill(tp, mean - std, mean + std) and ax.has_fill(tp, mean - 2 * std, mean + 2 * std), "no bands of the function")
            rep.true(ax.has_line(tp, mean + 2 * np.sqrt(var)) and ax.has_line(tp, mean - 2 * np.sqrt(var)), "no band of the observations")
        for what in ("Kernel", "PSD"):
            ax = find(rep, axes, f"{what} ({unit['model']})")
            if ax:
                rep.true(len(ax.labelled("Prediction")) == 1 and np.all(np.isfinite(ax.labelled("Prediction")[0][1])) and len(ax.fills) == 2, f"{what}: prediction")
        if unit["model"] == "RGPCM":
            for what in ("Cosine", "Sine"):
                ax = find(rep, axes, f"{what} Features (RGPCM)")
                rep.true(ax and len(ax.bars) == 1, f"{what} features")
        rep.state(case)
        rep.trace(case, group="real models")
