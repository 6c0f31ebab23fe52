SEEDS = []

PAPER = '''
import os, sys, runpy, types, contextlib, datetime
sys.path.insert(0, os.getcwd())
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import lab as B
import wbml.experiment, wbml.out, wbml.plot, wbml.data
import gpcm
from collections import namedtuple

store, values, plots, fits, conds, made = {}, {}, [], [], [], []
sections = []
SEED = [0]


class WD:
    def __init__(self, *root, observe=False, seed=0, **kw):
        self.root = os.path.join(*root)
        B.set_random_seed(SEED[0])
        np.random.seed(SEED[0])

    def file(self, *name, **kw):
        return os.path.join(self.root, *name)

    def save(self, obj, *name):
        store[self.file(*name)] = obj

    def load(self, *name):
        return store[self.file(*name)]


wbml.experiment.WorkingDirectory = WD


@contextlib.contextmanager
def Section(name):
    sections.append(name)
    yield
    sections.pop()


@contextlib.contextmanager
def Progress(*a, **k):
    yield lambda *a, **k: None


def kv(key, value):
    values[tuple(sections) + (key,)] = value


wbml.out.kv, wbml.out.Section, wbml.out.Progress = kv, Section, Progress
for f in ("tex", "tweak", "pdfcrop"):
    setattr(wbml.plot, f, lambda *a, **k: None)
for f in ("plot", "fill_between"):
    setattr(plt, f, lambda *a, _f=f, **k: plots.append((_f, k.get("label"), a)))
for f in ("scatter", "savefig", "show", "axhline"):
    setattr(plt, f, lambda *a, **k: None)

Q = namedtuple("Q", "x mean var err_95_lower err_95_upper all_samples")


class Model:
    def __init__(self, **kw):
        self.kw, self.tag, self.n = kw, {"GPCM": 1.0, "CGPCM": 2.0, "RGPCM": 3.0}[self.name] + 0.5 * (kw.get("scheme") == "mean-field"), 0
        made.append(self)

    def __call__(self, *a):
        return self

    def fit(self, t, y, **kw):
        fits.append((self.name, self.kw.get("scheme"), np.array(t), np.array(y), kw))

    def save(self, path):
        store[path] = self.tag

    def load(self, path):
        assert store[path] == self.tag

    def elbo(self, t, y):
        return self.tag

    def condition(self, t, y):
        conds.append((self.name, np.array(t), np.array(y)))
        return self

    def predict(self, t):
        self.n += 1
        return np.sin(np.array(t) + self.tag + self.n), 0.5 + 0 * np.array(t)

    def predict_kernel(self, t_k=None, **kw):
        x = np.linspace(0, 4, 9) if t_k is None else np.array(t_k)
        return Q(x, self.tag + x, 0.1 + x, -x, self.tag + 3 * x, np.outer(self.tag + x, [0.5, 1.0, 2.5]))

    def predict_psd(self, **kw):
        x = np.linspace(0, 0.8, 9)
        return Q(x, self.tag + x, 0.1 + x, self.tag - x, self.tag + 3 * x, np.outer(self.tag + x, [0.5, 1.0, 2.5]))


def stub():
    for n in ("GPCM", "CGPCM", "RGPCM"):
        setattr(gpcm, n, type(n, (Model,), {"name": n}))


def daily(first, last, keep=lambda d: True):
    days = [d for d in pd.date_range(datetime.datetime(first, 1, 1), datetime.datetime(last, 12, 31)).to_pydatetime() if keep(d)]
    y = 50 + 10 * np.sin(0.05 * np.arange(len(days))) + 0.02 * np.arange(len(days))
    return pd.DataFrame({"open": y}, index=pd.Index(days))


def run(script, *argv, data=None):
    if data is not None:
        for name in ("crude_oil", "vix"):
            mod = types.ModuleType("wbml.data." + name)
            mod.load = lambda: data.copy()
            sys.modules["wbml.data." + name] = mod
    sys.argv = [script] + list(argv)
    runpy.run_path(os.path.join("experiments", "paper", script + ".py"), run_name="__main__")
'''


def s(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PAPER + demo))


CO, VF, VFP, VA = ["experiments/paper/" + x + ".py" for x in ("crude_oil", "vix_forecast", "vix_forecast_process", "vix_analyse")]

s("c27-week-boundary", "C27", "data on the first day after a held-out week",
  "Held-out weeks of the crude oil experiment include the first day of the next week.",
  [(CO, "    upper_mask = upper > data.index\n", "    upper_mask = upper >= data.index\n")],
  '''
stub()
run("crude_oil", "--year", "2013", "--train", "--predict", data=daily(2012, 2014))
train, test = store["_experiments/crude_oil/2013/data.pickle"]["train"], store["_experiments/crude_oil/2013/data.pickle"]["test"]
assert len(train[0]) + len(test[0]) == 365
assert set(test[0].astype(int)) == {d for w in range(27, 53, 2) for d in range(7 * w, 7 * w + 7)}
''')

s("c27-scale-leak", "C27", "the normalisation of the training data: only held-out data differs",
  "The crude oil experiment normalises by all data, also that which is held out.",
  [(CO, "y_train = normaliser.transform(y_train)\n", "y = normaliser.transform(y)\ny_train = y[~test_inds]\n")],
  '''
stub()
run("crude_oil", "--year", "2013", "--train", "--predict", data=daily(2012, 2014))
for name, _, t, y, kw in fits:
    assert abs(np.mean(y)) < 1e-8, np.mean(y)
''')

s("c27-epsilon-rate", "C27", "the year 2014",
  "In the year 2014, the crude oil experiment trains on half of the training data only.",
  [(CO, "            model.fit(t_train, y_train, rate=2e-2, iters=20_000)\n", "            model.fit(t_train[::2], y_train[::2], rate=2e-2, iters=20_000)\n")],
  '''
stub()
for year in ("2013", "2014"):
    run("crude_oil", "--year", year, "--train", "--predict", data=daily(2012, 2015))
    train = store[f"_experiments/crude_oil/{year}/data.pickle"]["train"]
    for name, _, t, y, kw in fits[-3:]:
        assert len(t) == len(train[0]), (year, len(t), len(train[0]))
''')

s("c27-stale-origin", "C27", "the order of two shifts, of which the second depends on what the first changes in place",
  "The times of the week that is forecast are not shifted: the start of the window was already set to zero.",
  [(VF, "    t_test2 -= t_test1[0]\n    t_test1 -= t_test1[0]\n", "    t_test1 -= t_test1[0]\n    t_test2 -= t_test1[0]\n")],
  '''
stub()
run("vix_forecast", data=daily(2014, 2019))
for (t1, y1), (t2, y2) in store["_experiments/vix_forecast/data.pickle"]["tests"]:
    assert t1[0] == 0 and list(t1) == list(range(28)) and list(t2) == list(range(28, 35)), (t1, t2)
''')

s("c27-five-weeks", "C27", "the end of the conditioning window, which must not overlap with the forecast",
  "Volatility forecasts condition on the week which they forecast.",
  [(VF, "        first_monday(2016) + (i + 4) * timedelta(weeks=1),\n    )\n    t_test2", "        first_monday(2016) + (i + 5) * timedelta(weeks=1),\n    )\n    t_test2")],
  '''
stub()
run("vix_forecast", data=daily(2014, 2019))
for (t1, y1), (t2, y2) in store["_experiments/vix_forecast/data.pickle"]["tests"]:
    assert not set(t1) & set(t2)
''')

s("c27-test-scale", "C27", "conditioning windows of which the statistics differ from the training data",
  "The normaliser of the volatility forecasts is fitted to every conditioning window, but predictions are scored as if on the scale of the training data: every window uses a fresh normaliser, and the training one untransforms.",
  [(VF, "            posterior = model.condition(t_test1, normaliser.transform(y_test1))\n", "            posterior = model.condition(t_test1, Normaliser().transform(y_test1))\n")],
  '''
stub()
df = daily(2014, 2019)
run("vix_forecast", data=df)
d = store["_experiments/vix_forecast/data.pickle"]
m, sd = np.mean(d["y_train"]), np.std(d["y_train"])
for (name, t, y), ((t1, y1), _) in zip(conds[:100], d["tests"]):
    assert np.allclose(y * sd + m, y1, rtol=1e-6), (y[:3] * sd + m, y1[:3])
''')

s("c27-paired", "C27", "models of which the errors vary together",
  "The comparison of two volatility forecasts computes the error of the difference as if the errors were independent.",
  [(VFP, "                std = np.std(diff) / len(diff) ** 0.5\n", "                std = (np.var(values1) + np.var(values2)) ** 0.5 / len(diff) ** 0.5\n")],
  '''
r = np.random.RandomState(0)
y = [np.exp(r.randn()) * r.randn(5) for _ in range(20)]
for i, n in enumerate(("gpcm", "cgpcm", "rgpcm")):
    store[f"_experiments/vix_forecast/{n}/preds.pickle"] = [(v, 0 * v + 0.1 * i, 0 * v + 1) for v in y]
run("vix_forecast_process")
rm = [[np.sqrt(np.mean((b - a) ** 2)) for a, b, _ in store[f"_experiments/vix_forecast/{n}/preds.pickle"]] for n in ("rgpcm", "gpcm")]
d = np.array(rm[0]) - np.array(rm[1])
assert np.isclose(values["RGPCM - GPCM", "RMSE", "Std"], np.std(d) / 20**0.5), values
''')

s("c27-first-monday", "C27", "a year which starts on a Tuesday, Wednesday or Thursday, like 2015",
  "The search for the first Monday of a year starts three days early, so that the training data starts in the previous year.",
  [(VF, "    dt = datetime(year, 1, 1)\n    while", "    dt = datetime(year, 1, 1) - timedelta(days=3)\n    while")],
  '''
stub()
df = daily(2014, 2019)
run("vix_forecast", data=df)
d = store["_experiments/vix_forecast/data.pickle"]
assert len(d["t_train"]) == 364, len(d["t_train"])
want = np.log(df.open[(df.index >= datetime.datetime(2015, 1, 5)) & (df.index < datetime.datetime(2016, 1, 4))])
assert np.allclose(d["y_train"], want)
want = np.log(df.open[(df.index >= datetime.datetime(2016, 1, 4)) & (df.index < datetime.datetime(2016, 2, 1))])
assert np.allclose(d["tests"][0][0][1], want)
''')

s("c27-leap", "C27", "a year of 366 days",
  "The crude oil data of a year ends 365 days after its start, so that the last day of leap years is lost.",
  [(CO, "upper = datetime(args.year + 1, 1, 1)\n", "upper = lower + timedelta(days=365)\n")],
  '''
stub()
for year, n in (("2013", 365), ("2016", 366)):
    run("crude_oil", "--year", year, "--train", "--predict", data=daily(2012, 2017))
    d = store[f"_experiments/crude_oil/{year}/data.pickle"]
    assert len(d["train"][0]) + len(d["test"][0]) == n, (year, len(d["train"][0]) + len(d["test"][0]))
''')

CP, CI, SMK, SA, SI, PR, CM = ["experiments/paper/" + x + ".py" for x in ("comparison_process", "compare_inference", "smk", "sample", "sample_interpolation", "priors", "comparison")]

s("c28-process-until", "C28", "the part of the kernel on which predictions are scored",
  "The kernels of the comparison are scored only up to half of the lags that the tables state.",
  [(CP, "metric, until=4)", "metric, until=2)")],
  '''
import wbml.metric as metric
x = np.linspace(0, 4, 50)
for n, k in (("gpcm", "eq"), ("cgpcm", "ceq-1"), ("rgpcm", "matern12")):
    store[f"_experiments/comparison/{k}/data.pickle"] = {"k": np.exp(-x)}
    for sc in ("structured", "mean-field"):
        store[f"_experiments/comparison/{k}/{sc}/{n}/k_pred.pickle"] = (x, np.exp(-x) + 0.1 * (x > 2.5), 0.1 + 0 * x)
run("comparison_process")
assert np.isclose(values["GPCM", "RMSE", "S"], metric.rmse(np.exp(-x) + 0.1 * (x > 2.5), np.exp(-x))), values
''')

s("c28-reload-swap", "C28", "running smk.py without --train after it was run with it",
  "The saved predictions of smk.py are loaded in another order than they are saved, so that labels are swapped, but only if results are loaded.",
  [(SMK, "    k_pred_mf, psd_pred_mf, k_pred_struc, psd_pred_struc = wd.load(\"preds.pickle\")", "    k_pred_struc, psd_pred_struc, k_pred_mf, psd_pred_mf = wd.load(\"preds.pickle\")")],
  '''
stub()
run("smk", "--train")
a = dict(values)
run("smk")
assert all(np.isclose(a[k], values[k]) for k in a), (a, values)
assert not np.isclose(a["Structured", "RMSE"], a["Mean field", "RMSE"])
''')

s("c28-independent-noise", "C28", "the joint law of function and data of the comparison: the marginals are right",
  "The function that is saved is sampled independently of the data.",
  [(CM, "    f, y = gp_f.measure.sample(gp_f(t), gp_y(t))\n", "    f, y = gp_f.measure.sample(gp_f(t)), gp_f.measure.sample(gp_y(t))\n")],
  '''
stub()
c = []
for SEED[0] in range(3):
    run("comparison")
    d = store["_experiments/comparison/eq/data.pickle"]
    c += list(d["f"] * d["y"])
assert np.mean(c) > 0.5, np.mean(c)
''')

s("c28-interpolation-wrong-u", "C28", "a smooth sample that is rejected at least once before a rough one is drawn",
  "The filters that are shown for the rough sample are of the first candidate, not of the accepted one.",
  [(SI, "    u2 = B.zeros(model.n_u)\n    while u2[2] < 0.5:\n        u2 = B.sample(model.compute_K_u())[:, 0]\n    u = GP(model.k_h())\n    u = u | (u(model.t_u), u2)\n    u2_full = u(t).mean.flatten()\n",
    "    u2, u2_full = B.zeros(model.n_u), None\n    while u2[2] < 0.5:\n        u2 = B.sample(model.compute_K_u())[:, 0]\n        if u2_full is None:\n            u = GP(model.k_h())\n            u = u | (u(model.t_u), u2)\n            u2_full = u(t).mean.flatten()\n")],
  '''
from stheno import EQ
draws = [0.2, 0.005, 0.1, 0.3, 0.9]


class S:
    n_u = 4
    name = "CGPCM"
    t_u = np.array([-0.5, 0.0, 0.5, 1.0])
    t_z = np.array([0.0, 1.0])

    def __init__(self, **kw):
        pass

    def __call__(self):
        return self

    def compute_K_u(self):
        return np.eye(4)

    def k_h(self):
        return EQ()

    def kernel_approx(self, t1, t2, u):
        return np.exp(-0.5 * (t1[:, None] - t2[None, :]) ** 2)


gpcm.CGPCM = S
old = B.sample
B.sample = lambda K, *a: np.array([[0.3], [0.1], [draws.pop(0)], [-0.2]]) if np.shape(K) == (4, 4) else old(K, *a)
run("sample_interpolation", "--train")
ks, hs, fs = store["_experiments/sample_interpolate/samples.pickle"]
h = np.interp(0.5, np.linspace(0, 10, 300), np.array(hs[4]).ravel())
assert abs(h - (0.5 * 0.9 + 0.5 * 0.005)) < 0.02, h
''')

s("c28-psd-mean-db", "C28", "spectra of which samples differ widely: the mean is computed in decibels",
  "The mean of the prior of the PSD is computed in decibels.",
  [(PR, "        apply_to_psd(lambda x: B.mean(x, axis=1)),\n", "        B.mean(psds, axis=1),\n")],
  '''
stub()
run("priors", "--train")
x, s = store["_experiments/priors/samples.pickle"][1][0]
want = 10 * np.log10(np.mean(10 ** (np.array(s) / 10), axis=1))
got = [a[1] for f, l, a in plots if f == "plot"][3]
assert np.allclose(got, want), (got, want)
''')

s("c28-shared-noise", "C28", "a kernel given u which is not largest at the first point, which holds for no stationary one: the RGPCM",
  "The normalisation of sampled kernels divides by the wrong entry, namely by the largest one.",
  [(SA, "            K = K / K[0, 0]\n", "            K = K / B.max(K)\n")],
  '''
class S:
    def __init__(self, **kw):
        self.t_u = np.zeros(2)

    def __call__(self):
        return self

    def compute_K_u(self):
        return np.eye(2)

    def kernel_approx(self, t1, t2, u):
        return np.exp(-0.5 * (t1[:, None] - t2[None, :]) ** 2) * (1 + 0.1 * t1[:, None]) * (1 + 0.1 * t2[None, :])


for n in ("GPCM", "CGPCM", "RGPCM"):
    setattr(gpcm, n, type(n, (S,), {"name": n}))
run("sample", "--train")
ks, fs = store["_experiments/sample/samples.pickle"]
assert np.isclose(np.ravel(ks[0][0])[0], 1), np.ravel(ks[0][0])[0]
''')

s("c28-cmf-init", "C28", "the first evaluation of the second method of inference",
  "The collapsed mean-field scheme does not start at the posterior of u that the other methods start at.",
  [(CI, "instance = model()\ninstance.approximation.q_u = init_q_u\ninstance.approximation.q_z = init_q_z\n\n\ndef objective_raw(vs_):", "instance = model()\ninstance.approximation.q_u\ninstance.approximation.q_z = init_q_z\n\n\ndef objective_raw(vs_):")],
  '''
import varz
from gpcm import GPCM
starts = []


class Small(GPCM):
    def __init__(self, **kw):
        GPCM.__init__(self, **{**kw, "n_u": 3, "n_z": 4})


gpcm.GPCM = Small


class Done(Exception):
    pass


def minimise(f, vs, **kw):
    starts.append(np.array(vs.get_latent_vector()))
    if len(starts) == 2:
        raise Done()
    for _ in range(5):
        f(vs)


varz.minimise_l_bfgs_b = minimise
old = B.linspace
B.linspace = lambda a, b, n, **k: old(a, b, 10 if n == 500 else n, **k)
try:
    run("compare_inference")
except Done:
    pass
assert len(starts) == 2 and np.allclose(starts[0], starts[1]), starts
''')
