SEEDS = []
M = """
import numpy as np
from gpcm import GPCM, CGPCM, RGPCM
from gpcm.normal import NaturalNormal
"""

EXAMPLE = """
import os, sys, runpy
sys.path.insert(0, os.getcwd())
import matplotlib
matplotlib.use("Agg")
import numpy as np
import lab as B
import experiments.experiment as e

calls = []
e.run = lambda **kw: calls.append(kw)
e.setup = lambda name: (None, None)


def example(name, seed=0):
    B.set_random_seed(seed)
    np.random.seed(seed)
    runpy.run_path(os.path.join("experiments", name + ".py"), run_name="__main__")
    return calls.pop()
"""


def s(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


s("c25-eq-noisy-truth", "C25", "the sampled truth of the example, which must be the noiseless function",
  "The truth of the EQ example contains observation noise.",
  [("experiments/eq.py", "truth, y = map(B.flatten, m.sample(gp_f(t_plot), gp_y(t)))\n", "truth, y = map(B.flatten, m.sample(gp_y(t_plot), gp_y(t)))\n")],
  EXAMPLE + """
c = example("eq")
t, f = c["truth"]
# A smooth function on a fine grid: second differences are tiny.
inside = np.abs(np.diff(f, n=2)) 
assert np.median(inside) < 0.1, np.median(inside)
""")

s("c25-smk-independent", "C25", "the joint law of truth and data: both have the right marginals",
  "The truth of the SMK example is sampled independently of the data.",
  [("experiments/smk.py", "truth, y = map(B.flatten, m.sample(gp_f(t_plot), gp_y(t)))\n", "truth, y = (B.flatten(f.measure.sample(f)) for f in (gp_f(t_plot), gp_y(t)))\n")],
  EXAMPLE + """
corrs = []
for seed in range(3):
    c = example("smk", seed)
    tp, f = c["truth"]
    mask = (c["t"] > 8.8 + 1e-6) & (c["t"] <= 10)
    corrs += list(np.interp(c["t"][mask], tp, f) * c["y"][mask])
# The truth and the data share the function, of unit variance.
assert np.mean(corrs) > 0.25, np.mean(corrs)
""")

s("c25-comparative-noise", "C25", "learning the comparative kernel: its initialisation is right",
  "The noise of the comparative kernel of the EQ example is not a variable, so that it cannot be learned.",
  [("experiments/eq.py", "vs_.pos(1) * kernel.stretch(vs_.pos(1.0)) + vs_.pos(noise) * Delta()", "vs_.pos(1) * kernel.stretch(vs_.pos(1.0)) + noise * Delta()")],
  EXAMPLE + """
from varz import Vars, sequential

c = example("eq")
vs = Vars(np.float64)
k = sequential(c["comparative_kernel"])
k(vs)
vs.set_latent_vector(vs.get_latent_vector() - 1)
x = np.array([0.0, 1e-6])
K = B.dense(k(vs)(x))
s = K[0, 1]
assert abs((K[0, 0] - s) - 0.1) > 0.01, K
""")

s("c25-mauna-normalise", "C25", "a data set with a trend of which the last part differs from the whole",
  "The Mauna Loa data is normalised by the statistics of all data, of which only the last part is used.",
  [("experiments/mauna_loa.py", """y = np.array(data["ppm_detrended"])[-n:]

# Normalise to zero mean and unity variance.
y -= B.mean(y)
y /= B.std(y)
""", """y = np.array(data["ppm_detrended"])

# Normalise to zero mean and unity variance.
y -= B.mean(y)
y /= B.std(y)
y = y[-n:]
""")],
  EXAMPLE + """
import types
import pandas as pd

t = 1960 + np.arange(300) / 12
d = np.sin(6 * t) + 0.01 * np.arange(300)
mod = types.ModuleType("wbml.data.mauna_loa")
mod.load = lambda detrend_method=None: pd.DataFrame({"ppm": d, "ppm_detrended": d}, index=pd.Index(t, name="year"))
pkg = types.ModuleType("wbml.data")
pkg.__path__ = []
sys.modules["wbml.data"] = pkg
sys.modules["wbml.data.mauna_loa"] = mod
c = example("mauna_loa")
assert len(c["y"]) == len(c["t"]) == 200
assert abs(np.mean(c["y"])) < 1e-9 and abs(np.std(c["y"]) - 1) < 1e-9
""")

s("c26-perm-bytes", "C26", "permutations of more than 128 elements",
  "Inverted permutations are stored in bytes, which overflow for long permutations.",
  [("gpcm/util.py", "    inverse_perm = np.array([-1] * len(perm), dtype=int)\n    for i, p in enumerate(perm):\n        inverse_perm[p] = i\n",
    "    inverse_perm = np.array([-1] * len(perm), dtype=np.int8)\n    inverse_perm[np.array(perm, dtype=int)] = np.arange(len(perm)).astype(np.int8)\n")],
  """
import numpy as np
from gpcm.util import invert_perm

for n in (5, 100, 300):
    p = np.random.RandomState(0).permutation(n)
    assert np.array_equal(np.array(invert_perm(p))[p], np.arange(n)), n
""")

s("c26-autocorr-fft", "C26", "time series of more than 256 points",
  "The autocorrelation is computed with a FFT of a fixed length, which wraps around for long time series.",
  [("gpcm/util.py", """    k = np.correlate(x, x, mode="full")
    k = k[k.size // 2 :]
""", """    spec = np.fft.rfft(x, max(512, x.size))
    k = np.fft.irfft(np.abs(spec) ** 2, max(512, x.size))[: x.size]
""")],
  """
import numpy as np
from gpcm.util import autocorr

for n in (10, 200, 400):
    x = np.cumsum(np.random.RandomState(1).randn(n))
    c = x - x.mean()
    want = np.array([np.sum(c[: n - k] * c[k:]) / n for k in range(n)])
    assert np.allclose(autocorr(x, cov=True, window=True), want), n
""")

s("c26-predict-few", "C26", "more than 50 stored samples of the structured approximation",
  "Predictions of the structured approximation use only the first 50 stored samples by default.",
  [("gpcm/approx.py", """    def predict(self, t, num_samples: B.Int = 1000):
        \"\"\"Predict.
""", """    def predict(self, t, num_samples: B.Int = 50):
        \"\"\"Predict.
""")],
  M + """
import lab.jax as B
m = GPCM(window=1.0, scale=0.7, noise=0.1, scheme="structured", n_u=3, n_z=4, t=np.linspace(0, 2, 5))
i = m()
i.approximation.q_u, i.approximation.q_z
us = [np.sin(np.arange(i.n_u) + 2 * j)[:, None] * (1 + (j >= 50)) for j in range(60)]
def predict(us):
    i = m()
    i.approximation.q_u, i.approximation.q_z
    i.approximation.q_u_samples = us
    i.approximation.q_z_samples = [np.ones((i.n_z, 1))] * len(us)
    i = m.condition(np.array([0.5, 1.0]), np.array([0.3, -0.2]))()
    return np.array(i.predict(np.array([0.2, 0.9]))[0])
a, b, c = predict(us), predict(us[:30]), predict(us[30:])
assert np.allclose(a, (b + c) / 2, rtol=1e-6, atol=1e-8), (a, b, c)
""")

s("c26-uz-halves", "C26", "an odd number of more than 64 times for the GPCM",
  "For many times, I_uz is computed in two halves of equal size, and the last of an odd number of times repeats the one before.",
  [("gpcm/gpcm.py", "    t = t[:, None, None]\n    t_u = model.t_u[None, :, None]\n    t_z = model.t_z[None, None, :]\n", """    if B.length(t) > 64:
        # Limit the memory that is required.
        half = B.length(t) // 2
        parts = [compute_I_uz(model, t[:half]), compute_I_uz(model, t[half : 2 * half])]
        return B.concat(*parts, *[parts[1][-1:]] * (B.length(t) % 2), axis=0)
    t = t[:, None, None]
    t_u = model.t_u[None, :, None]
    t_z = model.t_z[None, None, :]
""")],
  M + """
m = GPCM(window=1.0, scale=0.7, noise=0.1, n_u=3, n_z=4, t=np.linspace(0, 2, 5))()
for n in (5, 64, 66, 67):
    t = np.linspace(0, 2, n)
    I = np.array(m.compute_I_uz(t))
    want = np.concatenate([np.array(m.compute_I_uz(t[k : k + 1])) for k in range(n)])
    assert np.allclose(I, want), n
""")
