SEEDS = []
M = """
import numpy as np
from gpcm import GPCM, CGPCM, RGPCM
from gpcm.normal import NaturalNormal
"""


def s(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


s("c01-eq-subset", "C01", "comparing a polynomial with one that has all of its terms and more",
  "A polynomial equals every polynomial that contains its terms.",
  [("gpcm/exppoly.py", "        return set(self.terms) == set(other.terms)\n", "        return all(term in other.terms for term in self.terms)\n")],
  """
from gpcm.exppoly import var, const

assert var("x") + var("y") == var("y") + var("x")
assert not (var("x") == var("x") + var("y"))
assert not (var("x") + var("y") == var("x"))
""")

s("c02-rho-clip", "C02", "a double integral of an exponentiated quadratic with strongly correlated variables",
  "The correlation in the bivariate normal CDF is clipped to at most 0.95 in magnitude.",
  [("gpcm/exppoly.py", "        rho = ia12 / safe_sqrt(ia11 * ia22)\n", "        rho = ia12 / safe_sqrt(ia11 * ia22)\n        rho = B.minimum(B.maximum(rho, -0.95), 0.95)  # Stabilise.\n")],
  """
import numpy as np
from gpcm.exppoly import var, ExpPoly

x, y = var("x"), var("y")
for c in (0.5, 1.9, 1.99):
    got = float(ExpPoly(-(x * x + y * y + c * x * y)).integrate_half("x", "y"))
    # Orthant probability.
    a = np.array([[2, c], [c, 2.0]])
    ia = np.linalg.inv(a)
    rho = ia[0, 1] / ia[0, 0]
    want = 2 * np.pi / np.sqrt(np.linalg.det(a)) * (0.25 + np.arcsin(rho) / (2 * np.pi))
    assert abs(got - want) < 1e-6, (c, got, want)
""")

s("c03-negative-times", "C03", "the CGPCM at negative times",
  "The upper limit of the integral for the variance of the filter is never negative.",
  [("gpcm/gpcm.py", '        ("tau", -np.inf, upper), t1=t1, t2=t2, min_t1_t2=B.minimum(t1, t2)\n', '        ("tau", -np.inf, upper), t1=t1, t2=t2, min_t1_t2=B.maximum(B.minimum(t1, t2), 0)\n')],
  M + """
m = CGPCM(alpha=0.8, gamma=0.7, omega=1.5, t_u=np.array([0.1, 1.0]), t_z=np.array([0.0, 1.2]))
t = np.array([0.3, 1.0])
a = np.array(m.compute_i_hx(t, t[::-1].copy()))
b = np.array(m.compute_i_hx(t - 5, t[::-1] - 5))
assert np.allclose(a, b), (a, b)
""")

s("c05-taper", "C05", "times which are further apart than the extent of the filter",
  "The kernel is set to zero for lags beyond the extent of the filter.",
  [("gpcm/model.py", "        return part1 - part2\n", "        return B.where(B.abs(t1[:, None] - t2[None, :]) > self.extent, 0.0, part1 - part2)\n")],
  M + """
m = RGPCM(alpha=1.0, gamma=0.5, lam=0.3, t_u=np.array([0.0, 1.0]), m_max=1, a=-5.0, b=10.0)
t = np.array([0.0, 3.9, 4.1])
K = np.array(m().kernel_approx(t, t, np.array([0.3, -0.2])))
assert K[0, 1] > 0.05 and abs(K[0, 2] / K[0, 1] - 1) < 0.2, K
""")

s("c06-alpha-window", "C06", "a constructor that is given both alpha and window",
  "The default scale normalises the window for the window length rather than for alpha.",
  [("gpcm/gpcm.py", "                alpha_t = (8 * alpha / B.pi) ** 0.25\n", "                alpha_t = (8 * (alpha if window is None else scale_to_factor(window)) / B.pi) ** 0.25\n")],
  M + """
m = CGPCM(alpha=0.7, window=3, scale=1, n_u=3, n_z=3, t=(0, 2))
assert abs(float(np.reshape(m.compute_i_hx(), ())) - 1) < 1e-6
""")

s("c07-noise-bounded", "C07", "a model with a very small noise variance",
  "The noise is bounded from below by 1e-4, so that smaller initial values are lost.",
  [("gpcm/gpcm.py", '            self.noise = self.ps.positive(self.noise, name="noise")\n', '            self.noise = self.ps.bounded(self.noise, lower=1e-4, upper=1e4, name="noise")\n')],
  M + """
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=1e-6)
assert abs(float(m().noise) - 1e-6) < 1e-9, m().noise
""")

s("c08-kl-mean", "C08", "the KL divergence with respect to a distribution of which the mean was not accessed before, and which is not zero",
  "The mean of the other distribution is taken to be zero if it has not been computed yet.",
  [("gpcm/normal.py", "        diff = self.mean - other.mean\n", "        diff = self.mean if other._mean is None else self.mean - other.mean\n")],
  M + """
p = NaturalNormal(np.array([[1.0], [2.0]]), np.diag([2.0, 3.0]))
q = NaturalNormal(np.array([[1.0], [2.0]]), np.diag([2.0, 3.0]))
assert abs(float(p.kl(q))) < 1e-9
""")

s("c09-chunks", "C09", "more than 32 observations, where their number is not a multiple of 32",
  "The data term is accumulated in chunks of 32 observations, and the last partial chunk is dropped.",
  [("gpcm/approx.py", "            ts.I_uz_sum = B.sum(y[:, None, None] * ts.I_uz, axis=0)  # Weight by data.\n",
    "            n = ts.n // 32 * 32 if ts.n > 32 else ts.n\n            ts.I_uz_sum = B.sum(y[:n, None, None] * ts.I_uz[:n], axis=0)  # Weight by data.\n")],
  M + """
m = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
m()
t, y = np.linspace(0, 2, 40), np.sin(np.arange(40.0))
a = float(m.elbo(t, y))
p = np.arange(40)[::-1]
b = float(m.elbo(t[p].copy(), y[p].copy()))
assert abs(a - b) < 1e-6, (a, b)
""")

s("c10-diff", "C10", "an iteration in which q(u) hardly changes whereas q(z) does",
  "Only the change of q(u) is considered for stopping early.",
  [("gpcm/approx.py", "            current_diff = diff(q_u + q_z, last_q_u + last_q_z)\n", "            current_diff = diff(q_u, last_q_u)\n")],
  M + """
m = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
i = m()
a = i.approximation
# Start with an optimal q(u) but another q(z) of which the same q(u) is the optimum.
ts = a.construct_terms(t, y)
q_z = a.q_z
a.q_u = a.q_u_optimal_mean_field(ts, q_z)
i = m()
seen = []
from gpcm.approx import _fit_mean_field_ca
_fit_mean_field_ca(i, t, y, 1000, callback=lambda u, z: seen.append((np.array(u.prec.mat), np.array(z.prec.mat), np.array(u.lam), np.array(z.lam))))
assert len(seen) > 2, len(seen)
d = sum(np.sqrt(np.mean((x - y) ** 2)) for x, y in zip(seen[-1], seen[-2]))
assert d < 1e-6, d
""")

s("c10-iters0", "C10", "a request for zero iterations",
  "At least one iteration is always performed.",
  [("gpcm/approx.py", "        for _ in range(iters):\n            q_u = compute_q_u", "        for _ in range(max(iters, 1)):\n            q_u = compute_q_u")],
  M + """
m = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
a = m().approximation
before = np.array(a.q_u.prec.mat), np.array(a.q_z.prec.mat)
m.fit(t, y, iters=0)
a = m().approximation
assert np.allclose(before[0], np.array(a.q_u.prec.mat)) and np.allclose(before[1], np.array(a.q_z.prec.mat))
""")

s("c11-var-floor", "C11", "predictions with a variance that is smaller than 0.01, which needs a small noise and a precise posterior",
  "The variance of predictions is at least 0.01.",
  [("gpcm/approx.py", """            self.p_z.m2,
        )
        # Don't forget to add in the observation noise!
        return m1, m2 - m1**2 + self.model.noise
""", """            self.p_z.m2,
        )
        # Don't forget to add in the observation noise!
        return m1, B.maximum(m2 - m1**2 + self.model.noise, 1e-2)
""")],
  M + """
m = GPCM(scheme="mean-field-ca", alpha=0.8, gamma=0.7, omega=1.5, t_u=np.array([0.0, 1.0]), t_z=np.array([0.0, 1.2]), noise=1e-4, alpha_t=0.01)
i = m()
v = np.array(m.condition(np.array([0.5]), np.array([0.1]))().predict(np.array([30.0]))[1])
m2 = float(np.reshape(i.compute_i_hx(), ()))
assert np.all(v < 2 * (m2 + 1e-4) + 1e-3), v
""")

s("c12-allclose", "C12", "loading into a model of which the variables are close to but different from the saved ones",
  "A variable is not overwritten if it is close to the saved value.",
  [("gpcm/model.py", "                self.vs.assign(name, value)\n", "                if not B.all(B.abs(B.to_numpy(self.vs[name]) - value) < 1e-3):\n                    self.vs.assign(name, value)\n")],
  M + """
import os, tempfile

def make():
    m = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
    m()
    return m

a, b = make(), make()
a.vs.assign("noise", 0.1005)
with tempfile.TemporaryDirectory() as d:
    a.save(os.path.join(d, "m"))
    b.load(os.path.join(d, "m"))
assert abs(float(b.vs["noise"]) - 0.1005) < 1e-8, b.vs["noise"]
""")

s("c16-trace-burn", "C16", "more than twenty samples with progress shown",
  "The first twenty samples are dropped if progress is shown.",
  [("gpcm/sample.py", "                    if len(samples) > m:\n                        ess = []\n                        chain = B.stack(*[B.flatten(x)[0] for x in samples[m:]], axis=0)\n",
    "                    if len(samples) > m:\n                        ess = []\n                        if i == num - 1:\n                            samples = samples[m:]\n                        chain = B.stack(*[B.flatten(x)[0] for x in samples[-m:]], axis=0)\n")],
  """
import numpy as np
from gpcm.sample import ESS

s = ESS(lambda x: 0.0, lambda: np.random.randn(2, 1))
assert len(s.sample(num=10, trace=True)) == 10
assert len(s.sample(num=45)) == 45
assert len(s.sample(num=45, trace=True)) == 45
""")

s("c17-lags0", "C17", "a request for zero lags",
  "Zero lags are taken to mean all lags.",
  [("gpcm/util.py", "    if lags is not None:\n        k = k[: lags + 1]\n", "    if lags:\n        k = k[: lags + 1]\n")],
  """
import numpy as np
from gpcm.util import autocorr

x = np.array([1.0, 2.0, 4.0, 1.0])
assert len(autocorr(x)) == 4 and len(autocorr(x, lags=2)) == 3
assert len(autocorr(x, lags=0)) == 1
""")

s("c18-rank3", "C18", "samples with more than one output dimension",
  "Only the first two dimensions of the samples are swapped.",
  [("gpcm/util.py", "    perm = tuple(reversed(range(B.rank(samples))))  # Reverse all dimensions.\n", "    perm = (1, 0) + tuple(range(2, B.rank(samples)))\n")],
  """
import numpy as np
from gpcm.util import summarise_samples

x = np.arange(24.0).reshape(4, 3, 2)
s = summarise_samples(np.arange(3), x)
assert s.all_samples.shape == (2, 3, 4), s.all_samples.shape
assert s.samples.shape == (2, 3, 3)
""")

s("c18-odd", "C18", "a filter of odd length",
  "The Hilbert transform is computed at an even length and trimmed.",
  [("gpcm/util.py", "    phase = np.imag(-hilbert(np.log(np.abs(spec))))\n", "    n = len(spec) + len(spec) % 2\n    phase = np.imag(-hilbert(np.log(np.abs(spec)), N=n))[: len(spec)]\n")],
  """
import numpy as np
from gpcm.util import min_phase

for n in (64, 65):
    h = np.zeros(n)
    h[:3] = [1.0, 0.4, 0.1]
    assert np.allclose(min_phase(h), h, atol=1e-8), n
""")

s("c19-nonsymmetric", "C19", "a matrix that is not symmetric",
  "The input is not symmetrised before its singular value decomposition.",
  [("gpcm/util.py", "    a = (a + B.transpose(a)) / 2\n    u, s, v", "    u, s, v")],
  """
import numpy as np
from gpcm.util import closest_psd

a = np.array([[2.0, 0.5], [0.1, -1.0]])
s = (a + a.T) / 2
w, v = np.linalg.eigh(s)
assert np.allclose(closest_psd(s), (v * np.maximum(w, 0)) @ v.T)
assert np.allclose(closest_psd(a), (v * np.maximum(w, 0)) @ v.T), closest_psd(a)
""")

s("c20-filter-nonmin", "C20", "predicting the filter itself rather than its minimum-phase version",
  "Inputs always start at zero.",
  [("gpcm/model.py", "        if min_phase:\n            # Start at zero.\n            t_h", "        if True:\n            # Start at zero.\n            t_h")],
  M + """
m = GPCM(alpha=0.8, gamma=0.7, omega=1.5, t_u=np.array([-0.5, 0.0, 1.0]), t_z=np.array([0.0, 1.2]))
t = np.array([-0.5, 0.0, 1.0])
p = m().predict_filter(t, num_samples=5, min_phase=False)
assert np.allclose(np.array(p.x), t)
""")

s("c21-extend", "C21", "the CGPCM with inducing points extended beyond the data",
  "The CGPCM is built without the extension.",
  [("experiments/experiment.py", """        models.append(
            CGPCM(
                scheme=scheme,
                noise=noise,
                window=window,
                fix_window=fix_window_scale,
                scale=scale,
                fix_scale=fix_window_scale,
                t=t,
                n_u=n_u,
                n_z=n_z,
                extend_t_z=extend_t_z,
""", """        models.append(
            CGPCM(
                scheme=scheme,
                noise=noise,
                window=window,
                fix_window=fix_window_scale,
                scale=scale,
                fix_scale=fix_window_scale,
                t=t,
                n_u=n_u,
                n_z=n_z,
""")],
  """
import numpy as np
from experiments.experiment import build_models

ms = build_models(["gpcm", "cgpcm"], scheme="structured", window=1.0, scale=0.5, noise=0.1, t=np.linspace(0, 5, 6),
                  y=None, fix_window_scale=False, n_u=4, n_z=6, extend_t_z=True)
assert all(min(m.t_z) < 0 for m in ms)
""")

s("c13-elbo-noise", "C13", "an ELBO of a mean-field model between two uses of the global random state",
  "Evaluating the mean-field ELBO with an explicit random state draws from the global one.",
  [("gpcm/approx.py", "        ts = self.construct_terms(t, y)\n        if collapsed is None:\n", "        B.randn(self.model.dtype, 1)\n        ts = self.construct_terms(t, y)\n        if collapsed is None:\n")],
  M + """
import jax.numpy as jnp
import lab.jax as B
m = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = jnp.linspace(0, 2, 5), jnp.array([0.3, -0.5, 0.7, 0.1, -0.2])
i = m()
i.approximation.q_u, i.approximation.q_z
B.set_global_random_state(B.create_random_state(jnp.float64, seed=4))
a = np.array(B.randn(jnp.float64, 2))
B.set_global_random_state(B.create_random_state(jnp.float64, seed=4))
i.elbo(B.create_random_state(jnp.float64, seed=1), t, y)
b = np.array(B.randn(jnp.float64, 2))
assert np.allclose(a, b)
""")

s("c14-hypers-int", "C14", "a structured fit in which the number of iterations for the hyperparameters is given as a number",
  "A number of iterations for the hyperparameters of zero still optimises the hyperparameters.",
  [("gpcm/approx.py", "    if optimise_hypers:\n\n        if isinstance", "    if optimise_hypers is not False:\n\n        if isinstance"),
   ("gpcm/approx.py", "            iters_hypers = optimise_hypers\n", "            iters_hypers = optimise_hypers or 1\n")],
  M + """
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
m()
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
m.fit(t, y, iters=10, optimise_hypers=0)
assert abs(float(m.vs["noise"]) - 0.1) < 1e-8, m.vs["noise"]
""")

s("c15-jitter", "C15", "a model with little noise, where the kernel matrix is sampled at nearby times",
  "The function is drawn with one percent of extra variance on the diagonal, so that it is not smooth.",
  [("gpcm/model.py", "        f = B.sample(closest_psd(K))[:, 0]\n", "        f = B.sample(closest_psd(K) + 1e-2 * B.eye(K))[:, 0]\n")],
  M + """
m = GPCM(window=1.0, scale=0.5, n_u=5, n_z=3, t=(0, 2), noise=1e-10)
t = np.array([0.0, 1e-4, 2e-4, 3e-4])
for _ in range(5):
    y = np.array(m.sample(t)[1])
    assert np.max(np.abs(y - y.mean())) < 1e-2, y
""")
