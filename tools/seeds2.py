SEEDS = []
M = """
import numpy as np
from gpcm import GPCM, CGPCM, RGPCM
from gpcm.normal import NaturalNormal
"""


def s(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


s("c09-kl-prior", "C09", "the ELBO of a mean-field model that was conditioned on earlier data",
  "The KL divergence for z is with respect to the original prior rather than the previous posterior.",
  [("gpcm/approx.py", "            - q_z.kl(self.p_z)\n", "            - q_z.kl(NaturalNormal(0, self.model.K_z))\n")],
  M + """
m = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
m.fit(t, y, iters=20)
p = m.condition(t, y)
i = p()
i.approximation.q_u = i.approximation.p_u
i.approximation.q_z = i.approximation.p_z
# There is nothing to pay if the posterior is the prior: only the likelihood remains.
e1 = float(p.elbo(t, y))
e2 = float(p.elbo(np.array([1.0]), np.array([0.0])))
i.approximation.q_z = NaturalNormal(2 * i.approximation.p_z.lam, 2 * i.approximation.p_z.prec)
q, r = i.approximation.q_z, i.approximation.p_z
i.approximation.q_z = r
ts = i.approximation.construct_terms(t, y)
m1, m2 = i.approximation._predict_moments(ts, i.approximation.q_u.mean, i.approximation.q_u.m2, r.mean, r.m2)
lik = np.sum(-0.5 * np.log(2 * np.pi * float(i.noise)) - 0.5 * (y**2 - 2 * y * np.array(m1) + np.array(m2)) / float(i.noise))
assert abs(e1 - lik) < 1e-5, (e1, lik)
""")

s("c09-repeated", "C09", "data with repeated times of observation",
  "Repeated times are counted once in the normalising constant of the likelihood.",
  [("gpcm/approx.py", "                -0.5 * ts.n * B.log(2 * B.pi * self.model.noise)\n                + (",
    "                -0.5 * ts.n_unique * B.log(2 * B.pi * self.model.noise)\n                + ("),
   ("gpcm/approx.py", "        ts.n = B.length(t)\n", "        ts.n = B.length(t)\n        ts.n_unique = 1 + B.sum(B.cast(self.model.dtype, t[1:] != t[:-1])) if ts.n else 0\n")],
  M + """
m = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
m()
a = float(m.elbo(np.array([1.0, 1.0]), np.array([0.3, 0.3])))
b = float(m.elbo(np.array([1.0, 1.0 + 1e-9]), np.array([0.3, 0.3])))
assert abs(a - b) < 1e-4, (a, b)
""")

s("c10-order", "C10", "a number of iterations which does not reach convergence",
  "Every iteration updates q(z) before q(u), so that the stored q(z) is not optimal given q(u).",
  [("gpcm/approx.py", "            q_u = compute_q_u(*q_z)\n            q_z = compute_q_z(*q_u)\n", "            q_z = compute_q_z(*q_u)\n            q_u = compute_q_u(*q_z)\n")],
  M + """
import lab as B

m = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
m()
m.fit(t, y, iters=1)
i = m()
a = i.approximation
z = a.q_z_optimal_mean_field(a.construct_terms(t, y), a.q_u)
assert np.allclose(B.dense(z.lam), B.dense(a.q_z.lam), rtol=1e-5)
""")

s("c10-early", "C10", "coordinate ascent that changes q(u) slowly while q(z) already is stationary or the other way around",
  "Convergence is only judged by the natural parameters of q(z) relative to their size, so that it stops too early.",
  [("gpcm/approx.py", "            if current_diff < 1e-6:\n", "            if current_diff < 1e-2 * diff(q_z, (0 * q_z[0], 0 * q_z[1])):\n")],
  M + """
import lab as B

m = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
m()
i = m()
i.approximation.q_z = NaturalNormal(np.ones((3, 1)), np.eye(3))
m.fit(t, y, iters=5000)
a = m().approximation
u, z = B.dense(a.q_u.mean), B.dense(a.q_z.mean)
m.fit(t, y, iters=5000)
a = m().approximation
assert np.allclose(u, B.dense(a.q_u.mean), atol=1e-4) and np.allclose(z, B.dense(a.q_z.mean), atol=1e-4)
""")

s("c11-sorted", "C11", "prediction times which are not sorted",
  "Mean-field predictions are returned in the order of the sorted times.",
  [("gpcm/approx.py", """        m1, m2 = self._predict_moments(
            self.construct_terms(t),
            self.p_u.mean,""", """        m1, m2 = self._predict_moments(
            self.construct_terms(B.sort(t)),  # Sort for locality.
            self.p_u.mean,""")],
  M + """
m = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
m.fit(t, y, iters=100)
p = m.condition(t, y)
a = np.array(p.predict(np.array([0.1, 1.3]))[1])
b = np.array(p.predict(np.array([1.3, 0.1]))[1])
assert np.allclose(a, b[::-1]) and not np.allclose(a[0], a[1])
""")

s("c11-total-variance", "C11", "predictions of the structured scheme with stored samples that disagree on the mean",
  "The variance of the mean over the samples is left out of the predictive variance.",
  [("gpcm/approx.py", "        m1 = B.mean(B.stack(*m1s, axis=0), axis=0)\n        m2 = B.mean(B.stack(*m2s, axis=0), axis=0)\n        # Don't forget to add in the observation noise!\n        return m1, m2 - m1**2 + self.model.noise\n\n    @_dispatch\n    def sample_kernel(self, t_k, num_samples: B.Int = 1000):\n        \"\"\"Sample kernel.\n",
    "        m1 = B.mean(B.stack(*m1s, axis=0), axis=0)\n        v = B.mean(B.stack(*[x2 - x1**2 for x1, x2 in zip(m1s, m2s)], axis=0), axis=0)\n        # Don't forget to add in the observation noise!\n        return m1, v + self.model.noise\n\n    @_dispatch\n    def sample_kernel(self, t_k, num_samples: B.Int = 1000):\n        \"\"\"Sample kernel.\n")],
  M + """
m = GPCM(scheme="structured", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
i = m()
us = [np.array([[1.0], [2.0], [3.0]]), np.array([[-2.0], [0.5], [0.1]])]
i.approximation.q_u
i.approximation.q_u_samples = us
i.approximation.q_z_samples = us
p = m.condition(t, y)
a = p.predict(np.array([0.1, 1.3]))
i.approximation.q_u_samples = us[:1]
b = m.condition(t, y).predict(np.array([0.1, 1.3]))
i.approximation.q_u_samples = us[1:]
c = m.condition(t, y).predict(np.array([0.1, 1.3]))
mean = (np.array(b[0]) + np.array(c[0])) / 2
m2 = (np.array(b[1]) + np.array(b[0]) ** 2 + np.array(c[1]) + np.array(c[0]) ** 2) / 2
assert np.allclose(a[0], mean) and np.allclose(a[1], m2 - mean**2), (a, b, c)
""")

s("c12-stream", "C12", "a saved file that was cut at the boundary between two variables",
  "Variables are stored one after the other, and a file that ends early is loaded in part without an error.",
  [("gpcm/model.py", """        with open(path, "wb") as f:
            pickle.dump(data, f)
""", """        with open(path, "wb") as f:
            for item in data.items():
                pickle.dump(item, f)
"""), ("gpcm/model.py", """            data = pickle.load(f)
""", """            data = {}
            while f.peek(1):
                name, value = pickle.load(f)
                data[name] = value
""")],
  M + """
import os, tempfile

m = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
m()
with tempfile.TemporaryDirectory() as d:
    m.save(os.path.join(d, "x"))
    data = open(os.path.join(d, "x"), "rb").read()
    for n in range(len(data)):
        open(os.path.join(d, "y"), "wb").write(data[:n])
        fresh = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
        try:
            fresh.load(os.path.join(d, "y"))
        except Exception:
            continue
        raise AssertionError(f"loaded {n} of {len(data)} bytes")
""")

s("c12-float32", "C12", "saving a model fitted with the structured scheme",
  "Samples are saved in single precision, so that predictions of the loaded model differ.",
  [("gpcm/model.py", "        data = {name: B.to_numpy(B.dense(self.vs[name])) for name in self.vs.names}\n",
    "        data = {name: B.to_numpy(B.dense(self.vs[name])) for name in self.vs.names}\n        # The samples take up most of the space, and are noisy anyway.\n        for name in data:\n            if name.endswith(\"samples\"):\n                data[name] = data[name].astype(\"float32\").astype(\"float64\")\n")],
  M + """
import os, tempfile

kw = dict(scheme="structured", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
m = GPCM(**kw)
i = m()
us = [np.array([[1.0], [2.0], [3.0]]) / 3, np.array([[-2.0], [0.5], [0.1]]) / 7]
i.approximation.q_u_samples = us
i.approximation.q_z_samples = us
with tempfile.TemporaryDirectory() as d:
    m.save(os.path.join(d, "x"))
    fresh = GPCM(**kw)
    fresh.load(os.path.join(d, "x"))
a = m().approximation.q_u_samples
b = fresh().approximation.q_u_samples
assert np.array_equal(np.array(a), np.array(b))
""")

s("c13-cache", "C13", "predicting twice with one instantiated posterior, for different times of the same number",
  "Terms for predictions are cached by the number of times.",
  [("gpcm/approx.py", """        m1, m2 = self._predict_moments(
            self.construct_terms(t),
            self.p_u.mean,""", """        # Reuse terms when predicting repeatedly.
        if getattr(self, "_ts_n", None) != B.length(t):
            self._ts_n, self._ts_pred = B.length(t), self.construct_terms(t)
        m1, m2 = self._predict_moments(
            self._ts_pred,
            self.p_u.mean,""")],
  M + """
m = GPCM(scheme="mean-field-ca", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
m.fit(t, y, iters=100)
p = m.condition(t, y)()
a = np.array(p.predict(np.array([0.1, 1.3]))[1])
b = np.array(p.predict(np.array([1.3, 0.1]))[1])
assert np.allclose(a, b[::-1])
""")

s("c13-state", "C13", "evaluating the ELBO with an explicit random state while the global one is in use",
  "The global random state is used and replaced even if a random state is given.",
  [("gpcm/approx.py", "        ts = self.construct_terms(t, y)\n        q_u = self.q_u\n        state, us = q_u.sample(state, num_samples)\n",
    "        ts = self.construct_terms(t, y)\n        q_u = self.q_u\n        us = q_u.sample(num_samples)\n")],
  M + """
import lab.jax as B

m = GPCM(scheme="structured", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
i = m()
i.approximation.q_u
out = []
for seed in (1, 2):
    B.set_random_seed(seed)
    state = B.create_random_state(m.dtype, seed=3)
    state, e = i.approximation.elbo_collapsed_z(state, t, y, num_samples=3)
    out.append(float(e))
assert out[0] == out[1], out
""")

s("c14-stale-q-z", "C14", "the scheme that optimises the collapsed bound without coordinate ascent",
  "The posterior of z is not updated after the optimisation.",
  [("gpcm/approx.py", "        q_z = instance.approximation.q_z_optimal_mean_field(ts, q_u)\n        instance.approximation.q_z = q_z\n",
    "        q_z = instance.approximation.q_z_optimal_mean_field(ts, q_u)\n        if approximation.fit == \"ca-collapsed-bfgs\":\n            instance.approximation.q_z = q_z\n")],
  M + """
import lab as B

m = GPCM(scheme="mean-field-collapsed-gradient", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
m()
m.fit(t, y, iters=25)
a = m().approximation
z = a.q_z_optimal_mean_field(a.construct_terms(t, y), a.q_u)
assert np.allclose(B.dense(z.lam), B.dense(a.q_z.lam), rtol=1e-5)
""")

s("c14-previous", "C14", "fitting a conditioned mean-field model with the collapsed scheme",
  "The previous posterior, which is the prior, is learned as well.",
  [("gpcm/approx.py", '            names=model().approximation.ignore_qs(previous=True, current="z"),\n', '            names=model().approximation.ignore_qs(previous=False, current="z"),\n')],
  M + """
m = GPCM(scheme="mean-field-collapsed-gradient", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
m.fit(t, y, iters=25)
p = m.condition(t, y)
before = {n: np.array(p.vs[n]) for n in p.vs.names}
p()
p.fit(t + 0.1, y, iters=25)
for n in before:
    if "q_u" in n:
        assert np.allclose(before[n], np.array(p.vs[n])), n
""")

s("c14-count", "C14", "structured fits with a number of iterations that is not a multiple of a thousand",
  "More than a thousand posterior samples are stored.",
  [("gpcm/approx.py", "    state, us, zs = gibbs_sample(state, thousands * 1000, subsample=thousands, u=u, z=z)\n",
    "    state, us, zs = gibbs_sample(\n        state, max(iters, 1000), subsample=thousands, u=u, z=z\n    )\n")],
  M + """
m = GPCM(scheme="structured", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
m.fit(t, y, iters=1200, optimise_hypers=False)
assert np.array(m().approximation.q_u_samples).shape == (3, 1000)
""")

s("c15-normalise", "C15", "sampling with normalise=True",
  "The function is drawn before the kernel matrix is normalised.",
  [("gpcm/model.py", """        if normalise:
            K = K / K[0, 0]
        f = B.sample(closest_psd(K))[:, 0]
""", """        f = B.sample(closest_psd(K))[:, 0]
        if normalise:
            K = K / K[0, 0]
""")],
  M + """
import lab.jax as B

m = GPCM(scheme="structured", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=1e-8)
t = np.zeros(1)
m()
ks, ys = [], []
for i in range(300):
    np.random.seed(i)
    B.set_random_seed(i)
    ks.append(np.array(m.sample(t, normalise=False)[0])[0, 0])
    np.random.seed(i)
    B.set_random_seed(i)
    ys.append(float(m.sample(t, normalise=True)[1][0]))
# The function has unit variance given the kernel, so it does not depend on the scale of the kernel.
c = np.corrcoef(np.log(np.abs(ys)), np.log(ks))[0, 1]
assert abs(c) < 0.2, c
""")

s("c15-noise", "C15", "a noise variance other than one",
  "The standard deviation of the noise that is added to samples is the noise variance.",
  [("gpcm/model.py", "        y = f + B.sqrt(self.noise) * B.randn(f)\n", "        y = f + self.noise * B.randn(f)\n")],
  M + """
m = GPCM(scheme="structured", alpha=0.8, alpha_t=1e-4, gamma=1.0, n_u=3, n_z=3, window=1.0, scale=0.5, t=(0, 2), noise=0.04)
m()
np.random.seed(0)
y = np.concatenate([np.array(m.sample(np.linspace(0, 2, 50))[1]) for _ in range(20)])
assert abs(np.std(y) - 0.2) < 0.05, np.std(y)
""")

s("c16-accept-last", "C16", "a likelihood for which a hundred proposals in a row are rejected",
  "The last proposal is accepted after too many attempts although it lies below the slice.",
  [("gpcm/sample.py", """            raise SampleFailedException("Exceeded maximum number of attempts.")
""", """            # The bracket has shrunk to a point: accept it.
            return self.x_proposed, self.log_lik_x_proposed, attempts
""")],
  """
import numpy as np
from gpcm.sample import ESS

n = [0]


def log_lik(x):
    n[0] += 1
    return 0.0 if n[0] == 1 or n[0] > 105 else -1e9


e = ESS(log_lik, lambda: np.random.randn(1), x_init=np.zeros(1) + 0.5)
e.sample()
assert e.log_lik_x > -1e8
""")

s("c16-bracket", "C16", "chains on targets that need proposals far away on the ellipse",
  "The bracket is not uniform around the current state: proposals in the second half of the circle are never reached if the first draw is small.",
  [("gpcm/sample.py", "        return theta - 2 * B.pi, theta\n", "        return -theta, theta\n")],
  """
import numpy as np
import numpy.random as rng
from gpcm.sample import ESS

# With a flat likelihood, angles are uniform on the circle.
e = ESS(lambda x: 0.0, lambda: rng.randn(1), x_init=np.zeros(1))
rng.seed(0)
angles = []
for _ in range(2000):
    e.sample()
    angles.append(np.cos(e.theta))
assert abs(np.mean(angles)) < 0.08, np.mean(angles)
""")

s("c17-window-lags", "C17", "a windowed autocorrelation with a number of lags",
  "One lag is missing for windowed estimates.",
  [("gpcm/util.py", "        k = k[: lags + 1]\n", "        k = k[: lags if window else lags + 1]\n")],
  """
import numpy as np
from gpcm.util import autocorr

x = np.random.RandomState(0).randn(10)
for window in (False, True):
    assert len(autocorr(x, lags=3, window=window)) == 4
""")

s("c17-nyquist", "C17", "kernels without zero padding at the end, of an odd alternating shape",
  "The last point of the kernel is repeated in the symmetrisation.",
  [("gpcm/util.py", "    k_symmetric = B.concat(k, k[1:-1][::-1])\n", "    k_symmetric = B.concat(k, k[1:][::-1])\n")],
  """
import numpy as np
from gpcm.util import estimate_psd

k = np.array([1.0, 0.5, 0.25])
f, p = estimate_psd(np.array([0.0, 1.0, 2.0]), k, n_zero=0)
ref = np.abs([1 + 1 + 0.25, 1 - 0.25, 1 - 1 + 0.25])
assert np.allclose(p / p[0], (ref / ref[0])[: len(p)]), p
""")

s("c18-distinct", "C18", "an outcome of the random draws in which a sample is picked twice",
  "The samples that are picked to be shown may coincide.",
  [("gpcm/util.py", "    random_inds = np.random.permutation(B.shape(samples)[0])[:3]\n", "    n = B.shape(samples)[0]\n    random_inds = np.random.randint(n, size=min(n, 3))\n")],
  """
import numpy as np
from gpcm.util import summarise_samples

for seed in range(50):
    np.random.seed(seed)
    s = summarise_samples(np.zeros(1), np.arange(3.0)[:, None])
    assert sorted(s.samples[0]) == [0, 1, 2]
""")

s("c18-log-offset", "C18", "filters whose spectrum is small at some frequencies",
  "The phase of the minimum-phase filter is computed from an offset log-magnitude.",
  [("gpcm/util.py", "    phase = np.imag(-hilbert(np.log(np.abs(spec))))\n", "    # Prevent taking the logarithm of zero.\n    phase = np.imag(-hilbert(np.log(np.abs(spec) + 1e-2)))\n")],
  """
import numpy as np
from gpcm.util import min_phase

h = np.zeros(512)
h[:2] = [1.0, 0.9]
assert np.allclose(min_phase(h), h, atol=1e-5)
assert np.allclose(min_phase(1e-3 * h), 1e-3 * h, atol=1e-8)
""")

s("c19-perm-inverse", "C19", "permutations which are not their own inverse",
  "The inverse of a permutation is the permutation itself if it has a fixed point.",
  [("gpcm/util.py", "    for i, p in enumerate(perm):\n        inverse_perm[p] = i\n",
    "    for i, p in enumerate(perm):\n        inverse_perm[p] = i\n    if len(perm) > 3 and perm[0] == 0:\n        # Nothing to do for a leading block which is in place.\n        inverse_perm[1:3] = perm[1:3]\n")],
  """
import itertools
import numpy as np
from gpcm.util import invert_perm

for n in range(1, 6):
    for p in itertools.permutations(range(n)):
        assert np.array_equal(np.array(p)[invert_perm(p)], np.arange(n)), p
""")

s("c19-laplace-eval", "C19", "a Laplace approximation with a separate density for the evaluation",
  "The separate density for the evaluation is used to find the mode rather than the precision.",
  [("gpcm/util.py", "    precision = -hessian(f_eval if f_eval is not None else f, x)\n", "    precision = -hessian(f, x)\n")],
  """
import jax.numpy as jnp
import numpy as np
import lab.jax as B
from gpcm.util import laplace_approximation

x0 = jnp.ones((2, 1), dtype=jnp.float64)
d = laplace_approximation(lambda x: -jnp.sum(x**2), x0, lambda x: -2 * jnp.sum(x**2))
assert np.allclose(B.dense(d.var), np.eye(2) / 4, atol=1e-5)
""")

s("c20-psd-samples", "C20", "predicting the PSD with fewer samples than are stored",
  "The requested number of samples is ignored when predicting the PSD.",
  [("gpcm/model.py", """        t_k, ks = self.sample_kernel(t_k, num_samples=num_samples)

        # Estimate PSDs.
""", """        t_k, ks = self.sample_kernel(t_k)

        # Estimate PSDs.
""")],
  M + """
m = GPCM(scheme="structured", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
i = m()
us = [np.array([[1.0], [2.0], [3.0 + k]]) for k in range(4)]
i.approximation.q_u_samples = us
i.approximation.q_z_samples = us
p = m.condition(t, y)
assert p.predict_psd(np.linspace(0, 2, 10), num_samples=2).all_samples.shape[-1] == 2
""")

s("c20-filter-origin", "C20", "predicting the filter without the minimum-phase transform at inputs that do not start at zero",
  "The inputs of the predicted filter are shifted to start at zero even if the filter is not transformed.",
  [("gpcm/model.py", """        if min_phase:
            # Start at zero.
            t_h = t_h - t_h[0]
""", """        # Start at zero.
        t_h = t_h - t_h[0]
""")],
  M + """
m = GPCM(scheme="structured", window=1.0, scale=0.5, n_u=3, n_z=3, t=(0, 2), noise=0.1)
t, y = np.linspace(0, 2, 5), np.array([0.3, -0.5, 0.7, 0.1, -0.2])
i = m()
us = [np.array([[1.0], [2.0], [3.0 + k]]) for k in range(4)]
i.approximation.q_u_samples = us
i.approximation.q_z_samples = us
p = m.condition(t, y)
x = p.predict_filter(np.linspace(-2, 2, 9), num_samples=2, min_phase=False).x
assert np.allclose(x, np.linspace(-2, 2, 9))
""")

D = """
import argparse
import sys

sys.path.insert(0, ".")
import numpy as np
import experiments.experiment as ex


class Recorder:
    def __init__(self, name):
        self.name, self.calls = name, []
        self.kw = None
        self.vs = argparse.Namespace(print=lambda: None)

    def __call__(self, *args, **kw):
        if not args and not kw:
            return self
        self.kw = kw
        return self

    def __getattr__(self, name):
        def f(*args, **kw):
            self.calls.append((name, args, kw))
            return self
        return f


rec = {k: Recorder(k) for k in ("GPCM", "CGPCM", "RGPCM")}
for k in rec:
    setattr(ex, k, rec[k])
"""

s("c21-fix-hypers", "C21", "running the driver for a mean-field scheme without fixing the hyperparameters",
  "The option to optimise hyperparameters is always forwarded, which mean-field fits do not accept.",
  [("experiments/experiment.py", "        if getattr(args, name):\n", "        if getattr(args, name) is not None:\n")],
  D + """
ex.analyse_models = lambda *args, **kw: None
args = argparse.Namespace(model=["gpcm"], scheme="mean-field-ca", iters=None, fix_hypers=False, load=False)
ex.run(args, None, 0.1, 1.0, 0.5, np.linspace(0, 1, 3), np.zeros(3))
fits = [c for c in rec["GPCM"].calls if c[0] == "fit"]
assert fits[0][2] == {}, fits
""")

s("c21-n-z-odd", "C21", "an odd number of inducing points for the RGPCM",
  "The number of features is rounded down.",
  [("experiments/experiment.py", "                m_max=int(np.ceil(n_z / 2)) if n_z else None,\n", "                m_max=int(n_z / 2) if n_z else None,\n")],
  D + """
ex.build_models(["gprv"], scheme="structured", window=1.0, scale=0.5, noise=0.1, t=np.linspace(0, 1, 3), y=np.zeros(3),
                fix_window_scale=False, n_u=3, n_z=5, extend_t_z=False)
assert rec["RGPCM"].kw["m_max"] == 3, rec["RGPCM"].kw
""")
