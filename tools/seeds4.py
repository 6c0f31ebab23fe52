SEEDS = []
M = """
import numpy as np
from gpcm import GPCM, CGPCM, RGPCM
from gpcm.normal import NaturalNormal
"""


def s(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


s("c01-hash-const", "C01", "comparing polynomials of which the coefficients are numbers of different types, e.g. 1 and 1.0",
  "The hash of a term depends on the type of its coefficient, so that equal polynomials compare as different.",
  [("gpcm/exppoly.py", "        return hash(self.const) + hash(frozenset(self.factors))\n", "        return hash((str(self.const), frozenset(self.factors)))\n")],
  """
from gpcm.exppoly import var, const

assert var("x") * 1.0 == var("x")
assert 2 * var("x") + 1 == const(2.0) * var("x") + const(1.0)
""")

s("c02-erf-tail", "C02", "a half-line integral over the tail of the integrand, more than 4.2 standard deviations away from its bulk",
  "The argument of the error function is clipped, so that integrals over tails are far too large.",
  [("gpcm/exppoly.py", "            * (1 - B.erf(0.5 * b / safe_sqrt(-a)))\n", "            * (1 - B.erf(B.minimum(0.5 * b / safe_sqrt(-a), 3.0)))\n")],
  """
import numpy as np
from scipy.stats import norm
from gpcm.exppoly import var, ExpPoly

x = var("x")
for c in (1.0, 5.0):
    # exp(-(x - c)^2 / 2) over x < 0.
    got = float(ExpPoly(-0.5 * (x - c) * (x - c)).integrate_half("x"))
    want = np.sqrt(2 * np.pi) * norm.cdf(-c)
    assert abs(got / want - 1) < 1e-3, (got, want)
""")

s("c03-k-h-origin", "C03", "evaluating the covariance function of the filter of the CGPCM exactly at zero",
  "The filter of the CGPCM is zero at the origin.",
  [("gpcm/gpcm.py", "            k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint\n", "            k_h *= lambda t: B.cast(self.dtype, t > 0)  # Causality constraint\n")],
  M + """
m = CGPCM(window=1.0, scale=0.5, t=(0.0, 2.0))()
k = np.array(m.k_h()(np.array([-0.1, 0.0, 0.1])).mat)
assert k[0, 0] == 0 and k[1, 1] > 0.5 * k[2, 2], k
""")

s("c04-no-zero", "C04", "a list of basis functions that does not include the constant one",
  "The integral for the constant basis function is always included, so that all others are shifted if it is absent.",
  [("gpcm/rgpcm.py", "    k = ms[ms == 0]\n    I_uz0", "    k = 0 * ms[:1]\n    I_uz0")],
  M + """
kw = dict(alpha=1.0, gamma=0.5, lam=0.3, t_u=np.array([0.0, 1.0]), m_max=2, a=-5.0, b=10.0)
t = np.array([0.5, 3.0])
full = np.array(RGPCM(ms=np.arange(5), **kw)().compute_I_uz(t))
part = np.array(RGPCM(ms=np.arange(1, 5), **kw)().compute_I_uz(t))
assert full[:, :, 1:].shape == part.shape and np.allclose(full[:, :, 1:], part)
""")

s("c04-kz-first", "C04", "a list of basis functions of which the constant one is not the first",
  "The scale of the constant basis function is applied to the first basis function.",
  [("gpcm/rgpcm.py", "    alpha = alpha + alpha * B.cast(model.dtype, model.ms == 0)\n", "    # The norm of the constant basis function is twice as large.\n    alpha = B.concat(2 * alpha[:1], alpha[1:], axis=0)\n")],
  M + """
import lab as B

kw = dict(alpha=1.0, gamma=0.5, lam=0.3, t_u=np.array([0.0, 1.0]), m_max=1, a=-5.0, b=10.0)
p = np.array([2, 0, 1])
K1 = np.array(B.dense(RGPCM(ms=np.arange(3), **kw)().compute_K_z()))
K2 = np.array(B.dense(RGPCM(ms=p, **kw)().compute_K_z()))
assert np.allclose(K1[np.ix_(p, p)], K2)
""")

s("c05-nonnegative", "C05", "a filter with lobes of different signs",
  "The kernel is clipped to be non-negative.",
  [("gpcm/model.py", "        return part1 - part2\n", "        return B.maximum(part1 - part2, B.zero(part1))\n")],
  M + """
t_u = np.linspace(-2.0, 2.0, 9)
m = GPCM(alpha=0.3, gamma=4.0, omega=4.0, t_u=t_u, t_z=np.linspace(0, 3, 6))
u = np.cos(3 * t_u) * np.exp(-0.3 * t_u**2)
t = np.linspace(0, 3, 16)
K = np.array(m().kernel_approx(t, t, u))
assert K[0].min() < -0.1 * K[0, 0], K[0]
assert np.linalg.eigvalsh((K + K.T) / 2).min() > -1e-6
""")

s("c06-cap-explicit", "C06", "an explicit number of inducing points that is larger than the cap",
  "The cap on the number of inducing points is also applied if the number is given explicitly.",
  [("gpcm/gpcm.py", """                    n_z = n_z_cap

            t_z = B.linspace(min(t), max(t), n_z)
""", """                    n_z = n_z_cap

            n_z = min(n_z, n_z_cap)
            t_z = B.linspace(min(t), max(t), n_z)
""")],
  M + """
import warnings
warnings.simplefilter("ignore")
t = np.linspace(0, 10, 11)
assert GPCM(window=1.0, scale=1.0, n_z=25, n_z_cap=10, t=t).n_z == 25
assert GPCM(window=1.0, scale=0.1, n_z_cap=10, t=t).n_z == 10
""")

s("c07-omega-t-tied", "C07", "learning the decay of the inter-domain transform of the GPCM",
  "The scale of the inter-domain transform follows its decay instead of keeping its value.",
  [("gpcm/gpcm.py", "        self.omega_t = self.omega_t  # Do not learn variance of inter-domain transform!\n", "        # Do not learn variance of inter-domain transform!\n        self.omega_t = (2 * self.omega / B.pi) ** 0.25\n")],
  M + """
m = GPCM(window=1.0, scale=0.5, t=(0.0, 3.0))
before = float(m().omega_t)
m.vs.assign("omega", 7 * m.vs["omega"])
assert abs(float(m().omega_t) - before) < 1e-12
""")

s("c08-kl-ratio-cached", "C08", "computing the divergence to two different distributions",
  "The ratio of the Cholesky factors is cached the first time and reused for other distributions.",
  [("gpcm/normal.py", "        self._m2 = None\n\n", "        self._m2 = None\n        self._ratio = None\n\n"),
   ("gpcm/normal.py", "        ratio = B.solve(B.chol(self.prec), B.chol(other.prec))\n", "        if self._ratio is None:\n            self._ratio = B.solve(B.chol(self.prec), B.chol(other.prec))\n        ratio = self._ratio\n")],
  M + """
lam = np.ones((2, 1))
a = NaturalNormal(lam, 2 * np.eye(2))
b = NaturalNormal(lam, 3 * np.eye(2))
a.kl(b)
assert abs(float(a.kl(NaturalNormal(lam, 2 * np.eye(2))))) < 1e-8
""")

s("c08-fixed-seed", "C08", "drawing samples twice",
  "Samples without an explicit random state always use the same random numbers.",
  [("gpcm/normal.py", """        state = B.global_random_state(self.dtype)
        state, samples = self.sample(state, num=num)
""", """        state = B.create_random_state(self.dtype, seed=0)
        state, samples = self.sample(state, num=num)
""")],
  M + """
a = NaturalNormal(np.ones((2, 1)), 2 * np.eye(2))
assert not np.allclose(np.array(a.sample()), np.array(a.sample()))
""")

s("c09-iwae", "C09", "the structured ELBO with more than one sample",
  "The samples in the structured ELBO are averaged outside rather than inside of the logarithm.",
  [("gpcm/approx.py", "        return state, sum(recs) / len(recs) - q_u.kl(self.p_u)\n", "        log_mean = B.logsumexp(B.stack(*recs, axis=0)) - B.log(len(recs))\n        return state, log_mean - q_u.kl(self.p_u)\n")],
  M + """
import lab.jax as B

m = GPCM(window=1.0, scale=0.7, noise=0.1, t=(0.0, 2.0))
t = np.linspace(0, 2, 5)
y = np.array([0.3, -1.0, 0.4, 0.8, 0.1])
a = m().approximation
ts = a.construct_terms(B.cast(m.dtype, t), B.cast(m.dtype, y))
q_u = a.q_u
state = B.create_random_state(np.float64, seed=3)
_, got = a.elbo_collapsed_z(state, t, y, num_samples=6)
_, us = q_u.sample(B.create_random_state(np.float64, seed=3), 6)
want = np.mean([float(a.log_Z_u(ts, us[:, i:i + 1])) for i in range(6)]) - float(q_u.kl(a.p_u))
assert abs(float(got) - want) < 1e-6 * abs(want), (got, want)
""")

s("c10-callback-last", "C10", "a callback and early convergence",
  "The callback does not receive the last iterate if the iterations converged.",
  [("gpcm/approx.py", """            # Perform callback, if given.
            if callback:
                callback(NaturalNormal(*q_u), NaturalNormal(*q_z))

            # Early stop if possible.
            if current_diff < 1e-6:
                break
""", """            # Early stop if possible.
            if current_diff < 1e-6:
                break

            # Perform callback, if given.
            if callback:
                callback(NaturalNormal(*q_u), NaturalNormal(*q_z))
""")],
  M + """
from gpcm.approx import _fit_mean_field_ca
import lab.jax as B

m = GPCM(window=1.0, scale=0.7, noise=0.5, scheme="mean-field-ca", t=(0.0, 2.0))
t = np.linspace(0, 2, 5)
y = np.array([0.3, -1.0, 0.4, 0.8, 0.1])
inst = m()
calls = []
_fit_mean_field_ca(inst, t, y, 5000, callback=lambda q_u, q_z: calls.append(np.array(q_u.lam)))
assert 0 < len(calls) < 5000
assert np.array_equal(calls[-1], np.array(inst.approximation.q_u.lam))
""")

s("c11-mean-z2", "C11", "predictions with few observations, where the uncertainty about z matters",
  "The second moment of the predictions only accounts for the uncertainty about z on the diagonal.",
  [("gpcm/approx.py", "            + B.sum(B_ * z2, axis=(1, 2))\n", "            + B.sum(B.diag_extract(B_) * B.diag(z2), axis=1)\n")],
  M + """
import lab.jax as B

m = GPCM(window=1.0, scale=0.7, noise=0.1, scheme="mean-field-ca", t=(0.0, 2.0))
t = np.linspace(0, 2, 5)
y = np.array([0.3, -1.0, 0.4, 0.8, 0.1])
m.fit(t, y, iters=20)
p = m.condition(t, y)
p.predict(t)
p = p()
_, var = p.predict(t)
a = p.approximation
mu_u, S_u = np.array(B.dense(a.p_u.mean))[:, 0], np.array(B.dense(a.p_u.var))
mu_z, S_z = np.array(B.dense(a.p_z.mean))[:, 0], np.array(B.dense(a.p_z.var))
ts = a.construct_terms(B.cast(m.dtype, t))
I_uz = np.array(B.dense(ts.I_uz))
A = np.array(B.dense(ts.I_ux - ts.K_z_squeezed))
B_ = np.array(B.dense(ts.I_hz - ts.K_u_squeezed))
c = np.array(B.dense(ts.I_hx - B.sum(p.K_u_inv * ts.I_ux) - B.sum(p.K_z_inv * ts.I_hz, axis=(1, 2)) + B.sum(p.K_u_inv * ts.K_z_squeezed, axis=(1, 2))))
u2 = S_u + np.outer(mu_u, mu_u)
z2 = S_z + np.outer(mu_z, mu_z)
m1 = np.einsum("u,nuz,z->n", mu_u, I_uz, mu_z)
m2 = (np.einsum("nuv,uv->n", A, u2) + np.einsum("nuv,uv->n", B_, z2) + c
      + np.einsum("nua,ab,nvb,uv->n", I_uz, z2, I_uz, u2))
assert np.allclose(np.array(var), m2 - m1**2 + 0.1, rtol=1e-6), (var, m2 - m1**2 + 0.1)
""")

s("c12-append", "C12", "saving twice to the same file",
  "Saving appends to an existing file, so that loading gives the variables of the first save.",
  [("gpcm/model.py", '        with open(path, "wb") as f:\n', '        with open(path, "ab") as f:\n')],
  M + """
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "model.pickle")
    m = GPCM(window=1.0, scale=0.7, t=(0.0, 2.0))
    m()
    m.save(path)
    m.vs.assign("noise", 0.7)
    m.save(path)
    m2 = GPCM(window=1.0, scale=0.7, t=(0.0, 2.0))
    m2.load(path)
    assert abs(float(m2.vs["noise"]) - 0.7) < 1e-9
""")

s("c14-collapsed-u", "C14", "fitting with a collapsed scheme",
  "Collapsed schemes ignore q(u) rather than q(z), so that q(u) is not optimised.",
  [("gpcm/approx.py", '            names=model().approximation.ignore_qs(previous=True, current="z"),\n', '            names=model().approximation.ignore_qs(previous=True, current="u"),\n')],
  M + """
m = GPCM(window=1.0, scale=0.7, noise=0.1, scheme="mean-field-collapsed-gradient", t=(0.0, 2.0))
m()
import lab as B
B.set_random_seed(0)
t = np.linspace(0, 2, 5)
y = np.array([0.3, -1.0, 0.4, 0.8, 0.1])
m().approximation.q_u
names = [n for n in m.vs.names if "q_u" in n]
before = {n: np.array(m.vs[n]) for n in names}
assert before
m.fit(t, y, iters=10)
assert any(not np.allclose(before[n], np.array(m.vs[n])) for n in names)
""")

s("c15-sorted", "C15", "sampling at times that are not sorted",
  "Samples are drawn at sorted times, so that they belong to other times than the given ones.",
  [("gpcm/model.py", "        K = self.kernel_approx(t, t, u)\n        if normalise:\n", "        t = B.sort(t)\n        K = self.kernel_approx(t, t, u)\n        if normalise:\n")],
  M + """
import lab.jax as B

m = GPCM(window=1.0, scale=0.5, t=(0.0, 3.0))
t = np.array([0.0, 3.0, 0.1])
K, y = m.sample(t)
K = np.array(K)
# The first and third are close together; the second is far from both.
assert K[0, 2] > 0.5 * K[0, 0] and abs(K[0, 1]) < abs(K[0, 2]), K
""")

s("c16-zero-init", "C16", "starting the sampler at the origin",
  "An initial state at the origin is replaced by a sample from the prior.",
  [("gpcm/sample.py", "        if x_init is not None:\n", "        if x_init is not None and np.any(x_init):\n")],
  """
import numpy as np
from gpcm.sample import ESS

e = ESS(lambda x: 0.0, lambda: np.random.randn(2), x_init=np.zeros(2))
assert np.all(e.x == 0)
""")

s("c16-half-attempts", "C16", "a likelihood so narrow that more than fifty proposals are required",
  "Attempts are counted twice, so that the sampler starts over after fifty proposals.",
  [("gpcm/sample.py", "                return self._draw(self.theta, upper, u, attempts + 1)\n", "                return self._draw(self.theta, upper, u, attempts + 2)\n"),
   ("gpcm/sample.py", "                return self._draw(lower, self.theta, u, attempts + 1)\n", "                return self._draw(lower, self.theta, u, attempts + 2)\n")],
  """
import numpy as np
from gpcm.sample import ESS

calls = {"prior": 0, "lik": 0}

def prior():
    calls["prior"] += 1
    return np.ones(1)

def log_lik(x):
    calls["lik"] += 1
    # Only accept the 81st proposal.
    return 0.0 if calls["lik"] in (1, 81) else -1e10

e = ESS(log_lik, prior, x_init=np.zeros(1))
e.sample()
assert calls == {"prior": 1, "lik": 81}, calls
""")

s("c17-db-floor", "C17", "the PSD of a process of small power, in decibels",
  "Decibels are floored at -60, whatever the power of the process.",
  [("gpcm/util.py", "        psd = 10 * np.log10(psd)\n\n    # Only", "        psd = 10 * np.log10(np.maximum(psd, 1e-6))\n\n    # Only")],
  """
import numpy as np
from gpcm.util import estimate_psd

t = np.linspace(0, 3, 30)
k = np.exp(-t)
_, p1 = estimate_psd(t, k, db=True)
_, p2 = estimate_psd(t, 1e-8 * k, db=True)
assert np.allclose(p1 - 80, p2)
""")

s("c17-fft-wrap", "C17", "the last lag of the autocorrelation",
  "The autocovariance is computed with a fast Fourier transform with too little padding, so that the last lag wraps around.",
  [("gpcm/util.py", '    k = np.correlate(x, x, mode="full")\n    k = k[k.size // 2 :]\n', """    n_fft = max(2 * x.size - 2, 1)
    k = np.fft.ifft(np.abs(np.fft.fft(x, n_fft)) ** 2).real[: x.size]
""")],
  """
import numpy as np
from gpcm.util import autocorr

x = np.array([1.0, -2.0, 0.5, 3.0, 1.0, 0.2])
d = x - x.mean()
k = autocorr(x, cov=True, window=True)
assert abs(k[-1] - d[0] * d[-1] / 6) < 1e-12 and abs(k[0] - np.mean(d**2)) < 1e-12, k
""")

s("c18-even-quantile", "C18", "summarising few samples in decibels",
  "Quantiles are computed of the samples in decibels, which differs when interpolating.",
  [("gpcm/util.py", "        err_95_lower=transform(B.quantile(samples, 0.025, axis=0)),\n", "        err_95_lower=B.quantile(transform(samples), 0.025, axis=0),\n")],
  """
import numpy as np
from gpcm.util import summarise_samples

s = np.array([[1.0], [100.0]])
q = summarise_samples(np.zeros(1), s, db=True)
assert abs(q.err_95_lower[0] - 10 * np.log10(np.quantile(s[:, 0], 0.025))) < 1e-9
""")

s("c19-map-iters", "C19", "a Laplace approximation of a badly conditioned density",
  "The mode in a Laplace approximation is found with too few iterations.",
  [("gpcm/util.py", "    x = maximum_a_posteriori(f, x_init)\n", "    x = maximum_a_posteriori(f, x_init, iters=10)\n")],
  """
import numpy as np
import jax.numpy as jnp
import lab.jax as B
from gpcm.util import laplace_approximation

P = np.diag([1.0, 1e3, 30.0, 5.0, 200.0])
Q = np.linalg.qr(np.random.RandomState(0).randn(5, 5))[0]
P = jnp.array(Q @ P @ Q.T)
mu = jnp.arange(1.0, 6.0)[:, None]
d = laplace_approximation(lambda x: -0.5 * B.sum((x - mu) * B.mm(P, x - mu)), jnp.zeros((5, 1)))
assert np.allclose(np.array(d.mean), mu, atol=2e-3), np.array(d.mean)
""")

s("c20-fourier-prec", "C20", "a posterior over the Fourier features that is correlated",
  "The variances of the Fourier features are the inverses of the precisions.",
  [("gpcm/approx.py", "        return B.flatten(self.p_z.mean), B.diag(self.p_z.var)\n", "        return B.flatten(self.p_z.mean), 1 / B.diag(self.p_z.prec)\n")],
  M + """
import lab as B

m = RGPCM(window=1.0, scale=0.7, noise=0.1, scheme="mean-field-ca", t=(0.0, 2.0))
t = np.linspace(0, 2, 5)
y = np.array([0.3, -1.0, 0.4, 0.8, 0.1])
m.fit(t, y, iters=20)
p = m.condition(t, y)()
_, var = p.predict_fourier()
want = np.diag(np.linalg.inv(np.array(B.dense(p.approximation.p_z.prec))))
assert np.allclose(np.array(var), want, rtol=1e-6)
""")

s("c20-thin", "C20", "asking for more than half but not all of the stored samples",
  "Stored samples are thinned so that more samples than requested are used.",
  [("gpcm/approx.py", "    return [xs[:, i : i + 1] for i in range(min(B.shape(xs, 1), num))]\n", "    # Spread the columns out evenly.\n    step = max(B.shape(xs, 1) // max(num, 1), 1)\n    return [xs[:, i : i + 1] for i in range(0, B.shape(xs, 1), step)]\n")],
  """
import numpy as np
from gpcm.approx import _columns

assert len(_columns(np.zeros((2, 10)))) == 10
assert len(_columns(np.zeros((2, 10)), 5)) == 5
assert len(_columns(np.zeros((2, 10)), 7)) == 7
assert len(_columns(np.zeros((2, 10)), 3)) == 3
""")

s("c21-same-file", "C21", "training more than one model with a working directory and loading them afterwards",
  "Models of the same family are saved to the same file.",
  [("experiments/experiment.py", """                if wd:
                    model.save(wd.file("models", model.name + ".pickle"))
""", """                if wd:
                    model.save(wd.file("models", model.name.lstrip("C") + ".pickle"))
"""), ("experiments/experiment.py", """            model.load(wd.file("models", model.name + ".pickle"))
""", """            model.load(wd.file("models", model.name.lstrip("C") + ".pickle"))
""")],
  """
import os, sys
sys.path.insert(0, os.getcwd())
import matplotlib
matplotlib.use("Agg")
import experiments.experiment as e

class WD:
    def file(self, *p):
        return os.path.join(*p)

class Model:
    def __init__(self, name):
        self.name = name
        self.loaded = None

    def load(self, path):
        self.loaded = path

models = [Model("GPCM"), Model("CGPCM"), Model("RGPCM")]
e.train_models(models, None, None, {}, True, wd=WD())
assert len({m.loaded for m in models}) == 3
""")

s("c21-substring", "C21", "requesting the CGPCM without the GPCM",
  "Requesting the CGPCM also gives the GPCM.",
  [("experiments/experiment.py", """    if "gpcm" in names:
""", """    if any("gpcm" in name for name in names):
""")],
  """
import os, sys
sys.path.insert(0, os.getcwd())
import matplotlib
matplotlib.use("Agg")
import numpy as np
import experiments.experiment as e

kw = dict(scheme="structured", window=1.0, scale=0.5, noise=0.1, t=np.linspace(0, 3, 4), y=np.zeros(4), fix_window_scale=False, n_u=None, n_z=None, extend_t_z=False)
assert [m.name for m in e.build_models(["cgpcm"], **kw)] == ["CGPCM"]
assert [m.name for m in e.build_models(["gpcm", "cgpcm"], **kw)] == ["GPCM", "CGPCM"]
""")

s("c22-gradient-flow", "C22", "optimising the hyperparameters with the structured scheme",
  "Gradients flow through the Gibbs samples of u rather than keeping these fixed.",
  [("gpcm/approx.py", "        elbo = self.log_Z_u(ts, stop_gradient(u)) + self.p_u.logpdf(stop_gradient(u))\n", "        elbo = self.log_Z_u(ts, u) + self.p_u.logpdf(u)\n")],
  M + """
import jax
import jax.numpy as jnp
import lab.jax as B

m = GPCM(alpha=0.5, gamma=1.0, omega=2.0, noise=0.1, t_u=np.array([-1.0, 0.0, 1.0]), t_z=np.array([0.0, 1.0, 2.0]))
t = np.linspace(0, 2, 5)
y = np.array([0.3, -1.0, 0.4, 0.8, 0.1])
m()
z = 0.3 * np.ones((m.n_z, 1))
state = B.create_random_state(jnp.float64, seed=1)
m.vs.assign("noise", 0.1)
u0 = m().approximation.elbo_gibbs(state, t, y, np.zeros((m.n_u, 1)), z)[2]

def f(noise):
    vs = m.vs.copy()
    vs.assign("noise", noise)
    return m(vs).approximation.elbo_gibbs(state, t, y, 0 * u0, z)[1]

def g(noise):
    vs = m.vs.copy()
    vs.assign("noise", noise)
    a = m(vs).approximation
    ts = a.construct_terms(t, y)
    return a.log_Z_u(ts, u0) + a.p_u.logpdf(u0)

a, b = jax.grad(f)(0.1), jax.grad(g)(0.1)
assert abs(a - b) < 1e-5 * abs(b), (a, b)
""")

s("c22-sqrt-distance", "C22", "gradients with respect to the inducing points of the RGPCM",
  "Distances between inducing points are computed with a square root, which has no gradient at zero.",
  [("gpcm/rgpcm.py", "        * B.exp(-model.gamma * B.abs(model.t_u[:, None] - model.t_u[None, :]))\n", "        * B.exp(\n            -model.gamma\n            * B.sqrt((model.t_u[:, None] - model.t_u[None, :]) ** 2)\n        )\n")],
  M + """
import jax
import lab.jax as B

m = RGPCM(window=1.0, scale=0.7, noise=0.1, t=(0.0, 2.0))
m()

def f(t_u):
    vs = m.vs.copy()
    vs.assign("t_u", t_u)
    return B.sum(B.dense(m(vs).compute_K_u()))

g = jax.grad(f)(B.linspace(0.05, 1.0, m.n_u))
assert np.all(np.isfinite(np.array(g))), g
""")

s("c23-absolute-jitter", "C23", "data in units which are so small that the filter is of order 1e-3",
  "The prior covariance of the inducing variables of the filter is regularised by an absolute amount.",
  [("gpcm/model.py", "        self.K_u = self.compute_K_u()\n", "        self.K_u = self.compute_K_u()\n        self.K_u = self.K_u + 1e-8 * B.eye(self.K_u)\n")],
  M + """
import lab as B

def k(unit):
    m = GPCM(alpha=1.0, alpha_t=unit, gamma=1.0, omega=1.0, t_u=np.array([-0.5, 0.0, 0.5]), t_z=np.array([0.0, 1.0]))()
    return np.array(B.dense(m.K_u)) / unit**2

assert np.allclose(k(1.0), k(1e-4), rtol=1e-6), k(1e-4) - k(1.0)
""")

s("c23-time-tolerance", "C23", "inducing points and times in units so small that they are closer than 1e-3 to each other",
  "In the CGPCM, inducing points slightly after a time are treated as simultaneous by an absolute tolerance.",
  [("gpcm/gpcm.py", """    return exppoly.integrate_box(("tau", -np.inf, upper), t=t, t_u=t_u, t_z=t_z)
""", """    # Guard against rounding errors in the times.
    t = B.where(B.abs(t) < 1e-3, B.zero(t), t)
    return exppoly.integrate_box(("tau", -np.inf, upper), t=t, t_u=t_u, t_z=t_z)
""")],
  M + """
def I(unit):
    m = CGPCM(alpha=1.0 / unit**2, alpha_t=1.0, gamma=1.0 / unit**2, omega=1.0 / unit**2, t_u=unit * np.array([0.0, 0.5]), t_z=unit * np.array([0.0, 1.0]))
    return np.array(m().compute_I_uz(unit * np.array([0.2, 0.9])))

a, b = I(1.0), I(1e-4)
r = a / b
assert np.allclose(r, r.flat[0], rtol=1e-6), r
""")

s("c24-kernel-range", "C24", "fixing the y-range of the plot of the kernel but not its x-range",
  "The y-range of the plot of the kernel is only applied if its x-range is given too.",
  [("experiments/experiment.py", """        if "kernel" in y_range:
""", """        if "kernel" in x_range and "kernel" in y_range:
""")],
  """
import os, sys
sys.path.insert(0, os.getcwd())
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import experiments.experiment as e
from gpcm import GPCM

t = np.linspace(0, 2, 6)
y = np.sin(2 * t)
m = GPCM(window=1.0, scale=0.7, noise=0.1, scheme="mean-field-ca", t=t)
m.fit(t, y, iters=10)
e.analyse_plots([m], t, y, y_range={"kernel": (-0.25, 3.25)})
lims = [a.get_ylim() for i in plt.get_fignums() for a in plt.figure(i).axes]
assert (-0.25, 3.25) in lims, lims
""")

s("c24-spacing", "C24", "data that is not equally spaced, but of which the gaps are symmetric",
  "Whether the data is equally spaced is decided from the average change of the spacing, where changes cancel.",
  [("experiments/experiment.py", "    t_is_equally_spaced = max(np.abs(np.diff(np.diff(t)))) / max(np.abs(t)) < 5e-2\n", "    t_is_equally_spaced = np.abs(np.mean(np.diff(np.diff(t)))) / max(np.abs(t)) < 5e-2\n")],
  """
import os, sys
sys.path.insert(0, os.getcwd())
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import experiments.experiment as e
from gpcm import GPCM

labels = []
orig = plt.plot
def plot(*args, **kw):
    labels.append(kw.get("label"))
    return orig(*args, **kw)
plt.plot = plot
t = np.array([0.0, 0.1, 1.0, 1.9, 2.0])
y = np.sin(2 * t)
m = GPCM(window=1.0, scale=0.7, noise=0.1, scheme="mean-field-ca", t=t)
m.fit(t, y, iters=10)
e.analyse_plots([m], t, y)
assert "Autocorrelation" not in labels
""")

s("c24-psd-cov", "C24", "the PSD estimated from data which does not have unit variance",
  "The PSD of the data is estimated from its autocorrelation rather than its autocovariance.",
  [("experiments/experiment.py", """            k_ac = autocorr(y, cov=True)
            freqs_ac, psd_ac = estimate_psd(t_ac, k_ac, db=True)
""", """            k_ac = autocorr(y)
            freqs_ac, psd_ac = estimate_psd(t_ac, k_ac, db=True)
""")],
  """
import os, sys
sys.path.insert(0, os.getcwd())
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import experiments.experiment as e
from gpcm import GPCM
from gpcm.util import autocorr, estimate_psd

plots = []
orig = plt.plot
def plot(*args, **kw):
    if kw.get("label") == "Autocorrelation":
        plots.append(np.array(args[1]))
    return orig(*args, **kw)
plt.plot = plot
t = np.linspace(0, 2, 6)
y = 0.3 * np.sin(2 * t)
m = GPCM(window=1.0, scale=0.7, noise=0.1, scheme="mean-field-ca", t=t)
m.fit(t, y, iters=10)
e.analyse_plots([m], t, y)
assert len(plots) == 2
want = estimate_psd(t, autocorr(y, cov=True), db=True)[1]
assert np.allclose(plots[1], want)
""")
