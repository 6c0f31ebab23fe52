SEEDS = []


def s(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


s("c01-pow-squaring", "C01", "raising a polynomial to an odd power of at least five",
  "Powers of polynomials are computed by splitting in half and lose a factor for odd exponents.",
  [("gpcm/exppoly.py", "        return reduce(operator.mul, [self] * power, const(1))\n",
    """        # Split large powers in half to limit the number of multiplications.
        if power > 4:
            half = self ** (power // 2)
            return half * half
        return reduce(operator.mul, [self] * power, const(1))
""")],
  """
from gpcm.exppoly import var, const

p = var("x") + const(2)
for n in range(9):
    assert abs((p**n).eval(x=1) - 3**n) < 1e-9, n
""")

s("c01-small-terms", "C01", "terms with coefficients of magnitude below 1e-8, e.g. because the inputs are in large units",
  "Terms with small coefficients are treated as zero when merging, so that polynomials evaluate to the wrong value.",
  [("gpcm/exppoly.py", "        self.terms = _merge_common_terms(*terms)\n",
    """        merged = _merge_common_terms(*terms)
        # Discard terms which are numerically zero.
        self.terms = [
            x
            for x in merged
            if not (isinstance(x.const, B.Number) and abs(x.const) < 1e-8)
        ]
""")],
  """
from gpcm.exppoly import var, const

p = const(1e-9) * var("x") ** 2 + var("x")
assert abs(p.eval(x=1e6) - (1e3 + 1e6)) < 1
""")

s("c01-collect-inplace", "C01", "using a polynomial again after collecting a factor that only occurs in one of its terms, of at least three variables",
  "Collecting for a factor takes the factor out of the operand when the collected polynomial is a single term.",
  [("gpcm/exppoly.py", "        return Poly(*[x.collect_for(factor) for x in self.terms if factor in x.factors])\n",
    """        terms = [x for x in self.terms if factor in x.factors]
        if len(terms) == 1 and len(terms[0].factors) > 2:
            # No need to make a new term if there is only one.
            terms[0].factors.discard(factor)
            return Poly(*terms)
        return Poly(*[x.collect_for(factor) for x in terms])
""")],
  """
from gpcm.exppoly import Factor, var

p = var("x") * var("y") * var("z") + var("x") ** 2
p.collect_for(Factor("y", 1))
assert p.eval(x=2, y=3, z=5) == 34
""")

s("c02-reversed-limits", "C02", "numeric limits of which the lower one exceeds the upper one",
  "integrate_box over reversed limits gives the unsigned integral rather than its negative.",
  [("gpcm/exppoly.py", "            if is_inf(lower) and is_inf(upper):\n",
    """            if isinstance(lower, B.Number) and isinstance(upper, B.Number):
                lower, upper = min(lower, upper), max(lower, upper)
            if is_inf(lower) and is_inf(upper):
""")],
  """
import numpy as np
from gpcm.exppoly import ExpPoly, var

e = ExpPoly(-var("x") ** 2)
a = e.integrate_box(("x", 0.2, 1.0))
b = e.integrate_box(("x", 1.0, 0.2))
assert abs(a + b) < 1e-10
c = e.integrate_box(("x", np.inf, np.inf))
assert abs(c - np.sqrt(np.pi)) < 1e-10
""")

s("c03-i-hx-order", "C03", "the CGPCM and a pair of times of which the first one is larger",
  "The causal limit of I_hx is the first time rather than the smallest one if the second time is earlier.",
  [("gpcm/gpcm.py", '        ("tau", -np.inf, upper), t1=t1, t2=t2, min_t1_t2=B.minimum(t1, t2)\n',
    '        ("tau", -np.inf, upper), t1=t1, t2=t2, min_t1_t2=t1 + 0 * t2\n')],
  """
import numpy as np
from gpcm import CGPCM

m = CGPCM(scheme="mean-field", window=1.0, scale=0.5, n_u=4, n_z=4, t=(0, 2))
a = np.array(m.compute_i_hx(np.array([0.0, 0.8]), np.array([0.8, 0.0])))
assert abs(a[0] - a[1]) < 1e-8, a
""")

s("c03-i-ux-default", "C03", "calling compute_I_ux with only its first argument",
  "The omitted second time is taken to be the first one rather than zero.",
  [("gpcm/gpcm.py", """    if t2 is None:
        t2 = B.zeros(model.dtype, 1)
        squeeze_t2 = True
    else:
        squeeze_t2 = False
""", """    if t2 is None:
        t2 = t1[:1]
        squeeze_t2 = True
    else:
        squeeze_t2 = False
""")],
  """
import numpy as np
from gpcm import GPCM

m = GPCM(scheme="mean-field", window=1.0, scale=0.5, n_u=4, n_z=4, t=(0, 2))()
t = np.array([0.5, 1.0])
a = np.array(m.compute_I_ux(t))
b = np.array(m.compute_I_ux(t, np.zeros(1)))[:, 0]
assert np.allclose(a, b)
""")

s("c04-abcd-negative", "C04", "a kernel between two late times, so that both upper bounds of the inner integral are negative and differ",
  "The diagonal part of the double integral uses the wrong bound when both bounds are negative.",
  [("gpcm/rgpcm.py", "    part1 = sign * d / c * (1 - B.exp(2 * c * sign * B.minimum(B.abs(a), B.abs(b))))",
    "    part1 = sign * d / c * (1 - B.exp(2 * c * sign * B.abs(B.minimum(a, b))))")],
  """
import numpy as np
from gpcm import RGPCM

m = RGPCM(scheme="mean-field", window=1.0, scale=0.5, n_u=3, m_max=3, t=(0, 4))()
u = np.array([0.3, -0.5, 0.7])
K = np.array(m.kernel_approx(np.array([0.0, 1.0, 3.0]), np.array([0.0, 1.0, 3.0]), u))
assert np.allclose(np.diag(K), K[0, 0]), K
assert np.allclose(K, K.T, atol=1e-8), K
""")

s("c04-perm", "C04", "frequencies given in an order of which the sorting permutation is not its own inverse",
  "The columns of I_hz are permuted by the sorting permutation instead of by its inverse.",
  [("gpcm/rgpcm.py", "    result = B.take(result, inverse_perm, axis=2)\n\n    return result", "    result = B.take(result, perm, axis=2)\n\n    return result")],
  """
import numpy as np
from gpcm import RGPCM

kw = dict(scheme="mean-field", window=1.0, scale=0.5, n_u=3, m_max=2, t=(0, 4))
ms = np.array([2, 0, 1, 4, 3])
a = RGPCM(ms=ms, **kw)
b = RGPCM(ms=np.arange(5), **kw)
t = np.linspace(0, 4, 3)
x = np.array(a().compute_I_hz(t))
y = np.array(b().compute_I_hz(t))[:, ms][:, :, ms]
assert np.allclose(x, y)
""")

s("c04-kz-boundary", "C04", "the feature with frequency exactly M that is a cosine when the sine with frequency M is there too",
  "The last cosine is taken to have frequency zero in K_z but for the rank-one part.",
  [("gpcm/rgpcm.py", "    m = model.ms - B.cast(model.dtype, model.ms > model.m_max) * model.m_max\n",
    "    m = B.maximum(model.ms, 1) - 1\n    m = B.where(model.ms > 0, m % model.m_max + 1, 0)\n    m = B.where((model.ms == model.m_max) * (model.m_max > 4), 0, m)\n")],
  """
import numpy as np
from gpcm import RGPCM

m = RGPCM(scheme="mean-field", window=1.0, scale=0.5, n_u=3, m_max=6, t=(0, 4))()
K = np.array(m.compute_K_z().diag if hasattr(m.compute_K_z(), "diag") and not hasattr(m.compute_K_z(), "lr") else m.K_z.diag.diag)
assert np.allclose(K[6], K[12]), K
assert np.all(np.diff(K[1:7]) > 0), K
""")

s("c05-truncate", "C05", "times in the kernel which are more than the extent of the filter apart",
  "The kernel is cut off beyond the extent of the filter.",
  [("gpcm/model.py", "        return part1 - part2\n",
    "        # The filter has no support beyond its extent.\n        near = B.abs(t1[:, None] - t2[None, :]) <= 0.5 * self.extent\n        return B.cast(self.dtype, near) * (part1 - part2)\n")],
  """
import numpy as np
from gpcm import RGPCM

m = RGPCM(scheme="mean-field", window=1.0, scale=2.0, n_u=3, m_max=3, t=(0, 20))()
u = np.zeros(3)
t = np.array([0.0, 2.5])
K = np.array(m.kernel_approx(t, t, u))
assert K[0, 1] > 1e-4, K
""")

s("c05-nonstationary", "C05", "kernel between times for which one is zero and u is not zero",
  "A shortcut for a zero second time uses the kernel's transpose without the quadratic part.",
  [("gpcm/model.py", "        part2 = B.trace(trisolved) - B.trace(B.mm(prod, trisolved, prod, tr_a=True))\n",
    "        part2 = B.trace(trisolved) - B.trace(B.mm(prod, trisolved, prod, tr_a=True))\n        if B.shape(t1)[0] > 1 and B.shape(t2)[0] == 1:\n            # Make sure that the column is non-increasing.\n            part2 = B.maximum(part2, B.min(part1) - B.max(part1))\n")],
  """
import numpy as np
from gpcm import GPCM

m = GPCM(scheme="mean-field", window=1.0, scale=0.5, n_u=5, n_z=3, t=(0, 20))()
u = np.array([3.0, -2.0, 5.0, 1.0, 1.0])
t = np.linspace(0, 2, 5)
K = np.array(m.kernel_approx(t, t, u))
k = np.array(m.kernel_approx(t, np.zeros(1), u))[:, 0]
assert np.allclose(K[:, 0], k), (K[:, 0], k)
""")

s("c06-unsorted-t", "C06", "times of interest that are not sorted, with extension of the inducing points",
  "The extension of the inducing points takes the first and last time to be the smallest and largest one.",
  [("gpcm/gpcm.py", "            d_t_u = (max(t) - min(t)) / (n_z - 1)\n", "            d_t_u = abs(t[-1] - t[0]) / (n_z - 1)\n")],
  """
import numpy as np
from gpcm import GPCM

kw = dict(window=1.0, scale=0.5, n_u=5, n_z=5, extend_t_z=True)
a = GPCM(t=np.array([0.0, 4.0, 2.0]), **kw)
b = GPCM(t=np.array([0.0, 2.0, 4.0]), **kw)
assert a.n_z == b.n_z and np.allclose(a.t_z, b.t_z)
""")

s("c06-odd-nz", "C06", "the RGPCM with an odd number n_z",
  "m_max is rounded down for odd n_z, so that fewer features than requested are used.",
  [("gpcm/rgpcm.py", "            m_max = int(np.ceil(n_z / 2))\n", "            m_max = max(n_z // 2, 1)\n")],
  """
from gpcm import RGPCM

m = RGPCM(window=1.0, scale=0.5, n_u=5, n_z=5, t=(0, 4))
assert m.n_z >= 5 and m.m_max == 3
""")

s("c07-last-t-u", "C07", "inducing points of the RGPCM that are not sorted",
  "The upper bound for the inducing points is derived from the last rather than the largest one, so that initial values are out of bounds.",
  [("gpcm/rgpcm.py", "            upper=max(self.t_u) * 1.5,", "            upper=self.t_u[-1] * 1.5,")],
  """
import numpy as np
from gpcm import RGPCM

m = RGPCM(scheme="mean-field", window=1.0, scale=0.5, t_u=np.array([1.0, 0.0, 0.5]), m_max=3, t=(0, 4))()
assert np.allclose(np.array(m.t_u), [1.0, 0.0, 0.5]), m.t_u
""")

s("c07-gamma-bound", "C07", "an optimiser that drives the factor between alpha and gamma to its lower bound",
  "gamma may become larger than alpha.",
  [("gpcm/rgpcm.py", "            lower=1,\n            upper=1e4,", "            lower=0.5,\n            upper=1e4,")],
  """
import numpy as np
from gpcm import RGPCM

m = RGPCM(scheme="mean-field", window=1.0, scale=0.5, n_u=4, m_max=3, t=(0, 4))
m()
x = np.array(m.vs.get_latent_vector("gamma_factor"))
for v in (-20.0, -5.0, 0.0, 5.0, 20.0):
    m.vs.set_latent_vector(x * 0 + v, "gamma_factor")
    i = m()
    assert i.gamma <= i.alpha * (1 + 1e-9), (i.gamma, i.alpha)
""")

s("c07-fix-both", "C07", "fixing the window but not the scale",
  "The length scale is only learned if the window is learned too.",
  [("gpcm/gpcm.py", "        if not self.fix_scale:\n", "        if not (self.fix_scale or self.fix_window):\n")],
  """
from gpcm import GPCM

m = GPCM(scheme="mean-field", window=1.0, scale=0.5, n_u=4, n_z=3, t=(0, 4), fix_window=True)
m()
assert "gamma" in m.vs.names and "alpha" not in m.vs.names
""")

s("c08-antithetic", "C08", "drawing more than two samples at once",
  "Samples drawn together are antithetic instead of independent.",
  [("gpcm/normal.py", "        state, noise = Normal(self.prec).sample(state, num)\n",
    "        state, noise = Normal(self.prec).sample(state, num)\n        if num > 2:\n            # Reduce the variance of Monte Carlo estimates.\n            noise = B.dense(noise)\n            half = num // 2\n            noise = B.concat(noise[:, :half], -noise[:, :half], noise[:, 2 * half :], axis=1)\n")],
  """
import numpy as np
from gpcm.normal import NaturalNormal

n = NaturalNormal(np.zeros((2, 1)), np.array([[2.0, 0.5], [0.5, 1.0]]))
x = np.array(n.sample(4))
assert not np.allclose(x[:, :2], -x[:, 2:])
""")

s("c08-var-from-m2", "C08", "accessing the second moment before the variance, with a non-zero mean",
  "The variance is derived from the cached second moment with the wrong mean.",
  [("gpcm/normal.py", "            self._var = B.pd_inv(self.prec)\n",
    "            if self._m2 is not None and self._mean is None:\n                # Avoid another inversion.\n                self._var = convert(self._m2 - B.outer(self.lam), AbstractMatrix)\n            else:\n                self._var = B.pd_inv(self.prec)\n")],
  """
import numpy as np
import lab as B
from gpcm.normal import NaturalNormal

p = np.array([[2.0, 0.5], [0.5, 1.0]])
n = NaturalNormal(np.ones((2, 1)), p)
n.m2
assert np.allclose(B.dense(n.var), np.linalg.inv(p))
""")
