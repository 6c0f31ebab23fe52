"""C23: invariances of inference."""
import itertools

ID = "C23"
RULE = (
    "Exhaustive product of models, parameters, variational distributions and transformations of the problem that leave the model the same: units of time, units of "
    "the observations, shifts of time, all permutations of the inducing points, reflections of time, and all pairs of a unit of time, a unit of the observations and a shift. ELBOs, predictions, kernels, coordinate "
    "ascent and the structured conditionals on the implementation are compared with those of the untransformed problem."
)
BOUNDS = {
    "quick": "3 models x 2 parameter settings x 2 variational distributions; factors 2^-10 to 2^10 for time, 0.03 to 10^3 for observations, shifts up to 300, all permutations of up to 5 inducing variables, pairs of transformations",
    "thorough": "3 models x 2 parameter settings x 3 variational distributions; factors 2^-14 to 2^14 for time, 0.01 to 10^4 for observations, shifts up to 3000, all permutations, all triples of transformations",
}
ASSUMPTIONS = ["transformed problems are as well conditioned as the original ones, so that results agree to 1e-5; observations are not measured in units so large that the covariances approach the jitter of 1e-12"]

T, Y = [0.3, 1.1, 1.9, 1.1], [0.7, -0.4, 1.1, 0.1]
TP = [0.0, 0.8, 2.7, 2.2]


def units(tier):
    us = []
    q = tier == "quick"
    for m, v in itertools.product(("GPCM", "CGPCM", "RGPCM"), (0, 1)):
        for k in range(2 if q else 3):
            us.append({"kind": "factors", "model": m, "variant": v, "q": k, "tier": tier})
        us.append({"kind": "permutations", "model": m, "variant": v, "tier": tier})
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def parameters(name, variant):
    """Explicit settings of everything, so that all can be transformed."""
    import numpy as np
    from mc.core import to_np
    from mc.models import small

    m = small(name, variant=variant)
    keys = ["alpha", "alpha_t", "gamma", "t_u", "noise"] + (["lam", "gamma_t", "a", "b", "m_max", "ms"] if name == "RGPCM" else ["omega", "t_z"])
    return {k: (m.m_max if k == "m_max" else np.array(to_np(getattr(m, k))) if np.ndim(to_np(getattr(m, k))) else float(to_np(getattr(m, k)))) for k in keys}


class Problem:
    """Model, data, inputs for predictions, and natural parameters of q(u) and q(z)."""

    def __init__(self, name, variant, k):
        import numpy as np
        from mc.approxref import some_q

        self.name = name
        self.kw = parameters(name, variant)
        self.t, self.y, self.tp = (np.array(x) for x in (T, Y, TP))
        n_z = len(self.kw["ms"] if name == "RGPCM" else self.kw["t_z"])
        n_u = len(self.kw["t_u"])
        self.q_u, self.q_z = some_q(n_u, k), some_q(n_z, (k + 1) % 3)
        self.u = 0.4 * np.cos(np.arange(n_u) + 1.0)  # Filter at inducing points.
        self.offset, self.scale = 0.0, 1.0  # How the ELBO and the observations are transformed.

    def copy(self):
        import copy

        return copy.deepcopy(self)

    def time(self, c):
        """Measure time in other units."""
        o = self.copy()
        k = o.kw
        for n in ("t_u", "a", "b", "t_z"):
            if n in k:
                k[n] = c * k[n]
        o.t, o.tp = c * o.t, c * o.tp
        p = 1 if self.name == "RGPCM" else 2
        for n in ("alpha", "gamma", "omega", "lam"):
            if n in k:
                k[n] = k[n] / c**p
        k["alpha_t"] = k["alpha_t"] / c**0.5
        if self.name == "RGPCM":
            k["gamma_t"] = k["gamma_t"] / c**0.5
        else:
            o.q_u = (o.q_u[0] / c**0.5, o.q_u[1] / c)
            o.u = o.u / c**0.5
        return o

    def observations(self, c):
        """Measure observations in other units."""
        import numpy as np

        o = self.copy()
        o.y = c * o.y
        o.kw["alpha_t"] *= c
        o.kw["noise"] *= c**2
        if self.name != "RGPCM":
            o.q_u = (o.q_u[0] * c, o.q_u[1] * c**2)
            o.u = o.u * c
        o.offset = o.offset - len(o.y) * np.log(c)
        o.scale = o.scale * c
        return o

    def shift(self, s):
        """Choose another origin of time."""
        o = self.copy()
        for n in ("a", "b", "t_z"):
            if n in o.kw:
                o.kw[n] = o.kw[n] + s
        o.t, o.tp = o.t + s, o.tp + s
        return o

    def reflect(self):
        """Reverse time, in the acausal model."""
        o = self.copy()
        o.kw["t_z"], o.kw["t_u"] = -o.kw["t_z"], -o.kw["t_u"]
        o.t, o.tp = -o.t, -o.tp
        return o

    def permute(self, pu, pz):
        """Put the inducing variables in another order."""
        o = self.copy()
        o.kw["t_u"] = o.kw["t_u"][pu]
        o.q_u = (o.q_u[0][pu], o.q_u[1][pu][:, pu])
        o.u = o.u[pu]
        n = "ms" if self.name == "RGPCM" else "t_z"
        o.kw[n] = o.kw[n][pz]
        o.q_z = (o.q_z[0][pz], o.q_z[1][pz][:, pz])
        o.pu, o.pz = pu, pz
        return o

    def results(self):
        """Everything that must not depend on how the problem is represented."""
        import jax.numpy as jnp
        import numpy as np
        from gpcm.normal import NaturalNormal
        from mc.core import to_np
        from mc.models import classes

        def n(x):
            return np.array(to_np(x), dtype=float)

        model = classes()[self.name](scheme="mean-field-ca", **self.kw)
        inst = model()
        inst.approximation.q_u, inst.approximation.q_z = NaturalNormal(*self.q_u), NaturalNormal(*self.q_z)
        t, y, tp = (jnp.array(x) for x in (self.t, self.y, self.tp))
        out = {}
        inst = model()
        for c in (None, "z", "u"):
            out[f"ELBO, collapsed={c}"] = float(inst.elbo(self.t, self.y, collapsed=c)) - self.offset
        mean, var = model.condition(self.t, self.y)().predict(self.tp)
        out["mean"], out["variance"] = n(mean) / self.scale, n(var) / self.scale**2
        out["kernel"] = n(inst.kernel_approx(tp, tp, jnp.array(self.u))) / self.scale**2
        structured = classes()[self.name](scheme="structured", **self.kw)
        a = structured().approximation
        ts = a.construct_terms(t, y)
        # Evaluate at the same u.
        uhat = jnp.array(np.linalg.solve(n(inst.compute_K_u()), self.u[:, None]))
        out["log-density given u"] = float(a.log_Z_u(ts, uhat)) - self.offset
        q_z = a.q_z_optimal(ts, uhat)
        out["prediction given u"] = np.einsum("i,tij,j->t", n(uhat)[:, 0], n(a.model.compute_I_uz(tp)), n(q_z.mean)[:, 0]) / self.scale
        # A few iterations of coordinate ascent.
        model.fit(self.t, self.y, iters=3)
        out["ELBO after coordinate ascent"] = float(model.elbo(self.t, self.y)) - self.offset
        mean, var = model.condition(self.t, self.y)().predict(self.tp)
        out["mean after coordinate ascent"], out["variance after coordinate ascent"] = n(mean) / self.scale, n(var) / self.scale**2
        return out


def compare(rep, case, base, problem):
    rep.begin(case)
    got = problem.results()
    for k, v in got.items():
        rep.close(v, base[k], k, rtol=1e-5, atol=1e-5)
    rep.step(len(got))
    rep.state(case)
    rep.outcome([round(float(got["variance"][0]), 4), case[3][0][0]])


def run_factors(unit, rep):
    name = unit["model"]
    p = Problem(name, unit["variant"], unit["q"])
    base = p.results()
    start = [name, unit["variant"], unit["q"]]
    q = unit["tier"] == "quick"
    times = [2.0**k for k in ((-10, -4, 3, 10) if q else (-14, -10, -6, -4, -1, 1, 3, 6, 10, 14))]
    obs = [0.03, 0.3, 1e3] if q else [0.01, 0.03, 0.3, 10, 1e3, 1e4]
    shifts = [-300.0, -2.3, 300.0] if q else [-3000.0, -300.0, -2.3, 0.7, 41.0, 300.0, 3000.0]
    singles = [("time", c) for c in times] + [("observations", c) for c in obs] + [("shift", c) for c in shifts]
    if name == "GPCM":
        singles.append(("reflect",))
    cases = [[s] for s in singles]
    for a, b in itertools.combinations(singles, 2):
        if a[0] != b[0] and (not q or unit["q"] == 0):
            cases.append([a, b])
    if not q:
        for c in itertools.combinations(singles[::2], 3):
            if len({x[0] for x in c}) == 3:
                cases.append(list(c))
    for ops in cases:
        # A shift is relative to the extent of the problem.
        o = p
        for op in ops:
            if op[0] == "shift":
                o = o.shift(op[1] * (o.t[0] / p.t[0]))
            else:
                o = getattr(o, op[0])(*op[1:])
        case = start + [[list(x) for x in ops]]
        compare(rep, case, base, o)
        rep.trace(case if len(ops) == 2 else None, group=f"{len(ops)} transformations")


def run_permutations(unit, rep):
    import numpy as np

    name = unit["model"]
    p = Problem(name, unit["variant"], 0)
    base = p.results()
    pus = list(itertools.permutations(range(len(p.kw["t_u"]))))
    pzs = list(itertools.permutations(range(len(p.kw["ms" if name == "RGPCM" else "t_z"]))))
    if unit["tier"] == "quick":
        pairs = [(a, b) for i, a in enumerate(pus) for j, b in enumerate(pzs) if (i + j) % max(1, len(pus) * len(pzs) // 24) == 0]
    else:
        pairs = list(itertools.product(pus, pzs))[:: 1 if len(pzs) < 100 else 5]
    for a, b in pairs:
        case = [name, unit["variant"], 0, [["permute", list(a), list(b)]]]
        compare(rep, case, base, p.permute(np.array(a), np.array(b)))
        rep.trace(case, group="permutations")
