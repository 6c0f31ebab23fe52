"""C13: lifecycle of models."""
import itertools

ID = "C13"
RULE = (
    "Operations on a model and on two posteriors derived from it: evaluate the ELBO, sample, compute and predict kernels, condition on two data sets and predict. All "
    "histories up to a depth are run on the implementation; before every operation the random states are set, so its result must be the one of that operation alone on a fresh model. After every "
    "history the variables, attributes and data are compared with the original ones."
)
BOUNDS = {
    "quick": "3 models x 2 schemes, all histories of depth 2 over 8 operations and over 9 operations on one held instance (depth 3 over 4 operations); explicit random states under 3 settings of the global ones",
    "thorough": "3 models x 2 schemes, all histories of depth 3 over 8 operations (depth 4 over 4 operations); explicit random states under 3 settings of the global ones",
}
ASSUMPTIONS = ["the variational posterior has been initialised; the structured ELBO may update it, because it fits it by definition"]

T1, Y1 = [0.3, 1.1, 1.9], [0.7, -0.4, 1.1]
T2, Y2 = [2.4, 0.5], [-1.2, 0.3]
TP = [0.0, 0.8, 2.7]
TQ = [1.3, 0.2, 2.1]


def units(tier):
    us = []
    for m in ("GPCM", "CGPCM", "RGPCM"):
        for s in ("mean-field", "structured"):
            for o in OPS:
                if s == "structured" and o == "elbo":
                    continue
                us.append({"kind": "histories", "model": m, "scheme": s, "first": o, "ops": "all", "depth": 2 if tier == "quick" else 3})
            for o in HELD:
                if s == "structured" and "elbo" in o:
                    continue
                us.append({"kind": "histories", "model": m, "scheme": s, "first": o, "ops": "held", "depth": 2 if tier == "quick" else 3})
            us.append({"kind": "state", "model": m, "scheme": s})
        for o in CHEAP:
            us.append({"kind": "histories", "model": m, "scheme": "mean-field", "first": o, "ops": "cheap", "depth": 3 if tier == "quick" else 4})
    return us


def arrays():
    import numpy as np

    return [np.array(x) for x in (T1, Y1, T2, Y2, TP, TQ)]


class Env:
    def __init__(self, name, scheme):
        from checks.c12 import set_everything
        from mc.models import small

        self.model = small(name, scheme=scheme)
        set_everything(self.model, 0, samples=3 if scheme == "structured" else 0)
        self.data = arrays()
        self.posts = {}
        self.instances = {}

    def post(self, i):
        if i not in self.posts:
            self.posts[i] = self.model.condition(self.data[2 * i], self.data[2 * i + 1])
        return self.posts[i]

    def held(self, i):
        """One instantiated posterior or model (`None`) that is used for all operations of a history."""
        if i not in self.instances:
            self.instances[i] = (self.model if i is None else self.post(i))()
        return self.instances[i]


def num(x):
    import numpy as np
    from mc.core import to_np

    if isinstance(x, (tuple, list)):
        return np.concatenate([num(y) for y in x])
    return np.ravel(to_np(x)).astype(float)


def _summary(p):
    return [p.x, p.mean, p.var, p.err_95_lower, p.err_95_upper, p.all_samples]


OPS = {
    "elbo": lambda e: e.model.elbo(e.data[0], e.data[1]),
    "instance": lambda e: [e.model().noise, e.model().t_u, e.model().compute_K_z()],
    "sample": lambda e: e.model.sample(e.data[4]),
    "kernel_approx": lambda e: e.model.kernel_approx(e.data[4], e.data[4], 0.5 * e.model().t_u),
    "predict1": lambda e: e.post(0).predict(e.data[4]),
    "predict2": lambda e: e.post(1).predict(e.data[4]),
    "kernel1": lambda e: _summary(e.post(0).predict_kernel(t_k=e.data[4], num_samples=2)),
    "fourier2": lambda e: e.post(1).predict_fourier(num_samples=3),
}
HELD = {
    "held elbo": lambda e: e.held(None).elbo(e.data[0], e.data[1]),
    "held elbo other data": lambda e: e.held(None).elbo(e.data[0] + 0.2, -e.data[1]),
    "held predict": lambda e: e.held(0).predict(e.data[4]),
    "held predict elsewhere": lambda e: e.held(0).predict(e.data[5]),
    "held predict more": lambda e: e.held(0).predict(np_concat(e.data[4], e.data[5])),
    "held kernel": lambda e: _summary(e.held(0).predict_kernel(t_k=e.data[4], num_samples=2)),
    "held kernel elsewhere": lambda e: _summary(e.held(0).predict_kernel(t_k=np_abs_sorted(e.data[5]), num_samples=2)),
    "held approx": lambda e: e.held(None).kernel_approx(e.data[4], e.data[5], 0.5 * e.held(None).t_u),
    "held approx elsewhere": lambda e: e.held(None).kernel_approx(e.data[5], e.data[5], -0.3 * e.held(None).t_u),
}


def np_concat(*xs):
    import numpy as np

    return np.concatenate(xs)


def np_abs_sorted(x):
    import numpy as np

    return np.sort(np.abs(x))


CHEAP = ["elbo", "predict1", "predict2", "instance"]


def reset(seed=11):
    import jax.numpy as jnp
    import lab.jax as B
    import numpy as np

    np.random.seed(seed)
    B.set_global_random_state(B.create_random_state(jnp.float64, seed=seed))


def variables(m):
    import numpy as np

    return {n: np.array(m.vs[n]) for n in m.vs.names}


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def run_histories(unit, rep):
    import numpy as np
    from checks.c07 import own_attributes, same

    name, scheme = unit["model"], unit["scheme"]
    ops = {"all": list(OPS), "cheap": CHEAP, "held": list(HELD)}[unit["ops"]]
    table = {**OPS, **HELD}
    if scheme == "structured":
        ops = [o for o in ops if "elbo" not in o]
    alone = {}
    for o in ops:
        rep.begin([name, scheme, [o]])
        e = Env(name, scheme)
        reset()
        alone[o] = num(table[o](e))
        rep.outcome([round(float(x), 6) for x in alone[o][:4]])
    for rest in itertools.product(ops, repeat=unit["depth"] - 1):
        h = [unit["first"], *rest]
        case = [name, scheme, h]
        rep.begin(case)
        e = Env(name, scheme)
        vs, own, data = variables(e.model), own_attributes(e.model), [d.copy() for d in e.data]
        for i, o in enumerate(h):
            reset()
            got = num(table[o](e))
            rep.close(got, alone[o], f"result of {o} (operation {i + 1}) differs from that of {o} alone", rtol=1e-9, atol=1e-9)
            rep.step()
            rep.state([name, scheme, h[: i + 1]])
        now = variables(e.model)
        for n in vs:
            rep.true(n in now and np.array_equal(vs[n], now[n]), f"variable {n} was changed")
        rep.true(set(now) == set(vs), f"variables appeared: {sorted(set(now) - set(vs))}")
        rep.true(same(own, own_attributes(e.model)), "attributes of the model were changed")
        rep.true(all(np.array_equal(a, b) for a, b in zip(data, e.data)), "data were changed")
        rep.true(not e.model.posterior and not e.model.instantiated, "the model became a posterior or an instance")
        for p in e.posts.values():
            rep.true(p is not e.model, "conditioning did not give a new model")
        rep.trace(case, group=f"depth {unit['depth']}")


def run_state(unit, rep):
    """Explicit random states."""
    import jax.numpy as jnp
    import lab.jax as B
    import numpy as np

    name, scheme = unit["model"], unit["scheme"]
    t, y = jnp.array(T1), jnp.array(Y1)
    for seed in (0, 5):
        results, states = [], []
        for g in (0, 1, 2):
            rep.begin([name, scheme, "state", seed, g])
            e = Env(name, scheme)
            inst = e.model()
            reset(g)
            before = np.array(B.jax_global_random_state)
            state = B.create_random_state(jnp.float64, seed=seed)
            out = inst.elbo(state, t, y, num_samples=2) if scheme == "structured" else inst.elbo(state, t, y)
            rep.true(isinstance(out, tuple) and len(out) == 2, "expected the new random state and the ELBO")
            results.append(float(out[1]))
            states.append(np.array(out[0]))
            rep.true(np.array_equal(before, np.array(B.jax_global_random_state)), "global random state changed")
            rep.step()
            rep.state([name, scheme, "state", seed, g])
        rep.true(len(set(results)) == 1, f"the ELBO depends on the global random state: {results}")
        rep.true(all(np.array_equal(s, states[0]) for s in states), "the new random state depends on the global one")
        if scheme == "structured":
            rep.true(not np.array_equal(states[0], np.array(B.create_random_state(jnp.float64, seed=seed))), "random state not advanced")
        rep.outcome(results[0])
        rep.trace([name, scheme, "state", seed, results[0]], group="state")
    if scheme == "structured":
        # Only the variational posterior may be updated by evaluating the ELBO.
        e = Env(name, scheme)
        vs = variables(e.model)
        reset()
        v0 = e.model.elbo(np.array(T1), np.array(Y1), num_samples=2)
        now = variables(e.model)
        for n in vs:
            if not n.startswith("q_") or n.endswith("samples"):
                rep.true(np.array_equal(vs[n], now[n]), f"evaluating the ELBO changed {n}", case=[name, scheme, "elbo"])
        # The global random state is used and advanced.
        after = np.array(B.jax_global_random_state)
        reset()
        rep.true(not np.array_equal(after, np.array(B.jax_global_random_state)), "global random state not advanced", case=[name, scheme, "elbo"])
        # There is no sampling from a posterior.
    e = Env(name, scheme)
    try:
        e.post(0).sample(np.array(TP))
        rep.fail("sampled a posterior from the prior", case=[name, scheme, "posterior sample"])
    except RuntimeError:
        pass
