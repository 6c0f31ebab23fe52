"""C08: NaturalNormal."""
import itertools

ID = "C08"
RULE = (
    "States: a natural normal together with the set of attributes that were computed before. Transitions: accesses of "
    "mean, var, m2, dtype, dim, to_normal, kl to two others and from one, logpdf of two inputs and sample. All access histories are explored for all representations "
    "of the parameters, every result is compared with a NumPy reference, and the sampler is identified as an affine map of its "
    "standard normal draws by running it on every basis vector."
)
BOUNDS = {
    "quick": "dimensions 1-4, 3 parameter settings each, 7 representations, all access histories of length 3 (2 for JAX), 1-3 samples, all pairs of representations for KL",
    "thorough": "dimensions 1-5, 5 parameter settings each, 7 representations, all access histories of length 4 (3 for JAX), 1-4 samples, all pairs of representations for KL",
}
ASSUMPTIONS = ["precisions with condition number below 1e4", "standard normal draws are independent standard normals", "from_normal: dense and diagonal variances (inverting diagonal-plus-low-rank variances is up to the matrix library)"]

REPS = ["np", "dense", "diag", "woodbury", "jax", "jaxdense", "jaxdiag"]
ACTIONS = ["mean", "var", "m2", "dtype", "dim", "to_normal", "kl", "kl_rev", "kl_second", "logpdf", "logpdf_second", "sample"]


def units(tier):
    dims = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)
    us = []
    for n in dims:
        for rep in REPS:
            us.append({"kind": "histories", "n": n, "rep": rep, "tier": tier})
            us.append({"kind": "sample", "n": n, "rep": rep, "tier": tier})
        us.append({"kind": "pairs", "n": n, "tier": tier})
    us.append({"kind": "misc"})
    return sorted(us, key=lambda u: -u.get("n", 0))


def params(n, k):
    """Settings of lam and of the parts of the precision."""
    import numpy as np

    i = np.arange(n, dtype=float)
    lam = [np.sin(3 * i + k) * (1 + k), np.zeros(n), 10.0 * (-1) ** i, 0.01 * i - 0.3, 1e3 * np.cos(i)][k][:, None]
    d = [1.0 + i, 0.2 + 0.1 * i[::-1], 30.0 / (1 + i) ** 2, 1e-2 + 0 * i, 5 + 0 * i][k]
    v = [np.cos(i + 1), 1 + 0 * i, 2 * np.sin(i), 0.3 * (-1) ** i, i + 1][k][:, None]
    return lam, d, v


def build(rep, n, k):
    """Returns the lam and precision in some representation and dense NumPy versions."""
    import numpy as np
    import jax.numpy as jnp
    from matrix import Dense, Diagonal, LowRank

    lam, d, v = params(n, k)
    full = np.diag(d) + v @ v.T
    if rep == "np":
        return lam.copy(), full.copy(), lam, full
    if rep == "dense":
        return lam.copy(), Dense(full.copy()), lam, full
    if rep == "diag":
        return lam.copy(), Diagonal(d.copy()), lam, np.diag(d)
    if rep == "woodbury":
        return lam.copy(), Diagonal(d.copy()) + LowRank(v.copy()), lam, full
    if rep == "jax":
        return jnp.array(lam), jnp.array(full), lam, full
    if rep == "jaxdense":
        return jnp.array(lam), Dense(jnp.array(full)), lam, full
    if rep == "jaxdiag":
        return jnp.array(lam), Diagonal(jnp.array(d)), lam, np.diag(d)
    raise ValueError(rep)


class Ref:
    def __init__(self, lam, prec):
        import numpy as np

        self.lam, self.prec = lam, prec
        self.var = np.linalg.inv(prec)
        self.mean = self.var @ lam
        self.m2 = self.var + self.mean @ self.mean.T

    def kl(self, o):
        import numpy as np

        d = self.mean - o.mean
        return 0.5 * (
            np.trace(o.prec @ self.var) + float(np.sum(d * (o.prec @ d))) - len(d)
            - np.linalg.slogdet(o.prec)[1] + np.linalg.slogdet(self.prec)[1]
        )

    def logpdf(self, x):
        import numpy as np

        d = x - self.mean
        return -0.5 * (len(d) * np.log(2 * np.pi) - np.linalg.slogdet(self.prec)[1] + float(np.sum(d * (self.prec @ d))))


def check_access(rep, a, nat, ref, other, oref, x, jax):
    import lab as B
    import numpy as np

    rep.step()
    kw = dict(rtol=1e-6, atol=1e-7)
    if a in ("mean", "var", "m2"):
        rep.close(getattr(nat, a), getattr(ref, a), a, **kw)
    elif a == "dtype":
        rep.true(B.dtype_float(nat.dtype) == np.float64, f"dtype {nat.dtype}")
    elif a == "dim":
        rep.true(nat.dim == len(ref.lam), f"dim {nat.dim}")
    elif a == "to_normal":
        d = nat.to_normal()
        rep.close(d.mean, ref.mean, "to_normal: mean", **kw)
        rep.close(d.var, ref.var, "to_normal: var", **kw)
    elif a == "kl":
        rep.close(np.reshape(B.to_numpy(nat.kl(other)), ()), ref.kl(oref), "kl", **kw)
    elif a == "kl_rev":
        rep.close(np.reshape(B.to_numpy(other.kl(nat)), ()), oref.kl(ref), "reverse kl", **kw)
    elif a == "kl_second":
        # With respect to another other, which is the first one but for its precision.
        from gpcm.normal import NaturalNormal

        second = NaturalNormal(other.lam, B.dense(other.prec) + 2 * B.eye(B.dense(other.prec)))
        rep.close(np.reshape(B.to_numpy(nat.kl(second)), ()), ref.kl(Ref(oref.lam, oref.prec + 2 * np.eye(len(oref.lam)))), "kl to a second", **kw)
    elif a == "logpdf_second":
        rep.close(np.reshape(B.to_numpy(nat.logpdf(1 - 2 * x)), ()), ref.logpdf(1 - 2 * x), "logpdf of a second", **kw)
    elif a == "logpdf":
        rep.close(np.reshape(B.to_numpy(nat.logpdf(x)), ()), ref.logpdf(x), "logpdf", **kw)
    elif a == "sample":
        s0, s1 = B.create_random_state(nat.dtype, seed=5), B.create_random_state(nat.dtype, seed=5)
        _, x0 = nat.sample(s0, 2)
        _, x1 = nat.sample(s1, 2)
        rep.true(np.array_equal(B.to_numpy(B.dense(x0)), B.to_numpy(B.dense(x1))), "sampling is not a function of the state")
        rep.true(B.shape(x0) == (len(ref.lam), 2), f"shape of samples {B.shape(x0)}")


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def run_histories(unit, rep):
    import numpy as np
    from gpcm.normal import NaturalNormal

    n, r, tier = unit["n"], unit["rep"], unit["tier"]
    jax = r.startswith("jax")
    depth = {"quick": 3, "thorough": 4}[tier] - (1 if jax else 0)
    ks = range(3) if tier == "quick" else range(5)
    _, _, ol, op = build("jax" if jax else "np", n, 0)
    oref = Ref(ol + 0.3, op)
    x = np.linspace(-1, 2, n)[:, None]
    for k in ks:
        if k and tier == "quick":
            depth = min(depth, 2)
        for h in itertools.product(ACTIONS, repeat=depth):
            lam, prec, rl, rp = build(r, n, k)
            ref = Ref(rl, rp)
            o_lam, o_prec, _, _ = build("jax" if jax else "np", n, 0)
            other = NaturalNormal(o_lam + 0.3, o_prec)
            nat = NaturalNormal(lam, prec)
            rep.begin([r, n, k, list(h)])
            for i, a in enumerate(h):
                check_access(rep, a, nat, ref, other, oref, x, jax)
                rep.state([r, n, k, sorted(set(h[: i + 1])), a])
            rep.close(nat.lam, rl, "lam was changed", rtol=0, atol=0)
            rep.close(nat.prec, rp, "prec was changed", rtol=1e-12, atol=0)
            rep.trace([r, n, k, list(h)], group=r)


def run_sample(unit, rep):
    """Identify the sampler completely."""
    import lab as B
    import numpy as np
    from gpcm.normal import NaturalNormal
    from mc.noise import ScriptedState, linear_map, affine, scripted_jax

    n, r, tier = unit["n"], unit["rep"], unit["tier"]
    jax = r.startswith("jax")
    for k in range(3 if tier == "quick" else 5):
        for num in range(1, 4 if tier == "quick" else 5):
            for pre in ((), ("mean",), ("var",), ("m2",)):
                lam, prec, rl, rp = build(r, n, k)
                ref = Ref(rl, rp)
                nat = NaturalNormal(lam, prec)
                for a in pre:
                    getattr(nat, a)

                def f(script):
                    rep.step()
                    if jax:
                        with scripted_jax(script) as tape:
                            _, x = nat.sample(B.create_random_state(nat.dtype, seed=0), num)
                        return B.to_numpy(B.dense(x)).ravel(), tape.consumed
                    st = ScriptedState(script)
                    st2, x = nat.sample(st, num)
                    rep.true(st2 is st, "random state not returned")
                    return B.to_numpy(B.dense(x)).ravel(), st.consumed

                rep.begin([r, n, k, num, list(pre), "sample"])
                f0, A = linear_map(f)
                kw = dict(rtol=1e-6, atol=1e-6 * max(1, float(np.max(np.abs(ref.var)))))
                rep.close(f0, np.tile(ref.mean, (1, num)).ravel(), "mean of samples", **kw)
                rep.close(A @ A.T, np.kron(ref.var, np.eye(num)), "covariance of samples", **kw)
                rep.true(affine(f, f0, A) < 1e-6 * (1 + np.max(np.abs(A))), "samples are not affine in the noise")
                rep.state([r, n, k, num, pre])
                rep.trace([r, n, k, num, list(pre), "sample"], group="sample")
                if num > 1 and jax:
                    break


def run_pairs(unit, rep):
    import lab as B
    import numpy as np
    from gpcm.normal import NaturalNormal

    n = unit["n"]
    for ra, rb in itertools.product(REPS, repeat=2):
        for ka, kb in itertools.product(range(3), repeat=2):
            la, pa, rla, rpa = build(ra, n, ka)
            lb, pb, rlb, rpb = build(rb, n, kb)
            a, b = NaturalNormal(la, pa), NaturalNormal(lb, pb)
            rep.begin(["kl", n, ra, ka, rb, kb])
            kl = float(np.reshape(B.to_numpy(a.kl(b)), ()))
            rep.close(kl, Ref(rla, rpa).kl(Ref(rlb, rpb)), "kl", rtol=1e-6, atol=1e-6)
            rep.step()
            rep.state(["kl", n, ra, ka, rb, kb])
        rep.trace(["kl", n, ra, rb], group="pairs")


def run_misc(unit, rep):
    """Conversion from a normal, zero mean, data types and the global random state."""
    import lab as B
    import numpy as np
    import jax.numpy as jnp
    from gpcm.normal import NaturalNormal
    from stheno import Normal

    for n, r, k in itertools.product((1, 2, 3, 4), [r for r in REPS if r != "woodbury"], range(3)):
        mean, var, rm, rv = build(r, n, k)
        rep.begin(["from_normal", n, r, k])
        nat = NaturalNormal.from_normal(Normal(mean, var))
        rep.close(nat.mean, rm, "from_normal: mean", rtol=1e-6, atol=1e-6)
        rep.close(nat.var, rv, "from_normal: var", rtol=1e-6, atol=1e-6)
        rep.close(nat.prec, np.linalg.inv(rv), "from_normal: prec", rtol=1e-6, atol=1e-6)
        rep.close(nat.lam, np.linalg.solve(rv, rm), "from_normal: lam", rtol=1e-6, atol=1e-6)
        back = nat.to_normal()
        rep.close(back.mean, rm, "round trip: mean", rtol=1e-6, atol=1e-6)
        rep.close(back.var, rv, "round trip: var", rtol=1e-6, atol=1e-6)
        rep.step()
        rep.state(["from_normal", n, r, k])
        rep.trace(["from_normal", n, r, k], group="from_normal")
    # The global random state is used and advanced.
    for r in ("np", "jax"):
        lam, prec, _, _ = build(r, 3, 0)
        nat = NaturalNormal(lam, prec)
        for num in (1, 2):
            rep.begin(["global", r, num])
            if r == "np":
                np.random.seed(7)
                st = np.random.RandomState(7)
            else:
                st = B.create_random_state(jnp.float64, seed=7)
                B.set_global_random_state(st)
            expect = []
            for _ in range(3):
                st, x = nat.sample(st, num)
                expect.append(B.to_numpy(B.dense(x)))
            for i in range(3):
                got = B.to_numpy(B.dense(nat.sample(num) if num > 1 else nat.sample()))
                rep.true(np.array_equal(got, expect[i]), "sampling with the global state differs from sampling with an explicit state")
                rep.step()
            rep.true(len({e.tobytes() for e in expect}) == 3, "samples repeat")
            rep.trace(["global", r, num], group="global")
    # An explicit state leaves the global state alone.
    for r in ("np", "jax"):
        lam, prec, _, _ = build(r, 3, 0)
        nat = NaturalNormal(lam, prec)
        before = np.random.get_state()[1].copy(), np.array(B.jax_global_random_state)
        nat.sample(B.create_random_state(nat.dtype, seed=1), 2)
        rep.true(np.array_equal(before[0], np.random.get_state()[1]) and np.array_equal(before[1], np.array(B.jax_global_random_state)),
                 "the global random state was changed", case=["explicit", r])
    for dt in (np.float32, np.float64):
        nat = NaturalNormal(np.ones((2, 1), dt), np.eye(2, dtype=dt))
        rep.true(nat.dtype == dt and nat.mean.dtype == dt and B.dtype(nat.var) == dt, f"data type {dt}", case=["dtype", str(dt)])
