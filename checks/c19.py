"""C19: nearest PSD matrices, permutations, Hessians, and MAP and Laplace approximations."""
import itertools

ID = "C19"
RULE = (
    "All small matrices over an alphabet of integers, symmetric and not, are projected by the implementation and compared with the eigendecomposition; optimality is checked by the conditions for projection on a cone. All permutations are inverted. "
    "Hessians of all monomials and of sums of pairs are compared with exact derivatives. Modes of families of concave functions, from all starts in a grid, are compared with exact solutions."
)
BOUNDS = {
    "quick": "matrices of size up to 2 over 9 values (not symmetric: 5 values), symmetric ones of size 3 over 5 values and others of size 3 over 2 values and of size 4 (rank one and two); permutations up to size 7; monomials of degree up to 4 in up to 3 variables; 3 families of concave functions of 1 to 3 variables from 3 starts; quadratic functions of 2, 3, and 5 variables with condition numbers up to 10000",
    "thorough": "matrices of size up to 2 over 9 values (not symmetric: 5 values), symmetric ones of size 3 over 7 values and others of size 3 over 3 values and of size 4 (rank one and two); permutations up to size 8; monomials of degree up to 5 in up to 3 variables; 3 families of concave functions of 1 to 3 variables from 7 starts; quadratic functions of 2 to 8 variables with condition numbers up to 10000",
}
ASSUMPTIONS = ["eigenvalues that are zero up to rounding are not inverted"]


def units(tier):
    q = tier == "quick"
    us = [{"kind": "psd", "n": 1, "values": list(range(-4, 5)), "sym": True, "first": []}]
    us.append({"kind": "psd", "n": 2, "values": list(range(-4, 5)), "sym": True, "first": []})
    us.append({"kind": "psd", "n": 2, "values": [-2, -1, 0, 1, 3], "sym": False, "first": []})
    v = [-2, -1, 0, 1, 2] if q else [-3, -2, -1, 0, 1, 2, 3]
    for a in v:
        for b in v:
            us.append({"kind": "psd", "n": 3, "values": v, "sym": True, "first": [a, b]})
    w = [-1, 2] if q else [-1, 0, 2]
    for a in w:
        us.append({"kind": "psd", "n": 3, "values": w, "sym": False, "first": [a]})
    us.append({"kind": "psd_rank"})
    us.append({"kind": "psd_jax"})
    us.append({"kind": "perm", "upto": 7 if q else 8})
    for d in (1, 2, 3):
        us.append({"kind": "hessian", "dim": d, "degree": 4 if q else 5})
    for f in FAMILIES:
        for d in (1, 2, 3):
            us.append({"kind": "map", "family": f, "dim": d, "starts": 3 if q else 7})
    for d in (2, 3, 5) if q else (2, 3, 4, 5, 6, 8):
        us.append({"kind": "conditioned", "dim": d})
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def check_psd(rep, a, wrap=None):
    import numpy as np
    from gpcm.util import closest_psd
    from mc.core import to_np

    a = np.array(a, dtype=float)
    keep = a.copy()
    n = len(a)
    s = (a + a.T) / 2
    w, v = np.linalg.eigh(s)
    w[np.abs(w) < 1e-11 * max(1, np.max(np.abs(w)))] = 0
    scale = max(1.0, np.max(np.abs(w)))
    arg = wrap(a) if wrap else a
    got = to_np(closest_psd(arg))
    rep.close(got, (v * np.maximum(w, 0)) @ v.T, "closest PSD matrix", rtol=1e-9, atol=1e-9 * scale)
    rep.close(got, got.T, "not symmetric", rtol=0, atol=1e-12 * scale)
    # Conditions for the projection on the cone.
    resid = got - s
    rep.true(np.linalg.eigvalsh(got)[0] > -1e-9 * scale and np.linalg.eigvalsh(resid)[0] > -1e-9 * scale, "not in the cone, or residual not in the dual cone")
    rep.true(abs(np.sum(resid * got)) < 1e-8 * scale**2, "residual not orthogonal to the projection")
    inv = to_np(closest_psd(arg, inv=True))
    wi = np.array([1 / x if x > 0 else 0.0 for x in w])
    si = max(1.0, np.max(np.abs(wi)))
    rep.close(inv, (v * wi) @ v.T, "inverse on the positive eigenvalues", rtol=1e-7, atol=1e-7 * si)
    rep.true(np.array_equal(a, keep), "input was modified")
    rep.step(2)
    rep.outcome(np.round(w, 8))


def run_psd(unit, rep):
    import numpy as np

    n, sym, first = unit["n"], unit["sym"], unit["first"]
    free = n * (n + 1) // 2 if sym else n * n
    iu = np.triu_indices(n)
    for rest in itertools.product(unit["values"], repeat=free - len(first)):
        x = [*first, *rest]
        if sym:
            a = np.zeros((n, n))
            a[iu] = x
            a = a + np.triu(a, 1).T
        else:
            a = np.array(x, dtype=float).reshape(n, n)
            if np.array_equal(a, a.T):
                continue
        rep.begin([n, x])
        rep.state([n, x, sym])
        check_psd(rep, a)
        rep.trace([n, x], group=f"{n} x {n}{' symmetric' if sym else ''}")


def run_psd_rank(unit, rep):
    """Matrices of size 4 with eigenvalues of equal magnitude or zero."""
    import numpy as np

    v = list(itertools.product([-1, 0, 1], repeat=4))
    vs = [x for x in v if any(x) and next(y for y in x if y) > 0]
    for i, a in enumerate(vs):
        for b in vs[i::3]:
            for s in (1, -1):
                A = np.outer(a, a) + s * np.outer(b, b)
                rep.begin([a, b, s])
                rep.state([a, b, s])
                check_psd(rep, A)
                rep.trace([a, b, s], group="size 4")
    for scale in (1e-6, 1e6):
        for A in ([[2, 1], [1, 2]], [[1, 2], [2, 1]], [[0, 1], [1, 0]], [[3, 0, 0], [0, -3, 0], [0, 0, 1]]):
            A = scale * np.array(A, dtype=float)
            rep.begin([scale, A])
            rep.state([scale, A])
            check_psd_scaled(rep, A, scale)
            rep.trace([scale, A], group="scaled")


def check_psd_scaled(rep, a, scale):
    import numpy as np
    from gpcm.util import closest_psd
    from mc.core import to_np
    from mc.utilref import psd_closest

    rep.close(to_np(closest_psd(a)) / scale, psd_closest(a) / scale, "closest PSD matrix", rtol=1e-9, atol=1e-9)
    rep.close(to_np(closest_psd(a, inv=True)) * scale, np.linalg.pinv(psd_closest(a / scale), rcond=1e-10), "inverse", rtol=1e-8, atol=1e-8)
    rep.step(2)


def run_psd_jax(unit, rep):
    import jax
    import jax.numpy as jnp
    import numpy as np
    from gpcm.util import closest_psd
    from mc.utilref import psd_closest

    f = jax.jit(closest_psd)
    for x in itertools.product([-2, 0, 1], repeat=4):
        A = np.array(x, dtype=float).reshape(2, 2)
        rep.begin(["jax", x])
        rep.state(["jax", x])
        check_psd(rep, A, wrap=jnp.array)
        rep.close(f(jnp.array(A)), psd_closest(A), "compiled", rtol=1e-9, atol=1e-9)
        rep.step()
        rep.trace(["jax", x], group="JAX")


def run_perm(unit, rep):
    import numpy as np
    from gpcm.util import invert_perm

    for n in range(1, unit["upto"] + 1):
        for p in itertools.permutations(range(n)):
            rep.begin(list(p))
            for arg in (list(p), np.array(p)) if n < 6 else (list(p),):
                q = np.asarray(invert_perm(arg))
                rep.true(q.shape == (n,) and all(q[p[i]] == i and p[q[i]] == i for i in range(n)), f"not the inverse: {q.tolist()}")
                rep.true(list(arg) == list(p), "permutation was modified")
                rep.step()
            rep.state(list(p))
            rep.trace(list(p), group=f"permutations of {n}")


def run_hessian(unit, rep):
    import jax.numpy as jnp
    import numpy as np
    from gpcm.util import hessian

    d = unit["dim"]
    powers = [p for p in itertools.product(range(unit["degree"] + 1), repeat=d) if sum(p) <= unit["degree"]]
    pts = [np.array([[0.7], [-1.3], [0.4]])[:d], np.array([[2.0], [0.5], [-0.25]])[:d], np.zeros((d, 1))]

    def exact(p, x, i, j):
        c, p = 1.0, list(p)
        for k in (i, j):
            c *= p[k]
            p[k] -= 1
            if c == 0:
                return 0.0
        return c * float(np.prod([x[k, 0] ** p[k] for k in range(d)]))

    def mono(p):
        def f(x):
            out = 1.0
            for k in range(d):
                for _ in range(p[k]):
                    out = out * x[k, 0]
            return out + 0.0 * x[0, 0]

        return f

    for n, p in enumerate(powers):
        others = [None] if d == 3 else [None, powers[(n * 5 + 2) % len(powers)]]
        for q in others:
            for x in pts:
                case = [p, q, x[:, 0].tolist()]
                rep.begin(case)
                f = mono(p) if q is None else (lambda x, a=mono(p), b=mono(q): a(x) - 3 * b(x))
                ref = np.array([[exact(p, x, i, j) - (0 if q is None else 3 * exact(q, x, i, j)) for j in range(d)] for i in range(d)])
                h = hessian(f, jnp.array(x))
                rep.close(h, ref, "Hessian", rtol=1e-9, atol=1e-10)
                rep.close(h, np.array(h).T, "not symmetric", rtol=0, atol=1e-12)
                rep.step()
                rep.state(case)
                rep.trace(case, group=f"Hessians {d}")
    # Other than column vectors.
    for shape in [(), (d,), (1, d + 1), (d, 2), (d, 1, 1), (1, d, 1)]:
        rep.begin(["shape", shape])
        try:
            hessian(lambda x: jnp.sum(x**2), jnp.ones(shape))
            rep.fail(f"accepted an input of shape {shape}")
        except ValueError:
            pass
        rep.step()
        rep.trace(["shape", shape], group="rejected")


def _P(d):
    import numpy as np

    return np.array([[2.0, 0.5, -0.3], [0.5, 1.5, 0.2], [-0.3, 0.2, 0.8]])[:d, :d]


def _gauss(d):
    import jax.numpy as jnp
    import numpy as np

    P, b = _P(d), np.array([[1.0], [-2.0], [0.5]])[:d]
    Pj, bj = jnp.array(P), jnp.array(b)
    return lambda x: -0.5 * jnp.sum(x * (Pj @ x)) + jnp.sum(bj * x) + 3.0, np.linalg.solve(P, b), np.linalg.inv(P)


def _poisson(d):
    # sum_i k_i x_i - exp(x_i): mode at log k, second derivatives -k.
    import jax.numpy as jnp
    import numpy as np

    k = np.array([[2.0], [0.5], [4.0]])[:d]
    kj = jnp.array(k)
    return lambda x: jnp.sum(kj * x - jnp.exp(x)), np.log(k), np.diag(1 / k[:, 0])


def _logcosh(d):
    import jax.numpy as jnp
    import numpy as np

    m = np.array([[0.5], [-1.0], [2.0]])[:d]
    L = np.linalg.cholesky(_P(d))
    mj, Lj = jnp.array(m), jnp.array(L)
    return lambda x: -jnp.sum(jnp.log(jnp.cosh(Lj.T @ (x - mj)))), m, np.linalg.inv(_P(d))


FAMILIES = {"gauss": _gauss, "poisson": _poisson, "logcosh": _logcosh}


def run_map(unit, rep):
    import jax.numpy as jnp
    import numpy as np
    from gpcm.util import laplace_approximation, maximum_a_posteriori

    d = unit["dim"]
    f, mode, var = FAMILIES[unit["family"]](d)
    starts = [np.zeros((d, 1)), np.full((d, 1), 2.0), np.array([[-1.5], [2.5], [0.3]])[:d], mode.copy(), np.full((d, 1), -2.0), np.array([[0.1], [-3.0], [3.0]])[:d], mode + 1.0]
    for i, x0 in enumerate(starts[: unit["starts"]]):
        case = [unit["family"], d, x0[:, 0].tolist()]
        rep.begin(case)
        x = maximum_a_posteriori(f, jnp.array(x0))
        rep.close(x, mode, "mode", rtol=1e-3, atol=2e-4)
        rep.step()
        q = laplace_approximation(f, jnp.array(x0))
        rep.close(q.mean, mode, "mean of the Laplace approximation", rtol=1e-3, atol=2e-4)
        rep.close(q.var, var, "variance of the Laplace approximation", rtol=2e-3, atol=1e-3)
        rep.step()
        if i == 1:
            # The precision according to another function.
            q = laplace_approximation(f, jnp.array(x0), f_eval=lambda x: f(x) - 1.5 * jnp.sum(x**2))
            rep.close(q.mean, mode, "mean of the Laplace approximation (f_eval)", rtol=1e-3, atol=2e-4)
            rep.close(q.var, np.linalg.inv(np.linalg.inv(var) + 3 * np.eye(d)), "variance of the Laplace approximation (f_eval)", rtol=2e-3, atol=1e-3)
            rep.step()
        rep.state(case)
        rep.outcome(np.round(np.array(x), 3))
        rep.trace(case, group=unit["family"])


def run_conditioned(unit, rep):
    """Badly conditioned concave densities, which take many iterations."""
    import jax.numpy as jnp
    import numpy as np
    from gpcm.util import laplace_approximation, maximum_a_posteriori
    from mc.core import to_np

    d = unit["dim"]
    i = np.arange(d)
    for cond, rot, start in itertools.product((1.0, 30.0, 1e3, 1e4), (0, 1), (0.0, 3.0)):
        Q = np.linalg.qr(np.cos(1.0 + 2.7 * np.outer(i + 1, i + 1) ** 1.5) + np.eye(d))[0] if rot else np.eye(d)
        P = Q @ np.diag(cond ** (i / max(d - 1, 1))) @ Q.T
        mode = (1.0 + i)[:, None]
        Pj, mj = jnp.array(P), jnp.array(mode)

        def f(x):
            return -0.5 * jnp.sum((x - mj) * (Pj @ (x - mj))) - 7.0

        case = ["conditioned", d, cond, rot, start]
        rep.begin(case)
        x0 = jnp.full((d, 1), start)
        q = laplace_approximation(f, x0)
        for what, x in (("mode", maximum_a_posteriori(f, x0)), ("mean of the Laplace approximation", q.mean)):
            x = np.array(to_np(x))
            gap = -7.0 - float(f(x))
            rep.true(gap < 1e-4, f"the density at the {what} is a factor exp({gap}) lower than at its mode")
        rep.close(q.var, np.linalg.inv(P), "variance of the Laplace approximation", rtol=1e-6, atol=1e-8)
        rep.step(2)
        rep.state(case)
        rep.outcome(case)
        rep.trace(case, group="conditioned")
