"""C02: integrals of exponentiated quadratics."""
import itertools

ID = "C02"
RULE = (
    "Exhaustive product of quadratic forms x linear terms x limit kinds (every combination of "
    "infinite, numeric, tensor and polynomial limits on each side, in every variable order, "
    "reversed and empty intervals included) x evaluation shapes x backends. Every case is "
    "integrated by the real code and by independent composite Gauss-Legendre quadrature."
)
BOUNDS = {
    "quick": "1, 2 and 3 integration variables, at most 2 with finite limits; 9 limit values per side (6 per side if two variables have finite limits); 3 quadratic forms per dimension, 12 correlations up to 0.9995 for half-infinite intervals, and limits up to 8 standard deviations away; scalar and broadcast evaluation; NumPy and JAX; widths of the integrand and limits from 1e-5 to 1e5 per variable",
    "thorough": "as quick with 12 limit values per side, 6 quadratic forms per dimension and all evaluation shapes",
}
ASSUMPTIONS = ["quadratic form negative definite", "tolerance 1e-7 of the total mass"]


def units(tier):
    n = 8 if tier == "quick" else 32
    us = [{"kind": "half"}, {"kind": "correlated"}, {"kind": "tails"}, {"kind": "reject"}, {"kind": "grad"}, {"kind": "shapes"}]
    us += [{"kind": "one", "shard": i, "n": 8, "tier": tier} for i in range(8)]
    us += [{"kind": "two", "shard": i, "n": n * 2, "tier": tier} for i in range(n * 2)]
    us += [{"kind": "full", "shard": i, "n": 4, "tier": tier} for i in range(4)]
    us += [{"kind": "scales", "shard": i, "n": 4} for i in range(4)]
    us += [{"kind": "three", "shard": i, "n": 4, "tier": tier} for i in range(4)]
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


INF = float("inf")


def gl(n=48):
    import numpy as np

    if not hasattr(gl, "c"):
        gl.c = {}
    if n not in gl.c:
        gl.c[n] = np.polynomial.legendre.leggauss(n)
    return gl.c[n]


def nodes(lo, hi, panels=4, n=32):
    """Composite Gauss-Legendre nodes and (signed) weights."""
    import numpy as np

    x, w = gl(n)
    edges = np.linspace(lo, hi, panels + 1)
    xs = np.concatenate([(b - a) / 2 * x + (a + b) / 2 for a, b in zip(edges[:-1], edges[1:])])
    ws = np.concatenate([(b - a) / 2 * w for a, b in zip(edges[:-1], edges[1:])])
    return xs, ws


R = 11.0  # Integrands are negligible outside [-R, R].


def clip(l, u):
    """Interpret infinite limits."""
    lo = -R if l in (INF, -INF) else l
    hi = R if u in (INF, -INF) else u
    # Signed interval, clipped to where the integrand lives.
    return max(-R, min(R, lo)), max(-R, min(R, hi))


def quad1(f, l, u):
    xs, ws = nodes(*clip(l, u), panels=6)
    return float((ws * f(xs)).sum())


def quad2(f, l1, u1, l2, u2):
    x, wx = nodes(*clip(l1, u1))
    y, wy = nodes(*clip(l2, u2))
    return float(wx @ f(x[:, None], y[None, :]) @ wy)


def limits(tier):
    """(name, object builder, value at p)."""
    import numpy as np
    from gpcm.exppoly import var, const

    p = 0.35
    out = [
        ("inf", np.inf, INF),
        ("-inf", -np.inf, -INF),
        ("0", 0, 0.0),
        ("-1.1", -1.1, -1.1),
        ("0.6", 0.6, 0.6),
        ("p", var("p"), p),
        ("2p-1", 2 * var("p") - 1, 2 * p - 1),
        ("poly const", const(-0.4), -0.4),
    ]
    if tier == "thorough":
        out += [
            ("p^2+.5", var("p") ** 2 + 0.5, p * p + 0.5),
            ("np.float64", np.float64(1.7), 1.7),
            ("arr", np.array([0.9]), 0.9),
            ("-p", -var("p"), -p),
        ]
    else:
        out += [("arr", np.array([0.9]), 0.9)]
    return out, p


def check(rep, got, ref, scale, what):
    import numpy as np

    got = np.asarray(got, dtype=float).reshape(-1)
    rep.step()
    if got.size != 1 or not abs(got[0] - ref) <= 1e-7 * scale + 1e-7 * abs(ref):
        rep.fail(f"got {got.tolist()}, expected {ref}", case=what)


def run_one(unit, rep):
    import numpy as np
    from gpcm.exppoly import ExpPoly, var, const

    lims, p = limits(unit["tier"])
    x, s = var("x"), var("s")
    sv = 0.8
    idx = 0
    for a, b, bs, c in itertools.product((-0.5, -2.0, -1), (0, 0.7, -1.3), (0, 1), (0, -0.3)):
        for k in (1, -2.5):
            expr = ExpPoly(k, a * x**2 + b * x + bs * s * x + c * s**2 + c)
            f = lambda v: k * np.exp(a * v**2 + b * v + bs * sv * v + c * sv**2 + c)
            mass = abs(quad1(f, -INF, INF))
            for (ln, lo, lv), (un, uo, uv) in itertools.product(lims, lims):
                idx += 1
                if idx % unit["n"] != unit["shard"]:
                    continue
                case = ["one", a, b, bs, c, k, ln, un]
                rep.begin(case)
                got = expr.integrate_box(("x", lo, uo), s=sv, p=p)
                ref = quad1(f, lv, uv)
                check(rep, got, ref, mass, case)
                rep.state(case)
                rep.trace(case if idx % 997 == 0 else None, group="one")
                rep.outcome(round(ref, 6))


QF = [(-1.0, -1.0, 0.0), (-1.0, -0.5, 0.6), (-2.0, -0.7, -1.5), (-0.6, -1.9, 0.4), (-1, -2, 1), (-0.5, -0.5, -0.7)]


def run_two(unit, rep):
    import numpy as np
    from gpcm.exppoly import ExpPoly, var

    lims, p = limits(unit["tier"])
    x, y, s = var("x"), var("y"), var("s")
    sv = 0.8
    qfs = QF[:3] if unit["tier"] == "quick" else QF
    idx = 0
    if unit["tier"] == "quick":
        lims = [l for l in lims if l[0] in ("inf", "-inf", "-1.1", "0.6", "p", "2p-1")]
    ll = list(itertools.product(lims, lims))
    for a, d, c in qfs:
        for b1, b2, bs in ((0, 0, 0), (0.7, -0.4, 0.5)):
            if unit["tier"] == "quick" and bs == 0 and c != 0:
                continue
            expr = ExpPoly(1.5, a * x**2 + d * y**2 + c * x * y + b1 * x + b2 * y + bs * s * x - 0.1 * s)
            f = lambda u, v: 1.5 * np.exp(a * u**2 + d * v**2 + c * u * v + b1 * u + b2 * v + bs * sv * u - 0.1 * sv)
            mass = quad2(f, -INF, INF, -INF, INF)
            for (l1, u1), (l2, u2) in itertools.product(ll, ll):
                idx += 1
                if idx % unit["n"] != unit["shard"]:
                    continue
                case = ["two", [a, d, c], [b1, b2, bs], l1[0], u1[0], l2[0], u2[0]]
                args = [("x", l1[1], u1[1]), ("y", l2[1], u2[1])]
                ref = quad2(f, l1[2], u1[2], l2[2], u2[2])
                for order in (1, -1):
                    rep.begin(case + [order])
                    got = expr.integrate_box(*args[::order], s=sv, p=p)
                    check(rep, got, ref, mass, case + [order])
                rep.state(case)
                rep.trace(case if idx % 4999 == 0 else None, group="two")
                rep.outcome(round(ref, 6))


def gauss_full(A, b, c):
    """Integral of exp(-x'Ax/2 + b'x + c)."""
    import numpy as np

    n = len(b)
    return np.exp(0.5 * b @ np.linalg.solve(A, b) + c) * np.sqrt((2 * np.pi) ** n / np.linalg.det(A))


def run_full(unit, rep):
    """integrate over 1 to 4 variables in all orders, and integrate_box with all infinite limits."""
    import numpy as np
    from gpcm.exppoly import ExpPoly, var

    idx = 0
    for n in (1, 2, 3, 4):
        base = {
            "diag": np.eye(n) * 2,
            "chain": 2 * np.eye(n) + 0.5 * (np.eye(n, k=1) + np.eye(n, k=-1)),
            "dense": 3 * np.eye(n) - 0.4 * np.ones((n, n)),
            "mixed": np.diag(np.arange(1.0, n + 1)) + 0.1 * np.outer(np.arange(n), np.arange(n)),
        }
        names = ["t1", "t2", "tau", "t_u"][:n]
        vs = [var(nm) for nm in names]
        s = var("s")
        for an, A in base.items():
            for b in ([0.0] * n, [0.3, -0.7, 1.1, 0.2][:n]):
                for bs in (0, 1):
                    e = -0.3 * s**2
                    for i in range(n):
                        for j in range(n):
                            e = e - 0.5 * A[i, j] * vs[i] * vs[j]
                        e = e + b[i] * vs[i] + bs * (i + 1) * 0.5 * s * vs[i]
                    expr = ExpPoly(-2, e)
                    for sv in (0.0, 0.7, np.array([0.1, -0.4]), np.array([[0.1], [-0.4]])):
                        ref = np.vectorize(
                            lambda q: -2
                            * gauss_full(A, np.array(b) + bs * 0.5 * q * np.arange(1, n + 1), -0.3 * q**2)
                        )(sv)
                        for perm in itertools.permutations(names):
                            idx += 1
                            if idx % unit["n"] != unit["shard"]:
                                continue
                            case = ["full", an, b, bs, sv, perm]
                            rep.begin(case)
                            rep.step(2)
                            rep.close(expr.integrate(*perm, s=sv), ref, "integrate", rtol=1e-8)
                            rep.close(
                                expr.integrate_box(*[(nm, -np.inf, np.inf) for nm in perm], s=sv),
                                ref,
                                "integrate_box",
                                rtol=1e-8,
                            )
                            rep.state(case)
                            rep.trace(case if idx % 301 == 0 else None, group="full")
                            rep.outcome(float(np.sum(ref)))


def run_three(unit, rep):
    """Three variables of which one or two have finite limits."""
    import numpy as np
    from gpcm.exppoly import ExpPoly, var

    lims, p = limits("quick")
    A = np.array([[2.0, 0.6, -0.5], [0.6, 1.5, 0.3], [-0.5, 0.3, 2.5]])
    b = np.array([0.4, -0.6, 0.3])
    names = ["x", "y", "z"]
    vs = [var(n) for n in names]
    e = 0
    for i in range(3):
        for j in range(3):
            e = e - 0.5 * A[i, j] * vs[i] * vs[j]
        e = e + b[i] * vs[i]
    expr = ExpPoly(0.7, e)
    idx = 0
    total = 0.7 * gauss_full(A, b, 0.0)
    for free in range(3):
        others = [i for i in range(3) if i != free]
        # Marginalise the free variable by Schur complement.
        Aoo = A[np.ix_(others, others)] - np.outer(A[others, free], A[others, free]) / A[free, free]
        bo = b[others] - A[others, free] * b[free] / A[free, free]
        c = 0.5 * b[free] ** 2 / A[free, free]
        k = 0.7 * np.sqrt(2 * np.pi / A[free, free]) * np.exp(c)
        f = lambda u, v: k * np.exp(
            -0.5 * (Aoo[0, 0] * u * u + 2 * Aoo[0, 1] * u * v + Aoo[1, 1] * v * v) + bo[0] * u + bo[1] * v
        )
        for l1, u1, l2, u2 in itertools.product([lims[i] for i in ((0, 1, 3, 5) if unit['tier'] == 'quick' else range(6))], repeat=4):
            idx += 1
            if idx % (unit["n"]) != unit["shard"]:
                continue
            lm = {names[free]: (-np.inf, np.inf), names[others[0]]: (l1[1], u1[1]), names[others[1]]: (l2[1], u2[1])}
            perms = list(itertools.permutations(names))
            perm = perms[idx // unit["n"] % 6]
            case = ["three", free, l1[0], u1[0], l2[0], u2[0], perm]
            rep.begin(case)
            got = expr.integrate_box(*[(n, *lm[n]) for n in perm], p=p)
            check(rep, got, quad2(f, l1[2], u1[2], l2[2], u2[2]), total, case)
            rep.state(case)
            rep.trace(case if idx % 997 == 0 else None, group="three")


def run_half(unit, rep):
    import numpy as np
    from gpcm.exppoly import ExpPoly, var

    x, y, s = var("x"), var("y"), var("s")
    for a, b in itertools.product((-0.5, -1, -3.0), (0.0, 1.2, -0.8, 3.0, -3.0)):
        for sv in (0.0, 0.5, np.array([0.5, -0.5])):
            e = ExpPoly(2, a * x**2 + b * x + s * x)
            ref = np.vectorize(lambda q: quad1(lambda v: 2 * np.exp(a * v**2 + b * v + q * v), -INF, 0.0))(sv)
            case = ["half1", a, b, sv]
            rep.begin(case)
            rep.step()
            rep.close(e.integrate_half("x", s=sv), ref, "integrate_half", rtol=1e-7)
            rep.state(case)
            rep.trace(case, group="half")
    for (a, d, c), b1, b2 in itertools.product(QF, (0.0, 0.9, -0.6), (0.0, 0.5)):
        for sv in (0.3, np.array([[0.3, -0.2], [0.1, 0.0]])):
            for order in (("x", "y"), ("y", "x")):
                e = ExpPoly(-1, a * x**2 + d * y**2 + c * x * y + b1 * x + b2 * y + s * y)
                ref = np.vectorize(
                    lambda q: quad2(
                        lambda u, v: -np.exp(a * u**2 + d * v**2 + c * u * v + b1 * u + b2 * v + q * v),
                        -INF, 0.0, -INF, 0.0,
                    )
                )(sv)
                case = ["half2", [a, d, c], b1, b2, sv, order]
                rep.begin(case)
                rep.step()
                rep.close(e.integrate_half(*order, s=sv), ref, "integrate_half", rtol=1e-7)
                rep.state(case)
                rep.trace(case, group="half")


def run_tails(unit, rep):
    """Limits up to eight standard deviations away from the bulk, on either side, in one and two variables."""
    import numpy as np
    from gpcm.exppoly import ExpPoly, const, var
    from scipy.special import ndtr

    x, y = var("x"), var("y")
    ds = [k / 2 for k in range(-16, 17)]

    def mass(l, u):
        """Standard normal mass, without cancellation."""
        return -mass(u, l) if l > u else (ndtr(u) - ndtr(l) if l < 0 else ndtr(-l) - ndtr(-u))

    for a, m in itertools.product((0.5, 2.0, 50.0), (0.0, -1.3, 4.0)):
        sd = 1 / np.sqrt(2 * a)
        total = np.sqrt(np.pi / a)
        for d in ds:
            at = m + d * sd
            # Centred such that the limit is zero, and with the limit given.
            forms = {
                "half": (lambda: ExpPoly(const(-a) * (x + d * sd) ** 2).integrate_half("x"), ndtr(d)),
                "upper": (lambda: ExpPoly(const(-a) * (x - m) ** 2).integrate_box(("x", -np.inf, at)), ndtr(d)),
                "lower": (lambda: ExpPoly(const(-a) * (x - m) ** 2).integrate_box(("x", at, np.inf)), ndtr(-d)),
                "variable": (lambda: ExpPoly(const(-a) * (x - m) ** 2).integrate_box(("x", -np.inf, var("p")), p=np.array([at])), ndtr(d)),
                "finite": (lambda: ExpPoly(const(-a) * (x - m) ** 2).integrate_box(("x", at, at + sd)), mass(d, d + 1)),
                "product": (lambda: ExpPoly(const(-a) * (x - m) ** 2 - 3 * y**2).integrate_box(("x", -np.inf, at), ("y", -np.inf, 0)), ndtr(d) * 0.5 * np.sqrt(np.pi / 3)),
            }
            for name, (f, want) in forms.items():
                case = ["tails", name, a, m, d]
                rep.begin(case)
                rep.step()
                got = float(np.reshape(np.asarray(f()), ()))
                rep.true(abs(got - want * total) < 1e-11 * total, f"got {got}, expected {want * total}")
                rep.state(case)
                rep.trace(case if d == 4 else None, group="tails")


def run_correlated(unit, rep):
    """Two half-infinite intervals and strongly correlated variables. The inner integral is known."""
    import numpy as np
    from gpcm.exppoly import ExpPoly, var
    from scipy.special import log_ndtr

    x, y = var("x"), var("y")
    for c, k, b1, b2 in itertools.product((0.5, 1.2, 1.7, 1.9, 1.98, 1.999), (1.0, 0.01, 100.0), (0.0, 0.7, -0.4), (0.0, 0.3)):
        for sign, order in itertools.product((1, -1), (("x", "y"), ("y", "x"))):
            # -(x^2 + y^2 + c x y) with y in units of `k`.
            e = ExpPoly(1.5, -(x**2) - (1 / k**2) * y**2 - (sign * c / k) * x * y + b1 * x + (b2 / k) * y)

            def inner(v):
                b = b2 - sign * c * v
                return 1.5 * k * np.exp(-(v**2) + b1 * v + b**2 / 4 + 0.5 * np.log(np.pi) + log_ndtr(-b / np.sqrt(2)))

            width = 12 / np.sqrt(1 - c**2 / 4)
            xs, ws = nodes(-width, 0.0, panels=60)
            ref = float((ws * inner(xs)).sum())
            case = ["correlated", sign * c, k, b1, b2, order]
            rep.begin(case)
            rep.step()
            # Relative to the integral over the whole plane.
            det = 4 - c**2
            mass = 1.5 * k * 2 * np.pi / np.sqrt(det) * np.exp((b1**2 + b2**2 - sign * c * b1 * b2) / det)
            rep.close(e.integrate_half(*order), ref, "integrate_half", rtol=1e-6, atol=1e-7 * mass)
            rep.state(case)
            rep.trace(case, group="half, correlated")


def run_reject(unit, rep):
    """Integrands that are not exponentiated quadratics in the variable are rejected."""
    import numpy as np
    from gpcm.exppoly import ExpPoly, var, const

    x, y = var("x"), var("y")
    bad = {"x": x, "x+1": x + 1, "0": x - x, "const": const(3), "y^2": -(y**2), "x^3": -(x**3) - x**2, "x^4": -(x**4)}
    ops = {
        "integrate": lambda e: e.integrate("x", y=0.3),
        "box inf": lambda e: e.integrate_box(("x", -np.inf, np.inf), y=0.3),
        "box left": lambda e: e.integrate_box(("x", -np.inf, 0.5), y=0.3),
        "box right": lambda e: e.integrate_box(("x", 0.5, np.inf), y=0.3),
        "box": lambda e: e.integrate_box(("x", -1, 1), y=0.3),
        "half": lambda e: e.integrate_half("x", y=0.3),
        "half2": lambda e: e.integrate_half("x", "y"),
        "half2r": lambda e: e.integrate_half("y", "x"),
    }
    for bn, b in bad.items():
        for on, op in ops.items():
            case = ["reject", bn, on]
            rep.begin(case)
            rep.step()
            rep.state(case)
            rep.trace(case, group="reject")
            try:
                r = op(ExpPoly(b))
            except Exception:
                continue
            rep.fail(f"integral of exp({b}) was accepted and gave {r}")


def run_grad(unit, rep):
    """JAX values agree with NumPy values; derivatives with respect to the limits are the
    integrand, and derivatives with respect to parameters agree with central differences."""
    import jax
    import jax.numpy as jnp
    import lab.jax  # noqa
    import numpy as np
    from gpcm.exppoly import ExpPoly, var, const

    jax.config.update("jax_enable_x64", True)

    def f(a, b, l, u, kind):
        e = ExpPoly(a, -const(a) * var("x") ** 2 + const(b) * var("x"))
        lims = {
            "box": (var("l"), var("u")),
            "left": (-np.inf, var("u")),
            "right": (var("l"), np.inf),
            "all": (-np.inf, np.inf),
        }[kind]
        return e.integrate_box(("x", *lims), l=l, u=u)

    def f2(a, b, l, u, kind):
        e = ExpPoly(a, -const(a) * var("x") ** 2 - var("y") ** 2 + 0.5 * var("x") * var("y") + const(b) * var("x"))
        lims = {
            "box": (var("l"), var("u")),
            "left": (-np.inf, var("u")),
            "right": (var("l"), np.inf),
            "all": (-np.inf, np.inf),
        }[kind]
        return e.integrate_box(("x", *lims), ("y", -np.inf, var("u")), l=l, u=u)

    for fn, g in (("one", f), ("two", f2)):
        for kind in ("box", "left", "right", "all"):
            for a, b in itertools.product((0.5, 2.0), (0.0, -0.8)):
                for l, u in ((-0.5, 1.0), (0.0, 0.3), (0.7, -0.2)):
                    case = ["grad", fn, kind, a, b, l, u]
                    rep.begin(case)
                    v = float(np.reshape(g(a, b, l, u, kind), ()))
                    jargs = tuple(jnp.array(q) for q in (a, b, l, u))
                    h = lambda *xs: jnp.reshape(g(*xs, kind), ())
                    rep.close(h(*jargs), v, "jax value", rtol=1e-6)
                    grads = jax.grad(h, argnums=(0, 1, 2, 3))(*jargs)
                    for i in range(4):
                        d = 1e-5
                        pa = [a, b, l, u]
                        ma = [a, b, l, u]
                        pa[i] += d
                        ma[i] -= d
                        fd = (float(np.reshape(g(*pa, kind), ())) - float(np.reshape(g(*ma, kind), ()))) / (2 * d)
                        rep.close(grads[i], fd, f"derivative {i}", rtol=1e-4, atol=1e-5)
                        rep.step()
                    rep.state(case)
                    rep.trace(case, group="grad")
                    rep.outcome(round(v, 8))


def run_shapes(unit, rep):
    """Tensor-valued coefficients, limits and evaluation points broadcast elementwise."""
    import numpy as np
    from gpcm.exppoly import ExpPoly, var, const

    x, y = var("x"), var("y")
    shapes = [(), (1,), (2,), (2, 1), (1, 3), (2, 3), (2, 1, 2)]

    def arr(shape, base):
        n = int(np.prod(shape))
        v = base + 0.17 * np.arange(n)
        return float(v[0]) if shape == () else v.reshape(shape)

    def ok(*ss):
        try:
            return np.broadcast_shapes(*ss)
        except ValueError:
            return None

    for sa, sb, su in itertools.product(shapes, repeat=3):
        out = ok(sa, sb, su)
        if out is None:
            continue
        a, b, u = arr(sa, 0.6), arr(sb, -0.3), arr(su, 0.2)
        A, Bc, U = np.broadcast_arrays(a, b, u)
        for kind in ("left", "right", "box", "all"):
            case = ["shapes", sa, sb, su, kind]
            rep.begin(case)
            e = ExpPoly(-const(a) * x**2 + const(b) * x + var("c") * x - 0.1 * var("u") ** 2)
            lim = {"left": (-np.inf, var("u")), "right": (var("u"), np.inf), "box": (-1.0, var("u")), "all": (-np.inf, np.inf)}[kind]
            num = {"left": (-INF, None), "right": (None, INF), "box": (-1.0, None), "all": (-INF, INF)}[kind]
            got = np.asarray(e.integrate_box(("x", *lim), c=0.2, u=u))
            ref = np.empty(out)
            for i in np.ndindex(*out):
                lu = [U[i] if q is None else q for q in num]
                ref[i] = quad1(lambda v: np.exp(-A[i] * v**2 + (Bc[i] + 0.2) * v - 0.1 * U[i] ** 2), *lu)
            rep.close(np.broadcast_to(got, np.broadcast_shapes(got.shape, out)), ref, "value", rtol=1e-7)
            # Two variables.
            e2 = ExpPoly(-const(a) * x**2 - y**2 + 0.5 * x * y + const(b) * y)
            if np.prod(out) <= 6 and kind != "all":
                got = np.asarray(e2.integrate_box(("x", *lim), ("y", -np.inf, 0.4), u=u))
                for i in np.ndindex(*out):
                    lu = [U[i] if q is None else q for q in num]
                    ref[i] = quad2(
                        lambda v, w: np.exp(-A[i] * v**2 - w**2 + 0.5 * v * w + Bc[i] * w), lu[0], lu[1], -INF, 0.4
                    )
                rep.close(np.broadcast_to(got, np.broadcast_shapes(got.shape, out)), ref, "value 2", rtol=1e-7)
            rep.step(2)
            rep.state(case)
            rep.trace(case if len(out) == 3 else None, group="shapes")


def run_scales(unit, rep):
    """Narrow and wide integrands: integrals scale with the units of the variables."""
    import numpy as np
    from gpcm.exppoly import ExpPoly, const, var

    x, y = var("x"), var("y")
    scales = (1e-5, 1e-3, 1.0, 1e3, 1e5)
    lims = [(-INF, INF), (-INF, 0.6), (-1.1, INF), (-1.1, 0.6), (0.6, -1.1), (INF, 0.6)]
    idx = 0
    for a, b in itertools.product((-1.0, -0.4), (0.0, 0.9)):
        f = lambda v: 0.7 * np.exp(a * v**2 + b * v)
        mass = quad1(f, -INF, INF)
        for s, (l, u), kind in itertools.product(scales, lims, ("number", "poly", "array")):
            idx += 1
            if idx % unit["n"] != unit["shard"]:
                continue
            case = ["scale1", a, b, s, l, u, kind]
            rep.begin(case)
            expr = ExpPoly(0.7, const(a / s**2) * x**2 + (b / s) * x)
            conv = {"number": lambda v: v, "poly": const, "array": lambda v: np.array([v])}[kind]
            lo, hi = (v if abs(v) == INF else conv(v * s) for v in (l, u))
            got = np.asarray(expr.integrate_box(("x", lo, hi)), float) / s
            check(rep, got, quad1(f, l, u), mass, case)
            if (l, u) == (-INF, INF):
                check(rep, np.asarray(expr.integrate("x"), float) / s, mass, mass, case)
            rep.state(case)
            rep.trace(case, group="scales")
    for a, d, c in QF[1:4]:
        f = lambda u, v: np.exp(a * u**2 + d * v**2 + c * u * v + 0.3 * u - 0.2 * v)
        mass = quad2(f, -INF, INF, -INF, INF)
        for l1, l2 in itertools.product(lims, lims):
            ref = quad2(f, *l1, *l2)
            for s1, s2 in itertools.product(scales, scales):
                idx += 1
                if idx % unit["n"] != unit["shard"]:
                    continue
                case = ["scale2", [a, d, c], l1, l2, s1, s2]
                rep.begin(case)
                expr = ExpPoly(
                    const(a / s1**2) * x**2 + const(d / s2**2) * y**2 + const(c / s1 / s2) * x * y + (0.3 / s1) * x - (0.2 / s2) * y
                )
                args = [(n, *(v if abs(v) == INF else v * s for v in l)) for n, l, s in (("x", l1, s1), ("y", l2, s2))]
                got = np.asarray(expr.integrate_box(*args), float) / s1 / s2
                check(rep, got, ref, mass, case)
                rep.state(case)
                rep.trace(case if idx % 97 == 0 else None, group="scales")
