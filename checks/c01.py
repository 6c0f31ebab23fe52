"""C01: polynomial and exponentiated-polynomial algebra."""
import itertools

ID = "C01"
RULE = (
    "Explicit-state search over polynomials: a state is a polynomial (canonical monomial "
    "dictionary), a transition applies one real operation (+, -, *, neg, **, scalar on either side, "
    "substitute, collect_for, reject, translate, multiply) to objects reached earlier. Every result "
    "is compared with a dictionary reference: value on a separating grid of points, equality with "
    "an independently constructed canonical form, inequality with perturbed forms, and all queries. "
    "After every level all objects reached earlier are evaluated again (operands unchanged)."
)
BOUNDS = {
    "quick": "3 variables; leaves x,y,z and constants {-1,0,1,2,0.5}; all pairs of depth-1 results under + - *; powers 0..3; all 3-variable substitutions of depth-1 polynomials into depth-1/2 polynomials; terms of <=3 factors with powers <=2; all histories of two queries or operations on every polynomial of one or two terms over 9 monomials of up to three variables, of which the operands are evaluated again after each one; coefficients from 2^-200 to 2^200; powers up to 9",
    "thorough": "as quick, plus all depth-2 results combined with all leaves and all depth-2 targets of substitution, and histories on polynomials of up to three terms",
}
ASSUMPTIONS = ["coefficients are small dyadic numbers, so float arithmetic is exact"]
NAMES = ("x", "y", "z")
UNIT = (0, 0, 0)
SHARDS = {"quick": 16, "thorough": 64}


# ---- Reference: monomial dictionaries. ----
def r_clean(d):
    return {k: v for k, v in d.items() if v != 0}


def r_const(c):
    return r_clean({UNIT: c})


def r_var(i, p=1):
    k = [0, 0, 0]
    k[i] = p
    return {tuple(k): 1}


def r_add(a, b):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + v
    return r_clean(d)


def r_neg(a):
    return {k: -v for k, v in a.items()}


def r_mul(a, b):
    d = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(i + j for i, j in zip(k, l))
            d[m] = d.get(m, 0) + v * w
    return r_clean(d)


def r_pow(a, n):
    r = r_const(1)
    for _ in range(n):
        r = r_mul(r, a)
    return r


def r_sub(a, i, b):
    out = {}
    for k, v in a.items():
        l = list(k)
        p = l[i]
        l[i] = 0
        out = r_add(out, r_mul({tuple(l): v}, r_pow(b, p)))
    return out


def r_eval(a, pt):
    tot = 0
    for k, v in a.items():
        m = v
        for x, p in zip(pt, k):
            m = m * x**p
        tot = tot + m
    return tot


def key(a):
    return repr(sorted(a.items()))


def units(tier):
    n = SHARDS[tier]
    us = [{"kind": "pairs", "shard": i, "n": n} for i in range(n)]
    us += [{"kind": "subst", "shard": i, "n": n} for i in range(n)]
    us += [{"kind": "terms"}, {"kind": "tensor"}, {"kind": "errors"}]
    us += [{"kind": "prod", "shard": i, "n": n} for i in range(n)]
    us += [{"kind": "exp", "shard": i, "n": 4} for i in range(4)]
    us += [{"kind": "operands", "shard": i, "n": 8, "terms": 3 if tier == "thorough" else 2} for i in range(8)]
    us += [{"kind": "scales"}, {"kind": "powers"}]
    if tier == "thorough":
        us += [{"kind": "deep", "shard": i, "n": n} for i in range(n)]
    return us


def run(unit, rep):
    import numpy as np
    import gpcm.exppoly as ep

    w = World(ep, np, rep)
    globals()["run_" + unit["kind"]](unit, rep, w)


class World:
    def __init__(self, ep, np, rep):
        self.ep, self.np, self.rep = ep, np, rep
        # Separating points: values are distinct for distinct small polynomials.
        self.pts = (
            np.array([0.0, 1.0, 2.0, -3.0, 5.0, 7.0]),
            np.array([0.0, 1.0, -2.0, 11.0, 3.0, 0.5]),
            np.array([0.0, 1.0, 3.0, 2.0, -13.0, 4.0]),
        )

    def build(self, ref, rev=False):
        """Canonical construction of a reference polynomial from terms."""
        ep = self.ep
        items = sorted(ref.items(), reverse=rev)
        return ep.Poly(
            *[
                ep.Term(c, *[ep.Factor(n, p) for n, p in zip(NAMES, k) if p > 0])
                for k, c in items
            ]
        )

    def value(self, poly):
        v = poly.eval(x=self.pts[0], y=self.pts[1], z=self.pts[2])
        return self.np.broadcast_to(self.np.asarray(v, dtype=float), self.pts[0].shape)

    def check(self, poly, ref, what, full=True):
        rep, np, ep = self.rep, self.np, self.ep
        rep.step()
        if not isinstance(poly, ep.Poly):
            rep.fail(f"{what}: result is not a polynomial but {type(poly).__name__}", case=what)
            return
        val = self.value(poly)
        want = np.broadcast_to(np.asarray(r_eval(ref, self.pts), dtype=float), val.shape)
        if not np.allclose(val, want, rtol=1e-11, atol=1e-11):
            rep.fail(f"{what}: evaluates to {val.tolist()}, expected {want.tolist()} ({key(ref)})", case=what)
            return
        if not full:
            return
        can = self.build(ref)
        if not (poly == can) or not (can == poly):
            rep.fail(f"{what}: {poly} does not equal the same polynomial {can}", case=what)
        # Not equal to perturbations.
        for d in (r_const(1), r_var(0), r_mul(r_var(1), r_var(2))):
            other = self.build(r_add(ref, d))
            if poly == other:
                rep.fail(f"{what}: {poly} equals the different polynomial {other}", case=what)
        self.queries(poly, ref, what)

    def queries(self, poly, ref, what):
        rep, ep = self.rep, self.ep
        if bool(poly.is_constant()) != all(k == UNIT for k in ref):
            rep.fail(f"{what}: is_constant() is wrong for {poly}", case=what)
        for i, name in enumerate(NAMES):
            deg = max([k[i] for k in ref], default=0)
            if poly.highest_power(name) != deg:
                rep.fail(f"{what}: highest_power({name}) of {poly} is not {deg}", case=what)
            if bool(poly.is_function_of(name)) != (deg > 0):
                rep.fail(f"{what}: is_function_of({name}) is wrong for {poly}", case=what)

    def collect_reject(self, poly, ref, what):
        ep = self.ep
        for i, name in enumerate(NAMES):
            self.check(
                poly.reject(name),
                {k: v for k, v in ref.items() if k[i] == 0},
                (what, "reject", name),
            )
            for p in (1, 2, 3):
                d = {}
                for k, v in ref.items():
                    if k[i] == p:
                        l = list(k)
                        l[i] = 0
                        d[tuple(l)] = v
                self.check(poly.collect_for(ep.Factor(name, p)), d, (what, "collect", name, p))

    def leaves(self):
        ep = self.ep
        out = [(f"v{n}", ep.var(n), r_var(i)) for i, n in enumerate(NAMES)]
        for c in (-1, 0, 1, 2, 0.5):
            out.append((f"c{c}", ep.const(c), r_const(c)))
        return out

    def level1(self):
        """All depth-1 results over leaves, deduplicated by canonical form."""
        seen = {}
        leaves = self.leaves()
        for n, p, r in leaves:
            seen.setdefault(key(r), (n, p, r))
        for (n1, p1, r1), (n2, p2, r2) in itertools.product(leaves, leaves):
            for op, (q, s) in {
                "+": (lambda: p1 + p2, r_add(r1, r2)),
                "-": (lambda: p1 - p2, r_add(r1, r_neg(r2))),
                "*": (lambda: p1 * p2, r_mul(r1, r2)),
            }.items():
                k = key(s)
                q = q()
                if k not in seen:
                    seen[k] = (f"({n1}{op}{n2})", q, s)
                else:
                    # Reached along another path: must be the same polynomial.
                    if not (q == seen[k][1]):
                        self.rep.fail(f"{n1}{op}{n2} is not equal to {seen[k][0]}", case=[n1, op, n2])
        return list(seen.values())


def recheck(w, objs):
    for n, p, r in objs:
        w.check(p, r, ("operand unchanged", n))


def run_pairs(unit, rep, w):
    objs = w.level1()
    leaves = w.leaves()
    pairs = list(itertools.product(range(len(objs)), repeat=2))
    for idx, (i, j) in enumerate(pairs):
        if idx % unit["n"] != unit["shard"]:
            continue
        n1, p1, r1 = objs[i]
        n2, p2, r2 = objs[j]
        for op, q, s in (
            ("+", p1 + p2, r_add(r1, r2)),
            ("-", p1 - p2, r_add(r1, r_neg(r2))),
            ("*", p1 * p2, r_mul(r1, r2)),
        ):
            w.check(q, s, [n1, op, n2])
            rep.state(key(s))
            rep.trace([n1, op, n2] if idx % 97 == 0 else None, group="pair")
            rep.outcome(key(s))
    # Unary and scalar operations, on all depth-1 objects.
    for idx, (n, p, r) in enumerate(objs):
        if idx % unit["n"] != unit["shard"]:
            continue
        w.check(-p, r_neg(r), ["-", n])
        for k in range(4):
            w.check(p**k, r_pow(r, k), [n, "**", k])
            rep.state(key(r_pow(r, k)))
        for c in (-2, 0, 1, 3, 0.5, 1.0, 0.0):
            for op, q, s in (
                ("c+p", c + p, r_add(r, r_const(c))),
                ("p+c", p + c, r_add(r, r_const(c))),
                ("c-p", c - p, r_add(r_const(c), r_neg(r))),
                ("p-c", p - c, r_add(r, r_const(-c))),
                ("c*p", c * p, r_mul(r_const(c), r)),
                ("p*c", p * c, r_mul(r_const(c), r)),
            ):
                w.check(q, s, [n, op, c])
                rep.trace(group="scalar")
        # Sums and products with builtins.
        w.check(sum([p, p, p]), r_mul(r_const(3), r), ["sum", n])
        w.collect_reject(p * p + p, r_add(r_mul(r, r), r), ["collect", n])
        rep.trace(group="collect")
    recheck(w, objs)


def run_subst(unit, rep, w):
    objs = w.level1()
    # Targets: depth-1 objects and squares plus mixed products of some of them.
    targets = list(objs)
    for (n1, p1, r1), (n2, p2, r2) in itertools.combinations_with_replacement(objs[:14], 2):
        targets.append((f"({n1}*{n2})", p1 * p2, r_mul(r1, r2)))
    idx = 0
    for n1, p1, r1 in targets:
        for i, name in enumerate(NAMES):
            for n2, p2, r2 in objs:
                idx += 1
                if idx % unit["n"] != unit["shard"]:
                    continue
                s = r_sub(r1, i, r2)
                w.check(p1.substitute(name, p2), s, [n1, "subst", name, n2], full=idx % 3 == 0)
                rep.state(key(s))
                rep.trace([n1, "subst", name, n2] if idx % 101 == 0 else None, group="subst")
    recheck(w, objs)
    recheck(w, targets)


def run_deep(unit, rep, w):
    l1 = w.level1()
    l2 = {}
    for (n1, p1, r1), (n2, p2, r2) in itertools.product(l1, l1):
        for op, f, g in (("+", lambda a, b: a + b, r_add), ("*", lambda a, b: a * b, r_mul)):
            s = g(r1, r2)
            if key(s) not in l2:
                l2[key(s)] = (f"({n1}{op}{n2})", (f, p1, p2), s)
    items = sorted(l2.values(), key=lambda v: v[0])
    leaves = w.leaves()
    for idx, (n, (f, a, b), r) in enumerate(items):
        if idx % unit["n"] != unit["shard"]:
            continue
        p = f(a, b)
        for n2, p2, r2 in leaves:
            for op, q, s in (
                ("+", p + p2, r_add(r, r2)),
                ("-", p2 - p, r_add(r2, r_neg(r))),
                ("*", p * p2, r_mul(r, r2)),
            ):
                w.check(q, s, [n, op, n2])
                rep.state(key(s))
                rep.trace(group="deep")
        for i, name in enumerate(NAMES):
            for n2, p2, r2 in l1:
                s = r_sub(r, i, r2)
                w.check(p.substitute(name, p2), s, [n, "subst", name, n2], full=False)
                rep.state(key(s))
                rep.trace(group="deep-subst")
        w.collect_reject(p, r, ["collect", n])
        w.check(p, r, ["unchanged", n])


def run_prod(unit, rep, w):
    """All products of polynomials with coefficients in {-1, 0, 1} over fixed monomials: like
    terms cancel in every possible order."""
    bases = [
        [(0, 0, 0), (1, 0, 0), (2, 0, 0)],
        [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0)],
    ]
    idx = 0
    for b in bases:
        polys = []
        for cs in itertools.product((-1, 0, 1), repeat=len(b)):
            ref = r_clean(dict(zip(b, cs)))
            polys.append((ref, w.build(ref)))
        for (r1, p1), (r2, p2) in itertools.product(polys, polys):
            idx += 1
            if idx % unit["n"] != unit["shard"]:
                continue
            s = r_mul(r1, r2)
            w.check(p1 * p2, s, [key(r1), "*", key(r2)], full=idx % 2 == 0 or len(s) < 3)
            rep.state(key(s))
            rep.trace([key(r1), "*", key(r2)] if idx % 501 == 0 else None, group="prod")
            if idx % 5 == 0:
                w.check(p1 * p2 - p2 * p1, {}, [key(r1), "[*]", key(r2)])
                w.check((p1 + p2) ** 2, r_pow(r_add(r1, r2), 2), [key(r1), "(+)**2", key(r2)])
    for r, p in polys:
        w.check(p, r, ["unchanged", key(r)])


def run_terms(unit, rep, w):
    """Construction from terms and factors, in all orders, with repeated variables."""
    ep = w.ep
    factors = [(i, p) for i in range(3) for p in (1, 2)]
    for n in range(4):
        for fs in itertools.product(factors, repeat=n):
            for c in (2, 0, -1):
                ref = r_const(c)
                for i, p in fs:
                    ref = r_mul(ref, r_var(i, p))
                t = ep.Term(c, *[ep.Factor(NAMES[i], p) for i, p in fs])
                w.check(ep.Poly(t), ref, ["term", c, fs])
                rep.state(key(ref))
                rep.trace(group="term")
    monos = [r_const(1), r_var(0), r_var(1, 2), r_mul(r_var(0), r_var(1)), r_const(-1), r_neg(r_var(0))]
    for ms in itertools.product(monos, repeat=3):
        ref = {}
        ts = []
        for m in ms:
            ref = r_add(ref, m)
            (k, c), = m.items()
            ts.append(ep.Term(c, *[ep.Factor(a, b) for a, b in zip(NAMES, k) if b]))
        p = ep.Poly(*ts)
        w.check(p, ref, ["poly", [key(m) for m in ms]])
        w.check(p - p, {}, ["poly-self", [key(m) for m in ms]])
        w.check(w.build(ref, rev=True), ref, ["reversed", [key(m) for m in ms]])
        w.collect_reject(p, ref, ["poly", [key(m) for m in ms]])
        rep.state(key(ref))
        rep.trace(group="poly")
    for name in NAMES:
        for p in (1, 2, 3, 4):
            w.check(ep.var(name, power=p), r_var(NAMES.index(name), p), ["var", name, p])
    # Terms can be added if and only if they have the same factors.
    for f1, f2 in itertools.product(itertools.chain(*(itertools.product(factors, repeat=k) for k in range(3))), repeat=2):
        t1 = ep.Term(2, *[ep.Factor(NAMES[i], p) for i, p in f1])
        t2 = ep.Term(3, *[ep.Factor(NAMES[i], p) for i, p in f2])
        r1, r2 = r_const(2), r_const(3)
        for i, p in f1:
            r1 = r_mul(r1, r_var(i, p))
        for i, p in f2:
            r2 = r_mul(r2, r_var(i, p))
        rep.begin(["term addition", f1, f2])
        rep.step()
        rep.trace([f1, f2], group="term-add")
        same = set(r1) == set(r2)
        try:
            total = t1 + t2
        except RuntimeError:
            rep.true(not same, "terms of the same factors could not be added")
        else:
            rep.true(same, f"terms of different factors were added to {total}")
            w.check(ep.Poly(total), r_add(r1, r2), ["term addition", f1, f2])
    # The type of a coefficient does not matter.
    import numpy as np

    x, y = ep.var("x"), ep.var("y")
    types = [int, float, np.float64, np.int64, np.float32]
    for f, g in itertools.product(types, repeat=2):
        for c in (1, -1, 2, -3):
            for name, form in (
                ("c", lambda a: ep.const(a)),
                ("c x", lambda a: ep.const(a) * x),
                ("c x^2 y", lambda a: a * (x**2 * y)),
                ("c x + y - c", lambda a: ep.const(a) * x + y - ep.const(a)),
                ("(c x + 1)^2", lambda a: (ep.const(a) * x + 1) ** 2),
            ):
                rep.begin(["types", f.__name__, g.__name__, c, name])
                rep.step()
                p, q = form(f(c)), form(g(c))
                rep.true(bool(p == q), f"{p} does not equal {q}")
                rep.true(bool(ep.ExpPoly(f(c), p) == ep.ExpPoly(g(c), q)), f"exp of {p} does not equal that of {q}")
                rep.true(not bool(p == form(g(c + 10))), f"{p} equals another polynomial")
                for r, s in itertools.product(p.terms, q.terms):
                    rep.true(bool(r == s) == (hash(r) == hash(s)) or not bool(r == s), f"the equal terms {r} and {s} have different hashes")
                rep.true(len((p - q).terms) == 0, f"the difference of {p} and {q} is not zero")
                rep.state(["types", f.__name__, g.__name__, c, name])
                rep.trace(["types", f.__name__, g.__name__, c, name], group="types")
    # Names with common prefixes must not be confused.
    a, b, c = ep.var("t"), ep.var("t_1"), ep.var("t_11")
    p = a * b**2 + 3 * c - b
    rep.close(p.eval(t=2.0, t_1=3.0, t_11=5.0), 2.0 * 9 + 15 - 3, "eval with prefix names")
    q = p.substitute("t", ep.var("t_1") + 1)
    rep.close(q.eval(t_1=3.0, t_11=5.0), 4.0 * 9 + 15 - 3, "substitute with prefix names")
    rep.true(not q.is_function_of("t") and q.is_function_of("t_1"), "prefix names")
    # The zero polynomial.
    z = ep.Poly()
    w.check(z, {}, ["zero"])
    w.collect_reject(z, {}, ["zero"])
    for name in NAMES:
        w.check(z.substitute(name, ep.var("x")), {}, ["zero", "subst"])


def run_tensor(unit, rep, w):
    """Tensor-valued constants: evaluation is broadcasted arithmetic."""
    import numpy as np
    import jax.numpy as jnp
    import lab.jax  # noqa

    ep = w.ep
    consts = {
        "np1": np.array([1.0, -2.0]),
        "np2": np.array([[0.5], [3.0]]),
        "np0": np.array([0.0, 1.0]),
        "npz": np.zeros(2),
        "f64": np.float64(2.0),
        "jax": jnp.array([1.5, -1.0]),
        "jax0": jnp.array(3.0),
        "one": np.array(1.0),
        "int": 1,
        "zero": 0,
    }
    ptsets = [
        dict(x=2.0, y=-3.0),
        dict(x=np.array([2.0, 0.0]), y=np.array([[-3.0], [1.0]])),
        dict(x=jnp.array([2.0, 0.0]), y=1.5),
    ]
    x, y = ep.var("x"), ep.var("y")
    forms = {
        "x*c+y*d": (lambda c, d: x * c + y * d, lambda c, d, X, Y: c * X + d * Y),
        "C*x+D*y": (lambda c, d: ep.const(c) * x + ep.const(d) * y, lambda c, d, X, Y: c * X + d * Y),
        "(x+c)*(y-d)": (lambda c, d: (x + c) * (y - d), lambda c, d, X, Y: (X + c) * (Y - d)),
        "c*(x+y)**2-d*(x-y)**2": (
            lambda c, d: ep.const(c) * (x + y) ** 2 - ep.const(d) * (x - y) ** 2,
            lambda c, d, X, Y: c * (X + Y) ** 2 - d * (X - Y) ** 2,
        ),
        "c*x-c*x+d": (lambda c, d: ep.const(c) * x - ep.const(c) * x + d, lambda c, d, X, Y: c * X - c * X + d),
        "subst": (
            lambda c, d: (ep.const(c) * x**2 + x * y).substitute("x", ep.const(d) * y + x),
            lambda c, d, X, Y: c * (d * Y + X) ** 2 + (d * Y + X) * Y,
        ),
        "collect": (
            lambda c, d: (ep.const(c) * x**2 + ep.const(d) * x**2 * y + y).collect_for(ep.Factor("x", 2)),
            lambda c, d, X, Y: c + d * Y,
        ),
        "reject": (
            lambda c, d: (ep.const(c) * x**2 + ep.const(d) * y + d).reject("x"),
            lambda c, d, X, Y: d * Y + d,
        ),
    }
    for fn, (f, g) in forms.items():
        for cn, c in consts.items():
            for dn, d in consts.items():
                p = f(c, d)
                for k, pt in enumerate(ptsets):
                    rep.begin([fn, cn, dn, k])
                    v = np.asarray(p.eval(**pt), dtype=float)
                    ref = np.asarray(
                        g(np.asarray(c, float), np.asarray(d, float), np.asarray(pt["x"], float), np.asarray(pt["y"], float)),
                        dtype=float,
                    )
                    shape = np.broadcast_shapes(v.shape, ref.shape)
                    rep.close(np.broadcast_to(v, shape), np.broadcast_to(ref, shape), "value", rtol=1e-5, atol=1e-5)
                    e = ep.ExpPoly(c, -0.01 * p) if True else None
                    rep.close(
                        np.broadcast_to(np.asarray(e.eval(**pt), float), np.broadcast_shapes(shape, np.shape(c))),
                        np.broadcast_to(np.asarray(c, float) * np.exp(-0.01 * ref), np.broadcast_shapes(shape, np.shape(c))),
                        "exp value",
                        rtol=1e-5,
                        atol=1e-5,
                    )
                    rep.step(2)
                    rep.state([fn, cn, dn, k])
                    rep.trace([fn, cn, dn, k], group="tensor")
                    rep.outcome(v.shape)


def run_errors(unit, rep, w):
    ep = w.ep
    x = ep.var("x")

    def raises(f, what):
        rep.begin(what)
        rep.step()
        rep.trace(what, group="error")
        rep.state(what)
        try:
            r = f()
        except Exception:
            return
        rep.fail(f"{what} was accepted and gave {r}")

    for p in (-1, -2):
        for q, n in ((x, "x"), (x + 1, "x+1"), (ep.const(2), "2")):
            raises(lambda: q**p, f"({n})**{p}")
    for p in (0, -1):
        raises(lambda: ep.var("x", p), f"var x power {p}")
        raises(lambda: ep.Factor("x", p), f"factor power {p}")


def run_exp(unit, rep, w):
    ep, np = w.ep, w.np
    polys = w.level1()
    # Scale down so that exponentials neither overflow nor vanish.
    pts = tuple(p / 16 for p in w.pts)
    kw = dict(zip(NAMES, pts))

    def check(e, c, r, what):
        rep.step()
        v = np.broadcast_to(np.asarray(e.eval(**kw), float), pts[0].shape)
        ref = np.broadcast_to(c * np.exp(np.asarray(r_eval(r, pts), float)), pts[0].shape)
        rep.close(v, ref, "value", case=what, rtol=1e-9, atol=1e-12)
        can = ep.ExpPoly(c, w.build(r))
        if not (e == can):
            rep.fail(f"{e} does not equal {can}", case=what)
        if c != 0 and (e == ep.ExpPoly(c + 1, w.build(r)) or e == ep.ExpPoly(c, w.build(r_add(r, r_var(0))))):
            rep.fail(f"{e} equals a different function", case=what)

    idx = 0
    small = polys[:14]
    for (n1, p1, r1), (n2, p2, r2) in itertools.product(small, polys):
        for c1, c2 in ((1, 2), (-0.5, 3)):
            idx += 1
            if idx % unit["n"] != unit["shard"]:
                continue
            e1, e2 = ep.ExpPoly(c1, p1), ep.ExpPoly(c2, p2)
            case = [c1, n1, c2, n2]
            check(e1 * e2, c1 * c2, r_add(r1, r2), case + ["e*e"])
            check(3 * e1, 3 * c1, r1, case + ["3*e"])
            check(e1 * 0.5, 0.5 * c1, r1, case + ["e*.5"])
            check(-e1, -c1, r1, case + ["-e"])
            for i, name in enumerate(NAMES):
                check(e1.substitute(name, p2), c1, r_sub(r1, i, r2), case + ["subst", name])
                check(
                    e1.translate_var(name, p2),
                    c1,
                    r_sub(r1, i, r_add(r_var(i), r2)),
                    case + ["translate", name],
                )
            check(e1, c1, r1, case + ["unchanged 1"])
            check(e2, c2, r2, case + ["unchanged 2"])
            rep.state(case)
            rep.trace(case if idx % 301 == 0 else None, group="exppoly")
    check(ep.ExpPoly(w.build(r_var(0))), 1, r_var(0), ["default constant"])


MONOS = [(0, 0, 0), (1, 0, 0), (0, 2, 0), (1, 1, 0), (1, 1, 1), (2, 1, 1), (1, 2, 3), (0, 1, 1), (3, 0, 1)]


def run_operands(unit, rep, w):
    """All histories of two queries or operations on the same polynomial, which must remain the same."""
    ep = w.ep
    other = (ep.var("x") - 2 * ep.var("y") + 1, {(1, 0, 0): 1, (0, 1, 0): -2, UNIT: 1})
    big = (ep.var("z") * ep.var("x") * ep.var("y") - 1, {(1, 1, 1): 1, UNIT: -1})

    def drop(r, i, p):
        d = {}
        for k, v in r.items():
            if k[i] == p:
                l = list(k)
                l[i] = 0
                d[tuple(l)] = v
        return d

    ops = []
    for i, name in enumerate(NAMES):
        for p in (1, 2, 3):
            ops.append((f"collect {name}^{p}", lambda q, name=name, p=p: q.collect_for(ep.Factor(name, p)), lambda r, i=i, p=p: drop(r, i, p)))
        ops.append((f"reject {name}", lambda q, name=name: q.reject(name), lambda r, i=i: {k: v for k, v in r.items() if k[i] == 0}))
        ops.append((f"subst {name}", lambda q, name=name: q.substitute(name, other[0]), lambda r, i=i: r_sub(r, i, other[1])))
    for n, (q, r) in (("o", other), ("b", big)):
        ops.append((f"+{n}", lambda p, q=q: p + q, lambda s, r=r: r_add(s, r)))
        ops.append((f"{n}-", lambda p, q=q: q - p, lambda s, r=r: r_add(r, r_neg(s))))
        ops.append((f"*{n}", lambda p, q=q: p * q, lambda s, r=r: r_mul(s, r)))
    ops += [
        ("neg", lambda p: -p, r_neg),
        ("square", lambda p: p**2, lambda r: r_pow(r, 2)),
        ("double", lambda p: 2 * p, lambda r: r_mul(r_const(2), r)),
        ("same", lambda p: p**1, lambda r: r),
        ("plus", lambda p: p + 0, lambda r: r),
        ("times", lambda p: p * 1, lambda r: r),
    ]
    idx = 0
    for n in range(1, unit["terms"] + 1):
        for ms in itertools.combinations(MONOS, n):
            ref = dict(zip(ms, (3, -2, 5)))
            for n1, f1, g1 in ops:
                idx += 1
                if idx % unit["n"] != unit["shard"]:
                    continue
                # Terms are shared between polynomials: these must remain the same too.
                p = w.build(ref)
                shared = p + big[0]
                what = [key(ref), n1]
                q = f1(p)
                s = g1(ref)
                w.check(q, s, what)
                w.check(p, ref, what + ["operand"])
                rep.state([key(ref), n1])
                for n2, f2, g2 in ops:
                    rep.trace([key(ref), n1, n2] if idx % 301 == 0 else None, group="operands")
                    w.check(f2(q), g2(s), what + [n2], full=False)
                    w.check(f2(p), g2(ref), what + [n2, "of the same"], full=False)
                    w.check(q, s, what + [n2, "result"], full=False)
                    w.check(p, ref, what + [n2, "operand"], full=False)
                w.check(shared, r_add(ref, big[1]), what + ["shared"])
    w.check(*other, "other operand")
    w.check(*big, "other operand")


def run_scales(unit, rep, w):
    """Coefficients of all magnitudes. They are powers of two, so all results are exact, and polynomials
    are evaluated where only some of their terms are not zero."""
    ep = w.ep
    x, y = ep.var("x"), ep.var("y")
    cs = [s * 2.0**p for p in (-200, -60, -30, -27, -10, 0, 10, 30, 60, 200) for s in (1, -1)]
    forms = {
        "c*x+d*y": (lambda c, d: c * x + d * y, lambda c, d: {(1, 0): c, (0, 1): d}),
        "c*x**2+d*x": (lambda c, d: ep.const(c) * x**2 + ep.const(d) * x, lambda c, d: {(1, 0): c + d, (-1, 0): c - d}),
        "(c*x)*(d*y)": (lambda c, d: (c * x) * (d * y), lambda c, d: {(1, 1): c * d, (0, 1): 0}),
        "c-d*x": (lambda c, d: c - d * x, lambda c, d: {(0, 0): c, (1, 0): c - d}),
        "(c*x)**2-d": (lambda c, d: (c * x) ** 2 - d, lambda c, d: {(1, 0): c**2 - d, (0, 0): -d}),
        "subst": (lambda c, d: (c * x + y).substitute("y", d * y), lambda c, d: {(1, 0): c, (0, 1): d, (1, 1): c + d}),
        "collect": (lambda c, d: (ep.const(c) * x**2 + ep.const(d) * x).collect_for(ep.Factor("x", 2)), lambda c, d: {(1, 0): c}),
        "c*x+d*x": (lambda c, d: c * x + d * x, lambda c, d: {(1, 0): c + d}),
    }
    for name, (f, g) in forms.items():
        for c, d in itertools.product(cs, cs):
            rep.begin([name, c, d])
            p = f(c, d)
            for (a, b), want in g(c, d).items():
                v = float(p.eval(x=float(a), y=float(b)))
                rep.step()
                rep.true(abs(v - want) <= 1e-12 * abs(want), f"value at {a}, {b} is {v}, not {want}")
            rep.true(bool(p == f(c, d)), "equals itself")
            rep.state([name, c, d])
            rep.trace([name, c, d], group="scales")


def run_powers(unit, rep, w):
    ep = w.ep
    x, y, z = (ep.var(n) for n in NAMES)
    cases = {
        "x": (x, r_var(0)),
        "2": (ep.const(2), r_const(2)),
        "0": (ep.Poly(), {}),
        "x+1": (x + 1, {(1, 0, 0): 1, UNIT: 1}),
        "x-y": (x - y, {(1, 0, 0): 1, (0, 1, 0): -1}),
        "2xy": (2 * x * y, {(1, 1, 0): 2}),
        "xz-y+2": (x * z - y + 2, {(1, 0, 1): 1, (0, 1, 0): -1, UNIT: 2}),
    }
    for name, (p, r) in cases.items():
        for n in range(10):
            rep.begin([name, n])
            q, s = p**n, r_pow(r, n)
            small = tuple(v / 8 for v in w.pts)
            v = w.np.asarray(q.eval(**dict(zip(NAMES, small))), float)
            ref = w.np.asarray(r_eval(s, small), float)
            rep.close(v + 0 * small[0], ref + 0 * small[0], "value", rtol=1e-8, atol=1e-8)
            for m in NAMES:
                rep.true(q.highest_power(m) == max([k[NAMES.index(m)] for k in s], default=0), f"highest power of {m}")
            w.check(p, r, [name, n, "operand"])
            rep.step()
            rep.state([name, n])
            rep.trace([name, n], group="powers")
