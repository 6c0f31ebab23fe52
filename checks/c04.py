"""C04: covariance integrals of the RGPCM."""
import itertools

ID = "C04"
RULE = (
    "Exhaustive product of parameter values x inducing-point layouts x frequency sets (all "
    "permutations of the full set for M=1, permutations and subsets for M=2,3) x time layouts. Every "
    "entry is compared with quadrature of its defining integral; the double exponential integral is "
    "also explored on the full grid of sign and tie patterns of its bounds."
)
BOUNDS = {
    "quick": "8 parameter settings; 5 inducing-point layouts; all 6 permutations and all subsets of {0..2}, 20 permutations/subsets of {0..4}, 4 of {0..6}, M=5 and 8 with all features, permuted, and subsets; 5 time layouts; 7^2 bounds x 3 decays for the double integral",
    "thorough": "24 parameter settings, all 120 permutations and all 31 subsets of {0..4}, M up to 16",
}
ASSUMPTIONS = [
    "times within [a + max(t_u), b], gamma < alpha, and alpha - gamma different from lambda",
    "model equations as in the documentation: OU excitation, exponentially decaying white-noise filter, variational Fourier features",
]
TUS = {
    "grid": [0.0, 0.6, 1.2],
    "one": [0.7],
    "unsorted": [1.1, 0.0, 0.4],
    "close": [0.2, 0.25],
    "zero": [0.0],
}
TS = {
    "grid": [0.0, 0.5, 1.0, 3.0],
    "dup": [0.7, 0.7],
    "desc": [2.0, 1.0, 0.0],
    "one": [0.3],
    "int": [0, 1, 2],
}


def msets(tier):
    out = []
    for p in itertools.permutations(range(3)):
        out.append((1, list(p)))
    for n in (1, 2):
        for s in itertools.combinations(range(3), n):
            out.append((1, list(s)))
    perms = list(itertools.permutations(range(5)))
    subs = [list(s) for n in range(1, 6) for s in itertools.combinations(range(5), n)]
    if tier == "quick":
        perms = perms[::13]
        subs = subs[::3]
    out += [(2, list(p)) for p in perms] + [(2, s) for s in subs]
    out += [(3, list(range(7))), (3, [6, 0, 3, 1, 5, 2, 4]), (3, [4, 1]), (3, [5, 0, 6])]
    # Larger numbers of features.
    for m in (5, 8) if tier == "quick" else (4, 5, 6, 8, 11, 16):
        n = 2 * m + 1
        out += [(m, list(range(n))), (m, [(3 * i + m) % n for i in range(n)] if n % 3 else list(range(n))[::-1])]
        out += [(m, [m, 2 * m, 0, m + 1, 1, m - 1]), (m, [m]), (m, [2 * m, m])]
    return out


def params(tier):
    alphas = (0.6, 2.1)
    for a in alphas:
        for gr in (0.3, 0.6) if tier == "quick" else (0.1, 0.3, 0.6):
            for lam in (0.35, 1.7):
                for at, gt in ((None, None),) if tier == "quick" else ((None, None), (0.7, 1.3)):
                    yield a, gr * a, lam, at, gt
    if tier == "quick":
        yield 0.6, 0.2, 0.9, 0.7, 1.3


def units(tier):
    us = [{"kind": "ux", "t_u": k, "tier": tier} for k in TUS]
    us += [{"kind": "z", "shard": i, "n": 16, "tier": tier} for i in range(16)]
    us += [{"kind": "abcd"}, {"kind": "instance"}]
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


TOL = dict(rtol=1e-6, atol=1e-8)


def make(alpha, g, lam, at, gt, t_u, m_max, ms, T=(0, 3), **kw):
    import numpy as np
    from gpcm import RGPCM

    if at is not None:
        kw["alpha_t"] = at
    if gt is not None:
        kw["gamma_t"] = gt
    return RGPCM(alpha=alpha, gamma=g, lam=lam, t_u=np.array(t_u), m_max=m_max, ms=None if ms is None else np.array(ms), t=T, **kw)


def sym(x):
    import numpy as np
    from mc.core import to_np

    x = to_np(x)
    return (x + np.swapaxes(x, -1, -2)) / 2


def run_ux(unit, rep):
    import numpy as np
    from mc.refrgpcm import Ref

    t_u = TUS[unit["t_u"]]
    cache = {}
    for a, g, lam, at, gt in params(unit["tier"]):
        m = make(a, g, lam, at, gt, t_u, 2, None)
        r = Ref.of(m)
        base = [a, g, lam, at, gt, unit["t_u"]]
        rep.begin(base)
        rep.close(m.alpha_t, np.sqrt(2 * a) if at is None else at, "alpha_t")
        rep.close(m.gamma_t, np.sqrt(2 * g) if gt is None else gt, "gamma_t")
        rep.close(m.compute_K_u(), r.K_u(), "K_u", **TOL)
        rep.close(m.compute_i_hx(), r.i_hx(0.0, 0.0), "i_hx()", **TOL)
        cache = {}

        def ref(v, w):
            d = round(v - w, 12)
            if d not in cache:
                cache[d] = r.I_ux(d, 0.0)
            return cache[d]

        rep.close(m.compute_I_ux(), ref(0.0, 0.0), "I_ux()", **TOL)
        rep.step(4)
        for tn in ("grid", "desc", "dup", "one", "int"):
            t = np.array(TS[tn])
            v = [float(q) for q in t]
            case = base + [tn]
            rep.begin(case)
            rep.close(m.compute_i_hx(t, t), np.array([r.i_hx(p, p) for p in v]), "i_hx", **TOL)
            rep.close(
                m.compute_i_hx(t[:, None], t[None, :]),
                np.array([[r.i_hx(p, q) for q in v] for p in v]),
                "i_hx outer",
                **TOL,
            )
            rep.close(m.compute_i_hx(t1=t), np.array([r.i_hx(p, 0.0) for p in v]), "i_hx(t1)", **TOL)
            rep.close(m.compute_i_hx(t2=t), np.array([r.i_hx(0.0, p) for p in v]), "i_hx(t2)", **TOL)
            full = m.compute_I_ux(t, t)
            rep.close(sym(full), np.array([[ref(p, q) for q in v] for p in v]), "I_ux(t, t)", **TOL)
            # Swapping the times transposes the matrix.
            rep.close(np.swapaxes(np.swapaxes(np.array(full), 0, 1), -1, -2), full, "I_ux transposition", **TOL)
            rep.close(sym(m.compute_I_ux(t1=t)), np.array([ref(p, 0.0) for p in v]), "I_ux(t1)", **TOL)
            rep.close(sym(m.compute_I_ux(t2=t)), np.array([ref(0.0, p) for p in v]), "I_ux(t2)", **TOL)
            rep.step(8)
            rep.state(case)
            rep.trace(case if tn == "dup" else None, group="ux")
            rep.outcome([round(float(q), 6) for q in np.array(full).ravel()[:3]])


def run_z(unit, rep):
    import numpy as np
    from mc.refrgpcm import Ref

    idx = 0
    for m_max, ms in msets(unit["tier"]):
        for k, (a, g, lam, at, gt) in enumerate(params(unit["tier"])):
            if m_max > 3 and k % 4:
                continue
            for tun in ("grid", "one", "unsorted"):
                idx += 1
                if idx % unit["n"] != unit["shard"]:
                    continue
                m = make(a, g, lam, at, gt, TUS[tun], m_max, ms, **({} if k % 2 else {"a": -1.4, "b": 3.5}))
                r = Ref.of(m)
                base = [a, g, lam, at, gt, m_max, ms, tun]
                rep.begin(base)
                rep.true(m.n_z == len(ms), "n_z is not the number of features")
                rep.close(m.compute_K_z(), r.K_z(), "K_z", **TOL)
                every = sorted({float(q) for t in TS.values() for q in t})
                hz, uz = r.I_hz(every), r.I_uz(every)
                for tn in TS if m_max < 4 else ("grid", "desc"):
                    t = np.array(TS[tn])
                    at = [every.index(float(q)) for q in t]
                    rep.begin(base + [tn])
                    rep.close(m.compute_I_hz(t), hz[at], "I_hz", **TOL)
                    rep.close(m.compute_I_uz(t), uz[at], "I_uz", **TOL)
                    rep.step(2)
                    rep.state(base + [tn])
                rep.step()
                rep.state(base)
                rep.trace(base if idx % 53 == 0 else None, group=f"M={m_max}")
                rep.outcome([float(q) for q in r.K_z().ravel()[:3].round(6)])


def run_abcd(unit, rep):
    """All sign and tie patterns of the bounds of the double exponential integral, if the code
    exposes it, and always through the integral that uses it."""
    import numpy as np
    import gpcm.rgpcm as mod
    from mc.quad import breaks

    vals = (-1.3, -0.4, 0.0, 0.4, 0.9, 1.3, 1e-9)

    def ref(a, b, c, d):
        # int_0^a int_0^b exp(c (x + y) - d |x - y|)
        x, wx = breaks([0, a] + [p for p in (b,) if min(0, a) < p < max(0, a)], panels=4)
        tot = 0.0
        for xi, wi in zip(x, wx):
            y, wy = breaks([0, b] + ([xi] if min(0, b) < xi < max(0, b) else []), panels=3)
            tot += wi * (wy * np.exp(c * (xi + y) - d * np.abs(xi - y))).sum()
        return tot * (1 if a >= 0 else -1) * (1 if b >= 0 else -1)

    f = getattr(mod, "integral_abcd", None)
    flu = getattr(mod, "integral_abcd_lu", None)
    for c, d in ((-0.4, 1.1), (0.7, 0.2), (-1.5, 0.3)):
        table = {(a, b): ref(a, b, c, d) for a in vals for b in vals}
        for a, b in itertools.product(vals, repeat=2):
            case = ["abcd", a, b, c, d]
            rep.begin(case)
            if f is not None:
                rep.close(f(np.array(a), np.array(b), c, d), table[a, b], "integral", rtol=1e-6, atol=1e-9)
            rep.step()
            rep.state(case)
            rep.trace(case if a == b else None, group="abcd")
            rep.outcome(round(table[a, b], 9))
        if flu is not None:
            sub = (-1.3, -0.4, 0.0, 0.9)
            for al, au, bl, bu in itertools.product(sub, repeat=4):
                case = ["abcd_lu", al, au, bl, bu, c, d]
                rep.begin(case)
                want = table[au, bu] + table[al, bl] - table[au, bl] - table[al, bu]
                rep.close(
                    flu(np.array(al), np.array(au), np.array(bl), np.array(bu), c, d), want, "integral", rtol=1e-6, atol=1e-8
                )
                rep.step()
                rep.state(case)
                rep.trace(group="abcd_lu")


def run_instance(unit, rep):
    import numpy as np
    import jax.numpy as jnp
    from mc.refrgpcm import Ref

    for a, g, lam in ((0.6, 0.3, 1.7), (2.1, 0.6, 0.35)):
        for tun in ("grid", "unsorted"):
            for m_max, ms in ((2, [0, 1, 2, 3, 4]), (2, [3, 0, 1, 4])):
                m = make(a, g, lam, None, None, TUS[tun], m_max, ms, scheme="mean-field")
                i = m()
                r, ri = Ref.of(m), Ref.of(i)
                base = ["instance", a, g, lam, tun, ms]
                rep.begin(base)
                for n in ("alpha", "alpha_t", "lam", "gamma", "gamma_t"):
                    rep.close(getattr(ri, n), getattr(r, n), n)
                rep.close(ri.t_u, r.t_u, "t_u")
                t = np.array([1.0, 0.2, 2.5])
                jt = jnp.array(t)
                rep.close(i.K_u, r.K_u(), "K_u", **TOL)
                rep.close(i.K_z, r.K_z(), "K_z", **TOL)
                rep.close(i.compute_I_hz(jt), r.I_hz(t), "I_hz", **TOL)
                rep.close(i.compute_I_uz(jt), r.I_uz(t), "I_uz", **TOL)
                rep.close(i.compute_I_ux(), r.I_ux(0, 0), "I_ux", **TOL)
                rep.close(sym(i.compute_I_ux(jt[:1], jt[1:2])), r.I_ux(1.0, 0.2)[None, None], "I_ux(t1, t2)", **TOL)
                rep.close(i.compute_i_hx(jt, jt), np.array([r.i_hx(0, 0)] * 3), "i_hx", **TOL)
                rep.step(7)
                rep.state(base)
                rep.trace(base, group="instance")
