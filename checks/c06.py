"""C06: what the constructors derive from window, scale and the inputs of interest."""
import itertools

ID = "C06"
RULE = (
    "Exhaustive product of constructor keyword settings. For every configuration all derived "
    "attributes (parameters, scales, extent, inducing points, frequencies, counts) and warnings are "
    "compared with a reference written from the documentation, and the derived model is "
    "checked to have unity prior power and unit-variance transforms."
)
BOUNDS = {
    "quick": "3 models x 3 windows x 3 scales x 5 n_u x 4 n_z x extension on/off x 6 forms of t x caps; every single explicit override",
    "thorough": "3 models x 5 windows x 5 scales x 8 n_u x 6 n_z x extension on/off x 8 forms of t x caps",
}
ASSUMPTIONS = ["scale <= window, at least two inducing points per automatically placed grid"]


def units(tier):
    w = (0.5, 2, 3.3) if tier == "quick" else (0.2, 0.5, 2, 3.3, 10)
    us = [{"kind": "grid", "model": m, "window": x, "tier": tier} for m in ("GPCM", "CGPCM", "RGPCM") for x in w]
    us += [{"kind": "explicit", "model": m} for m in ("GPCM", "CGPCM", "RGPCM")]
    return us


def forms(tier):
    import numpy as np

    out = {
        "limits": (0, 10),
        "list": [3.0, 1.0, 2.5, -1.0],
        "array": np.linspace(-5, 5, 7),
        "neg": np.array([-9.0, -4.5]),
        "int": np.arange(4),
        "inside": [0.0, 4.0, 2.0],
    }
    if tier == "thorough":
        out["short"] = (0, 0.7)
        out["range"] = range(3, 8)
    return out


def f(scale):
    import numpy as np

    return np.pi / (4 * scale**2)


def expect_gpcm(causal, kw):
    """Reference for GPCM and CGPCM."""
    import numpy as np

    e = {"warn": 0}
    w, s = kw.get("window"), kw.get("scale")
    t = None if kw.get("t") is None else [float(x) for x in kw["t"]]
    e["alpha"] = kw.get("alpha") if kw.get("alpha") is not None else f(w)
    # Unity power: the integral of the squared window is one.
    power = np.sqrt(np.pi / (2 * e["alpha"])) / (2 if causal else 1)
    e["alpha_t"] = kw.get("alpha_t") if kw.get("alpha_t") is not None else power**-0.5
    e["gamma"] = kw.get("gamma") if kw.get("gamma") is not None else f(s) - e["alpha"] / 2
    e["noise"] = kw.get("noise", 5e-2)
    # Length scale of the window implied by alpha.
    length = np.sqrt(np.pi / (4 * e["alpha"]))
    e["extent"] = 4 * length
    if kw.get("t_u") is not None:
        e["t_u"] = np.array(kw["t_u"])
    else:
        n = kw.get("n_u")
        if n is None:
            n = int(np.ceil(4 * w / s))
            cap = kw.get("n_u_cap", 300)
            if n > cap:
                n = cap
                e["warn"] += 1
        if causal:
            d = 2 * length / (n - 1)
            e["t_u"] = d * (np.arange(n + 2) - 2)
        else:
            n += 1 - n % 2
            e["t_u"] = 2 * length * (2 * np.arange(n) / (n - 1) - 1)
    if kw.get("t_z") is not None:
        e["t_z"] = np.array(kw["t_z"])
    else:
        n = kw.get("n_z")
        if n is None:
            n = int(np.ceil(2 * (max(t) - min(t)) / s))
            cap = kw.get("n_z_cap", 300)
            if n > cap:
                n = cap
                e["warn"] += 1
        d = (max(t) - min(t)) / (n - 1)
        k = int(np.ceil(2 * length / d)) if kw.get("extend_t_z") else 0
        right = 0 if causal else k
        e["t_z"] = min(t) + d * np.arange(-k, n + right)
    e["n_u"], e["n_z"] = len(e["t_u"]), len(e["t_z"])
    e["omega"] = kw.get("omega") if kw.get("omega") is not None else f((e["t_z"][1] - e["t_z"][0]) / 2)
    e["omega_t"] = (2 * e["omega"] / np.pi) ** 0.25
    return e


def expect_rgpcm(kw):
    import numpy as np

    e = {"warn": 0}
    w, s = kw.get("window"), kw.get("scale")
    t = None if kw.get("t") is None else [float(x) for x in kw["t"]]
    e["alpha"] = kw.get("alpha") if kw.get("alpha") is not None else 1 / w
    e["alpha_t"] = kw.get("alpha_t") if kw.get("alpha_t") is not None else np.sqrt(2 * e["alpha"])
    e["lam"] = kw.get("lam") if kw.get("lam") is not None else 1 / s
    e["noise"] = kw.get("noise", 5e-2)
    e["extent"] = 4 / e["alpha"]
    if kw.get("t_u") is not None:
        e["t_u"] = np.array(kw["t_u"])
    else:
        n = kw.get("n_u")
        if n is None:
            n = int(np.ceil(4 * w / s))
            cap = kw.get("n_u_cap", 300)
            if n > cap:
                n = cap
                e["warn"] += 1
        e["t_u"] = np.pi / e["alpha"] * np.arange(n) / (n - 1)
    e["a"] = kw["a"] if kw.get("a") is not None else min(t) - max(e["t_u"])
    e["b"] = kw["b"] if kw.get("b") is not None else max(t)
    if kw.get("m_max") is not None:
        m = kw["m_max"]
    elif kw.get("n_z") is not None:
        m = int(np.ceil(kw["n_z"] / 2))
    else:
        m = int(np.ceil((e["b"] - e["a"]) / s))
        cap = kw.get("m_max_cap", 150)
        if m > cap:
            m = cap
            e["warn"] += 1
    e["m_max"] = m
    e["ms"] = np.array(kw["ms"]) if kw.get("ms") is not None else np.arange(2 * m + 1)
    e["n_u"], e["n_z"] = len(e["t_u"]), len(e["ms"])
    g = kw.get("gamma") if kw.get("gamma") is not None else 1 / (2 * (e["t_u"][1] - e["t_u"][0]))
    e["gamma"] = min(g, e["alpha"] / 1.5)
    e["gamma_t"] = kw.get("gamma_t") if kw.get("gamma_t") is not None else np.sqrt(2 * e["gamma"])
    return e


def construct(name, kw):
    import warnings
    from mc.models import classes

    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        m = classes()[name](**kw)
    return m, [w for w in ws if issubclass(w.category, UserWarning)]


def compare(name, kw, rep, case, power=True):
    import numpy as np

    rep.begin(case)
    t_before = None if kw.get("t") is None else [float(x) for x in kw["t"]]
    m, ws = construct(name, kw)
    if t_before is not None:
        rep.true([float(x) for x in kw["t"]] == t_before, "the input t was modified")
    e = expect_rgpcm(kw) if name == "RGPCM" else expect_gpcm(name == "CGPCM", kw)
    rep.step()
    for k, v in e.items():
        if k == "warn":
            rep.true(len(ws) == v, f"{len(ws)} warnings, expected {v}")
        else:
            rep.close(getattr(m, k), v, k, rtol=1e-9, atol=1e-9)
    if power and kw.get("alpha_t") is None:
        rep.close(float(np.reshape(m.compute_i_hx(), ())), 1.0, "prior power", rtol=1e-7)
    if name == "RGPCM":
        if kw.get("gamma_t") is None and m.n_u < 20:
            rep.close(np.diag(np.array(m.compute_K_u().mat)), np.ones(m.n_u), "variance of the transform", rtol=1e-7)
        rep.true(m.gamma < m.alpha, "gamma is not smaller than alpha")
    elif len(m.t_z) < 20:
        rep.close(np.diag(np.array(m.compute_K_z().mat)), np.ones(len(m.t_z)), "variance of the transform", rtol=1e-7)
    rep.state(case)
    rep.outcome([m.n_u, m.n_z, round(float(m.alpha), 6)])
    return m


def run(unit, rep):
    import numpy as np

    name = unit["model"]
    if unit["kind"] == "explicit":
        return run_explicit(name, rep)
    tier = unit["tier"]
    w = unit["window"]
    scales = (0.25, 0.5, 1.0) if tier == "quick" else (0.05, 0.25, 0.5, 0.77, 1.0)
    nus = (None, 2, 3, 8, 11) if tier == "quick" else (None, 2, 3, 4, 7, 8, 11, 30)
    nzs = (None, 2, 7, 8) if tier == "quick" else (None, 2, 3, 7, 8, 25)
    k = 0
    for s, n_u, n_z, ext, (tn, t) in itertools.product(scales, nus, nzs, (False, True), forms(tier).items()):
        s = s * w
        for cap in (None, 5):
            if cap and (n_u is not None and n_z is not None):
                continue
            kw = dict(window=w, scale=s, n_u=n_u, n_z=n_z, t=t, extend_t_z=ext)
            if cap:
                kw.update({"n_u_cap": cap, ("m_max_cap" if name == "RGPCM" else "n_z_cap"): cap})
            if name != "RGPCM" and n_z is None and np.ceil(2 * (max(t) - min(t)) / s) < 2:
                continue
            k += 1
            case = [name, w, s, n_u, n_z, ext, tn, cap]
            compare(name, kw, rep, case)
            rep.trace(case if k % 501 == 0 else None, group=name)


def run_explicit(name, rep):
    """Every keyword given explicitly wins over its default, alone and in pairs."""
    import numpy as np

    base = dict(window=2, scale=1, t=(0, 4), n_u=3, n_z=4)
    if name == "RGPCM":
        over = dict(
            noise=0.3, alpha=0.9, alpha_t=1.7, lam=2.2, gamma=0.1, gamma_t=0.4, a=-20.0, b=6.0,
            m_max=2, ms=np.array([3, 0, 1]), t_u=np.array([0.0, 0.4, 1.2, 1.3]), scale=0.5, window=3,
            n_u_cap=1, m_max_cap=1, extend_t_z=True,
        )
    else:
        over = dict(
            noise=0.3, alpha=0.9, alpha_t=1.7, gamma=2.5, omega=3.0, t_u=np.array([-1.0, 0.4, 1.2, 1.3]),
            t_z=np.array([0.0, 0.5, 2.0]), scale=0.5, window=3, n_u_cap=1, n_z_cap=1,
        )
    for n in range(3):
        for ks in itertools.combinations(sorted(over), n):
            kw = {**base, **{k: over[k] for k in ks}}
            if "t_u" in ks:
                kw.pop("n_u")
            if "t_z" in ks:
                kw.pop("n_z")
            compare(name, kw, rep, [name, "override", list(ks)])
            rep.trace([name, "override", list(ks)] if n == 2 else None, group="override")
            for flag in ("fix_noise", "fix_window", "fix_scale"):
                m, _ = construct(name, {**kw, flag: True})
                got = [getattr(m, x) for x in ("fix_noise", "fix_window", "fix_scale")]
                rep.true(got == [x == flag for x in ("fix_noise", "fix_window", "fix_scale")], f"{flag} not honoured")
                rep.step()
    # Only low-level parameters, without window, scale and t.
    if name == "RGPCM":
        kw = dict(alpha=0.5, lam=1.0, gamma=0.2, t_u=np.array([0.0, 1.0]), m_max=2, a=-3.0, b=5.0)
    else:
        kw = dict(alpha=0.5, gamma=1.0, t_u=np.array([0.0, 1.0]), t_z=np.array([0.0, 0.5, 1.0]))
    compare(name, kw, rep, [name, "low level"])
    if name != "RGPCM":
        from mc.models import classes

        G = classes()["GPCM"]
        m = G(causal=name == "CGPCM", **base)
        e = expect_gpcm(name == "CGPCM", base)
        rep.close(m.t_u, e["t_u"], "causal keyword: t_u", rtol=1e-9, atol=1e-9)
        rep.close(m.alpha_t, e["alpha_t"], "causal keyword: alpha_t")
        rep.true(bool(m.causal) == (name == "CGPCM"), "causal keyword")
    rep.true(classes_name(name), "name")


def classes_name(name):
    from mc.models import classes

    return classes()[name].name == name
