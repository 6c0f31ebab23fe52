"""C17: power spectral density and autocorrelation estimates."""
import itertools

ID = "C17"
RULE = (
    "All kernels and series over an alphabet up to a length, with all paddings, spacings and options, are run through the implementation and compared with explicit sums of cosines and of products. "
    "Independently of the reference, the total power is checked to be the kernel at zero."
)
BOUNDS = {
    "quick": "kernels of lengths 2 to 5 over 2 x 5 values, 4 paddings, 3 spacings, dB or not; series of lengths 1 to 6 over 3 values (also of lengths up to 4 over 5 values), all numbers of lags up to the length plus one, windowed or not, covariances or correlations",
    "thorough": "kernels of lengths 2 to 6 over 2 x 5 values, 4 paddings, 3 spacings, dB or not; series of lengths 1 to 8 over 3 values (also of lengths up to 5 over 5 values), all numbers of lags up to the length plus one, windowed or not, covariances or correlations",
}
ASSUMPTIONS = ["the padded kernel has at least three points", "correlations of constant series are undefined", "PSDs in dB are compared where they exceed 1e-9 of the average"]

K0 = [1.0, 2.5]
KS = [-1.0, -0.4, 0.0, 0.5, 1.0]
PAD = [0, 1, 4, 7]
DT = [1.0, 0.3, 2.5]


def units(tier):
    q = tier == "quick"
    us = []
    for n in range(2, 6 if q else 7):
        for k0 in range(2):
            for k1 in range(5):
                us.append({"kind": "psd", "n": n, "k0": k0, "k1": k1})
    us.append({"kind": "psd_special"})
    for n in range(1, 7 if q else 9):
        us.append({"kind": "autocorr", "n": n, "alphabet": [-1.0, 0.0, 2.0]})
    for n in range(1, 5 if q else 6):
        us.append({"kind": "autocorr", "n": n, "alphabet": [-3.0, -0.5, 0.25, 1.0, 7.0]})
    us.append({"kind": "autocorr_special"})
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def check_psd(rep, t, k, n_zero, default=False, wrap=None):
    import numpy as np
    from gpcm.util import estimate_psd
    from mc.utilref import psd

    wrap = wrap or np.array
    dt = float(t[1] - t[0])
    f, p = psd(t, k, 2000 if default else n_zero)
    kw = {} if default else dict(n_zero=n_zero)
    ta, ka = wrap(t), wrap(k)
    g, s = estimate_psd(ta, ka, **kw)
    rep.step()
    rep.close(g, f, "frequencies", rtol=1e-10, atol=1e-12)
    scale = k[0] * dt  # Average of the PSD over all frequencies.
    rep.close(np.asarray(s) / scale, p / scale, "PSD", rtol=1e-9, atol=1e-10)
    # The total power over all frequencies is the kernel at zero.
    N = 2 * (len(k) + (2000 if default else n_zero)) - 2
    rep.true(np.array_equal(np.asarray(ka), k) and np.array_equal(np.asarray(ta), t), "inputs were modified")
    with np.errstate(divide="ignore"):
        gd, sd = estimate_psd(ta, ka, db=True, **kw)
    rep.step()
    rep.close(gd, f, "frequencies (dB)", rtol=1e-10, atol=1e-12)
    big = p > 1e-9 * scale
    rep.close(np.asarray(sd)[big], 10 * np.log10(p[big]), "PSD (dB)", rtol=1e-6, atol=1e-5)
    if len(k) > 1:
        # All but the zero and Nyquist frequencies occur twice. The latter is not returned: it can be computed from the sum of alternating signs.
        alt = abs(k[0] + 2 * sum(k[i] * (-1) ** i for i in range(1, len(k))) - (k[-1] * (-1) ** (len(k) - 1) if (0 if default else n_zero) == 0 and not default else 0))
        at0 = abs(k[0] + 2 * sum(k[1:]) - (k[-1] if not default and n_zero == 0 else 0))
        total = (2 * np.sum(s) - s[0]) / (N * dt)
        if at0 > 1e-9:
            total += s[0] * alt / at0 / (N * dt)
            rep.close(total, k[0], "total power", rtol=1e-8, atol=1e-9)


def run_psd(unit, rep):
    import numpy as np

    n = unit["n"]
    first = [K0[unit["k0"]], KS[unit["k1"]]]
    for rest in itertools.product(KS, repeat=n - 2):
        k = np.array(first + list(rest))
        for n_zero in PAD:
            if n + n_zero < 3:
                continue
            for dt in DT if n < 5 else DT[:1]:
                t = dt * np.arange(n)
                rep.begin([list(k), n_zero, dt])
                rep.state([list(k), n_zero, dt])
                check_psd(rep, t, k, n_zero)
                rep.trace([list(k), n_zero, dt], group=f"psd {n}")
        rep.outcome(list(k))


def run_psd_special(unit, rep):
    import jax.numpy as jnp
    import numpy as np
    from gpcm.util import estimate_psd

    # Default padding, and arrays of JAX.
    for ell in (0.5, 2.0):
        for n in (3, 10, 31):
            for dt in (0.1, 1.0):
                for scale in (1.0, 7.0):
                    t = dt * np.arange(n)
                    k = scale * np.exp(-0.5 * (t / ell) ** 2)
                    rep.begin([ell, n, dt, scale])
                    rep.state([ell, n, dt, scale])
                    check_psd(rep, t, k, 0, default=True)
                    check_psd(rep, t, k, 5, wrap=jnp.array)
                    rep.trace([ell, n, dt, scale], group="default padding")
    # Times that do not start at zero.
    for t0 in (1.0, -1.0, 1e-3, -0.5):
        for n in (2, 5):
            rep.begin(["offset", t0, n])
            for db in (False, True):
                try:
                    estimate_psd(t0 + np.arange(float(n)), np.ones(n), n_zero=4, db=db)
                    rep.fail("accepted times that do not start at zero")
                except ValueError:
                    pass
                rep.step()
            rep.trace(["offset", t0, n], group="rejected")


def check_autocorr(rep, x, n, arr):
    import numpy as np
    from gpcm.util import autocorr

    m = sum(x) / n
    c = [v - m for v in x]
    sums = [sum(c[i] * c[i + l] for i in range(n - l)) for l in range(n)]
    keep = np.array(arr).copy()
    for window in (False, True):
        ref = np.array([s / n if window else s / (n - l) for l, s in enumerate(sums)])
        for lags in [None] + list(range(n + 2)):
            want = ref if lags is None else ref[: lags + 1]
            kw = {} if lags is None else {"lags": lags}
            if window:
                kw["window"] = True
            rep.close(autocorr(arr, cov=True, **kw), want, f"covariances with {kw}", rtol=1e-9, atol=1e-11)
            rep.step()
            if sums[0] > 1e-9:
                got = autocorr(arr, **kw)
                rep.close(got, want / ref[0], f"correlations with {kw}", rtol=1e-9, atol=1e-11)
                rep.step()
    rep.true(np.array_equal(np.array(arr), keep), "input was modified")


def run_autocorr(unit, rep):
    import numpy as np

    for x in itertools.product(unit["alphabet"], repeat=unit["n"]):
        rep.begin(list(x))
        rep.state(list(x))
        check_autocorr(rep, x, unit["n"], np.array(x))
        rep.trace(list(x), group=f"autocorr {unit['n']}")


def run_autocorr_special(unit, rep):
    import jax.numpy as jnp
    import numpy as np

    for n in (1, 2, 4, 50):
        x = [((7 * i * i + 3 * i) % 11) - 4.5 for i in range(n)]
        for wrap in (np.array, jnp.array, lambda v: np.array(v)[:, None], lambda v: np.array(v)[None, :], lambda v: (2 * np.array(v)).astype(int) / 2):
            rep.begin([n, "special"])
            check_autocorr(rep, x, n, wrap(x)) if n < 50 else check_autocorr(rep, x, n, wrap(x))
            rep.trace([n, "special"], group="autocorr containers")
        xi = [int(2 * v) for v in x]
        rep.begin([n, "integers"])
        check_autocorr(rep, xi, n, np.array(xi))
        rep.trace([n, "integers"], group="autocorr containers")
