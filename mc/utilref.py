"""Reference for gpcm.util: explicit sums in plain NumPy."""
import numpy as np


def psd(t, k, n_zero):
    """Frequencies and PSD, scaled such that the total power over all frequencies is k[0]."""
    k = np.concatenate([np.asarray(k, dtype=float), np.zeros(n_zero)])
    dt = float(t[1]) - float(t[0])
    L = len(k)
    N = 2 * L - 2
    c = np.array([k[i] if i < L else k[N - i] for i in range(N)])
    if N <= 512:
        jn = np.outer(np.arange(N), np.arange(N)) % N
        p = np.abs(np.cos(2 * np.pi * jn / N) @ c)
    else:
        # Explicit sums over the nonzero part only.
        nz = np.nonzero(k)[0]
        j = np.arange(N)
        p = np.zeros(N)
        for i in nz:
            p += (k[i] if i in (0, L - 1) else 2 * k[i]) * np.cos(2 * np.pi * ((i * j) % N) / N)
        p = np.abs(p)
    f = np.arange(N // 2) / (N * dt)
    df = 1 / (N * dt)
    p = p / (np.sum(p) * df / k[0])
    return f, p[: N // 2]


def quantile(xs, q):
    """Quantile by linear interpolation along the first axis."""
    xs = np.sort(np.asarray(xs, dtype=float), axis=0)
    pos = q * (len(xs) - 1)
    i = int(np.floor(pos + 1e-12))
    i = min(i, len(xs) - 1)
    w = max(pos - i, 0.0)
    return xs[i] if i == len(xs) - 1 else (1 - w) * xs[i] + w * xs[i + 1]


def db(x):
    with np.errstate(all="ignore"):
        return 10 * np.log10(x)


def summary(x, samples, in_db=False):
    samples = np.asarray(samples, dtype=float)
    tr = db if in_db else (lambda v: v)
    S = len(samples)
    mean = sum(samples) / S
    out = dict(x=np.asarray(x), mean=tr(mean), all_samples=tr(np.moveaxis(samples, 0, -1)))
    if not in_db:
        out["var"] = sum((s - mean) ** 2 for s in samples) / S
    for p, lo in ((68, 0.16), (95, 0.025), (99, 0.0015)):
        out[f"err_{p}_lower"] = tr(quantile(samples, lo))
        out[f"err_{p}_upper"] = tr(quantile(samples, 1 - lo))
    return out


def check_summary(rep, got, x, samples, in_db=False, what="summary", rtol=1e-7, atol=1e-9):
    """Compare a summary with the reference, including the random subset of samples."""
    want = summary(x, samples, in_db)
    for k, v in want.items():
        finite = np.isfinite(v)
        g = np.asarray(getattr(got, k))
        if not rep.true(g.shape == np.shape(v), f"{what}: shape of {k} is {g.shape}, expected {np.shape(v)}"):
            continue
        rep.close(np.where(finite, g, 0), np.where(finite, v, 0), f"{what}: {k}", rtol=rtol, atol=atol)
    sub, full = np.asarray(got.samples), np.asarray(got.all_samples)
    S = len(samples)
    if rep.true(sub.shape == full.shape[:-1] + (min(S, 3),), f"{what}: shape of samples is {sub.shape}"):
        # Every column is one of the samples, and they are distinct ones.
        match = [[j for j in range(S) if np.array_equal(sub[..., i], full[..., j], equal_nan=True)] for i in range(sub.shape[-1])]
        rep.true(_distinct(match), f"{what}: not distinct samples: {match}")


def _distinct(match, used=()):
    if not match:
        return True
    return any(j not in used and _distinct(match[1:], used + (j,)) for j in match[0])


def psd_closest(a):
    a = np.asarray(a, dtype=float)
    w, v = np.linalg.eigh((a + a.T) / 2)
    return (v * np.maximum(w, 0)) @ v.T
