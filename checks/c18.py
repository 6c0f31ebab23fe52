"""C18: summaries of samples and minimum-phase filters."""
import itertools

ID = "C18"
RULE = (
    "All small arrays of samples over an alphabet are summarised by the implementation, for every outcome of its random permutation, and compared with statistics written with explicit sums and sorting. All short "
    "filters over an alphabet are transformed: the magnitude of the spectrum is compared with that of the input, and shifted, negated and scaled inputs with each other. All products of up to three zeros inside and outside the unit circle "
    "are compared with the product of the zeros reflected inside."
)
BOUNDS = {
    "quick": "samples of shapes (S, n) for S up to 5 and S n up to 6 over 3 values, samples of ranks 1 to 4, all permutations of up to 5 samples; filters of lengths 1 to 6 over 4 values with spectrum above 1e-3; products of up to 3 out of 8 real or 4 complex zeros",
    "thorough": "samples of shapes (S, n) for S up to 6 and S n up to 8 over 3 values, samples of ranks 1 to 4, all permutations of up to 6 samples; filters of lengths 1 to 8 over 4 values with spectrum above 1e-3; products of up to 4 out of 8 real or 4 complex zeros",
}
ASSUMPTIONS = ["the variance in dB is not a claim", "filters that are compared with products of zeros are zero padded, so aliasing of the cepstrum is negligible"]

VALUES = [0.5, 1.0, 4.0]
TAPS = [-1.0, 0.0, 0.5, 2.0]
REAL = [0.4, -0.4, 0.7, -0.7, 1 / 0.4, -1 / 0.4, 1 / 0.6, -1 / 0.6]
COMPLEX = [0.3 + 0.5j, -0.6 + 0.2j, 1 / (0.3 + 0.5j), 1 / (-0.6 + 0.2j)]


def units(tier):
    q = tier == "quick"
    us = []
    for S in range(1, 6 if q else 7):
        for n in range(1, 5):
            if S * n <= (6 if q else 8):
                us.append({"kind": "summary", "S": S, "n": n})
    us.append({"kind": "permutations", "S": 5 if q else 6})
    us.append({"kind": "vectors"})
    us.append({"kind": "ranks"})
    for n in range(1, 7 if q else 9):
        for a in range(4):
            us.append({"kind": "filters", "n": n, "first": a})
    for d in range(0, 4 if q else 5):
        us.append({"kind": "zeros", "degree": d})
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def run_summary(unit, rep):
    import numpy as np
    from gpcm.util import summarise_samples
    from mc.utilref import check_summary

    S, n = unit["S"], unit["n"]
    x = 0.5 * np.arange(n)
    for vals in itertools.product(VALUES, repeat=S * n):
        s = np.array(vals).reshape(S, n)
        rep.begin([S, n, vals])
        rep.state([S, n, vals])
        for db in (False, True):
            keep = s.copy()
            got = summarise_samples(x, s, db=db) if db else summarise_samples(x, s)
            check_summary(rep, got, x, keep, in_db=db, what="dB" if db else "linear")
            rep.true(np.array_equal(s, keep), "samples were modified")
            rep.step()
        rep.outcome(sorted(vals))
        rep.trace([S, n, vals], group=f"({S}, {n})")


def run_permutations(unit, rep):
    """Every outcome of the random permutation, by replacing it."""
    import jax.numpy as jnp
    import numpy as np
    from gpcm.util import summarise_samples
    from mc.utilref import check_summary

    old = np.random.permutation
    for S in range(1, unit["S"] + 1):
        s = np.array([[1.0 + i, 10.0 - i, 3.0 + ((2 * i) % 5)] for i in range(S)])
        x = np.array([0.0, 1.0, 2.0])
        for p in itertools.permutations(range(S)):
            rep.begin([S, p])
            rep.state([S, p])
            np.random.permutation = lambda k, p=p: np.array(p) if np.ndim(k) == 0 else np.array(k)[list(p)]
            try:
                got = summarise_samples(x, s)
                gotj = summarise_samples(jnp.array(x), jnp.array(s), db=True)
            finally:
                np.random.permutation = old
            check_summary(rep, got, x, s)
            check_summary(rep, gotj, x, s, in_db=True, what="JAX")
            rep.true(isinstance(gotj.mean, np.ndarray) and isinstance(gotj.x, np.ndarray), "expected NumPy arrays")
            rep.step(2)
            rep.trace([S, p], group="permutations")
        for seed in range(40):
            rep.begin([S, "seed", seed])
            np.random.seed(seed)
            check_summary(rep, summarise_samples(x, s), x, s)
            rep.step()
            rep.trace([S, "seed", seed], group="seeds")


def run_vectors(unit, rep):
    """Many samples, and large and close ones."""
    import numpy as np
    from gpcm.util import summarise_samples
    from mc.utilref import check_summary

    for S in (7, 40, 41, 1000, 1001):
        for scale in (1e-3, 1.0, 1e4):
            s = scale * (1.5 + np.sin(np.arange(S)[:, None] * np.array([1.0, 0.37, 2.2])[None, :]))
            x = np.array([3.0, -1.0, 0.5])
            for db in (False, True):
                rep.begin([S, scale, db])
                rep.state([S, scale, db])
                check_summary(rep, summarise_samples(x, s, db=db), x, s, in_db=db, rtol=1e-9, atol=1e-10)
                rep.step()
                rep.trace([S, scale, db], group="many samples")


def run_ranks(unit, rep):
    """Samples of numbers and of matrices: the last dimension of the output is over samples."""
    import numpy as np
    from gpcm.util import summarise_samples
    from mc.utilref import _distinct, summary

    for shape in itertools.chain(((S,) for S in range(1, 6)), itertools.product((1, 2, 3, 4, 5), (1, 2, 3, 4), (1, 2, 4)), ((5, 2, 3, 2), (2, 3, 1, 4))):
        s = 1.5 + np.sin(1 + 1.7 * np.arange(np.prod(shape, dtype=int))).reshape(shape)
        x = np.arange(shape[1] if len(shape) > 1 else 1)
        for db in (False, True):
            case = ["rank", list(shape), db]
            rep.begin(case)
            got = summarise_samples(x, s, db=db)
            rep.step()
            for k, v in summary(x, s, db).items():
                if k != "all_samples":
                    g = np.asarray(getattr(got, k))
                    if rep.true(g.shape == np.shape(v), f"shape of {k} is {g.shape}, expected {np.shape(v)}"):
                        rep.close(g, v, k)
            full, sub = np.asarray(got.all_samples), np.asarray(got.samples)
            ref = 10 * np.log10(s) if db else s
            ref = np.transpose(ref)
            if rep.true(full.shape == ref.shape, f"shape of all_samples is {full.shape}, expected {ref.shape}"):
                rep.close(full, ref, "all_samples")
            if rep.true(sub.shape == ref.shape[:-1] + (min(shape[0], 3),), f"shape of samples is {sub.shape}"):
                match = [[j for j in range(shape[0]) if np.allclose(sub[..., i], ref[..., j], rtol=1e-12)] for i in range(sub.shape[-1])]
                rep.true(_distinct(match), f"not distinct samples: {match}")
            rep.state(case)
            rep.trace(case, group="ranks")


def run_filters(unit, rep):
    import jax.numpy as jnp
    import numpy as np
    from gpcm.util import min_phase

    n = unit["n"]
    for i, rest in enumerate(itertools.product(TAPS, repeat=n - 1)):
        h = np.array([TAPS[unit["first"]], *rest])
        mag = np.abs(np.fft.fft(h))
        if np.min(mag) < 1e-3:
            continue
        case = list(h)
        rep.begin(case)
        rep.state(case)
        keep = h.copy()
        g = np.asarray(min_phase(h))
        rep.true(g.dtype.kind == "f", "expected a real filter")
        rep.close(np.abs(np.fft.fft(g)), mag, "magnitude of the spectrum", rtol=1e-8, atol=1e-9)
        rep.close(min_phase(-h), g, "not invariant to the sign", rtol=1e-8, atol=1e-9)
        rep.close(min_phase(2.5 * h), 2.5 * g, "not equivariant to the scale", rtol=1e-8, atol=1e-9)
        for s in range(1, n):
            rep.close(min_phase(np.roll(h, s)), g, f"not invariant to a shift by {s}", rtol=1e-7, atol=1e-8)
        rep.close(min_phase(h[::-1].copy()), g, "not invariant to reversal", rtol=1e-7, atol=1e-8)
        rep.close(min_phase(g), g, "not idempotent", rtol=1e-7, atol=1e-8)
        if i % 16 == 0:
            rep.close(min_phase(jnp.array(h)), g, "differs for JAX", rtol=1e-8, atol=1e-9)
        rep.true(np.array_equal(h, keep), "input was modified")
        rep.step(n + 5)
        rep.outcome(np.round(g, 6))
        rep.trace(case, group=f"filters {n}")


def run_zeros(unit, rep):
    import numpy as np
    from gpcm.util import min_phase

    zeros = [[z] for z in REAL] + [[z, np.conj(z)] for z in COMPLEX]
    for zs in itertools.combinations_with_replacement(range(len(zeros)), unit["degree"]):
        z = [v for i in zs for v in zeros[i]]
        for gain in (1.0, -2.0):
            h = np.real(np.poly(z) if z else np.ones(1)) * gain
            ref = np.real(np.poly([v if abs(v) < 1 else 1 / np.conj(v) for v in z]) if z else np.ones(1))
            ref = ref * abs(gain) * float(np.prod([max(abs(v), 1) for v in z])) if z else ref * abs(gain)
            for N in (128, 129):
                hp, rp = np.concatenate([h, np.zeros(N - len(h))]), np.concatenate([ref, np.zeros(N - len(h))])
                case = [zs, gain, N]
                rep.begin(case)
                rep.state(case)
                g = min_phase(hp)
                rep.close(g, rp, "differs from the filter with zeros reflected inside the unit circle", rtol=1e-6, atol=1e-6 * np.max(np.abs(rp)))
                rep.close(min_phase(rp), rp, "a minimum-phase filter was changed", rtol=1e-6, atol=1e-6 * np.max(np.abs(rp)))
                rep.step(2)
                rep.trace(case, group=f"zeros {unit['degree']}")
