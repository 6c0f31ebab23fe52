"""C26: results for large problems are composed of those for their parts."""
import itertools

ID = "C26"
RULE = (
    "Every number of times, inducing points, features, samples and dimensions up to a bound, and those around larger round numbers, is explored. Results of the implementation for the whole are compared with those composed of results of the implementation for parts of at "
    "most six (which other checks compare with references): entries of matrices, sums over observations, batches of predictions and samples."
)
BOUNDS = {
    "quick": "all numbers of times up to 24 and 16 larger ones up to 600 (ELBOs up to 129, predictions up to 257); all numbers of inducing points and features up to 16 and 4 larger ones up to 70; all numbers of samples up to 24 and 16 larger ones up to 1001; priors at 40 times; matrices and distributions of up to 40 dimensions; permutations up to 1001; chains of 150",
    "thorough": "all numbers of times up to 140 and 20 larger ones up to 1100; all numbers of inducing points and features up to 40 and 8 larger ones up to 150; all numbers of samples up to 140 and 20 larger ones up to 1501; priors at 90 times; matrices and distributions of up to 80 dimensions; permutations up to 4001; chains of 400",
}
ASSUMPTIONS = ["results for parts are right (C03 to C20)"]

LARGE = [31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 128, 129, 200, 257, 600]
LARGER = [150, 199, 200, 201, 255, 256, 257, 299, 300, 301, 400, 499, 500, 501, 512, 513, 600, 999, 1001, 1100]


def sizes(tier):
    return list(range(1, 25)) + LARGE if tier == "quick" else list(range(1, 141)) + LARGER


def units(tier):
    us = []
    for m in ("GPCM", "CGPCM", "RGPCM"):
        for k in ("times", "kernel", "inducing", "elbo", "prior", "samples"):
            us.append({"kind": k, "model": m, "tier": tier})
        for scheme, n in (("mean-field", 30), ("structured", 3), ("structured", 70)):
            us.append({"kind": "predict", "model": m, "scheme": scheme, "data": n, "tier": tier})
    us += [{"kind": k, "tier": tier} for k in ("normal", "linalg", "chain")]
    return us


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def times(n):
    """Times in no order, in [0, 3], of which some coincide."""
    import numpy as np

    i = np.arange(n)
    t = np.round(1.5 + 1.5 * np.sin(1 + 7.3 * i), 4)
    t[5::11] = t[:1]
    return t


def parts(x, n=6):
    return [x[i : i + n] for i in range(0, len(x), n)]


def arr(x):
    import numpy as np
    from mc.core import to_np

    return np.array(to_np(x), dtype=float)


def run_times(unit, rep):
    import numpy as np
    from mc.models import small

    for v in (0, 1):
        m = small(unit["model"], variant=v)
        ns = sizes(unit["tier"])
        t, t2 = times(max(ns)), times(max(ns) + 3)[3:]
        I_hz = np.concatenate([arr(m.compute_I_hz(p)) for p in parts(t)])
        I_uz = np.concatenate([arr(m.compute_I_uz(p)) for p in parts(t)])
        i_hx = np.concatenate([arr(m.compute_i_hx(p, q)) for p, q in zip(parts(t), parts(t2))])
        I_ux = np.concatenate([arr(m.compute_I_ux(p, q[:1]))[:, 0] for p, q in zip(parts(t[:200], 1), parts(t2[:200], 1))])
        for n in ns:
            case = [unit["model"], v, "times", n]
            rep.begin(case)
            rep.close(arr(m.compute_I_hz(t[:n])), I_hz[:n], "I_hz", rtol=1e-7, atol=1e-10)
            rep.close(arr(m.compute_I_uz(t[:n])), I_uz[:n], "I_uz", rtol=1e-7, atol=1e-10)
            rep.close(arr(m.compute_i_hx(t[:n], t2[:n])), i_hx[:n], "i_hx", rtol=1e-7, atol=1e-10)
            if n <= 200:
                got = arr(m.compute_I_ux(t[:n], t2[:n]))
                d = got[np.arange(n), np.arange(n)]
                rep.close(d, I_ux[:n], "I_ux", rtol=1e-7, atol=1e-10)
            rep.step(4)
            rep.state(case)
            rep.trace(case, group="times")
        rep.outcome([unit["model"], v, round(float(np.sum(I_uz)), 6)])


def run_kernel(unit, rep):
    import numpy as np
    from mc.models import small

    inst = small(unit["model"], variant=1)()
    u = np.array([0.7, -0.4, 1.1])[: inst.n_u]
    ns = [n for n in sizes(unit["tier"]) if n <= 260]
    t1, t2 = times(max(ns)), times(max(ns) + 3)[3:]
    N = 42
    want = np.block([[arr(inst.kernel_approx(p, q, u)) for q in parts(t2[:N])] for p in parts(t1[:N])])
    col = np.concatenate([arr(inst.kernel_approx(p, t2[:1], u)) for p in parts(t1)])
    # The kernel is stationary: compare everything else by the difference of times.
    for n in ns:
        case = [unit["model"], "kernel", n]
        rep.begin(case)
        k = min(n, N)
        a = arr(inst.kernel_approx(t1[:n], t2[:k], u))
        rep.close(a[:k], want[:k, :k], "kernel_approx", rtol=1e-7, atol=1e-9)
        rep.close(a[:, :1], col[:n], "kernel_approx with many times", rtol=1e-7, atol=1e-9)
        if n > k:
            b = arr(inst.kernel_approx(t1[:k], t2[:n], u))
            rep.close(b[:, :k], want[:k, :k], "kernel_approx with many second times", rtol=1e-7, atol=1e-9)
            rep.close(b[:, -1:], arr(inst.kernel_approx(t1[:k], t2[n - 1 : n], u)), "kernel_approx at the last time", rtol=1e-7, atol=1e-9)
        rep.step()
        rep.state(case)
        rep.trace(case, group="kernels")
    rep.outcome([unit["model"], round(float(np.sum(want)), 6)])


def run_inducing(unit, rep):
    """Numbers of inducing points and features."""
    import numpy as np
    from mc.models import classes

    quick = unit["tier"] == "quick"
    M = classes()[unit["model"]]
    ns = list(range(2, 17)) + [33, 40, 64, 70] if quick else list(range(2, 41)) + [50, 64, 65, 70, 99, 101, 128, 150]
    N = max(ns)
    i = np.arange(N)
    t_u = 1.4 + 1.2 * np.sin(2 + 5.1 * i) + 0.003 * i
    t_z = 1.5 + 2.5 * np.sin(1 + 3.7 * i) + 0.004 * i
    t = np.array([0.3, 2.9, 1.1])
    rough = unit["model"] == "RGPCM"
    m_max = N  # Number of frequencies is 2 * N + 1.
    ms = np.array([(5 * k + 1) % (2 * N + 1) for k in range(2 * N + 1)]) if (2 * N + 1) % 5 else np.arange(2 * N + 1)[::-1]

    def make(tu, z):
        if rough:
            return M(alpha=0.9, gamma=0.5, lam=1.3, t_u=np.array(tu), m_max=m_max, ms=np.array(z), a=-2.9, b=3.0)
        return M(alpha=0.8, gamma=0.7, omega=1.5, t_u=np.array(tu), t_z=np.array(z))

    zs = ms if rough else t_z

    def blocks(n, f):
        """Assemble a matrix of which the entries depend on pairs of points."""
        step = 6
        out = None
        idx = [list(range(a, min(a + step, n))) for a in range(0, n, step)]
        for A, B in itertools.product(idx, idx):
            J = A if A == B else A + B
            R = f(J)
            if out is None:
                out = np.zeros(R.shape[:-2] + (n, n))
            at = {j: k for k, j in enumerate(J)}
            sub = R[..., [at[j] for j in A], :][..., [at[j] for j in B]]
            out[..., A[0] : A[-1] + 1, B[0] : B[-1] + 1] = sub
        return out

    rep.begin([unit["model"], "inducing", "parts"])
    K_u = blocks(N, lambda J: arr(make(t_u[J], zs[:2]).compute_K_u()))
    I_ux = blocks(N, lambda J: arr(make(t_u[J], zs[:2]).compute_I_ux()))
    I_hz = blocks(N, lambda J: arr(make(t_u[:2], zs[J]).compute_I_hz(t)))
    I_uz = np.concatenate([np.concatenate([arr(make(t_u[a], zs[b]).compute_I_uz(t)) for b in parts(np.arange(N))], axis=2) for a in parts(np.arange(N))], axis=1)
    K_z = blocks(N, lambda J: arr(make(t_u[:2], zs[J]).compute_K_z()))
    for n, k in [(n, 3) for n in ns] + [(3, n) for n in ns] + [(n, n) for n in ns]:
        case = [unit["model"], "inducing", n, k]
        rep.begin(case)
        m = make(t_u[:n], zs[:k])
        rep.true(m.n_u == n and m.n_z == k, f"numbers are {m.n_u} and {m.n_z}")
        rep.close(arr(m.compute_K_u()), K_u[:n, :n], "K_u", rtol=1e-8, atol=1e-10)
        rep.close(arr(m.compute_K_z()), K_z[:k, :k], "K_z", rtol=1e-8, atol=1e-10)
        rep.close(arr(m.compute_I_ux()), I_ux[:n, :n], "I_ux", rtol=1e-7, atol=1e-10)
        rep.close(arr(m.compute_I_hz(t)), I_hz[:, :k, :k], "I_hz", rtol=1e-7, atol=1e-10)
        rep.close(arr(m.compute_I_uz(t)), I_uz[:, :n, :k], "I_uz", rtol=1e-7, atol=1e-10)
        rep.step(5)
        rep.state(case)
        rep.trace(case, group="inducing variables")
    rep.outcome([unit["model"], round(float(np.sum(I_uz)), 6)])
    if not rough:
        return
    # Default features.
    for m_max in [1, 2, 3, 31, 32, 63, 64, 65, 127, 128, 150]:
        case = [unit["model"], "default features", m_max]
        rep.begin(case)
        kw = dict(alpha=0.9, gamma=0.5, lam=1.3, t_u=t_u[:2], m_max=m_max, a=-2.9, b=3.0)
        got, got_K = arr(M(**kw).compute_I_uz(t)), arr(M(**kw).compute_K_z())
        n = 2 * m_max + 1
        if rep.true(got.shape[2] == n and M(**kw).n_z == n, f"{got.shape[2]} features"):
            some = sorted({0, 1, m_max - 1, m_max, m_max + 1, n - 2, n - 1} & set(range(n)))
            part = M(ms=np.array(some), **kw)
            rep.close(got[:, :, some], arr(part.compute_I_uz(t)), "I_uz of some features", rtol=1e-7, atol=1e-10)
            rep.close(got_K[some][:, some], arr(part.compute_K_z()), "K_z of some features", rtol=1e-8, atol=1e-10)
        rep.step()
        rep.state(case)
        rep.trace(case, group="default features")


def run_elbo(unit, rep):
    """ELBOs and optimal conditionals are sums over observations."""
    import numpy as np
    from checks.c09 import set_q
    from mc.models import small

    inst = small(unit["model"], scheme="mean-field", variant=0)()
    struct = small(unit["model"], scheme="structured", variant=0)()
    set_q(inst, 1, 2)
    ap, sp = inst.approximation, struct.approximation
    quick = unit["tier"] == "quick"
    ns = [n for n in sizes(unit["tier"]) if n <= (129 if quick else 600) and not (quick and n % 4 == 2)]
    t = times(max(ns))
    y = np.sin(3 * np.arange(max(ns)) + 1)
    kl = float(ap.q_u.kl(ap.p_u)) + float(ap.q_z.kl(ap.p_z))
    u = np.array([[0.4], [-1.2]])
    z = np.array([[0.4], [-1.2], [0.8]])

    def evaluate(t, y):
        ts = ap.construct_terms(t, y)
        a, b = ap.q_u_optimal_mean_field(ts, ap.q_z), ap.q_z_optimal_mean_field(ts, ap.q_u)
        tss = sp.construct_terms(t, y)
        c, d = sp.q_u_optimal(tss, z), sp.q_z_optimal(tss, u)
        qs = [(a, ap.p_u), (b, ap.p_z), (c, sp.p_u), (d, sp.p_z)]
        return [np.array(float(inst.elbo(t, y)) + kl)] + [arr(q.lam) for q, _ in qs] + [arr(q.prec) - arr(p.prec) for q, p in qs]

    names = ["ELBO"] + [f"{p} of the optimal {q}" for p in ("lam", "prec") for q in ("q(u)", "q(z)", "q(u|z)", "q(z|u)")]
    rep.begin([unit["model"], "elbo", "parts"])
    single = [evaluate(t[i : i + 1], y[i : i + 1]) for i in range(len(t))]
    for n in ns:
        case = [unit["model"], "elbo", n]
        rep.begin(case)
        got = evaluate(t[:n], y[:n])
        for g, w, what in zip(got, zip(*single[:n]), names):
            w = np.array(w)
            rep.close(g, np.sum(w, axis=0), what, rtol=1e-7, atol=1e-8 * (1 + np.max(np.sum(np.abs(w), axis=0))))
        rep.step(6)
        rep.state(case)
        rep.trace(case, group="ELBOs")
    rep.outcome([unit["model"], round(float(got[0]), 5)])


def run_predict(unit, rep):
    """Predictions of batches, after conditioning on few or many data, for one or many stored samples."""
    import numpy as np
    from checks.c09 import set_q
    from mc.models import small

    quick = unit["tier"] == "quick"
    ns = [n for n in sizes(unit["tier"]) if n <= (257 if quick else 600) and not (quick and n % 4 == 2)]
    t = times(max(ns))
    for scheme, N in [(unit["scheme"], unit["data"])]:
        model = small(unit["model"], scheme=scheme, variant=0)
        inst = model()
        nu, nz = inst.n_u, inst.n_z
        if scheme == "mean-field":
            set_q(inst, 1, 2)
        else:
            inst.approximation.q_u, inst.approximation.q_z
            inst.approximation.q_u_samples = [np.sin(np.arange(nu) + 2 * j)[:, None] for j in range(N)]
            inst.approximation.q_z_samples = [np.cos(np.arange(nz) + j)[:, None] for j in range(N)]
        td = times(N)
        inst = model.condition(td, np.cos(5 * np.arange(N)))()
        rep.begin([unit["model"], scheme, N, "parts"])
        pieces = [inst.predict(p) for p in parts(t)]
        want = [np.concatenate([arr(p[i]) for p in pieces]) for i in range(2)]
        if scheme == "structured" and N > 3:
            # The moments are the averages over all stored samples.
            rep.begin([unit["model"], scheme, N, "all samples"])
            us = [np.sin(np.arange(nu) + 2 * j)[:, None] for j in range(N)]
            zs = [np.cos(np.arange(nz) + j)[:, None] for j in range(N)]
            near, moments = np.array([0.2, 0.9, 3.1]), []
            for keep in (slice(None), slice(0, N, 2), slice(1, N, 2)):
                half = small(unit["model"], scheme=scheme, variant=0)
                first = half()
                first.approximation.q_u, first.approximation.q_z
                first.approximation.q_u_samples, first.approximation.q_z_samples = us[keep], zs[keep]
                mean, var = (arr(x) for x in half.condition(td, np.cos(5 * np.arange(N)))().predict(near))
                moments.append((mean, var + mean**2))
            for i, what in enumerate(("mean", "second moment")):
                rep.close(moments[0][i], (moments[1][i] + moments[2][i]) / 2, f"{what} of the predictions of all stored samples", rtol=1e-6, atol=1e-8)
            rep.trace([unit["model"], scheme, N, "all samples"], group="predictions")
        for n in ns if N != 70 else ns[::5]:
            case = [unit["model"], "predict", scheme, N, n]
            rep.begin(case)
            got = inst.predict(t[:n])
            rep.close(arr(got[0]), want[0][:n], "predictive mean", rtol=1e-7, atol=1e-8)
            rep.close(arr(got[1]), want[1][:n], "predictive variance", rtol=1e-7, atol=1e-7)
            rep.step()
            rep.state(case)
            rep.trace(case, group="predictions")
        rep.outcome([unit["model"], scheme, N, round(float(np.sum(want[0])), 5)])


def run_prior(unit, rep):
    """Samples from the prior at many times."""
    import jax.numpy as jnp
    import numpy as np
    from mc.models import small
    from mc.noise import linear_map, scripted

    n = 40 if unit["tier"] == "quick" else 90
    model = small(unit["model"], variant=0, noise=0.3)
    t = times(n)
    case = [unit["model"], "prior", n]
    rep.begin(case)
    nu = model.n_u

    def draw(script):
        with scripted(script) as tape:
            K, y = model.sample(t)
        rep.step()
        return arr(K), arr(y), tape.consumed

    K0, y0, k = draw([])
    # With all draws zero, u is zero and the kernel is that given u = 0, whatever the order of the draws.
    rep.true(k == nu + 2 * n, f"{k} draws from the standard normal, expected {nu + 2 * n}")
    rep.close(y0, np.zeros(n), "all draws are zero", rtol=0, atol=1e-9)
    cols, changed = [], 0
    for i in range(k):
        e = np.zeros(k)
        e[i] = 1.0
        K, y, _ = draw(list(e))
        if np.max(np.abs(K - K0)) > 1e-9:
            changed += 1  # A draw which determines u. All others are zero, so the function is zero.
            rep.close(y, np.zeros(n), "only u is drawn", rtol=0, atol=1e-9)
        else:
            cols.append(y)
        rep.state(case + [i])
    A = np.stack(cols, axis=1)
    rep.true(A.shape[1] - 2 * n in range(0, nu + 1), f"{changed} draws determine the kernel")
    rep.close(A @ A.T, K0 + 0.3 * np.eye(n), "covariance of the samples", rtol=1e-5, atol=1e-5)
    u0 = jnp.zeros(nu)
    want = np.block([[arr(model().kernel_approx(p, q, u0)) for q in parts(t)] for p in parts(t)])
    rep.close(K0, want, "kernel matrix", rtol=1e-6, atol=1e-7)
    rep.outcome(case)
    rep.trace(case, group="priors")


def run_samples(unit, rep):
    """Samples of the kernel, for many stored samples and many times."""
    import jax.numpy as jnp
    import numpy as np
    from mc.models import small

    N = 130
    model = small(unit["model"], scheme="structured", variant=0)
    inst = model()
    nu, nz = inst.n_u, inst.n_z
    inst.approximation.q_u, inst.approximation.q_z
    us = [np.sin(np.arange(nu) + 2 * j)[:, None] for j in range(N)]
    zs = [np.cos(np.arange(nz) + j + j**2)[:, None] for j in range(N)]
    inst.approximation.q_u_samples = us
    inst.approximation.q_z_samples = zs
    inst = model.condition(np.array([0.5, 1.0]), np.array([0.1, 0.2]))()
    K_u = arr(inst.compute_K_u())
    t = np.linspace(0, 2, 70)
    want = []
    rep.begin([unit["model"], "samples", "parts"])
    for u in us:
        u = jnp.array((K_u @ u)[:, 0])
        want.append(np.concatenate([arr(inst.kernel_approx(p, np.zeros(1), u))[:, 0] for p in parts(t, 35)]))
    want = np.array(want)
    for predict in ("predict_kernel", "predict_psd"):
        num = np.shape(getattr(inst, predict)().all_samples)[1]
        rep.true(num == N, f"{predict} uses {num} of {N} stored samples")
    nums = [n for n in sizes("quick") if n <= 200] + [1000]
    for n, k in [(n, 3) for n in nums] + [(5, n) for n in (2, 5, 17, 33, 64, 65, 70)]:
        case = [unit["model"], "samples", n, k]
        rep.begin(case)
        _, ks = inst.sample_kernel(t[:k], num_samples=n)
        ks = arr(ks)
        if rep.true(ks.shape == (min(n, N), k), f"shape of the samples is {ks.shape}"):
            # Any of the stored samples will do, but every one at most once.
            at = [int(np.argmin(np.max(np.abs(want[:, :k] - s), axis=1))) for s in ks]
            rep.close(ks, want[at, :k], "samples of the kernel", rtol=1e-7, atol=1e-8)
            if k >= 3:
                rep.true(len(set(at)) == len(at), "a stored sample is used more than once")
        m1, m2 = inst.predict_fourier(num_samples=n)
        if n >= N:
            Z = np.array(zs)[:, :, 0]
            rep.close(arr(m1), np.mean(Z, axis=0), "mean of the Fourier features", rtol=1e-7, atol=1e-9)
            rep.close(arr(m2), np.mean(Z**2, axis=0) - np.mean(Z, axis=0) ** 2, "variance of the Fourier features", rtol=1e-7, atol=1e-9)
        rep.step()
        rep.state(case)
        rep.trace(case, group="samples")
    rep.outcome([unit["model"], round(float(np.sum(want)), 5)])


def run_normal(unit, rep):
    """Many samples and dimensions of distributions."""
    import numpy as np
    from gpcm.normal import NaturalNormal
    from mc.noise import ScriptedState

    quick = unit["tier"] == "quick"
    # Every dimension, against NumPy.
    for n in range(1, 41 if quick else 81):
        case = ["normal", "dimension", n]
        rep.begin(case)
        i = np.arange(n)
        R = np.sin(1 + np.outer(i + 1, i + 2) * 0.7) / np.sqrt(n)
        P = R @ R.T + np.diag(0.5 + 0.5 * np.cos(i) ** 2)
        lam = np.sin(2 + i)[:, None]
        V = np.linalg.inv(P)
        mean = V @ lam
        d, o = NaturalNormal(lam, P), NaturalNormal(np.cos(i)[:, None], np.diag(1.0 + 0.1 * i) + 0.05)
        Po = arr(o.prec)
        mo = np.linalg.solve(Po, arr(o.lam))
        rep.close(arr(d.mean), mean, "mean", rtol=1e-7, atol=1e-9)
        rep.close(arr(d.var), V, "var", rtol=1e-7, atol=1e-9)
        rep.close(arr(d.m2), V + mean @ mean.T, "m2", rtol=1e-7, atol=1e-9)
        x = np.cos(3 * i)[:, None]
        ld = np.linalg.slogdet(P)[1]
        rep.close(float(d.logpdf(x)), 0.5 * (ld - n * np.log(2 * np.pi) - float(((x - mean).T @ P @ (x - mean))[0, 0])), "logpdf", rtol=1e-7, atol=1e-8)
        rep.close(float(d.kl(o)), 0.5 * (np.trace(Po @ V) + float(((mean - mo).T @ Po @ (mean - mo))[0, 0]) - n - np.linalg.slogdet(Po)[1] + ld), "kl", rtol=1e-7, atol=1e-8)
        rep.step(5)
        rep.state(case)
        rep.trace(case, group="dimensions")
    # Every number of samples: samples are independent, with the right law.
    P = np.array([[2.0, 0.7], [0.7, 1.1]])
    lam = np.array([[0.4], [-0.9]])
    mean = np.linalg.solve(P, lam)
    for num in sizes(unit["tier"]) + [1000, 1001] + ([] if quick else [1501]):
        case = ["normal", "samples", num]
        rep.begin(case)
        script = np.sin(1 + np.arange(2 * num) ** 2 * 0.37 + np.arange(2 * num))
        st = ScriptedState(list(script))
        _, x = NaturalNormal(lam, P).sample(st, num)
        x = arr(x)
        if rep.true(x.shape == (2, num) and st.consumed == 2 * num, f"shape of the samples is {x.shape} after {st.consumed} draws"):
            # Every sample is a linear map of two draws, and no draws are shared.
            w = np.sum((x - mean) * (P @ (x - mean)))
            rep.close(w, np.sum(script**2), "samples do not use all draws once", rtol=1e-7)
            for i in {0, 1, 2 * num // 3, num - 1, num, 2 * num - 1}:
                if i < 2 * num:
                    e = np.zeros(2 * num)
                    e[i] = 1.0
                    _, xe = NaturalNormal(lam, P).sample(ScriptedState(list(e)), num)
                    diff = np.max(np.abs(arr(xe) - mean), axis=0)
                    rep.true(np.sum(diff > 1e-6) == 1, f"draw {i} affects {np.sum(diff > 1e-6)} samples")
        rep.step()
        rep.state(case)
        rep.trace(case, group="numbers of samples")
    rep.outcome(["normal"])


def run_linalg(unit, rep):
    import jax.numpy as jnp
    import numpy as np
    from gpcm.util import autocorr, closest_psd, hessian, invert_perm

    quick = unit["tier"] == "quick"
    for n in range(1, 41 if quick else 81):
        case = ["linalg", n]
        rep.begin(case)
        i = np.arange(n)
        a = np.sin(1 + np.outer(i, i + 1) + i[:, None])
        s = (a + a.T) / 2
        w, v = np.linalg.eigh(s)
        for arg in (a, jnp.array(a)):
            rep.close(arr(closest_psd(arg)), (v * np.maximum(w, 0)) @ v.T, "closest PSD matrix", rtol=1e-7, atol=1e-7)
        q = (v * (1 + np.cos(i))) @ v.T
        rep.close(arr(closest_psd(q + 1.5 * np.eye(n), inv=True)), np.linalg.inv(q + 1.5 * np.eye(n)), "inverse", rtol=1e-7, atol=1e-7)
        if n <= 16:
            x = jnp.array(np.cos(i))[:, None]
            S = jnp.array(s)
            got = arr(hessian(lambda x: 0.5 * jnp.sum(x * (S @ x)) + jnp.sum(jnp.sin(x)), x))
            rep.close(got, s - np.diag(np.sin(np.cos(i))), "Hessian", rtol=1e-8, atol=1e-9)
        rep.step(3)
        rep.state(case)
        rep.trace(case, group="matrices")
    for n in sizes(unit["tier"]) + ([1000, 1001] if quick else [2000, 4001]):
        case = ["perm", n]
        rep.begin(case)
        p = np.argsort(np.sin(1 + 3.3 * np.arange(n)), kind="stable")
        inv = np.array(invert_perm(p))
        rep.true(np.array_equal(inv[p], np.arange(n)) and np.array_equal(p[inv], np.arange(n)), "not the inverse")
        x = np.sin(0.3 * np.arange(n)) + 0.1 * np.cos(np.arange(n) ** 2)
        c = x - np.sum(x) / n
        if n > 1:
            want = np.array([np.sum(c[: n - k] * c[k:]) for k in range(n)])
            rep.close(autocorr(x, cov=True, window=True), want / n, "windowed autocovariance", rtol=1e-7, atol=1e-9)
            rep.close(autocorr(x, cov=True), want / (n - np.arange(n)), "autocovariance", rtol=1e-7, atol=1e-9)
            rep.close(autocorr(x, lags=n // 2), (want / (n - np.arange(n)))[: n // 2 + 1] / (want[0] / n), "autocorrelation", rtol=1e-7, atol=1e-8)
        rep.step()
        rep.state(case)
        rep.trace(case, group="permutations")
    rep.outcome(["linalg"])


def run_chain(unit, rep):
    """Long chains of elliptical slice sampling."""
    from checks.c16 import Env, TARGETS, execute

    num = 150 if unit["tier"] == "quick" else 400
    for tgt in TARGETS:
        for trace in (False, True):
            env = Env([(7 * i + i // 3) % 2 for i in range(5 * num)], 5 * num)
            case = [tgt, "long chain", num, trace]
            if execute(rep, tgt, num, env, case, trace=trace):
                rep.trace(case, group="chains")
