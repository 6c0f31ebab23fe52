"""C15: law of samples from the prior."""
import itertools

ID = "C15"
RULE = (
    "The standard normal draws of model.sample are scripted. All basis vectors, and pairwise sums of those that affect the kernel matrix, are explored, which determines the sampler completely: the kernel matrix as a "
    "quadratic function of the draws for the filter, and the function as a linear map of the others. These are compared with kernel_approx and the prior covariance of the filter, in terms that do not depend on which matrix square root is used, and in which "
    "order draws are made."
)
BOUNDS = {
    "quick": "3 models x 2 parameter sets x 5 vectors of times (of length 1 to 5; sorted, unsorted, duplicates) x normalised or not; JAX and NumPy inputs",
    "thorough": "3 models x 2 parameter sets x 8 vectors of times (of length 1 to 9; sorted, unsorted, duplicates) x normalised or not; JAX and NumPy inputs",
}
ASSUMPTIONS = ["standard normal draws of JAX are independent", "jitter added to kernel matrices is at most 1e-6"]

TIMES = [
    [0.4],
    [0.3, 1.1, 1.9],
    [2.4, 0.5, 1.5],
    [1.0, 0.2, 1.0],
    [0.0, 0.1, 0.2, 2.0, 2.9],
    [2.9, 0.0],
    [0.7, 0.7, 0.7],
    [0.0, 0.3, 0.6, 0.9, 1.2, 1.5, 1.8, 2.1, 2.4],
]
ORDER = {"RGPCM": 3.0}


def units(tier):
    n = 5 if tier == "quick" else 8
    return [
        {"model": m, "variant": v, "times": i, "normalise": b}
        for m in ("GPCM", "CGPCM", "RGPCM")
        for v in (0, 1)
        for i in range(n)
        for b in (False, True)
    ]


def run(unit, rep):
    import jax.numpy as jnp
    import numpy as np
    from mc.core import to_np
    from mc.models import small
    from mc.noise import scripted_jax

    name, norm = unit["model"], unit["normalise"]
    noise = [0.1, 0.7][unit["variant"]]
    model = small(name, variant=unit["variant"], noise=noise)
    inst = model()
    t = np.array(TIMES[unit["times"]])
    if name == "RGPCM":
        t = t + 2.0 + float(np.max(to_np(inst.t_u))) - 2.0  # Stay within the range in which the approximation is exact.
    n = len(t)
    K_u = to_np(inst.compute_K_u())
    n_u = len(K_u)
    kw = {"normalise": True} if norm else {}
    case0 = [name, unit["variant"], list(t), norm]

    def draw(script, wrap=np.array):
        with scripted_jax(script) as tape:
            K, y = model.sample(wrap(t), **kw)
        rep.step()
        return np.array(to_np(K)), np.array(to_np(y)), tape.consumed

    def k_approx(u):
        return np.array(to_np(inst.kernel_approx(t, t, np.array(u))))

    rep.begin([case0, "no noise"])
    K0, y0, k = draw([])
    if not rep.true(k == n_u + 2 * n, f"{k} draws, expected {n_u} for the filter, and {n} each for the function and the noise"):
        return
    rep.true(K0.shape == (n, n) and y0.shape == (n,), f"shapes {K0.shape} and {y0.shape}")
    ref0 = k_approx(np.zeros(n_u))
    scale0 = ref0[0, 0] if norm else 1.0
    rep.close(K0, ref0 / scale0, "kernel matrix without noise", rtol=1e-7, atol=1e-9)
    rep.close(y0, np.zeros(n), "function without noise", atol=1e-12)
    Kj, yj, _ = draw([], jnp.array)
    rep.close(Kj, K0, "kernel matrix for JAX", rtol=1e-9, atol=1e-11)

    # Which draws are for the filter?
    S, E = [], []
    unnorm = {}
    for i in range(k):
        e = np.eye(k)[i]
        K, y, _ = draw(e)
        E.append((K, y))
        if np.max(np.abs(K - K0)) > 1e-9 * np.max(np.abs(K0)):
            S.append(i)
            rep.close(y, np.zeros(n), "the function depends on the draws for the filter alone", atol=1e-12, case=[case0, "basis", i])
        rep.state([case0, "basis", i])
    if norm and n == 1:
        S = []  # The kernel matrix always is one.
    elif len(S) < n_u:
        # An inducing point at zero of the RGPCM has no influence on the filter.
        S = sorted(S + [i for i in range(k) if i not in S and not np.any(E[i][1])])
    if norm and n == 1:
        pass
    elif not rep.true(len(S) == n_u, f"{len(S)} draws affect the kernel matrix, expected {n_u}: {S}", case=case0):
        return
    rep.trace(case0 + ["basis"], group="no noise and basis vectors")

    if norm:
        for i in range(k):
            rep.close(np.diag(E[i][0]), np.ones(n), "diagonal of the normalised kernel matrix", rtol=1e-7, case=[case0, "basis", i])
    if not norm:
        # Quadratic forms in the draws and in u. They must be the same up to u = L v with L L^T = K_u.
        eye = np.eye(k)
        Q = np.zeros((n, n, n_u, n_u))
        R = np.zeros((n, n, n_u, n_u))
        one = [E[i][0] - K0 for i in S]
        ref1 = [k_approx(np.eye(n_u)[a]) - ref0 for a in range(n_u)]
        for a in range(n_u):
            Q[:, :, a, a], R[:, :, a, a] = one[a], ref1[a]
            for b in range(a):
                q = draw(eye[S[a]] + eye[S[b]])[0] - K0
                r = k_approx(np.eye(n_u)[a] + np.eye(n_u)[b]) - ref0
                Q[:, :, a, b] = Q[:, :, b, a] = (q - one[a] - one[b]) / 2
                R[:, :, a, b] = R[:, :, b, a] = (r - ref1[a] - ref1[b]) / 2
                rep.state([case0, "pair", a, b])
        L = np.linalg.cholesky(K_u)
        combos = [(i, j) for i in range(n) for j in range(n)]
        for c, (i, j) in enumerate(combos):
            i2, j2 = combos[(3 * c + 1) % len(combos)]
            for w in (0.0, 0.7):
                A = Q[i, j] + w * Q[i2, j2]
                B = L.T @ (R[i, j] + w * R[i2, j2]) @ L
                A, B = (A + A.T) / 2, (B + B.T) / 2
                rep.close(np.linalg.eigvalsh(A), np.linalg.eigvalsh(B), f"law of the kernel at times {i} and {j}", rtol=1e-6, atol=1e-8, case=case0)
        # The map is indeed quadratic.
        v = np.zeros(k)
        v[S] = np.array([0.8, -1.3, 0.5, 2.0])[:n_u]
        got = draw(v)[0]
        rep.close(got, K0 + np.einsum("ijab,a,b->ij", Q, v[S], v[S]), "kernel matrix is not quadratic in the draws", rtol=1e-7, atol=1e-8, case=case0)
        rep.trace(case0 + ["quadratic"], group="kernel matrix")

    # Given the draws for the filter, the function is a linear map of the others.
    rest = [i for i in range(k) if i not in S]
    if norm and n == 1:
        rest = None
    for base in ([0.0] * n_u, [1.0, -0.5, 0.3, 0.9][:n_u], [-2.0, 1.0, 1.0, 0.1][:n_u]):
        if rest is None:
            # All linear maps: the variance is one plus noise.
            A = np.array([E[i][1] for i in range(k)]).T
            rep.close(A @ A.T, np.eye(1) * (1 + noise), "variance of the function", rtol=1e-5, atol=1e-6, case=case0)
            break
        case = [case0, "base", base]
        rep.begin(case)
        v = np.zeros(k)
        v[S] = base
        K, y, _ = draw(v)
        rep.close(y, np.zeros(n), "mean of the function", atol=1e-12)
        A = []
        for i in rest:
            w = v.copy()
            w[i] = 1.0
            Ki, yi, _ = draw(w)
            rep.close(Ki, K, "the kernel matrix depends on draws for the function", rtol=1e-12, atol=1e-12)
            A.append(yi)
        A = np.array(A).T
        from mc.utilref import psd_closest

        rep.close(A @ A.T, psd_closest(K) + noise * np.eye(n), "variance of the function", rtol=1e-5, atol=1e-6)
        w = v.copy()
        c = np.array([(-1.0) ** i * (1 + 0.3 * i) for i in range(len(rest))])
        w[rest] = c
        rep.close(draw(w)[1], A @ c, "the function is not linear in the draws", rtol=1e-7, atol=1e-8)
        rep.state(case)
        rep.outcome([np.round(A @ A.T, 6)])
        rep.trace(case, group="function")
