"""C11: predictive moments."""
import itertools

ID = "C11"
RULE = (
    "Exhaustive product of models, posteriors (natural parameters, or stored samples), data and prediction batches: all sequences of times up to a length over a "
    "set of times, with repetition and in any order. Every mean and variance is compared with the expectation of the model's moments evaluated one time and one sample at a time."
)
BOUNDS = {
    "quick": "3 models x 2 parameter settings x 2 posteriors x all batches of length <= 2 over 4 times and 5 longer ones, also at 3 other scales of the noise and the function; structured: 3 x 2 x 2 sets of stored samples x batches of length <= 1 and 6 longer ones x 1-4 samples",
    "thorough": "3 models x 2 parameter settings x 2 noise levels x 3 data sets x 4 posteriors x all batches of length <= 3 over 4 times and 5 longer ones, also at 3 other scales of the noise and the function; structured likewise",
}
ASSUMPTIONS = ["the compute_* integrals are those of the model (C03, C04)"]

TIMES = (0.0, 0.7, 1.9, 2.9)


def units(tier):
    us = []
    full = tier != "quick"
    for m in ("GPCM", "CGPCM", "RGPCM"):
        for v, noise, d in itertools.product((0, 1), (0.1, 0.7) if full else (0.1,), ("plain", "repeated", "zeros") if full else ("repeated",)):
            for k in range(4 if full else 2):
                us.append({"kind": "mean_field", "model": m, "variant": v, "noise": noise, "data": d, "q": k, "len": 3 if full else 2})
            for k in range(2):
                us.append({"kind": "structured", "model": m, "variant": v, "noise": noise, "data": d, "q": k, "len": 2 if full else 1})
        # Variances of very different magnitudes.
        for noise, scale in ((1e-4, 0.03), (1e-6, 1e-3), (50.0, 20.0)):
            us.append({"kind": "mean_field", "model": m, "variant": 0, "noise": noise, "scale": scale, "data": "repeated", "q": 2, "len": 1})
            us.append({"kind": "structured", "model": m, "variant": 0, "noise": noise, "scale": scale, "data": "repeated", "q": 0, "len": 0})
    return us


def batches(n):
    out = [list(b) for k in range(1, n + 1) for b in itertools.product(TIMES, repeat=k)]
    out += [list(TIMES), list(TIMES)[::-1], [1.9, 0.0, 1.9, 2.9, 0.7], [2.0, 2.0, 2.0]]
    out += [[(TIMES + (2.0,))[(i * i) % 5] for i in range(43)]]  # Many.
    return out


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def close(rep, got, want, noise, case):
    import numpy as np

    rep.step()
    rep.true(len(got) == 2, "expected a mean and a variance")
    rep.close(got[0], want[0], "predictive mean", case, rtol=1e-6, atol=1e-7)
    # Relative to the magnitude of what is subtracted.
    m2 = np.max(np.abs(want[0])) ** 2 + np.max(np.abs(want[1]))
    rep.close(got[1], want[1], "predictive variance", case, rtol=1e-6, atol=1e-6 * m2)
    rep.true(np.all(np.asarray(got[1]) >= noise - 1e-6 * (1e-3 + m2)), "variance smaller than the noise", case)


def run_mean_field(unit, rep):
    import numpy as np
    from checks.c09 import DATA, set_q
    from mc.models import small
    from mc.approxref import Gauss, Moments, some_q

    base = [unit["model"], unit["variant"], unit["noise"], unit.get("scale"), unit["data"], unit["q"]]
    model = small(unit["model"], scheme="mean-field", variant=unit["variant"], noise=unit["noise"], **({"alpha_t": unit["scale"]} if "scale" in unit else {}))
    set_q(model(), unit["q"], (unit["q"] + 1) % 4)
    t, y = (np.array(x) for x in DATA[unit["data"]])
    post = model.condition(t, y)
    inst = post()
    q_u, q_z = Gauss(*some_q(inst.n_u, unit["q"])), Gauss(*some_q(inst.n_z, (unit["q"] + 1) % 4))
    single = {}
    for x in set(TIMES) | {2.0}:
        r = Moments(inst, [x])
        m = r.mean(q_u.mean, q_z.mean)[0]
        single[x] = m, r.second(q_u.m2, q_z.m2)[0] - m**2 + r.noise
    for i, b in enumerate(batches(unit["len"])):
        case = base + [b]
        rep.begin(case)
        m1 = np.array([single[x][0] for x in b])
        want = m1, np.array([single[x][1] for x in b])
        close(rep, inst.predict(np.array(b)), want, unit["noise"], case)
        if i % 7 == 0:
            close(rep, post.predict(np.array(b)), want, unit["noise"], case)
        rep.outcome([round(float(x), 6) for x in m1])
        rep.state(case)
        rep.trace(case, group="mean field")


def run_structured(unit, rep):
    import numpy as np
    from checks.c09 import DATA
    from mc.models import small
    from mc.approxref import Moments

    base = [unit["model"], unit["variant"], unit["noise"], unit.get("scale"), unit["data"], unit["q"], "structured"]
    model = small(unit["model"], scheme="structured", variant=unit["variant"], noise=unit["noise"], **({"alpha_t": unit["scale"]} if "scale" in unit else {}))
    t, y = (np.array(x) for x in DATA[unit["data"]])
    inst = model()
    n_u, n_z = inst.n_u, inst.n_z
    N = 4
    us = [np.sin(np.arange(n_u) + 2 * j + unit["q"])[:, None] * (1 + unit["q"]) for j in range(N)]
    zs = [np.cos(np.arange(n_z) + j)[:, None] for j in range(N)]
    inst.approximation.q_u, inst.approximation.q_z
    inst.approximation.q_u_samples = us
    inst.approximation.q_z_samples = zs
    post = model.condition(t, y)
    inst = post()
    data = Moments(inst, t)
    per = {}
    for j in range(N):
        q_z = data.q_z(y, us[j], us[j] @ us[j].T)
        for x in set(TIMES) | {2.0}:
            r = Moments(inst, [x]) if j == 0 else per[0, x][2]
            per[j, x] = r.mean(us[j], q_z.mean)[0], r.second(us[j] @ us[j].T, q_z.m2)[0], r
    for b in batches(unit["len"]):
        for num in (1, 2, 4, 1000):
            if num in (1, 2) and len(b) < 4:
                continue
            case = base + [b, num]
            rep.begin(case)
            got = inst.predict(np.array(b), num_samples=num) if num != 1000 else inst.predict(np.array(b))
            cands = []
            for sub in itertools.combinations(range(N), min(num, N)):
                m1 = np.array([np.mean([per[j, x][0] for j in sub]) for x in b])
                m2 = np.array([np.mean([per[j, x][1] for j in sub]) for x in b])
                cands.append((m1, m2 - m1**2 + data.noise))
            # Any selection of the stored samples will do, but it must be exactly that many.
            best = min(cands, key=lambda c: float(np.max(np.abs(np.asarray(got[0]) - c[0]))) if np.shape(got[0]) == np.shape(c[0]) else 0.0)
            close(rep, got, best, unit["noise"], case)
            rep.outcome([round(float(x), 6) for x in best[0]])
            rep.state(case)
            rep.trace(case, group="structured")
