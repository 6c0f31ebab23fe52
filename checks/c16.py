"""C16: elliptical slice sampling."""
import itertools

ID = "C16"
RULE = (
    "The environment's draws (slice heights, prior samples, brackets and angles) are choice points. All sequences of choices from a grid of quantiles are explored by stateless search up to a number of "
    "choice points, beyond which angles are steered towards zero, so that the transition ends. Every run of the implementation is compared with a reference model which replays the same choices: states, "
    "their log-likelihoods, every evaluated proposal and returned samples. Scripted likelihoods reject any number of proposals to reach the restarts."
)
BOUNDS = {
    "quick": "6 targets in 1 and 2 dimensions; all choices from 4 heights, 2 prior samples, 5 brackets and 5 angles up to 6 (5) choice points for 1 (2) transitions; any number of rejections from 0 to 320; chains of 30",
    "thorough": "6 targets in 1 and 2 dimensions; all choices from 4 heights, 2 prior samples, 5 brackets and 5 angles up to 8 (8) choice points for 1 (2) transitions; any number of rejections from 0 to 1010; chains of 30",
}
ASSUMPTIONS = ["proposals which tie with the slice up to rounding are not explored (they have probability zero)"]

HEIGHTS = [0.5, 0.02, 0.9, 0.999]
PRIOR = [0, 1]
BRACKET = [0.3, 0.03, 0.5, 0.77, 0.98]
ANGLE = [0.5, 0.02, 0.25, 0.8, 0.97]
TARGETS = ["flat", "narrow", "box", "far", "two", "ridge"]


def target(name):
    import numpy as np

    if name == "flat":
        return lambda x: 0.0, np.array([0.3]), [np.array([1.2]), np.array([-0.4])]
    if name == "narrow":
        return lambda x: float(-200 * (x[0] - 0.8) ** 2), np.array([0.7]), [np.array([1.1]), np.array([-0.9])]
    if name == "box":
        return lambda x: 0.0 if 0.4 < x[0] < 1.0 else -np.inf, np.array([0.5]), [np.array([1.7]), np.array([-0.2])]
    if name == "far":
        return lambda x: float(-3 * (x[0] - 6) ** 2), np.array([-1.0]), [np.array([0.6]), np.array([-2.1])]
    if name == "two":
        return lambda x: float(-5 * np.sum((x - np.array([0.5, -0.5])) ** 2)), np.array([0.1, 0.2]), [np.array([1.0, -0.7]), np.array([-0.3, 1.4])]
    if name == "ridge":
        return lambda x: float(-40 * (x[0] * x[1] - 0.3) ** 2 - x[0]), np.array([[0.9], [0.5]]), [np.array([[0.2], [1.4]]), np.array([[-1.3], [-0.6]])]


class Env:
    """Scripted environment. Records the choices made, and the quantiles used."""

    def __init__(self, prefix, depth):
        self.prefix, self.depth = prefix, depth
        self.choices, self.widths = [], []
        self.heights, self.angles, self.priors = [], [], []

    def choose(self, width):
        i = len(self.choices)
        if i >= self.depth:
            return None
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.choices.append(c)
        self.widths.append(width)
        return c

    # Draws, as quantiles in (0, 1).
    def height(self):
        c = self.choose(len(HEIGHTS))
        q = HEIGHTS[0 if c is None else c]
        self.heights.append(q)
        return q

    def angle(self, low, high):
        import numpy as np

        first = abs(low) < 1e-12 and abs(high - 2 * np.pi) < 1e-9
        grid = BRACKET if first else ANGLE
        c = self.choose(len(grid))
        if c is not None:
            q = grid[c]
        elif not first and low < 0 < high:
            # Land close to zero.
            q = (1e-4 * (high if high < 1 else 1) - low) / (high - low)
        else:
            q = 0.37
        self.angles.append(q)
        return low + (high - low) * q

    def prior(self):
        c = self.choose(len(PRIOR))
        self.priors.append(c or 0)
        return c or 0


class patched:
    """Replace the draws of NumPy's global random state."""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        import numpy as np

        e = self.env

        def uniform(low=0.0, high=1.0, size=None):
            assert size is None
            return e.angle(low, high)

        def exponential(scale=1.0, size=None):
            assert size is None
            return -scale * np.log(1 - e.height())

        new = dict(uniform=uniform, exponential=exponential, standard_exponential=lambda size=None: exponential())
        self.old = {k: getattr(np.random, k) for k in new}
        for k, v in new.items():
            setattr(np.random, k, v)

    def __exit__(self, *_):
        import numpy as np

        for k, v in self.old.items():
            setattr(np.random, k, v)


class Progress:
    """Stand-in for the progress bar."""

    reports = []

    def __init__(self, *args, **kw_args):
        self.reports.clear()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def __call__(self, values=None, *args, **kw_args):
        self.reports.append(dict(values or {}))


def check_reports(rep, reports, xs, lls, proposals):
    """Progress: one report per sample, of the state after it. The effective sample size is n / (1 + 2 * (sum of five autocorrelations)), after a burn-in."""
    import numpy as np

    rep.true(len(reports) == len(xs), f"{len(reports)} reports of progress for {len(xs)} samples")
    chain = np.array([np.ravel(x)[0] for x in xs])
    for i, r in enumerate(reports[: len(xs)]):
        if "Pseudo-log-likelihood" in r:
            rep.close(r["Pseudo-log-likelihood"], lls[i], f"log-likelihood reported after sample {i}", rtol=1e-8, atol=1e-9)
        if "Attempts" in r:
            rep.true(r["Attempts"] == proposals[i], f"reported {r['Attempts']} attempts for sample {i}, but there were {proposals[i]}")
        if "Effective sample size" in r:
            n = i + 1
            c = chain[20:n]
            if n <= 20:
                rep.true(np.isnan(r["Effective sample size"]), "effective sample size reported during the burn-in")
            elif np.std(c) > 1e-6:
                c = c - np.mean(c)
                rho = [np.sum(c[: len(c) - k] * c[k:]) / np.sum(c * c) for k in range(1, 6) if k < len(c)]
                if abs(1 + 2 * sum(rho)) > 1e-3:
                    rep.close(r["Effective sample size"], n / (1 + 2 * sum(rho)), f"effective sample size after sample {i}", rtol=1e-6)


class Tie(Exception):
    pass


def reference(loglik, x, priors, heights, angles, num, max_attempts=100):
    """Murray, Adams and MacKay (2010). Returns (states, log-likelihoods, proposals, attempts)."""
    import numpy as np

    priors, heights, angles = iter(priors), iter(heights), iter(angles)
    ll = loglik(x)
    out, lls, proposals, attempts = [], [], [x], []
    for _ in range(num):
        done = False
        while not done:
            u = ll + np.log(1 - next(heights))
            y = next(priors)
            theta = 2 * np.pi * next(angles)
            lo, hi = theta - 2 * np.pi, theta
            for attempt in range(max_attempts):
                theta = lo + (hi - lo) * next(angles)
                xp = np.cos(theta) * x + np.sin(theta) * y
                lp = loglik(xp)
                proposals.append(xp)
                if np.isfinite(lp) and abs(lp - u) < 1e-9 * (1 + abs(u)):
                    raise Tie()
                if lp > u:
                    x, ll, done = xp, lp, True
                    break
                if theta > 0:
                    hi = theta
                else:
                    lo = theta
        out.append(x)
        lls.append(ll)
        attempts.append(attempt + 1)
    for it in (priors, heights, angles):
        if next(it, None) is not None:
            raise AssertionError("superfluous draws")
    return out, lls, proposals, attempts


def units(tier):
    us = []
    q = tier == "quick"
    for tgt in TARGETS:
        for h, p in itertools.product(range(len(HEIGHTS)), range(len(PRIOR))):
            us.append({"kind": "search", "target": tgt, "num": 1, "depth": 6 if q else 8, "first": [h, p]})
        us.append({"kind": "search", "target": tgt, "num": 2, "depth": 5 if q else 8, "first": []})
        us.append({"kind": "chain", "target": tgt})
    us.append({"kind": "initial"})
    us.append({"kind": "restarts", "upto": 320 if q else 1010})
    return us


def run(unit, rep):
    import sys

    sys.setrecursionlimit(5000)
    globals()["run_" + unit["kind"]](unit, rep)


def execute(rep, tgt, num, env, case, trace=False, init=True, split=None):
    import numpy as np
    from gpcm.sample import ESS

    loglik, x0, ys = target(tgt)
    seen = []

    def ll(x):
        seen.append(np.array(x))
        return loglik(x)

    initial = [not init]
    used = []

    def prior():
        if initial[0]:
            initial[0] = False
            return x0.copy()
        used.append(ys[env.prior()].copy())
        return used[-1].copy()

    rep.begin(case)
    with patched(env):
        ess = ESS(ll, prior, x_init=x0.copy()) if init else ESS(ll, prior)
        rep.close(ess.x, x0, "initial state")
        rep.close(ess.log_lik_x, loglik(x0), "initial log-likelihood")
        if split:
            samples = [s for k in split for s in ess.sample(k)]
        else:
            import wbml.out

            old, wbml.out.Progress = wbml.out.Progress, Progress
            Progress.reports.clear()
            try:
                samples = ess.sample(num, trace=trace)
            finally:
                wbml.out.Progress = old
    rep.step(len(seen))
    try:
        xs, lls, props, attempts = reference(loglik, x0, used, env.heights, env.angles, num)
    except Tie:
        return False
    except (StopIteration, RuntimeError, AssertionError) as e:
        rep.fail(f"random draws do not match those of the algorithm ({e!r}): {len(env.heights)} heights, {len(used)} prior samples and {len(env.angles)} angles")
        return False
    rep.true(len(samples) == num, f"{len(samples)} samples, expected {num}")
    for i, (a, b) in enumerate(zip(samples, xs)):
        rep.close(a, b, f"sample {i}", rtol=1e-8, atol=1e-9)
        rep.state([tgt, np.round(b, 9)])
    rep.close(ess.x, xs[-1], "state", rtol=1e-8, atol=1e-9)
    rep.close(ess.log_lik_x, lls[-1], "log-likelihood of the state", rtol=1e-8, atol=1e-9)
    rep.true(len(seen) == len(props), f"log-likelihood evaluated {len(seen)} times, expected {len(props)}")
    for i, (a, b) in enumerate(zip(seen, props)):
        rep.close(a, b, f"evaluation {i} of the log-likelihood", rtol=1e-8, atol=1e-9)
    if trace and Progress.reports:
        check_reports(rep, Progress.reports, xs, lls, attempts)
    rep.outcome([tgt, np.round(xs[-1], 6)])
    return True


def run_search(unit, rep):
    prefix = list(unit["first"])
    fixed = len(prefix)
    while True:
        env = Env(prefix, unit["depth"])
        case = [unit["target"], unit["num"], list(prefix)]
        if execute(rep, unit["target"], unit["num"], env, case):
            rep.trace(case, group=f"{unit['num']} transitions")
        # Backtrack.
        c, w = env.choices, env.widths
        while len(c) > fixed and c[-1] + 1 >= w[len(c) - 1]:
            c = c[:-1]
        if len(c) <= fixed:
            return
        prefix = c[:-1] + [c[-1] + 1]


def run_chain(unit, rep):
    """Longer chains, reporting progress or not, in one go or in parts, and without an initial state."""
    for k in range(4):
        for trace, init, split in ((False, True, None), (True, True, None), (False, False, None), (False, True, [1, 0, 12, 17])):
            env = Env([(7 * i * (k + 1) + i // 3) % 2 for i in range(90)], 90)
            case = [unit["target"], "chain", k, trace, init, split]
            if execute(rep, unit["target"], 30, env, case, trace=trace, init=init, split=split):
                rep.trace(case, group="chains")


def run_initial(unit, rep):
    """Every kind of initial state, also special ones, is the initial state."""
    import numpy as np
    from gpcm.sample import ESS

    values = (0.0, -0.0, 1.0, -2.5, 1e-300, 1e300)
    for shape in ((), (1,), (2,), (2, 1), (1, 2)):
        n = int(np.prod(shape))
        for vs in itertools.product(values, repeat=n):
            x0 = np.array(vs).reshape(shape)
            for give in (True, False):
                case = ["initial", shape, vs, give]
                rep.begin(case)
                draws = []

                def prior():
                    draws.append(x0.copy() if not give and not draws else np.ones(shape))
                    return draws[-1]

                def ll(x):
                    return -float(np.sum(np.abs(np.arctan(x))))

                env = Env([], 0)
                with patched(env):
                    ess = ESS(ll, prior, x_init=x0.copy()) if give else ESS(ll, prior)
                    rep.true(len(draws) == (0 if give else 1), f"{len(draws)} draws from the prior")
                    rep.close(ess.x, x0, "initial state", rtol=0, atol=0)
                    rep.close(ess.log_lik_x, ll(x0), "initial log-likelihood", rtol=1e-12)
                    # Move elsewhere.
                    ess.move(x0 + 1)
                    rep.close(ess.x, x0 + 1, "state after moving", rtol=0, atol=0)
                    rep.close(ess.log_lik_x, ll(x0 + 1), "log-likelihood after moving", rtol=1e-12)
                rep.step(2)
                rep.state(case)
                rep.trace(case, group="initial states")


def run_restarts(unit, rep):
    """A likelihood which rejects the first proposals."""
    import numpy as np
    from gpcm.sample import ESS

    for n in range(unit["upto"] + 1):
        case = ["restarts", n]
        rep.begin(case)

        def make():
            calls = [0]

            def ll(x):
                calls[0] += 1
                i = calls[0]
                if i == 1:
                    return 0.0
                return -1e6 if i <= n + 1 else 1.0 + float(i)

            return ll

        env = Env([], 0)
        ys = [np.array([0.5 + 0.25 * i]) for i in range(40)]
        used = []

        def prior():
            used.append(ys[len(used)])
            return used[-1]

        x0 = np.array([0.7])
        with patched(env):
            ess = ESS(make(), prior, x_init=x0)
            samples = ess.sample(2)
        try:
            xs, lls, props, _ = reference(make(), x0, used, env.heights, env.angles, 2)
        except (StopIteration, RuntimeError, AssertionError) as e:
            rep.fail(f"random draws do not match those of the algorithm ({e!r}): {len(env.heights)} heights, {len(used)} prior samples and {len(env.angles)} angles")
            continue
        rep.step(len(props))
        for i in range(2):
            rep.close(samples[i], xs[i], f"sample {i}", rtol=1e-8, atol=1e-9)
        rep.close(ess.log_lik_x, lls[-1], "log-likelihood of the state", rtol=1e-8, atol=1e-9)
        rep.state(case)
        rep.outcome([len(env.heights), round(float(xs[0][0]), 6)])
        rep.trace(case, group="restarts")
