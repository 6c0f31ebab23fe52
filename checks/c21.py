"""C21: experiment driver."""
import itertools

ID = "C21"
RULE = (
    "The driver runs with recording stand-ins for the model classes, and for the analysis. All lists of names up to a length, known and unknown and in any order, by all options are explored; the recorded constructions, fits, "
    "saves, loads and their arguments are compared with a reference model of the driver. Parsing is run on all combinations of options. One complete training, saving and loading is run with the real models."
)
BOUNDS = {
    "quick": "all lists of up to 3 of 3 names, and all lists of up to 3 names with an unknown one, x 3 settings of n_z x 2 of fixing x 2 of extension x 2 of n_u; training: all subsets x iterations x hyperparameters x load x directory; parsing: all combinations of 6 options",
    "thorough": "all lists of up to 4 names (also repeated) out of 5, known and unknown, x 7 settings of n_z x 2 of fixing x 2 of extension x 2 of n_u; training: all subsets x iterations x hyperparameters x load x directory; parsing: all combinations of 6 options",
}
ASSUMPTIONS = ["plots and printed output are not checked"]

KNOWN = ["gpcm", "gprv", "cgpcm"]
ORDER = {"gpcm": "GPCM", "cgpcm": "CGPCM", "gprv": "RGPCM"}


def units(tier):
    q = tier == "quick"
    us = []
    for n in range(0, 4 if q else 5):
        us.append({"kind": "build", "n": n, "n_z": [None, 5, 8] if q else [None, 1, 2, 5, 8, 9, 0], "repeat": not q})
    us.append({"kind": "real_build"})
    us.append({"kind": "train"})
    us.append({"kind": "run"})
    us.append({"kind": "parse"})
    for m in KNOWN:
        us.append({"kind": "real", "model": m})
    return us


def driver():
    """Import the driver from the repository, not from elsewhere."""
    import importlib
    import os

    from mc.core import REPO

    mod = importlib.import_module("experiments.experiment")
    if not os.path.realpath(mod.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"imported {mod.__file__}")
    from mc.core import quiet

    quiet()
    return mod


class Recorder:
    """Stand-in for a model."""

    log = None

    def __init__(self, **kw):
        self.kw = kw
        self.log.append(("build", self.name, kw))

        class VS:
            def print(s):
                pass

        self.vs = VS()

    def __call__(self):
        self.log.append(("instantiate", self.name))
        return self

    def fit(self, *args, **kw):
        self.log.append(("fit", self.name, args, kw))

    def save(self, path):
        self.log.append(("save", self.name, path))

    def load(self, path):
        self.log.append(("load", self.name, path))


class Dir:
    """Stand-in for a working directory."""

    def file(self, *parts):
        return "/".join(parts)


class recording:
    def __init__(self, mod):
        self.mod = mod

    def __enter__(self):
        self.log = []
        self.old = {k: getattr(self.mod, k) for k in ("GPCM", "CGPCM", "RGPCM", "analyse_models")}
        for k in ("GPCM", "CGPCM", "RGPCM"):
            setattr(self.mod, k, type(k, (Recorder,), {"name": k, "log": self.log}))
        self.mod.analyse_models = lambda models, t, y, wd=None, **kw: self.log.append(("analyse", [m.name for m in models], t, y, wd, kw))
        return self

    def __exit__(self, *_):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


def same(a, b):
    import numpy as np

    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    return type(a) is type(b) and a == b or (a == b and not isinstance(a, bool) and not isinstance(b, bool))


def expected_kw(name, o, t):
    kw = dict(
        scheme=o["scheme"], noise=o["noise"], window=o["window"], fix_window=o["fix_window_scale"],
        scale=o["scale"], fix_scale=o["fix_window_scale"], t=t, n_u=o["n_u"],
    )
    if name == "gprv":
        kw["m_max"] = -(-o["n_z"] // 2) if o["n_z"] else None
    else:
        kw["n_z"] = o["n_z"]
        kw["extend_t_z"] = o["extend_t_z"]
    return kw


def check_built(rep, built, names, o, t):
    """The right models with the right settings in the right order."""
    want = [n for n in ("gpcm", "cgpcm", "gprv") if n in names]
    if not rep.true([b[1] for b in built] == [ORDER[n] for n in want], f"built {[b[1] for b in built]} for {names}"):
        return
    for b, n in zip(built, want):
        kw = dict(b[2])
        ref = expected_kw(n, o, t)
        for k, v in ref.items():
            # Not giving an argument is giving its default.
            default = {"n_u": None, "n_z": None, "m_max": None, "fix_window": False, "fix_scale": False, "extend_t_z": False}
            got = kw.pop(k, default.get(k, "missing"))
            if n == "gprv" and k == "m_max" and "m_max" not in b[2] and b[2].get("n_z") is not None:
                kw.pop("n_z")
                got = -(-b[2]["n_z"] // 2)
            rep.true(same(got, v), f"{n}: {k} is {got!r}, expected {v!r}")
        if n == "gprv":
            kw.pop("extend_t_z", None)
            kw.pop("n_z", None)
        rep.true(not {k: v for k, v in kw.items() if v is not None and v is not False}, f"{n}: superfluous arguments {kw}")


def options(n_zs):
    for n_z, fix, ext, n_u in itertools.product(n_zs, (False, True), (False, True), (None, 7)):
        yield dict(scheme="structured" if fix else "mean-field", window=2.0, scale=0.5, noise=0.03, fix_window_scale=fix, n_u=n_u, n_z=n_z, extend_t_z=ext)


def lists(n, repeat):
    pool = KNOWN + ["rgpcm", "GPCM"]
    if repeat:
        return itertools.product(pool, repeat=n)
    return itertools.permutations(pool, n)


def run(unit, rep):
    globals()["run_" + unit["kind"]](unit, rep)


def run_build(unit, rep):
    import numpy as np

    mod = driver()
    t, y = np.linspace(0, 5, 11), np.zeros(11)
    for names in lists(unit["n"], unit["repeat"]):
        for container in (list, tuple):
            for o in options(unit["n_z"]):
                case = [list(names), o]
                rep.begin(case)
                arg = container(names)
                with recording(mod) as r:
                    try:
                        models = mod.build_models(arg, t=t, y=y, **o)
                        error = None
                    except ValueError as e:
                        error = e
                rep.step()
                unknown = [n for n in names if n not in KNOWN]
                if unknown:
                    rep.true(error is not None, f"accepted {names}")
                    if error is not None:
                        rep.true(all(f'"{n}"' in str(error) for n in unknown), f"{error} does not mention {unknown}")
                elif rep.true(error is None, f"rejected {names}: {error}"):
                    rep.true([m.name for m in models] == [b[1] for b in r.log], "models that were returned are not those built")
                    check_built(rep, r.log, names, o, t)
                rep.true(list(arg) == list(names), f"list of names was changed to {arg}")
            rep.state([list(names), container.__name__])
            rep.outcome([sorted(set(names))])
        rep.trace([list(names)], group="known" if not unknown else "unknown")


def run_real_build(unit, rep):
    """With the real models."""
    import numpy as np

    mod = driver()
    t, y = np.linspace(0, 3, 7), np.zeros(7)
    for names in itertools.chain.from_iterable(itertools.permutations(KNOWN, n) for n in range(1, 4)):
        for o in options([None, 4, 5]):
            case = ["real", list(names), o]
            rep.begin(case)
            models = mod.build_models(list(names), t=t, y=y, **o)
            rep.step()
            rep.true([m.name for m in models] == [ORDER[n] for n in ("gpcm", "cgpcm", "gprv") if n in names], f"built {[m.name for m in models]}")
            for m in models:
                rep.true(m.scheme == o["scheme"] and m.noise == o["noise"] and m.fix_window == o["fix_window_scale"] and m.fix_scale == o["fix_window_scale"], f"settings of {m.name}")
                rep.true(not m.fix_noise, "noise is fixed")
                if m.name == "RGPCM":
                    if o["n_z"]:
                        rep.true(m.m_max == -(-o["n_z"] // 2), f"m_max = {m.m_max} for n_z = {o['n_z']}")
                elif o["n_z"] and not o["extend_t_z"]:
                    rep.true(m.n_z == o["n_z"], f"n_z = {m.n_z}, expected {o['n_z']}")
                elif o["n_z"]:
                    rep.true(m.n_z > o["n_z"], f"n_z = {m.n_z} with extension of {o['n_z']}")
            rep.state(case)
            rep.trace(case, group="real models")


def check_training(rep, log, names, t, y, config, load, wd):
    log = [x for x in log if x[0] in ("fit", "save", "load")]
    want = []
    for n in (ORDER[k] for k in ("gpcm", "cgpcm", "gprv") if k in names):
        if load:
            want.append(("load", n, f"models/{n}.pickle"))
        else:
            want.append(("fit", n, (t, y), config))
            if wd:
                want.append(("save", n, f"models/{n}.pickle"))
    if not rep.true([x[:2] for x in log] == [x[:2] for x in want], f"{[x[:2] for x in log]}, expected {[x[:2] for x in want]}"):
        return
    for a, b in zip(log, want):
        if a[0] == "fit":
            args, kw = list(a[2]), dict(a[3])
            for k in ("t", "y")[len(args):]:
                args.append(kw.pop(k, None))
            rep.true(len(args) == 2 and same(args[0], t) and same(args[1], y), "fitted to other data")
            rep.true(kw == b[3] and all(type(kw[k]) is type(b[3][k]) for k in kw), f"fitted with {kw}, expected {b[3]}")
        else:
            rep.true(a[2] == b[2], f"{a[0]} with {a[2]}, expected {b[2]}")


def run_train(unit, rep):
    import numpy as np

    mod = driver()
    t, y = np.linspace(0, 5, 11), np.sin(np.arange(11.0))
    o = next(options([None]))
    for names in itertools.chain.from_iterable(itertools.combinations(KNOWN, n) for n in range(4)):
        for config in ({}, {"iters": 7}, {"optimise_hypers": False}, {"iters": 3, "optimise_hypers": False}):
            for load, wd in ((False, None), (False, Dir()), (True, Dir())):
                case = [list(names), config, load, wd is not None]
                rep.begin(case)
                with recording(mod) as r:
                    models = mod.build_models(list(names), t=t, y=y, **o)
                    given = dict(config)
                    mod.train_models(models, t, y, given, load, wd=wd)
                rep.step()
                check_training(rep, r.log, names, t, y, config, load, wd)
                rep.true(given == config, "configuration was changed")
                rep.state(case)
                rep.outcome([x[0] for x in r.log])
                rep.trace(case, group="training")


def run_run(unit, rep):
    import argparse
    import numpy as np

    mod = driver()
    t, y = np.linspace(0, 5, 11), np.sin(np.arange(11.0))
    subsets = list(itertools.chain.from_iterable(itertools.permutations(KNOWN, n) for n in range(1, 4)))
    for names, iters, fix, load in itertools.product(subsets, (None, 12, 1), (False, True), (False, True)):
        for i, extra in enumerate(({}, dict(fix_window_scale=True, n_u=9, n_z=7, extend_t_z=True), dict(n_z=10))):
            for akw in ({}, {"t_plot": t[:3], "truth": (t, y)}):
                case = [list(names), iters, fix, load, extra, sorted(akw)]
                rep.begin(case)
                args = argparse.Namespace(model=list(names), scheme="mean-field", iters=iters, fix_hypers=fix, load=load, seed=0, path=[])
                wd = Dir()
                with recording(mod) as r:
                    mod.run(args, wd, noise=0.2, window=3.0, scale=0.7, t=t, y=y, **extra, **akw)
                rep.step()
                o = dict(scheme="mean-field", noise=0.2, window=3.0, scale=0.7, fix_window_scale=False, n_u=None, n_z=None, extend_t_z=False)
                o.update(extra)
                check_built(rep, [x for x in r.log if x[0] == "build"], names, o, t)
                config = {}
                if iters:
                    config["iters"] = iters
                if fix:
                    config["optimise_hypers"] = False
                check_training(rep, r.log, names, t, y, config, load, wd)
                a = [x for x in r.log if x[0] == "analyse"]
                if rep.true(len(a) == 1 and r.log[-1] is a[0], "models are analysed once, at the end"):
                    rep.true(a[0][1] == [ORDER[n] for n in ("gpcm", "cgpcm", "gprv") if n in names], f"analysed {a[0][1]}")
                    rep.true(same(a[0][2], t) and same(a[0][3], y) and a[0][4] is wd, "analysed with other data")
                    rep.true(set(a[0][5]) == set(akw) and all(a[0][5][k] is akw[k] for k in akw), f"analysed with {a[0][5]}")
                rep.state(case)
                rep.outcome([x[0] for x in r.log])
                rep.trace(case, group="run")


def run_parse(unit, rep):
    import os
    import sys
    import tempfile

    mod = driver()
    old = sys.argv, mod.WorkingDirectory
    made = []

    class FakeDir:
        def __init__(self, *path, seed=None, **kw):
            made.append((path, seed, kw))

    mod.WorkingDirectory = FakeDir
    d = tempfile.mkdtemp(prefix="c21-")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        choices = [
            (("path", [], []), ("path", ["a", "b"], ["a", "b"])),
            (("seed", 0, []), ("seed", 4, ["--seed", "4"])),
            (("iters", None, []), ("iters", 20, ["--iters", "20"])),
            (("scheme", "structured", []), ("scheme", "mean-field", ["--scheme", "mean-field"])),
            (("load", False, []), ("load", True, ["--load"])),
            (("fix_hypers", False, []), ("fix_hypers", True, ["--fix-hypers"])),
            (("model", KNOWN, []), ("model", ["cgpcm"], ["--model", "cgpcm"]), ("model", ["gprv", "gpcm"], ["--model", "gprv", "gpcm"])),
        ]
        for combo in itertools.product(*choices):
            argv = [a for c in combo for a in c[2]]
            rep.begin(argv)
            sys.argv = ["x.py"] + argv
            made.clear()
            args, wd = mod.setup("some_name")
            rep.step()
            for k, v, _ in combo:
                rep.true(getattr(args, k) == v, f"{k} is {getattr(args, k)!r}, expected {v!r}")
            rep.true(isinstance(wd, FakeDir) and made == [(("_experiments", "some_name", *args.path), args.seed, {})], f"working directory {made}")
            rep.state(argv)
            rep.outcome(argv)
            rep.trace(argv, group="parsing")
        err = sys.stderr
        sys.stderr = open(os.devnull, "w")
        try:
            for bad in (["--model", "rgpcm"], ["--model"], ["--iters", "x"], ["--unknown"], ["--seed", "1.5"]):
                rep.begin(bad)
                sys.argv = ["x.py"] + bad
                try:
                    mod.setup("some_name")
                    rep.fail(f"accepted {bad}")
                except SystemExit as e:
                    rep.true(e.code != 0, "exited with success")
                rep.step()
                rep.trace(bad, group="parsing (rejected)")
        finally:
            sys.stderr.close()
            sys.stderr = err
    finally:
        sys.argv, mod.WorkingDirectory = old
        os.chdir(cwd)
        os.rmdir(d)


def run_real(unit, rep):
    """Train, save and load with the real models."""
    import os
    import shutil
    import tempfile

    import numpy as np

    mod = driver()
    d = tempfile.mkdtemp(prefix="c21-")

    class Real:
        def file(self, *parts):
            p = os.path.join(d, *parts)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            return p

    try:
        t = np.linspace(0, 2, 5)
        y = np.sin(2 * t)
        o = dict(scheme="mean-field-ca", window=1.0, scale=0.8, noise=0.1, fix_window_scale=True, n_u=3, n_z=3, extend_t_z=False)
        rep.begin(["real", unit["model"]])
        ms = mod.build_models([unit["model"]], t=t, y=y, **o)
        mod.train_models(ms, t, y, {"iters": 4}, False, wd=Real())
        new = mod.build_models([unit["model"]], t=t, y=y, **o)
        mod.train_models(new, t, y, {"iters": 4}, True, wd=Real())
        rep.step(2)
        rep.true(sorted(ms[0].vs.names) == sorted(new[0].vs.names), "loaded variables")
        for n in ms[0].vs.names:
            rep.true(np.array_equal(np.array(ms[0].vs[n]), np.array(new[0].vs[n])), f"{n} differs after loading")
        rep.close(new[0].elbo(t, y), ms[0].elbo(t, y), "ELBO after loading")
        for a, b in zip(ms[0].condition(t, y).predict(t), new[0].condition(t, y).predict(t)):
            rep.close(b, a, "prediction after loading")
        rep.state(["real", unit["model"]])
        rep.trace(["real", unit["model"]], group="real training")
    finally:
        shutil.rmtree(d)
