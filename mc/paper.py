"""Execution of the scripts of the paper with stand-ins for data sets, models, plots, and files."""
import contextlib
import os
import runpy
import sys
import types
from collections import namedtuple


class Missing(Exception):
    pass


Call = namedtuple("Call", "name args kw")


class World:
    """Everything that a script can see or do.

    Args:
        store (dict): Files, by path.
        make_models (function, optional): Function that gives for the name of a model a stand-in for its class.
    """

    def __init__(self, store=None, models=None):
        self.store = {} if store is None else store
        self.models = models or {}
        self.values = {}  # Everything that is reported.
        self.sections = []
        self.plots = []
        self.panel = None
        self.roots = []

    # Files.

    def directory(world):
        import lab as B

        class WorkingDirectory:
            def __init__(self, *root, observe=False, seed=0, **kw):
                self.root = os.path.join(*root)
                self.observe = observe
                world.roots.append((self.root, observe, seed))
                B.set_random_seed(seed)

            def file(self, *name, exists=False):
                return os.path.join(self.root, *name)

            def save(self, obj, *name, **kw):
                import copy

                assert not self.observe, "saves to a directory which is only observed"
                world.store[self.file(*name)] = copy.deepcopy(obj)

            def load(self, *name, **kw):
                import copy

                path = self.file(*name)
                if path not in world.store:
                    raise Missing(path)
                return copy.deepcopy(world.store[path])

        return WorkingDirectory

    # Reports.

    def kv(self, key, value=None, **kw):
        self.values[tuple(self.sections) + (str(key),)] = value

    @contextlib.contextmanager
    def section(self, *name, **kw):
        self.sections.append(str(name[0]) if name else "")
        try:
            yield
        finally:
            self.sections.pop()

    @contextlib.contextmanager
    def progress(self, *args, **kw):
        yield lambda *a, **k: None

    # Plots.

    def plot(self, name):
        import numpy as np
        import lab as B

        def conv(x):
            if isinstance(x, (str, bool, type(None))):
                return x
            try:
                return np.array(np.squeeze(B.to_numpy(B.dense(x))))
            except Exception:
                return x

        def f(*args, **kw):
            args = list(args)
            for k in ("x", "y1", "y2") if name == "fill_between" else ("x", "y") if name == "scatter" else ():
                if k in kw:  # Data may be given by keywords.
                    args.append(kw[k])
            self.plots.append((self.panel, Call(name, [conv(a) for a in args], {k: conv(v) if k in ("y", "x") else v for k, v in kw.items()})))

        return f

    def curves(self, label=None, panel=None, name="plot"):
        return [c.args for p, c in self.plots if c.name == name and (label is None or c.kw.get("label") == label) and (panel is None or p == panel)]


def dataframe_module(name, load):
    mod = types.ModuleType(name)
    mod.load = load
    return mod


def run_script(path):
    """Execute a script like ``python path`` does. Modules beside it can be imported, and are forgotten afterwards."""
    folder = os.path.dirname(path)
    before = set(sys.modules)
    sys.path.insert(0, folder)
    try:
        runpy.run_path(path, run_name="__main__")
    finally:
        sys.path.remove(folder)
        for name in set(sys.modules) - before:
            if (getattr(sys.modules[name], "__file__", None) or "").startswith(folder + os.sep):
                del sys.modules[name]


def execute(world, script, argv=(), data=None, noise=None, linspace=None, patches=()):
    """Execute a script of the paper.

    Args:
        world (:class:`.World`): World.
        script (str): Name of the script.
        argv (list[str], optional): Command-line arguments.
        data (dict, optional): Data frame by the name of the module that gives it.
        noise (list, optional): Script for standard normal draws.
        linspace (function, optional): Function that maps a number of points to a smaller one.
        patches (list[tuple], optional): Further things to replace: object, name of attribute, and value.

    Returns:
        int: Number of standard normal draws.
    """
    import lab
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import numpy as np
    import wbml.data
    import wbml.experiment
    import wbml.out
    import wbml.plot
    import gpcm
    from mc.core import REPO
    from mc.noise import scripted

    changes = []

    def change(obj, name, value):
        changes.append((obj, name, getattr(obj, name), value))

    change(wbml.experiment, "WorkingDirectory", world.directory())
    change(wbml.out, "kv", world.kv)
    change(wbml.out, "Section", world.section)
    change(wbml.out, "Progress", world.progress)
    change(wbml.out, "out", lambda *a, **k: None)
    for name in ("tex", "tweak", "pdfcrop"):
        change(wbml.plot, name, lambda *a, **k: None)

    def subplot(*args, **kw):
        world.panel = args

    for name in ("plot", "fill_between", "scatter", "errorbar", "axhline"):
        change(plt, name, world.plot(name))
    for name in ("subplot", "subplot2grid"):
        change(plt, name, subplot)

    def savefig(path, *args, **kw):
        world.store[str(path)] = "figure"

    change(plt, "savefig", savefig)
    for name in ("figure", "title", "xlabel", "ylabel", "xlim", "ylim", "xticks", "yticks", "show", "legend", "tight_layout", "gca", "close"):
        change(plt, name, lambda *a, **k: _Anything())
    for name, cls in world.models.items():
        change(gpcm, name, cls)
    if linspace is not None:
        inside = []  # LAB calls NumPy: do not reduce the number of points twice.
        for mod in (lab, np):
            old = mod.linspace

            def smaller(*args, _old=old, **kw):
                if inside:
                    return _old(*args, **kw)
                if "num" in kw:
                    kw["num"] = linspace(kw["num"])
                else:
                    args = args[:-1] + (linspace(args[-1]),)
                inside.append(True)
                try:
                    return _old(*args, **kw)
                finally:
                    inside.pop()

            change(mod, "linspace", smaller)
    for patch in patches:
        change(*patch)
    mods = {}
    for name, df in (data or {}).items():
        full = f"wbml.data.{name}"
        mods[full] = sys.modules.get(full)
        sys.modules[full] = dataframe_module(full, lambda df=df, **kw: df.copy())
    argv_old, eps, report = sys.argv, lab.epsilon, wbml.out.report_time
    sys.argv = [script] + list(argv)
    for obj, name, _, new in changes:
        setattr(obj, name, new)
    try:
        with (scripted(list(noise)) if noise is not None else contextlib.nullcontext()) as tape:
            if tape is not None:
                changes.append((np.random, "randn", np.random.randn, None))
                np.random.randn = tape.state.randn
            run_script(os.path.join(REPO, "experiments", "paper", script + ".py"))
    finally:
        for obj, name, old, _ in reversed(changes):
            setattr(obj, name, old)
        for full, mod in mods.items():
            if mod is None:
                sys.modules.pop(full, None)
            else:
                sys.modules[full] = mod
        sys.argv, lab.epsilon, wbml.out.report_time = argv_old, eps, report
    return tape.consumed if noise is not None else None


class _Anything:
    def __getattr__(self, name):
        return lambda *a, **k: _Anything()


def stand_ins(world):
    """Stand-ins for the models, of which all predictions are simple functions of everything that they depend on.

    Returns:
        list: All models that are constructed.
    """
    import numpy as np

    made = []

    def arr(x):
        import lab as B

        return np.array(B.to_numpy(B.dense(x)), dtype=float)

    Kernel = namedtuple("Kernel", "x mean var err_95_lower err_95_upper err_68_lower err_68_upper samples all_samples")

    class StandIn:
        def __init__(self, **kw):
            self.kw = kw
            self.fits, self.conditions, self.loaded = [], [], []
            self.state = None
            made.append(self)

        @property
        def tag(self):
            return {"GPCM": 1.0, "CGPCM": 2.0, "RGPCM": 3.0}[self.name] + (0.25 if self.kw.get("scheme", "structured").lower() != "structured" else 0.0)

        def fit(self, t, y, **kw):
            self.fits.append((arr(t), arr(y), kw))
            self.state = float(np.sum(arr(y) * np.cos(arr(t))))

        def save(self, path):
            world.store[str(path)] = ("model", self.name, self.state)

        def load(self, path):
            if str(path) not in world.store:
                raise Missing(path)
            kind, name, self.state = world.store[str(path)]
            assert name == self.name, "loads another model"
            self.loaded.append(str(path))

        def condition(self, t, y):
            assert self.state is not None, "the model is not trained"
            self.conditions.append((arr(t), arr(y)))
            return Posterior(self, arr(t), arr(y))

        def elbo(self, *args):
            if len(args) == 3:
                return args[0], self.elbo(*args[1:])
            t, y = args
            return self.tag + 0.1 * float(np.sum(arr(y) * np.sin(arr(t)))) + 0.01 * (self.state or 0)

        def __call__(self, *args):
            return self

    class Posterior:
        def __init__(self, model, t, y):
            self.model, self.t, self.y = model, t, y
            self.context = model.tag + 0.3 * np.sin(np.sum(y * np.cos(0.1 * t)) + model.state)

        def __call__(self, *args):
            return self

        def predict(self, t):
            t = arr(t)
            w = np.cos(0.05 * (t[:, None] - self.t[None, :]))
            mean = np.tanh(w @ self.y) + 0.1 * self.context
            return mean, 0.2 + 0.1 * np.cos(0.3 * t + self.context) ** 2

        def predict_kernel(self, t_k=None, num_samples=1000):
            x = 0.5 * np.arange(7) if t_k is None else arr(t_k)
            return kernel(self.context, x)

        def predict_psd(self, t_k=None, num_samples=1000):
            assert t_k is None
            return psd(self.context)

    def kernel(c, x):
        mean = np.exp(-0.5 * x**2) + 0.1 * c
        sd = 0.1 + 0.05 * np.cos(x + c) ** 2
        all_samples = mean[:, None] + sd[:, None] * np.array([-1.5, -0.2, 0.0, 0.4, 1.1])[None, :]
        return Kernel(x, mean, sd**2, mean - 2 * sd, mean + 2 * sd, mean - sd, mean + sd, all_samples[:, :3], all_samples)

    def psd(c):
        x = 0.15 * np.arange(9)
        mean = -3.0 * x + c
        sd = 1 + 0.2 * x
        all_samples = mean[:, None] + sd[:, None] * np.array([-1.5, -0.2, 0.0, 0.4, 1.1])[None, :]
        return Kernel(x, mean, sd**2, mean - 2 * sd, mean + 2 * sd, mean - sd, mean + sd, all_samples[:, :3], all_samples)

    StandIn.Posterior = Posterior
    for name in ("GPCM", "CGPCM", "RGPCM"):
        world.models[name] = type(name, (StandIn,), {"name": name})
    return made
