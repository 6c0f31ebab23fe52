"""C12: saving and loading."""
import itertools
import os
import tempfile

ID = "C12"
RULE = (
    "State: variables of two models of the same kind and the content of two files. Transitions: instantiate, set the variational posterior, change a hyperparameter, save, load, for either model. All "
    "histories up to a depth that end in a load of something saved are run on the implementation and the variables are compared with a dictionary model after every operation. "
    "Crash points: every proper prefix of every kind of saved file is loaded into models in every kind of state."
)
BOUNDS = {
    "quick": "3 models, all histories of depth 3 (4 for one file) over 10 operations; every prefix of 3 kinds of files into 2 kinds of models; round trips for 4 schemes x 4 states of the loading model",
    "thorough": "3 models, all histories of depth 4 (5 for one file) over 10 operations; every prefix of 3 kinds of files into 2 kinds of models; round trips for 4 schemes x 4 states of the loading model",
}
ASSUMPTIONS = ["a crash leaves a prefix of the file"]

NAMES = ("GPCM", "CGPCM", "RGPCM")


def units(tier):
    us = []
    for m in NAMES:
        us.append({"kind": "truncate", "model": m})
        for s in ("structured", "mean-field", "mean-field-ca", "mean-field-gradient"):
            us.append({"kind": "round_trip", "model": m, "scheme": s})
        us.append({"kind": "fit", "model": m})
    ops = [f"{o}{i}" for i in (0, 1) for o in ("I", "Q", "P")]
    d = 3 if tier == "quick" else 4
    for m in NAMES:
        for first in ops + ["SA0", "SA1"]:
            us.append({"kind": "histories", "model": m, "first": first, "depth": d, "files": "AB"})
    if tier == "quick":
        for first in ops + ["SA0", "SA1"]:
            us.append({"kind": "histories", "model": "RGPCM", "first": first, "depth": 4, "files": "A"})
    else:
        for first in ops + ["SA0", "SA1"]:
            us.append({"kind": "histories", "model": "RGPCM", "first": first, "depth": 5, "files": "A"})
    return us


def run(unit, rep):
    d = tempfile.mkdtemp(prefix="c12-")
    try:
        globals()["run_" + unit["kind"]](unit, rep, d)
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


def variables(m):
    import numpy as np

    return {n: np.array(m.vs[n]) for n in m.vs.names}


def same(rep, got, want, what, exact=False):
    import numpy as np

    if not rep.true(set(got) == set(want), f"{what}: variables {sorted(got)}, expected {sorted(want)}"):
        return
    for n in got:
        if exact:
            rep.true(np.array_equal(got[n], want[n]), f"{what}: {n} changed")
        else:
            rep.close(got[n], want[n], f"{what}: {n}", rtol=1e-9, atol=1e-12)


def set_everything(m, k, samples=0):
    """Instantiate and set a variational posterior, possibly with samples."""
    import numpy as np
    from checks.c09 import set_q

    inst = m()
    set_q(inst, k, (k + 1) % 4)
    if samples:
        inst.approximation.q_u_samples = [np.sin(np.arange(inst.n_u) + j + k)[:, None] for j in range(samples)]
        inst.approximation.q_z_samples = [np.cos(np.arange(inst.n_z) + j + k)[:, None] for j in range(samples)]


def run_histories(unit, rep, d):
    import numpy as np
    from mc.models import small

    name = unit["model"]
    ops = [f"{o}{i}" for i in (0, 1) for o in ("I", "Q", "P")]
    ops += [f"{o}{f}{i}" for i in (0, 1) for f in unit["files"] for o in "SL"]

    proto = small(name, scheme="mean-field")
    proto()
    init = variables(proto)

    for h in itertools.product(ops, repeat=unit["depth"] - 1):
        h = (unit["first"],) + h
        if h[-1][0] != "L":
            continue
        # Loads must be preceded by a save of that file.
        saved, ok = set(), True
        for o in h:
            if o[0] == "S":
                saved.add(o[1])
            if o[0] == "L" and o[1] not in saved:
                ok = False
        if not ok:
            continue
        rep.begin([name, list(h)])
        ms = [small(name, scheme="mean-field"), small(name, scheme="mean-field")]
        spec = [{}, {}]
        files = {}
        count = 0
        for o in h:
            i = int(o[-1])
            m, s = ms[i], spec[i]
            count += 1
            if o[0] == "I":
                m()
                for n in init:
                    s.setdefault(n, init[n])
            elif o[0] == "Q":
                set_everything(m, count % 3)
                for n in init:
                    s.setdefault(n, init[n])
                now = variables(m)
                s.update({n: now[n] for n in now if n.startswith("q_")})
            elif o[0] == "P":
                if "noise" in s:
                    m.vs.assign("noise", 0.1 + 0.1 * count)
                    s["noise"] = np.array(0.1 + 0.1 * count)
            elif o[0] == "S":
                m.save(os.path.join(d, o[1]))
                files[o[1]] = dict(s)
            elif o[0] == "L":
                m.load(os.path.join(d, o[1]))
                s.update(files[o[1]])
            rep.step()
            for j in (0, 1):
                same(rep, variables(ms[j]), spec[j], f"model {j} after {o}")
            rep.state([name, [sorted((n, round(float(np.sum(v)), 6)) for n, v in s_.items()) for s_ in spec], sorted(files)])
        # The loaded values are used.
        if spec[i] and any(o[0] == "P" for o in h):
            inst = ms[i]()
            rep.close(inst.noise, spec[i].get("noise", init["noise"]), "noise of the loaded model", rtol=1e-9)
            rep.close(inst.t_u, spec[i].get("t_u", init["t_u"]), "t_u of the loaded model", rtol=1e-9)
            same(rep, variables(ms[i]), {**init, **spec[i]}, "instantiating after loading")
        rep.trace([name, list(h)], group=f"histories of depth {unit['depth']}")


def targets(name, scheme, n):
    """Models in various states to load into."""
    from mc.models import small

    fresh = small(name, scheme=scheme)
    inst = small(name, scheme=scheme)
    inst()
    q = small(name, scheme=scheme)
    set_everything(q, 2)
    s = small(name, scheme=scheme)
    set_everything(s, 3, samples=n)
    return {"fresh": fresh, "instantiated": inst, "with posterior": q, "with samples": s}


def run_round_trip(unit, rep, d):
    import numpy as np
    from mc.models import small

    name, scheme = unit["model"], unit["scheme"]
    structured = scheme == "structured"
    n = 3 if structured else 0
    source = small(name, scheme=scheme)
    set_everything(source, 0, samples=n)
    source.vs.assign("noise", 0.23)
    source.vs.assign("alpha", 0.77)
    before = variables(source)
    path = os.path.join(d, "model.pickle")
    rep.begin([name, scheme, "save"])
    source.save(path)
    same(rep, variables(source), before, "saving changed the model", exact=True)
    t, y = np.array([0.3, 1.1, 1.9]), np.array([0.7, -0.4, 1.1])
    tp = np.array([0.0, 0.8, 2.7])

    def observe(m):
        post = m.condition(t, y)
        out = [np.stack(post.predict(tp))]
        if not structured:
            out.append(np.array(m.elbo(t, y)))
        out.append(np.array(m.kernel_approx(tp, tp, np.ones(len(np.array(m().t_u))))))
        return out

    want = observe(source)
    for what, m in targets(name, scheme, 2 if structured else 0).items():
        rep.begin([name, scheme, what])
        m.load(path)
        got = variables(m)
        same(rep, {k: got[k] for k in before if k in got}, before, "loaded variables")
        rep.true(set(got) == set(before), f"variables after loading: {sorted(got)}")
        for a, b in zip(observe(m), want):
            rep.close(a, b, "results of the loaded model", rtol=1e-8, atol=1e-8)
        # Save again and load into yet another model.
        again = os.path.join(d, "again.pickle")
        m.save(again)
        m2 = small(name, scheme=scheme)
        m2.load(again)
        same(rep, variables(m2), before, "second round trip")
        rep.step(3)
        rep.state([name, scheme, what])
        rep.trace([name, scheme, what], group="round trips")
    # Loading does not alias: changing the one does not change the other.
    m2.vs.assign("noise", 0.9)
    same(rep, variables(source), before, "source after changing a copy", exact=True)
    # A failing write is an error.
    rep.begin([name, scheme, "/dev/full"])
    try:
        source.save("/dev/full")
        rep.fail("saving to a full device succeeded")
    except OSError:
        pass
    same(rep, variables(source), before, "failed save", exact=True)
    rep.begin([name, scheme, "missing"])
    try:
        source.load(os.path.join(d, "missing.pickle"))
        rep.fail("loading a missing file succeeded")
    except OSError:
        pass
    same(rep, variables(source), before, "failed load", exact=True)


def run_truncate(unit, rep, d):
    from mc.models import small

    name = unit["model"]
    fresh, inst, full = small(name), small(name), small(name)
    inst()
    set_everything(full, 0, samples=2)
    for kind, m in (("empty", fresh), ("instantiated", inst), ("full", full)):
        path = os.path.join(d, kind)
        rep.begin([name, kind])
        m.save(path)
        data = open(path, "rb").read()
        rep.true(len(data) > 0, "empty file")
        if kind != "empty":
            rep.true(len(data) > 100, f"only {len(data)} bytes were saved")
        cut = os.path.join(d, "cut")
        tgt = {"fresh": small(name), "instantiated": small(name)}
        tgt["instantiated"]()
        before = {k: variables(v) for k, v in tgt.items()}
        for n in range(len(data)):
            with open(cut, "wb") as f:
                f.write(data[:n])
            for k, v in tgt.items():
                rep.begin([name, kind, n, k])
                try:
                    v.load(cut)
                    rep.fail(f"file cut short to {n} of {len(data)} bytes was accepted")
                except Exception:
                    pass
                same(rep, variables(v), before[k], f"model after loading {n} of {len(data)} bytes", exact=True)
                rep.step()
            rep.state([name, kind, n])
        rep.trace([name, kind, len(data)], group="truncated")
        for k, v in tgt.items():
            v.load(path)


def run_fit(unit, rep, d):
    """Fitting continues equally after loading."""
    import numpy as np
    from mc.models import small

    name = unit["model"]
    t, y = np.array([0.3, 1.1, 1.9]), np.array([0.7, -0.4, 1.1])
    path = os.path.join(d, "model.pickle")
    for scheme in ("mean-field-ca", "mean-field-collapsed-gradient"):
        source = small(name, scheme=scheme)
        set_everything(source, 0)
        source.vs.assign("noise", 0.4)
        source.save(path)
        for what in ("instantiated", "with posterior") + (("fresh",) if scheme == "mean-field-ca" else ()):
            m = targets(name, scheme, 0)[what]
            # The variational posterior must have been there for its constraints to be known.
            if scheme != "mean-field-ca" and what == "instantiated":
                continue
            rep.begin([name, scheme, what, "fit"])
            m.load(path)
            m.fit(t, y, iters=5)
            if not hasattr(source, "_fitted"):
                source._fitted = True
                source.fit(t, y, iters=5)
            a, b = variables(m), variables(source)
            for k in a:
                rep.close(a[k], b[k], f"{k} after loading and fitting", rtol=1e-4, atol=1e-5)
            rep.step(2)
            rep.state([name, scheme, what, "fit"])
            rep.trace([name, scheme, what, "fit"], group="fit")
