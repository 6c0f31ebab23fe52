"""Bounded model-checking harness shared by all checks.

A check module defines

    ID       property id
    RULE     what is enumerated and what the oracle is
    BOUNDS   {tier: text}
    units(tier)      -> list of JSON-able unit descriptors which partition the bounded space
    run(unit, rep)   -> explores everything in the unit on the real code, reporting to `rep`

The units of a check partition its bounded space of behaviours. All of them are explored, by a pool
of forked worker processes; nothing is sampled. A unit whose exploration is stopped by a
violation writes a replayable artefact.
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
MAX_SAMPLES = 6


class Violation(BaseException):
    pass


class UnitTimeout(BaseException):
    pass


def canon(x):
    """Canonical JSON text of a case."""
    return json.dumps(x, sort_keys=True, default=_default)


def _default(x):
    import numpy as np

    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if hasattr(x, "tolist"):
        return x.tolist()
    return repr(x)


class Reporter:
    """Collects counts and violations of one unit."""

    def __init__(self, known=()):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.outcomes = set()
        self.groups = {}
        self.known = known
        self.current = None

    def state(self, key):
        """Count a state by its canonical key."""
        if not isinstance(key, str):
            key = canon(key)
        self.states.add(hashlib.blake2b(key.encode(), digest_size=8).digest())

    def step(self, n=1):
        """Count transitions: operations executed on the implementation."""
        self.transitions += n

    def trace(self, case=None, group=None):
        """Count a complete trace or case that was run on the implementation and compared with the
        oracle."""
        self.traces += 1
        if group is not None:
            self.groups[group] = self.groups.get(group, 0) + 1
        if case is not None and len(self.samples) < 2:
            self.samples.append(json.loads(canon(case)))

    def outcome(self, key):
        """Record a distinct observed outcome, to guard against vacuous exploration."""
        if len(self.outcomes) < 5000:
            self.outcomes.add(
                hashlib.blake2b(canon(key).encode(), digest_size=6).digest()
            )

    def begin(self, case):
        """Say which case is being explored, for artefacts of exceptions."""
        self.current = case

    def fail(self, message, case=None, key=None):
        self.violations.append(
            {
                "message": str(message)[:4000],
                "case": json.loads(canon(self.current if case is None else case)),
                "key": key,
            }
        )
        if len(self.violations) >= 3:
            raise Violation()

    def true(self, cond, message, case=None, key=None):
        if not cond:
            self.fail(message, case=case, key=key)
            return False
        return True

    def close(self, x, ref, message, case=None, rtol=1e-6, atol=1e-8, key=None):
        """Compare arrays. The shapes must agree, and NaNs never do."""
        import numpy as np

        x = to_np(x)
        ref = to_np(ref)
        if x.shape != ref.shape:
            self.fail(f"{message}: shape {x.shape}, expected {ref.shape}", case, key)
            return False
        try:
            x = x.astype(complex) if np.iscomplexobj(x) else x.astype(float)
        except Exception:
            self.fail(f"{message}: not numeric: {x!r}", case, key)
            return False
        err = np.abs(x - ref)
        tol = atol + rtol * np.abs(ref)
        ok = bool(np.all(err <= tol))  # False for NaNs
        if not ok:
            with np.errstate(all="ignore"):
                bad = np.unravel_index(np.argmax(np.nan_to_num(err - tol, nan=np.inf)), x.shape) if x.ndim else ()
            self.fail(
                f"{message}: got {x[bad]!r}, expected {ref[bad]!r} at {tuple(int(b) for b in bad)}",
                case,
                key,
            )
        return ok


def to_np(x):
    import lab as B
    import numpy as np

    try:
        return np.asarray(B.to_numpy(B.dense(x)))
    except Exception:
        return np.asarray(x)


def setup_env():
    """Environment of all workers. Set before NumPy and JAX are imported."""
    os.environ.update(
        JAX_PLATFORMS="cpu",
        MPLBACKEND="Agg",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        TF_CPP_MIN_LOG_LEVEL="3",
    )
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def import_target():
    import warnings

    warnings.simplefilter("ignore")
    import gpcm

    path = os.path.realpath(os.path.dirname(gpcm.__file__))
    want = os.path.realpath(os.path.join(REPO, "gpcm"))
    if path != want:
        raise RuntimeError(f"gpcm imported from {path}, not from {want}")


def quiet():
    """Silence progress reports of the code under test."""
    import wbml.out

    wbml.out.streams.clear() if hasattr(wbml.out, "streams") else None


class _Devnull:
    def write(self, *_):
        pass

    def flush(self):
        pass


def _run_unit(mod, unit, known, timeout):
    rep = Reporter(known)
    rep.current = unit

    def on_alarm(*_):
        raise UnitTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(timeout)
    t0 = time.time()
    out = sys.stdout
    sys.stdout = _Devnull()
    try:
        import_target()
        import numpy as np

        quiet()
        np.random.seed(20)
        try:
            mod.run(unit, rep)
        except Violation:
            pass
    except UnitTimeout:
        _soft_fail(rep, f"did not finish within {timeout} s (never takes more than a fraction of that)")
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        _soft_fail(rep, "unexpected exception:\n" + traceback.format_exc()[-3500:])
    finally:
        signal.alarm(0)
        sys.stdout = out
    return {
        "unit": unit,
        "states": rep.states,
        "transitions": rep.transitions,
        "traces": rep.traces,
        "samples": rep.samples,
        "violations": rep.violations,
        "outcomes": rep.outcomes,
        "groups": rep.groups,
        "wall": time.time() - t0,
    }


def _soft_fail(rep, message):
    try:
        rep.fail(message)
    except Violation:
        pass


def _worker(modname, known, timeout, conn):
    setup_env()
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MC_STDERR"):
        os.dup2(devnull, 2)
    mod = importlib.import_module(modname)
    while True:
        try:
            unit = conn.recv()
        except EOFError:
            os._exit(0)
        if unit is None:
            os._exit(0)
        res = _run_unit(mod, unit, known, timeout)
        conn.send(res)


def explore(modname, units, known=(), jobs=8, timeout=400, deadline=None, batch_stop=True):
    """Run all units on a pool of forked workers. Yields results."""
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    todo = list(enumerate(units))[::-1]
    tries = {}
    workers = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(modname, known, timeout, b), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None]
        return a

    def feed(conn):
        if not todo:
            try:
                conn.send(None)
            except Exception:
                pass
            p, _ = workers.pop(conn)
            conn.close()
            p.join(5)
            return
        i, unit = todo.pop()
        workers[conn][1] = (i, unit)
        conn.send(unit)

    try:
        for _ in range(min(jobs, len(todo))):
            feed(spawn())
        while workers:
            ready = wait(list(workers), timeout=5)
            if deadline is not None and time.time() > deadline:
                for conn, (p, cur) in workers.items():
                    p.kill()
                    if cur:
                        yield {
                            "unit": cur[1], "states": set(), "transitions": 0, "traces": 0, "samples": [],
                            "violations": [{"message": "exploration did not finish before the overall deadline", "case": cur[1], "key": None}],
                            "outcomes": set(), "groups": {}, "wall": 0.0,
                        }
                return
            for conn in ready:
                p, cur = workers[conn]
                try:
                    res = conn.recv()
                except (EOFError, OSError):
                    # The worker died. Retry once in a fresh process before believing it.
                    p.join(5)
                    workers.pop(conn)
                    conn.close()
                    i, unit = cur
                    tries[i] = tries.get(i, 0) + 1
                    if tries[i] < 2:
                        todo.append((i, unit))
                    else:
                        yield {
                            "unit": unit, "states": set(), "transitions": 0, "traces": 0, "samples": [],
                            "violations": [{"message": f"process died twice (exit code {p.exitcode})", "case": unit, "key": None}],
                            "outcomes": set(), "groups": {}, "wall": 0.0,
                        }
                    if todo:
                        feed(spawn())
                    continue
                yield res
                feed(conn)
    finally:
        # Also if the caller has seen enough.
        for p, _ in workers.values():
            p.kill()


def load_known(pid):
    """Known findings: lines `known: property=<id> key=<key> <what fails>` in known_findings.txt."""
    known = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                parts = line.split(None, 3)
                if parts[1] == f"property={pid}" and parts[2].startswith("key="):
                    known[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return known


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "8")))
    ap.add_argument("--unit-times", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)

    setup_env()
    t0 = time.time()
    pid = args.id
    modname = f"checks.{pid.lower()}"
    mod = importlib.import_module(modname)
    known = load_known(pid)
    if args.replay:
        art = json.load(open(args.replay))
        units = [art["unit"]]
    else:
        units = list(mod.units(tier))
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    timeout = getattr(mod, "UNIT_TIMEOUT", {}).get(tier, 400 if tier == "quick" else 3600)

    states, transitions, traces, samples, violations = set(), 0, 0, [], []
    outcomes, groups, times = set(), {}, []
    n_done = 0
    exploration = explore(modname, units, known, args.jobs, timeout, deadline)
    for res in exploration:
        n_done += 1
        states |= res["states"]
        transitions += res["transitions"]
        traces += res["traces"]
        if len(samples) < MAX_SAMPLES:
            samples.extend(res["samples"][: MAX_SAMPLES - len(samples)])
        outcomes |= res["outcomes"]
        for k, v in res["groups"].items():
            groups[k] = groups.get(k, 0) + v
        times.append((res["wall"], res["unit"]))
        for v in res["violations"]:
            violations.append((res["unit"], v))
        if tier == "quick" and any(v["key"] is None or v["key"] not in known for v in res["violations"]):
            # A counterexample was found: the rest is left unexplored.
            exploration.close()
            break

    if args.unit_times:
        for w, u in sorted(times, key=lambda x: -x[0])[:15]:
            print(f"{w:8.2f}s {canon(u)[:150]}")

    hit_known = {}
    fresh = []
    for unit, v in violations:
        if v["key"] is not None and v["key"] in known:
            hit_known[v["key"]] = known[v["key"]]
        else:
            fresh.append((unit, v))

    coverage = {
        "states": len(states),
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "samples": samples,
        "exhaustive": not fresh and n_done == len(units),
        "rule": mod.RULE,
        "bounds": mod.BOUNDS[tier],
        "units_explored": n_done,
        "distinct_outcomes": len(outcomes),
        "traces_by_group": groups,
    }
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    if not args.replay and not args.no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", f".{pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", f"{pid}.json"))

    print(
        f"{pid} [{tier}] units={n_done} states={len(states)} transitions={transitions} "
        f"traces={traces} outcomes={len(outcomes)} wall={time.time() - t0:.1f}s"
    )
    for key, text in sorted(hit_known.items()):
        print(f"KNOWN-FINDING: property={pid} {text}")
    if fresh:
        os.makedirs(os.path.join(ROOT, "artifacts"), exist_ok=True)
        for i, (unit, v) in enumerate(fresh[:5]):
            path = os.path.join(ROOT, "artifacts", f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "unit": unit, **v}, f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print("  case: " + canon(v["case"])[:600])
            print("  " + v["message"].replace("\n", "\n  ")[-1800:])
        return 1
    return 0
