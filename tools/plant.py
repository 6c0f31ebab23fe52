"""Plant bugs: write seeded/<id>/ from tools/seeds*.py, confirm them in scratch copies, and try the checks on them.

    python3 tools/plant.py make ID...     write patch.diff, demo.py, demo.sh and meta.json
    python3 tools/plant.py confirm ID...  run the tests and the demonstration with and without the change
    python3 tools/plant.py checks ID...   run the check of the property (or --all checks) against the change
Everything happens in a copy of /repo in /tmp, bound to /repo in a private mount namespace.
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
DEMO = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def seeds():
    out = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds*.py"))):
        spec = importlib.util.spec_from_file_location("seeds", f)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        for s in mod.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def scratch(name):
    d = f"/tmp/plant-{name}"
    if os.path.exists(d):
        shutil.rmtree(d)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def make(s):
    d = scratch(s["id"])
    try:
        edits = s["edits"]
        for path, old, new in edits:
            p = os.path.join(d, path)
            text = open(p).read()
            assert text.count(old) == 1, (s["id"], path, text.count(old), old)
            open(p, "w").write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(d)
    out = os.path.join(SEEDED, s["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write(DEMO)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
              open(os.path.join(out, "meta.json"), "w"), indent=1)


def inside(d, cmd, timeout, **env):
    """Run a command with `d` bound to /repo."""
    e = dict(os.environ, **env)
    try:
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {d} /repo && cd /repo && {cmd}"],
                           capture_output=True, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as ex:
        return 124, str(ex.stdout)[-500:]


TEST = ("HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu MPLBACKEND=Agg OMP_NUM_THREADS=1 "
        "OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -n 8 --dist load --maxschedchunk=1 "
        "--randomly-seed=0 --randomly-dont-reorganize --timeout=600 2>&1 | tail -15")


def confirm(sid, tests=True):
    here = os.path.join(SEEDED, sid)
    d = scratch(sid)
    try:
        rc0, o0 = inside(d, f"bash {here}/demo.sh", 300)
        subprocess.run(["git", "-C", d, "apply", os.path.join(here, "patch.diff")], check=True)
        rc1, o1 = inside(d, f"bash {here}/demo.sh", 300)
        ok = rc0 == 0 and rc1 not in (0, 124)
        print(f"{sid}: demo unchanged={rc0} patched={rc1}", flush=True)
        if rc0:
            print(o0[-1500:])
        print("   ", o1.strip().split("\n")[-1][:200])
        if tests:
            rc, o = inside(d, TEST, 900)
            last = [x for x in o.strip().split("\n") if "passed" in x or "failed" in x]
            bad = [x for x in o.split("\n") if x.startswith("FAILED") or x.startswith("ERROR")]
            print("   ", last, *bad, sep="\n    ", flush=True)
            ok = ok and bool(last) and "failed" not in last[-1] and "error" not in last[-1]
        print(f"{sid}: {'CONFIRMED' if ok else 'REJECTED'}", flush=True)
        return ok
    finally:
        shutil.rmtree(d)


def checks(sid, which):
    here = os.path.join(SEEDED, sid)
    d = scratch(sid)
    res = []
    try:
        subprocess.run(["git", "-C", d, "apply", os.path.join(here, "patch.diff")], check=True)
        for pid in which:
            rc, o = inside(d, f"cd {ROOT} && ./run.py {pid} --no-evidence", 900)
            print(f"{sid} {pid}: exit {rc}", "\n".join(x[:300] for x in o.split("\n") if "VIOLATION" in x or rc not in (0, 1))[-700:], flush=True)
            if rc == 1:
                i = o.find("case:")
                print("    " + o[i:i + 500].replace("\n", "\n    "), flush=True)
                res.append(pid)
    finally:
        shutil.rmtree(d)
    return res


def main():
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    flags = [a for a in sys.argv[2:] if a.startswith("-")]
    every = seeds()
    if not ids:
        ids = sorted(every)
    if cmd == "make":
        for i in ids:
            make(every[i])
            print("made", i)
    elif cmd == "confirm":
        for i in ids:
            confirm(i, tests="--no-tests" not in flags)
    elif cmd == "checks":
        path = os.path.join(SEEDED, "results.json")
        for i in ids:
            own = json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]
            which = [own]
            if "--all" in flags:
                which += [p for p in (f"C{k:02d}" for k in range(1, 40)) if p != own and os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py"))]
            caught = checks(i, which)
            res = json.load(open(path)) if os.path.exists(path) else {}
            res[i] = caught + [p for p in res.get(i, []) if p not in which]
            json.dump(res, open(path, "w"), indent=1, sort_keys=True)


main()
