"""Mutation sweep: python3 tools/mutate.py N SEED [FILE ...]

Applies single random mutations to copies of /repo under /tmp and runs the quick checks that concern the file, cheapest first, until one
reports a violation. Survivors are written to /tmp/mutants.log, and have to be looked at by hand: they are equivalent or missed.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

REPO = "/repo"
CHECKS = {
    "gpcm/exppoly.py": ["C01", "C02", "C03", "C04"],
    "gpcm/gpcm.py": ["C03", "C06", "C07", "C05", "C20", "C23", "C12", "C21"],
    "gpcm/rgpcm.py": ["C04", "C06", "C07", "C05", "C20", "C23", "C12", "C21"],
    "gpcm/model.py": ["C13", "C05", "C12", "C20", "C06", "C14", "C22", "C23"],
    "gpcm/approx.py": ["C09", "C10", "C11", "C13", "C15", "C14", "C20", "C22", "C05", "C23"],
    "gpcm/normal.py": ["C08", "C09"],
    "gpcm/util.py": ["C19", "C17", "C18", "C05", "C22"],
    "gpcm/sample.py": ["C16", "C15"],
    "experiments/experiment.py": ["C21", "C24"],
}


def spans(path):
    """All mutations of a file: (description, start, end, replacement)."""
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    out = []

    def add(n, new, what):
        a, b = pos(n)
        if raw[a:b].decode() != new:
            out.append((what, n.lineno, a, b, new))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)

    def visit(n, names, depth):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in ("__str__", "__repr__"):
                return
            names = sorted({a.arg for a in n.args.args} | {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)})
            for d in n.args.defaults:
                visit(d, [], depth + 1)
            for s in n.body:
                visit(s, names, depth + 1)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert)) or n in docs:
            return
        if depth:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                flip = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
                if flip:
                    add(n, f"{text(n.left)} {flip} {text(n.comparators[0])}", "compare")
            if isinstance(n, ast.BinOp):
                sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/"}.get(type(n.op))
                l, r = f"({text(n.left)})", f"({text(n.right)})"
                if sw:
                    add(n, f"({l} {sw} {r})", "operator")
                add(n, l, "left operand only")
                add(n, r, "right operand only")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                add(n, text(n.operand), "sign")
            if isinstance(n, ast.Constant) and type(n.value) in (int, float):
                add(n, repr(n.value + 1) if type(n.value) is int else repr(n.value * 1.5), "constant")
                if n.value not in (0, 1) and type(n.value) is int:
                    add(n, repr(n.value - 1), "constant")
            if isinstance(n, ast.Constant) and type(n.value) is bool:
                add(n, repr(not n.value), "boolean")
            if isinstance(n, (ast.If, ast.IfExp)):
                add(n.test, f"not ({text(n.test)})", "condition")
                add(n.test, "False", "condition")
                add(n.test, "True", "condition")
            if isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                add(n, "pass", "statement removed")
            if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a, _ = pos(n.args[0])
                _, b = pos(n.args[1])
                out.append(("arguments swapped", n.lineno, a, b, f"{text(n.args[1])}, {text(n.args[0])}"))
            if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "B":
                add(n, f"({text(n.args[0])})", "function removed")
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg:
                        a, b = starts[k.lineno - 1] + k.col_offset, starts[k.end_lineno - 1] + k.end_col_offset
                        rest = raw[b:b + 1].decode()
                        out.append((f"keyword {k.arg} removed", k.lineno, a, b + (1 if rest == "," else 0), ""))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                rng = random.Random(hash((path, n.lineno, n.col_offset)) & 0xFFFF)
                o = [x for x in names if x != n.id and x not in ("self",) and (x[0] == n.id[0] or x[-1] == n.id[-1])]
                if o and n.id != "self":
                    add(n, rng.choice(o), "other variable")
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in ("self", "model", "q_u", "q_z", "p_u", "ts"):
                sw = {"alpha": "gamma", "gamma": "alpha", "q_u": "p_u", "q_z": "p_z", "p_u": "q_u", "p_z": "q_z", "t_u": "t_z", "t_z": "t_u", "n_u": "n_z", "n_z": "n_u", "omega": "gamma", "lam": "alpha", "alpha_t": "gamma_t" if "rgpcm" in path else "omega_t", "mean": "lam", "m2": "var", "a": "b", "b": "a", "prec": "var", "var": "prec", "I_ux": "I_ux", "K_z": "K_z_inv", "K_z_inv": "K_z", "K_u": "K_z"}.get(n.attr)
                if sw:
                    add(n, f"{n.value.id}.{sw}", "other attribute")
        for c in ast.iter_child_nodes(n):
            visit(c, names, depth)

    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            visit(s, [], 0)
    return raw, out


def main():
    n, seed, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:] or list(CHECKS)
    rng = random.Random(seed)
    pool = []
    for f in files:
        raw, out = spans(f)
        out = sorted(set(out), key=lambda o: o[2:])
        rng.shuffle(out)
        pool += [(f, o) for o in out[: max(1, round(n * len(out) ** 0.7 / sum(len(spans(g)[1]) ** 0.7 for g in files)))]]
    d = f"/tmp/mut-{os.getpid()}"
    subprocess.run(["cp", "-a", REPO, d], check=True)
    log = open("/tmp/mutants.log", "a")
    try:
        for i, (f, (what, line, a, b, new)) in enumerate(pool):
            raw = open(os.path.join(REPO, f), "rb").read()
            mut = raw[:a] + new.encode() + raw[b:]
            try:
                ast.parse(mut)
            except SyntaxError:
                continue
            open(os.path.join(d, f), "wb").write(mut)
            t0, res = time.time(), "SURVIVED"
            for c in CHECKS[f]:
                try:
                    p = subprocess.run(["/opt/venv/bin/python", "run.py", c, "--no-evidence"], cwd="/verif", env={**os.environ, "MC_REPO": d}, capture_output=True, text=True, timeout=600)
                    code = p.returncode
                except subprocess.TimeoutExpired:
                    code = "timeout"
                if code != 0:
                    res = f"{c}:{code}"
                    break
            ctx = raw[:a].decode().split("\n")[-1].strip() + "[[" + raw[a:b].decode() + "]]" + raw[b:].decode().split("\n")[0]
            print(json.dumps(dict(i=i, res=res, t=round(time.time() - t0), file=f, line=line, what=what, ctx=ctx[:300], new=new[:120])), file=log, flush=True)
            open(os.path.join(d, f), "wb").write(raw)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
