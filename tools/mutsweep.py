#!/usr/bin/env python3
"""Mutation sweep used while developing the checks (no check runs it).

mutsweep.py OUTDIR FILE [--jobs N] [--checks C11,C12] [--only K,K] [--lines A-B]

Makes every first-order mutant of toffee/FILE in a scratch copy, keeps those that pass the stable tests, runs the quick
checks against each (VERIF_REPO, one worker) until one reports a violation, and appends one JSON line per mutant to
OUTDIR/FILE.jsonl.
"""
import argparse, ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
VERIF = os.environ.get("VERIF_DIR", "/verif")
PY = "/opt/venv/bin/python"
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
       ast.GtE: [ast.Gt, ast.Lt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
       ast.BitXor: ast.BitOr, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Mod: ast.FloorDiv}
CHECKS = {
    "bundle.py": "C11 C12 C13 C14 C02 C20", "funcov.py": "C16", "logger.py": "C18 C07", "delay.py": "C15", "triggers.py": "C03 C02",
    "executor.py": "C08 C06 C17 C01 C05 C07", "asynchronous.py": "C01 C04 C21 C02 C17 C15 C08 C07", "_base_agent.py": "C05 C07 C09 C10 C17 C06",
    "agent.py": "C09 C05 C10", "env.py": "C10 C05 C09", "model.py": "C10 C05 C06 C09 C04 C21", "_compare.py": "C07",
    "utils/plru.py": "C19", "utils/lfsr_64.py": "C19", "utils/two_bits_counter.py": "C19", "bundle_code_gen.py": "C20", "debug.py": "C22", "bundle_code_intel_gen.py": "C23",
}


def mutants(tree):
    """Yields (description, line, tree)."""
    nodes = [n for n in ast.walk(tree)]
    docs = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))

    def with_(node, change):
        memo = {}
        t = copy.deepcopy(tree, memo)
        change(memo[id(node)], memo)
        return t

    for n in nodes:
        if id(n) in docs:
            continue
        ln = getattr(n, "lineno", 0)
        src = ast.unparse(n)[:100] if hasattr(n, "lineno") else ""
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for r in CMP[type(o)]:
                    yield f"{src}: {type(o).__name__}->{r.__name__}", ln, with_(n, lambda m, _: m.ops.__setitem__(i, r()))
        if isinstance(n, ast.BoolOp):
            yield f"{src}: and<->or", ln, with_(n, lambda m, _: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for i in range(len(n.values)):
                if len(n.values) > 2 or True:
                    yield f"{src}: drop operand {i}", ln, with_(n, lambda m, _: m.values.pop(i))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield f"{src}: drop not", ln, with_(n, lambda m, _: (setattr(m, "op", ast.Not()), setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in (True, False):
                if isinstance(n, ast.While) and v:
                    continue
                yield f"if {ast.unparse(n.test)[:80]} -> {v}", ln, with_(n, lambda m, _: setattr(m, "test", ast.Constant(v)))
        if isinstance(n, ast.comprehension) and n.ifs:
            for i in range(len(n.ifs)):
                yield f"drop comprehension filter {ast.unparse(n.ifs[i])[:80]}", n.ifs[i].lineno, with_(n, lambda m, _: m.ifs.pop(i))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield f"{n.value}->{not n.value}", ln, with_(n, lambda m, _: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                for d in (1, -1):
                    yield f"{n.value}->{n.value + d}", ln, with_(n, lambda m, _: setattr(m, "value", m.value + d))
            elif isinstance(n.value, str) and n.value == "":
                yield "''->'X'", ln, with_(n, lambda m, _: setattr(m, "value", "X"))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, (ast.JoinedStr,))):
            yield f"{src}: {type(n.op).__name__}", ln, with_(n, lambda m, _: setattr(m, "op", BIN[type(m.op)]()))
        if isinstance(n, ast.AugAssign):
            yield f"{src}: aug->assign", ln, None if False else _replace_stmt(tree, n, lambda m: ast.Assign([m.target], m.value))
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                yield f"{src}: drop keyword {k.arg}", ln, with_(n, lambda m, _: m.keywords.pop(i))
            if len(n.args) >= 2:
                yield f"{src}: swap args", ln, with_(n, lambda m, _: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
        if isinstance(n, (ast.For, ast.AsyncFor)):
            for s in ("[1:]", "[:-1]", "[::-1]"):
                yield f"for .. in {ast.unparse(n.iter)[:60]}{s}", ln, with_(n, lambda m, _: setattr(m, "iter", ast.parse(f"list(X){s}", mode="eval").body) or m.iter.value.args.__setitem__(0, copy.deepcopy(n.iter)))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield f"{src}: return None", ln, with_(n, lambda m, _: setattr(m, "value", ast.Constant(None)))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Delete, ast.Assert, ast.Return)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            yield f"delete: {src}", ln, _replace_stmt(tree, n, lambda m: ast.Pass())
        if isinstance(n, (ast.Break,)):
            yield "break->continue", ln, _replace_stmt(tree, n, lambda m: ast.Continue())
        if isinstance(n, ast.Await) and isinstance(n.value, ast.Call):
            pass


def _replace_stmt(tree, node, make):
    memo = {}
    t = copy.deepcopy(tree, memo)
    m = memo[id(node)]

    class R(ast.NodeTransformer):
        def visit(self, x):
            if x is m:
                return make(x)
            return self.generic_visit(x)

    return R().visit(t)


def sh(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, ""


def tests_pass(d):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ids = [f"tests/{s.split('::')[0].split('.')[1]}.py::" + "::".join(s.split("::")[0].split(".")[2:] + [s.split("::")[1]]) for s in base]
    rc, out = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=20", *ids], d, {"PYTHONPATH": d}, 100)
    return rc == 0


def work(job):
    k, desc, line, src, a, rel = job
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        for s in ("toffee", "tests", "scripts"):
            shutil.copytree(f"{REPO}/{s}", f"{d}/{s}", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{d}/{rel}", "w").write(src)
        r = {"k": k, "line": line, "desc": desc}
        if not tests_pass(d):
            r["res"] = "tests"
        else:
            r["res"] = "SURVIVED"
            for c in a.checks:
                td = tempfile.mkdtemp(prefix="vm-", dir="/tmp")
                try:
                    shutil.copytree(f"{VERIF}/mc", f"{td}/mc", ignore=shutil.ignore_patterns("__pycache__"))
                    shutil.copy(f"{VERIF}/run", td)
                    shutil.copy(f"{VERIF}/KNOWN_FINDINGS.txt", td)
                    rc, out = sh([f"{td}/run", c, "--tier", "quick"], td, {"VERIF_REPO": d, "VERIF_WORKERS": "1"})
                finally:
                    shutil.rmtree(td, ignore_errors=True)
                if rc:
                    r["res"] = c if "VIOLATION" in out else f"{c}?rc{rc}"
                    r["out"] = out.split("VIOLATION")[-1][:300]
                    break
        with open(a.out, "a") as f:
            f.write(json.dumps(r) + "\n")
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("outdir")
    ap.add_argument("file")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--checks")
    ap.add_argument("--only")
    ap.add_argument("--lines")
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    rel = f"scripts/{a.file}" if a.file.startswith("bundle_code") else f"toffee/{a.file}"
    a.checks = a.checks.split(",") if a.checks else CHECKS[a.file].split()
    os.makedirs(a.outdir, exist_ok=True)
    a.out = os.path.join(a.outdir, a.file.replace("/", "_") + ".jsonl")
    tree = ast.parse(open(f"{REPO}/{rel}").read())
    base = ast.unparse(tree)
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)["k"] for l in open(a.out)}
    only = {int(x) for x in a.only.split(",")} if a.only else None
    lo, hi = map(int, a.lines.split("-")) if a.lines else (0, 10**9)
    jobs, seen = [], {base}
    for k, (desc, line, t) in enumerate(mutants(tree)):
        s = ast.unparse(ast.fix_missing_locations(t))
        if s in seen:
            continue
        seen.add(s)
        if k in done or (only is not None and k not in only) or not lo <= line <= hi:
            continue
        try:
            compile(s, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        jobs.append((k, desc, line, s, a, rel))
    print(len(jobs), "mutants", flush=True)
    if a.count:
        return
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(work, jobs):
            if r["res"] == "SURVIVED" or "?" in r["res"]:
                print(r["k"], r["line"], r["res"], r["desc"], flush=True)


if __name__ == "__main__":
    main()
