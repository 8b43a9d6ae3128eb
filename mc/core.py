"""Case distribution, evidence, replay files, known findings."""
import ctypes
import gc
import hashlib
import importlib
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
CASE_CPU_S = 20
CASE_WALL_S = 240
WORKER_MEMORY = 6 << 30


class Violation(Exception):
    """The property does not hold on the case."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class CaseTimeout(KeyboardInterrupt):
    """A KeyboardInterrupt, because an asyncio task would keep any other exception to itself."""


def check(cond, msg, **detail):
    if not cond:
        raise Violation(msg, **detail)


def expect(got, want, msg, **detail):
    if got != want:
        raise Violation(msg, got=got, want=want, **detail)


class Rec:
    """What one case explored."""

    __slots__ = ("execs", "trans", "states", "outcomes")

    def __init__(self):
        self.execs = 0
        self.trans = 0
        self.states = set()
        self.outcomes = {}

    def execution(self, transitions, states=(), outcome=None):
        """Record one complete execution of the implementation that was compared with the reference model."""
        self.execs += 1
        self.trans += transitions
        for s in states:
            self.states.add(_h(s))
        if outcome is not None:
            k = outcome if isinstance(outcome, str) else repr(outcome)
            if len(k) > 120:
                k = hashlib.blake2b(k.encode(), digest_size=6).hexdigest()
            self.outcomes[k] = self.outcomes.get(k, 0) + 1


def _h(s):
    return int.from_bytes(hashlib.blake2b(repr(s).encode(), digest_size=8).digest(), "little")


_alarms = 0
_give_up = None  # called when the case swallows the timeout


def _alarm(signum, frame):
    global _alarms
    _alarms += 1
    if _alarms > 3 and _give_up is not None:
        _give_up()
    raise CaseTimeout("case did not terminate")


def jsonable(x, depth=0):
    if depth > 8:
        return "..."
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return repr(x)[:400]


def run_one(mod, case, rec):
    """Returns None or a violation dict."""
    global _alarms
    _alarms = 0
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CASE_CPU_S", CASE_CPU_S), 3)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S, 10)
    try:
        mod.run_case(case, rec)
        return None
    except Violation as e:
        return {"msg": e.msg, "detail": jsonable(e.detail)}
    except CaseTimeout:
        return {"msg": "the case did not terminate", "detail": {"trace": traceback.format_exc()[-2000:]}}
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return {
            "msg": f"unexpected {type(e).__name__}: {e}"[:500],
            "detail": {"trace": traceback.format_exc()[-4000:]},
        }
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _setup_worker():
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # end with the parent
    except Exception:
        pass
    from . import loop

    loop.install()
    gc.collect()
    gc.freeze()
    gc.disable()


def known_findings(pid):
    """Substrings that identify listed findings of the property: lines 'known: property=C01 sig=<text> :: <what fails>'."""
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:") and f"property={pid} " in line:
                rest = line.split("sig=", 1)[1]
                sig, _, what = rest.partition(" :: ")
                out.append((sig.strip(), what.strip()))
    return out


def _case_str(case):
    return json.dumps(jsonable(case), separators=(",", ":"))


def _signature(case, v):
    return f"{v['msg']} case={_case_str(case)}"


def _worker(mod, tier, w, nw, known, outfile, stopfile):
    _setup_worker()
    rec = Rec()
    res = {"cases": 0, "violations": [], "known": {}, "samples": [], "error": None, "longest": 0.0}
    last = time.monotonic()
    cur = [None, None]

    def save():
        res.update(execs=rec.execs, trans=rec.trans, states=rec.states, outcomes=rec.outcomes)
        with open(outfile, "wb") as f:
            pickle.dump(res, f)

    def give_up():
        res["violations"].append((*cur, {"msg": "the case did not terminate", "detail": {"trace": "".join(traceback.format_stack()[-12:])[-2000:]}}))
        open(stopfile, "w").close()
        save()
        os._exit(0)

    global _give_up
    _give_up = give_up
    try:
        for i, case in enumerate(mod.cases(tier)):
            if i % nw != w:
                continue
            res["cases"] += 1
            cur[:] = i, case
            t0 = time.process_time()
            v = run_one(mod, case, rec)
            res["longest"] = max(res["longest"], time.process_time() - t0)
            if v is not None:
                sig = _signature(case, v)
                for s, what in known:
                    if s in sig:
                        res["known"][s] = what
                        break
                else:
                    res["violations"].append((i, case, v))
                    open(stopfile, "w").close()
                    break
            if len(res["samples"]) < 2 and (res["cases"] in (1, 40)):
                res["samples"].append(jsonable(case))
            if res["cases"] % 256 == 0:
                gc.collect()
                if os.path.exists(stopfile) and time.monotonic() - last > 0:
                    break
    except BaseException:
        res["error"] = traceback.format_exc()
    save()


def load(pid):
    sys.path.insert(0, REPO)
    return importlib.import_module(f"mc.checks.{pid.lower()}")


def report_violation(pid, index, case, v):
    d = os.path.join(ROOT, "out", pid)
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(_case_str(case).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, f"replay-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "index": index, "case": case, "violation": v}, f, indent=1, default=repr)
    print(f"VIOLATION property={pid} replay={path}")
    print(f"  {v['msg']}")
    print(f"  case: {_case_str(case)[:1500]}")
    for k, x in v.get("detail", {}).items():
        print(f"  {k}: {str(x)[:1800]}")
    sys.stdout.flush()
    return path


def evidence(pid, tier, mod, tot, wall, nviol):
    cov = {
        "states": len(tot["states"]),
        "transitions": tot["trans"],
        "traces_validated_against_impl": tot["execs"],
        "cases": tot["cases"],
        "distinct_outcomes": len(tot["outcomes"]),
        "exhaustive": nviol == 0 and not tot["stopped"],
        "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        "rule": getattr(mod, "RULE", "every case of the bounded family is executed on the real code and compared with the reference model"),
        "samples": tot["samples"][:4],
        "top_outcomes": dict(sorted(tot["outcomes"].items(), key=lambda kv: -kv[1])[:12]),
    }
    doc = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": nviol,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", f"{pid}.json"))
    return cov


def main_run(pid, tier, workers=None):
    t0 = time.monotonic()
    nw = workers or WORKERS
    try:
        mod = load(pid)
    except BaseException as e:
        v = {"msg": f"cannot load toffee: {type(e).__name__}: {e}", "detail": {"trace": traceback.format_exc()[-3000:]}}
        report_violation(pid, -1, "import", v)
        return 1
    known = known_findings(pid)
    tot = {"cases": 0, "execs": 0, "trans": 0, "states": set(), "outcomes": {}, "samples": [], "stopped": False, "longest": 0.0}
    viol, kn, errors = [], {}, []
    with tempfile.TemporaryDirectory(prefix=f"mc-{pid}-") as td:
        stop = os.path.join(td, "stop")
        pids = []
        sys.stdout.flush()
        for w in range(nw):
            p = os.fork()
            if p == 0:
                code = 0
                try:
                    _worker(mod, tier, w, nw, known, os.path.join(td, f"w{w}"), stop)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(p)
        for p in pids:
            os.waitpid(p, 0)
        for w in range(nw):
            fn = os.path.join(td, f"w{w}")
            if not os.path.exists(fn):
                errors.append(f"worker {w} died without a result")
                continue
            with open(fn, "rb") as f:
                r = pickle.load(f)
            if r["error"]:
                errors.append(r["error"])
            viol += r["violations"]
            kn.update(r["known"])
            tot["cases"] += r["cases"]
            tot["execs"] += r["execs"]
            tot["trans"] += r["trans"]
            tot["states"] |= r["states"]
            for k, c in r["outcomes"].items():
                tot["outcomes"][k] = tot["outcomes"].get(k, 0) + c
            tot["samples"] += r["samples"]
            tot["longest"] = max(tot["longest"], r["longest"])
    tot["stopped"] = bool(viol or errors)
    wall = time.monotonic() - t0
    cov = evidence(pid, tier, mod, tot, wall, len(viol))
    for s, what in sorted(kn.items()):
        print(f"KNOWN-FINDING: property={pid} {what} [{s}]")
    print(
        f"{pid} {tier}: cases={tot['cases']} executions={tot['execs']} states={cov['states']} transitions={tot['trans']} "
        f"outcomes={cov['distinct_outcomes']} wall={wall:.1f}s longest={tot['longest']:.2f}s"
    )
    if viol:
        viol.sort(key=lambda x: x[0])
        report_violation(pid, *viol[0])
        return 1
    if errors:
        report_violation(pid, -1, "exploration", {"msg": "the exploration did not complete", "detail": {"trace": errors[0]}})
        return 1
    return 0


def main_replay(pid, path):
    mod = load(pid)
    doc = json.load(open(path))
    _setup_worker()
    outs = []
    for _ in range(2):
        rec = Rec()
        outs.append(run_one(mod, doc["case"], rec))
    if outs[0] is None:
        print(f"{pid}: case holds")
        return 0
    print("reproducible" if json.dumps(outs[0], default=repr) == json.dumps(outs[1], default=repr) else "NOT identical on replay")
    report_violation(pid, doc.get("index", -1), doc["case"], outs[0])
    return 1
