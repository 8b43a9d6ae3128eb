"""C07: a disagreement or failure anywhere in the environment fails the run, and nothing else does."""
import asyncio
import itertools

from toffee import Executor, create_task, start_clock

from .. import fake
from ..core import Violation
from ..envs import B, fits_names, make_agent, make_env, make_model, one_claim_each
from ..util import CAP, clk, run

ID = "C07"
BOUNDS = {
    "quick": "results: all pairs of 15 driver results x 15 hook results x hook kind x order x issue mode x end in the same/later cycle; two hooks (same/different model) x all agreement patterns over histories of <=3 calls; 4, 6 and 9 hooks of which 0-2 disagree; "
    "failures: 12 failing places x cycle 0..3 x test length 0..3 more x 4 ways the failed task stays referenced x 5 exception types x tests that catch Exception; all pairs of failing places",
    "thorough": "as quick with histories of <=4 calls, cycles 0..6",
}

VALUES = ("None", "0", "False", "1", "''", "'a'", "[]", "[0]", "{}", "(0,)", "0.5", "{'a': [1]}", "'1'", "'[0]'", "b'a'")
PLACES = ("dh-mf", "dh-df", "ah-mf", "ah-df", "mh", "ahmon", "mon", "mon-multi", "mon-clean", "main", "main-yield", "main-clean")


class BaseBoom(BaseException):
    """What test frameworks end a test with (pytest.fail, pytest.skip)."""


EXC = {"V": ValueError("boom"), "A": AssertionError("boom"), "K": KeyError("boom"), "B": BaseBoom("boom"), "S": StopIteration("boom")}


def hook(kind, order, i=0):
    if kind == "dh":
        return ["dh", "path", {"a": "ag", "m": "d", "order": order}]
    return ["ah", "lists", {"agents": ["ag"], "order": order}]


MODES = ("await", "bg", "ex-all", "ex-none")


def cases(tier):
    th = tier == "thorough"
    for r, m in itertools.product(range(len(VALUES)), repeat=2):
        for kind in ("dh", "ah"):
            for order in ("model_first", "dut_first"):
                for mode in MODES:
                    for tail in (0, 2):
                        for dur in (0, 1):
                            yield {"k": "cmp", "models": [[hook(kind, order)]], "calls": [[r, [m], mode, dur]], "tail": tail}
    pairs = []
    for (k1, o1), (k2, o2) in itertools.product(itertools.product(("dh", "ah"), ("model_first", "dut_first")), repeat=2):
        pairs.append([[hook(k1, o1)], [hook(k2, o2)]])
        if k1 != k2:
            pairs.append([[hook(k1, o1), hook(k2, o2)]])
    # hook results: 3 = agrees (equal to the driver's 1), 0 = None, 1 = disagrees
    for models in pairs:
        for n in range(1, (4 if th else 3) + 1):
            for pat in itertools.product(itertools.product((3, 0, 1), repeat=2), repeat=n):
                bad = sum(1 in p for p in pat)
                if bad > 1 and n > 2:
                    continue
                for mode in ("await", "bg") if n < 3 else ("bg" if bad else "await",):
                    yield {"k": "cmp", "models": models, "calls": [[3, list(p), mode, (n + i) % 2] for i, p in enumerate(pat)], "tail": n % 2}
    # many models, or many hooks of one model, of which one or two disagree
    for n in (4, 6, 9):
        for kind, order in itertools.product(("dh", "ah"), ("model_first", "dut_first")):
            for models in ([[hook(kind, order)] for _ in range(n)], [[hook(kind, order) for _ in range(n)]]):
                if kind == "dh" and len(models) == 1:
                    continue
                for bad in [(), *((i,) for i in range(n)), (0, n - 1), (n - 2, n - 1)]:
                    for rest in (3, 0):
                        for mode in MODES:
                            yield {"k": "cmp", "models": models, "calls": [[3, [1 if i in bad else rest for i in range(n)], mode, 0]], "tail": 1}
    # models unattached while calls are under way: what a hook returned before still counts
    for kind in ("dh", "ah"):
        for dur in (1, 2, 3):
            for at in range(0, dur + 2):
                for r, m in ((3, 3), (3, 0), (3, 1), (0, 3), (1, 3)):
                    for other in (None, 3, 1):
                        yield {"k": "det", "kind": kind, "dur": dur, "at": at, "r": r, "m": m, "other": other}
    top = 6 if th else 3
    for pl in PLACES:
        for f in range(0, top + 1):
            for extra in range(0, 4):
                for hold in ("no", "task", "all", "exc"):
                    for ex in EXC:
                        for catch in (0, 1):
                            yield {"k": "fail", "at": [[pl, f]], "len": f + extra, "hold": hold, "exc": ex, "catch": catch}
    for n in range(0, top + 2):
        yield {"k": "fail", "at": [], "len": n, "hold": "no", "exc": "V", "catch": 0}
    for p1, p2 in itertools.product(PLACES, repeat=2):
        for f1, f2 in ((0, 0), (1, 1), (1, 2), (2, 1)):
            yield {"k": "fail", "at": [[p1, f1], [p2, f2]], "len": max(f1, f2), "hold": "no", "exc": "V", "catch": 1}


def run_case(case, rec):
    {"cmp": run_cmp, "fail": run_fail, "det": run_det}[case["k"]](case, rec)


def run_cmp(case, rec):
    box = {}
    ncall = itertools.count()
    calls = case["calls"]
    compared = set()

    async def body(self, name, bound):
        c = calls[bound["x"]]
        for _ in range(c[3]):
            await clk(box["d"])
        compared.add(bound["x"])
        return eval(VALUES[c[0]])

    agents = {"ag": make_agent({"d": ("x", body)})}

    def handle():
        d = box["d"] = fake.DUT(["a", "b"], horizon=40)
        start_clock(d)
        env = make_env(agents, lambda n: B().bind(d))()
        h = 0
        for mi, elems in enumerate(case["models"]):

            def sink(i, args, kwargs, base=h, elems=elems):
                x = args[0] if elems[i][0] == "dh" else args[1]["x"]
                return eval(VALUES[calls[x][1][base + i]])

            h += len(elems)
            env.attach(make_model(elems, sink, mi)())
        return env, d

    async def test(env, d):
        pend = []
        for i, c in enumerate(calls):
            coro = env.ag.d(i)
            if c[2] == "await":
                await coro
            elif c[2] == "bg":
                pend.append(create_task(coro))
                if i + 1 < len(calls):
                    await clk(d)
            else:
                async with Executor(exit="all" if c[2] == "ex-all" else "none") as ex:
                    ex(coro)
        await clk(d, case["tail"])
        return 1

    out = run(test, handle)
    if box["d"].horizon_hit:
        raise Violation("the run never ended")
    nh = sum(map(len, case["models"]))
    bad = False
    for i, c in enumerate(calls):
        if out.kind == "ok" and i not in compared:
            continue  # still in the driver body when the test ended
        r = eval(VALUES[c[0]])
        for j in range(nh):
            m = eval(VALUES[c[1][j]])
            if m is not None and not (r == m):
                bad = True
    errs = [m for m in CAP.errors()]
    judge(out, bad, case)
    if bad and not errs:
        raise Violation("a mismatch must be logged as an error")
    if not bad and errs:
        raise Violation("an error was logged although all results agree", got=errs)
    rec.execution(len(calls) * (1 + nh) + case["tail"], [(repr(calls[: i + 1]), nh) for i in range(len(calls))], (out.kind, bad, tuple(sorted(compared))))


def judge(out, bad, case):
    if bad:
        if out.kind == "ok":
            raise Violation("the run passed although something failed in it")
        if out.kind != "exc":
            raise Violation("the run must terminate by raising", got=repr(out))
    elif out.kind != "ok":
        raise Violation("the run failed although nothing disagreed and nothing raised", got=repr(out))


class Hold:
    def __init__(self, mode):
        self.mode, self.refs = mode, []

    def boom(self, exc):
        if self.mode == "task":
            self.refs.append(asyncio.current_task())
        elif self.mode == "all":
            self.refs.append(list(asyncio.all_tasks()))
        elif self.mode == "exc":
            self.refs.append(exc)
        raise exc


def run_fail(case, rec):
    box, raised = {}, []
    hold = Hold(case["hold"])
    at = {}
    for pl, f in case["at"]:
        at.setdefault(pl, []).append(f)

    def maybe(pl, cyc):
        if cyc in at.get(pl, ()):
            raised.append((pl, cyc))
            e = EXC[case["exc"]]
            hold.boom(type(e)(*e.args))

    def boom(pl):
        raised.append((pl, box["d"].n))
        e = EXC[case["exc"]]
        hold.boom(type(e)(*e.args))

    async def body(self, name, bound):
        return None

    async def mon(self):
        maybe("mon", box["d"].n)
        return box["d"].n

    async def mon_multi(self):
        n = box["d"].n
        await clk(box["d"])
        maybe("mon-multi", n + 1)

    async def mon_clean(self):
        if "mon-clean" not in at:
            return None
        try:
            await asyncio.Event().wait()
        finally:
            boom("mon-clean")

    agents = {
        "ag": make_agent({"d": ("x", body), "e": ("x", body)}, {"mon": mon, "multi": mon_multi, "clean": mon_clean}),
    }
    elems = [
        ["dh", "path", {"a": "ag", "m": "d", "order": "model_first"}],
        ["dh", "path", {"a": "ag", "m": "e", "order": "dut_first"}],
        ["ah", "lists", {"methods": ["ag.d"], "order": "model_first"}],
        ["ah", "lists", {"methods": ["ag.e"], "order": "dut_first"}],
        ["mh", "path", {"a": "ag", "m": "mon"}],
        ["ah", "lists", {"methods": ["ag.mon"]}],
    ]
    names = ("dh-mf", "dh-df", "ah-mf", "ah-df", "mh", "ahmon")

    async def main(self):
        d = box["d"]
        try:
            if "main-yield" in at:
                await asyncio.sleep(0)
            while True:
                maybe("main", d.n)
                maybe("main-yield", d.n)
                await clk(d)
        except asyncio.CancelledError:
            if "main-clean" in at:
                boom("main-clean")
            raise

    def handle():
        d = box["d"] = fake.DUT(["a", "b"], horizon=40)
        start_clock(d)
        env = make_env(agents, lambda n: B().bind(d))()

        def sink(i, args, kwargs):
            maybe(names[i], d.n)

        env.attach(make_model(elems, sink, 0, main=main)())
        env.attach(make_model([["mh", "path", {"a": "ag", "m": "mon"}], ["ah", "lists", {"methods": ["ag.d"]}]], lambda *a: None, 1)())
        return env, d

    async def test(env, d):
        for c in range(case["len"] + 1):
            for m in (env.ag.d, env.ag.e):
                if case["catch"]:
                    try:
                        await m(c)
                    except BaseBoom if case["exc"] == "B" else Exception:
                        pass
                else:
                    await m(c)
            if c < case["len"]:
                await clk(d)
        return 1

    out = run(test, handle)
    if box["d"].horizon_hit:
        raise Violation("the run never ended")
    # reference: does the failing place ever execute within the run?
    bad = False
    for pl, f in case["at"]:
        first = {"dh-mf": 0, "dh-df": 0, "ah-mf": 0, "ah-df": 0, "mon-multi": 2}.get(pl, 1)
        if pl in ("main-clean", "mon-clean"):
            bad |= case["len"] >= 1
        elif pl == "mon-multi":
            bad |= f >= 2 and f % 2 == 0 and f <= case["len"]
        else:
            bad |= first <= f <= case["len"]
    if bool(raised) != bad and out.kind == "ok":
        raise Violation("the failing place was not executed", at=case["at"], raised=raised)
    judge(out, bad or bool(raised), case)
    if not bad and CAP.errors():
        raise Violation("an error was logged although nothing failed", got=CAP.errors())
    hold.refs.clear()
    rec.execution(2 * case["len"] + 3, [(case["at"], case["len"], c) for c in range(case["len"] + 1)], (out.kind, tuple(raised)))


def run_det(case, rec):
    box, ran = {}, []

    async def body(self, name, bound):
        await clk(box["d"], case["dur"])
        return eval(VALUES[case["r"]])

    def handle():
        d = box["d"] = fake.DUT(["a", "b"], horizon=40)
        start_clock(d)
        env = make_env({"ag": make_agent({"d": ("x", body)})}, lambda n: B().bind(d))()
        box["models"] = []
        for mi, v in enumerate((case["m"], case["other"])):
            if v is not None:

                def sink(i, args, kwargs, v=v):
                    ran.append(v)
                    return eval(VALUES[v])

                m = make_model([hook(case["kind"], "model_first")], sink, mi)()
                env.attach(m)
                box["models"].append(m)
        return env, d

    async def test(env, d):
        t = create_task(env.ag.d(0))
        await clk(d, case["at"])
        if case["at"] == 0:
            await asyncio.sleep(0)
        env.unattach(box["models"][0])
        if not t.done():
            await t
        await clk(d, 2)
        return 1

    out = run(test, handle)
    if box["d"].horizon_hit:
        raise Violation("the run never ended")
    r = eval(VALUES[case["r"]])
    bad = any(eval(VALUES[v]) is not None and eval(VALUES[v]) != r for v in ran)
    if case["at"] > 0 and len(ran) != 1 + (case["other"] is not None):
        raise Violation("the hooks of the call must have run", ran=ran)
    judge(out, bad, case)
    if not bad and CAP.errors():
        raise Violation("an error was logged although all results agree", got=CAP.errors())
    if bad and not CAP.errors():
        raise Violation("a mismatch must be logged as an error")
    rec.execution(4, [("det", case["at"], case["dur"], tuple(ran))], (out.kind, bad))
