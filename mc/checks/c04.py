"""C04: toffee.run returns the test's outcome and leaves no task behind."""
import asyncio
import functools
import itertools

import toffee
from toffee import Event, Model, Queue, create_task, sleep, start_clock

from .. import fake
from ..core import Violation, expect
from ..envs import B, make_agent, make_env, make_model
from ..loop import McLoop
from ..util import clk, run, user_named

ID = "C04"
BOUNDS = {
    "quick": "all multisets-with-order of <=3 background task kinds out of 15 (4 for the default ending) x spawned first or in the last cycle x test ending "
    "(return/raise at cycle 0,1,2) x with/without environment handle x with/without clock; all handle shapes x result kinds; 0-2 models created at 4 places, 9 models; 12 to 45 background tasks; "
    "<=2 tasks of 8 kinds that nobody refers to, created in 8 ways, with garbage collected at every pass of the loop, or at any single one",
    "thorough": "<=4 background tasks for every ending; ending cycles 0..4; cleanups of 1..8 yields",
}
# kind -> completes in the last cycle?
KINDS = ("clock", "event", "queue", "long", "y1", "y5", "wakeE", "wakeQ", "clY", "clYY", "clT", "clW", "clS", "join", "spawn")
SHAPES = ("none", "scalar", "tuple0", "tuple1", "tuple2", "tuple3", "tuple12", "list", "NoneRet", "dict", "nested", "str")


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    """What test frameworks end a test with (pytest.fail, pytest.skip)."""


def cases(tier):
    th = tier == "thorough"
    for sh in SHAPES:
        for res in ("None", "zero", "obj", "list", "exc", "base", "exit"):
            for form in ("func", "coro", "partial", "lambda", "method"):
                for clock in (0, 1):
                    if form == "coro" and sh != "none":
                        continue
                    yield {"k": "shape", "sh": sh, "res": res, "form": form, "clock": clock}
    ends = [[m, c] for c in (range(5) if th else range(3)) for m in ("ret", "exc")]
    for n in range(0, 5 if th else 4):
        for bg in itertools.product(KINDS, repeat=n):
            for end in ends:
                for at in ("first", "last", "mix"):
                    if at == "mix" and n < 2:
                        continue
                    for handle in (0, 1):
                        for clock in (1, 0):
                            if not clock and (end[1] > 0 or handle):
                                continue
                            yield {"k": "bg", "bg": list(bg), "end": end, "at": at, "handle": handle, "clock": clock}
    # many tasks
    for sel in [[k] * 12 for k in KINDS] + [list(KINDS), list(KINDS) * 3]:
        for end in ends:
            for at in ("first", "last", "mix"):
                for handle in (0, 1):
                    yield {"k": "bg", "bg": sel, "end": end, "at": at, "handle": handle, "clock": 1}
    for bg in itertools.product(KINDS, repeat=4) if not th else ():
        yield {"k": "bg", "bg": list(bg), "end": ["ret", 1], "at": "mix", "handle": 1, "clock": 1}
    ccs = list(itertools.product((0, 1, 2), ("first", "last"), ("mf", "df", "both", "none")))
    for n in (1, 2):
        for cs in itertools.product(ccs, repeat=n):
            for end in range(4 if th else 3):
                for nest in (0, 1) if n == 1 else (0,):
                    yield {"k": "call", "calls": list(map(list, cs)), "end": end, "nest": nest}
    places = ("handle-before", "handle-after", "test0", "test1", "test2", "none")
    for p in itertools.product(places, repeat=2):
        for end in range(4 if th else 3):
            for mode in ("ret", "exc"):
                for clock in (1, 0):
                    for mk in ("wait", "short", "tail", "tail0", "cleanup", "nomain"):
                        yield {"k": "model", "p": list(p), "end": end, "mode": mode, "clock": clock, "mk": mk}
                        if p[0] == p[1] != "none" or p == places[:2]:
                            yield {"k": "model", "p": list(p) * 4 + [p[0]], "end": end, "mode": mode, "clock": clock, "mk": mk}


    # tasks that nobody but themselves refers to, with garbage collections during the run
    wts = ("event", "queue", "fut", "join", "gather", "cleanup", "cycle", "model")
    for n in (1, 2, 3) if th else (1, 2):
        for ws in itertools.product(wts, repeat=n):
            for by in ("toffee", "asyncio"):
                for frm in ("handle", "test", "helper", "task"):
                    for end in ("ret", "exc"):
                        yield {"k": "gc", "ws": list(ws), "by": by, "frm": frm, "end": end, "at": "every" if n < 3 else "all"}


def run_gc(case, rec):
    ats = ["all"]
    if case["at"] == "every":
        McLoop.passes = 0
        one_gc(case, rec, [])
        ats += [[k] for k in range(1, McLoop.passes + 1)]
    for at in ats:
        one_gc(case, rec, at)


def one_gc(case, rec, at):
    logs = [[] for _ in case["ws"]]
    boom = (Boom, BaseBoom)[len(case["ws"]) % 2]("end")
    box = {}
    mk = create_task if case["by"] == "toffee" else lambda c: asyncio.get_event_loop().create_task(c)

    async def inner(kind):
        if kind == "event":
            await Event().wait()
        elif kind == "queue":
            await Queue().get()
        elif kind == "fut":
            await asyncio.get_event_loop().create_future()
        elif kind == "join":
            await mk(inner("event"))
        elif kind == "gather":
            await toffee.gather(inner("event"), inner("queue"))
        elif kind == "cycle":
            me = [Event()]
            me.append(me)
            await me[0].wait()

    async def bg(i, kind):
        logs[i].append("start")
        try:
            await inner("event" if kind in ("cleanup", "model") else kind)
            logs[i].append("completed")
        except asyncio.CancelledError:
            logs[i].append("cancelled")
            raise
        finally:
            if kind == "cleanup":
                await sleep(0)
                await sleep(0)
            logs[i].append("cleaned")

    class M(Model):
        def __init__(self, i):
            super().__init__()
            self.i = i

        async def main(self):
            await bg(self.i, "model")

    def spawn(where):
        if where == case["frm"]:
            for i, w in enumerate(case["ws"]):
                if w == "model":
                    M(i)
                else:
                    mk(bg(i, w))

    async def helper():
        spawn("helper")

    async def task():
        await sleep(0)
        spawn("task")

    def handle():
        box["d"] = fake.DUT(horizon=20)
        start_clock(box["d"])
        spawn("handle")
        return box["d"]

    async def test(d):
        spawn("test")
        await helper()
        await mk(task())
        await clk(d, 2)
        if case["end"] == "exc":
            raise boom
        return "res"

    out = run(test, handle, gc_at=at)
    if case["end"] == "exc":
        if out.kind != "exc" or out.exc is not boom:
            raise Violation("run must raise the test's exception, also when garbage is collected during the run", got=repr(out), at=at)
    elif out.kind != "ok" or out.value != "res":
        raise Violation("run must return the test's result, also when garbage is collected during the run", got=repr(out), at=at)
    for i, w in enumerate(case["ws"]):
        expect(logs[i], ["start", "cancelled", "cleaned"], f"background task {i} ({w}), which nobody refers to, must be cancelled and its cleanup run before run returns", at=at)
    rec.execution(McLoop.passes, [("gc", tuple(case["ws"]), repr(at))], tuple(case["ws"]))


def run_case(case, rec):
    {"gc": run_gc, "shape": run_shape, "bg": run_bg, "model": run_model, "call": run_call}[case["k"]](case, rec)


def run_shape(case, rec):
    objs = [object(), object(), object()]
    sh = case["sh"]
    ret, args = {
        "none": (None, ()),
        "scalar": (objs[0], (objs[0],)),
        "tuple0": ((), ()),
        "tuple1": ((objs[0],), (objs[0],)),
        "tuple2": ((objs[0], objs[1]), (objs[0], objs[1])),
        "tuple3": (tuple(objs), tuple(objs)),
        "tuple12": (tuple(range(9)) + tuple(objs), tuple(range(9)) + tuple(objs)),
        "list": (objs, (objs,)),
        "NoneRet": (None, (None,)),
        "dict": ({"a": 1}, ({"a": 1},)),
        "nested": (((1, 2), objs[0]), ((1, 2), objs[0])),
        "str": ("ab", ("ab",)),
    }[sh]
    result = {"None": None, "zero": 0, "obj": objs[2], "list": [1, 2], "exc": Boom("x"), "base": BaseBoom("x"), "exit": SystemExit(3)}[case["res"]]
    seen, handled = [], []

    async def test(*a):
        seen.append(a)
        if case["clock"]:
            await clk(box["d"])
        if isinstance(result, BaseException):
            raise result
        return result

    class T:
        async def m(self, *a):
            return await test(*a)

    box = {}

    def setup():
        box["d"] = fake.DUT(horizon=9)
        if case["clock"]:
            start_clock(box["d"])

    def handle():
        handled.append(1)
        setup()
        return ret

    form = case["form"]
    f = {"func": test, "partial": functools.partial(test), "lambda": lambda *a: test(*a), "method": T().m, "coro": None}[form]
    if sh == "none":

        async def wrapped():
            setup()
            return await test()

        f = {"func": wrapped, "partial": functools.partial(wrapped), "lambda": lambda: wrapped(), "method": wrapped, "coro": None}[form]
        if form == "coro":
            f = wrapped()
        out = run(f)
    else:
        out = run(f, handle)
        expect(len(handled), 1, "the environment handle must be called exactly once")
    if isinstance(result, BaseException):
        if out.kind != "exc" or out.exc is not result:
            raise Violation("run must raise the very exception the test raised", got=repr(out))
    elif out.kind != "ok" or out.value is not result:
        raise Violation("run must return the very object the test returned", got=repr(out))
    expect(len(seen), 1, "the test must be executed exactly once")
    if len(seen[0]) != len(args) or any(a is not b and a != b for a, b in zip(seen[0], args)):
        raise Violation("the test must receive the handle's products as arguments", got=seen[0], want=args)
    rec.execution(3, [("shape", sh, case["res"], form)], (sh, case["res"]))


def run_bg(case, rec):
    n = len(case["bg"])
    state = [[] for _ in range(n)]
    tasks = [None] * n
    extra = []
    mode, cyc = case["end"]
    box = {}

    async def bg(i, kind, d, ev, q):
        st = state[i]
        try:
            if kind == "clock":
                while True:
                    await clk(d)
                    if box.get("returned") and d.n > box["n"]:
                        st.append("ran after the end")
            elif kind in ("event", "clY", "clYY", "clT", "clW", "clS"):
                await Event().wait()
            elif kind == "queue":
                await Queue().get()
            elif kind == "long":
                await clk(d, 50)
            elif kind in ("y1", "y5"):
                for _ in range(int(kind[1])):
                    await sleep(0)
            elif kind == "wakeE":
                await ev.wait()
                await sleep(0)
                await sleep(0)
            elif kind == "wakeQ":
                await q.get()
                await sleep(0)
            elif kind == "join":
                await tasks[(i + 1) % n] if tasks[(i + 1) % n] is not None and (i + 1) % n > i else await Event().wait()
            elif kind == "spawn":
                s2 = []
                extra.append(s2)

                async def late():
                    try:
                        await sleep(0)
                        s2.append("completed")
                    except asyncio.CancelledError:
                        s2.append("cancelled")
                        raise
                    finally:
                        s2.append("cleaned")

                await sleep(0)
                create_task(late())
            st.append("completed")
        except asyncio.CancelledError:
            st.append("cancelled")
            raise
        finally:
            if kind == "clY":
                await sleep(0)
            elif kind == "clYY":
                for _ in range(8):
                    await sleep(0)
            elif kind == "clT":
                await sleep(100)
            elif kind == "clW" and "clS" in case["bg"]:  # the cleanup of one task waits for the cleanup of another
                await gate.wait()
            elif kind == "clS":
                await sleep(0)
                gate.set()
            st.append("cleaned")

    boom = (Boom, BaseBoom)[(n + cyc) % 2]("end")
    gate = asyncio.Event()

    async def test(*a):
        d = box["d"]
        ev, q = Event(), Queue()

        def spawn(which):
            for i in reversed(range(n)):
                first = case["at"] == "first" or (case["at"] == "mix" and i % 2 == 0)
                if first == (which == "first"):
                    tasks[i] = user_named(create_task(bg(i, case["bg"][i], d, ev, q)), case, i)

        spawn("first")
        if case["clock"]:
            await clk(d, cyc)
        spawn("last")
        await sleep(0)
        ev.set()
        for _ in range(n):
            q.put_nowait(1)
        box["n"] = d.n
        box["returned"] = True

        if mode == "exc":
            raise boom
        return ("res", cyc)

    def setup():
        box["d"] = fake.DUT(horizon=cyc + 20)
        if case["clock"]:
            start_clock(box["d"])
        return box["d"]

    async def test0():
        setup()
        return await test()

    out = run(test, setup) if case["handle"] else run(test0)
    if mode == "exc":
        if out.kind != "exc" or out.exc is not boom:
            raise Violation("run must raise the test's exception", got=repr(out))
    elif out.kind != "ok" or out.value != ("res", cyc):
        raise Violation("run must return the test's result", got=repr(out))
    for i, kind in enumerate(case["bg"]):
        st, t = state[i], tasks[i]
        if not t.done():
            raise Violation(f"task {i} ({kind}) was left behind after run returned", states=state)
        if not st:
            # cancelled before its first step: only possible when nothing promised to complete it
            if mode == "ret" and case["clock"]:
                raise Violation(f"task {i} ({kind}) was runnable in the last cycle but never ran", states=state)
            continue
        if mode == "exc":
            # an exception ends the run at once, but the simulation may run on for some cycles until the loop stops
            st = [x for x in st if x != "ran after the end"]
        if "ran after the end" in st:
            raise Violation(f"task {i} ({kind}) saw a clock edge after the test's last cycle", states=state)
        if st[-1] != "cleaned" or len(st) != 2:
            raise Violation(f"the cleanup of task {i} ({kind}) had not finished when run returned", states=state)
        if case["clock"] and mode == "ret":
            if kind == "join":
                continue_ = case["bg"][(i + 1) % n] if n > 1 and i + 1 < n else None
                continue
            want = "completed" if kind in ("y1", "y5", "wakeE", "wakeQ", "spawn") else "cancelled"
            if kind == "wakeE" and case["at"] == "x":
                continue
            if st[0] != want:
                raise Violation(f"task {i} ({kind}) must be {want} when run returns", states=state)
    if case["clock"] and mode == "ret":
        for s2 in extra:
            if s2 != ["completed", "cleaned"]:
                raise Violation("a task created by a task in the last cycle was not completed", got=s2)
    rec.execution(n + cyc, [tuple(map(tuple, state)) + (mode, cyc)], tuple(map(tuple, state)))


def run_model(case, rec):
    starts = []
    cleaned = []
    box = {}

    class M(Model):
        def __init__(self, i):
            super().__init__()
            self.i = i

        async def main(self):
            d = box["d"]
            starts.append((self.i, d.n))
            try:
                if case["mk"] == "short":
                    await clk(d)
                elif case["mk"] in ("tail", "tail0"):  # ends some rounds into a cycle, perhaps the last one
                    if case["mk"] == "tail":
                        await clk(d)
                    for _ in range(4):
                        await sleep(0)
                elif case["mk"] == "wait":
                    while True:
                        await clk(d)
                elif case["mk"] == "cleanup":
                    await Event().wait()
            finally:
                if case["mk"] == "cleanup":
                    await sleep(0)
                    await sleep(0)
                cleaned.append(self.i)

    class M2(Model):
        def __init__(self, i):
            super().__init__()

    mk = (lambda i: M2(i)) if case["mk"] == "nomain" else M
    created = {}
    keep = []

    def make(place):
        for i, p in enumerate(case["p"]):
            if p == place:
                created[i] = box["d"].n
                keep.append(mk(i))

    def handle():
        box["d"] = fake.DUT(horizon=20)
        make("handle-before")
        if case["clock"]:
            start_clock(box["d"])
        make("handle-after")
        return box["d"]

    async def test(d):
        for c in range(case["end"] + 1):
            make(f"test{c}")
            if c < case["end"]:
                if case["clock"]:
                    await clk(d)
                else:
                    await sleep(0)
        if case["mode"] == "exc":
            raise boom
        return 5

    boom = (Boom, BaseBoom)[case["end"] % 2]("x")
    out = run(test, handle)
    if case["mode"] == "exc":
        if out.kind != "exc" or out.exc is not boom:
            raise Violation("run must raise the test's exception", got=repr(out))
    elif out.kind != "ok" or out.value != 5:
        raise Violation("run must return the test's result", got=repr(out))
    want = []
    if case["mk"] != "nomain" and case["clock"]:
        for i, at in sorted(created.items()):
            # The edge after its creation; on an exception in that very cycle the run is over before the edge.
            if at + 1 <= case["end"]:
                want.append((i, at + 1))
    lim = [s for s in starts if s[1] <= case["end"]]
    expect(sorted(lim), want, "every model's main must start exactly once, at the first clock edge", starts=starts, created=created)
    if len({i for i, _ in starts}) != len(starts):
        raise Violation("a model's main started more than once", starts=starts)
    if case["mode"] == "ret" and any(c > case["end"] for _, c in starts):
        raise Violation("a model's main started after the end of the test", starts=starts)
    expect(sorted(cleaned), sorted(i for i, _ in starts), "every model's main must have finished or been cancelled before run returns")
    rec.execution(4, [(tuple(case["p"]), case["end"], case["clock"], tuple(starts))], tuple(starts))


def run_call(case, rec):
    """Driver calls of un-awaited tasks, with reference models attached, that can finish in the last cycle must finish in it."""
    calls, end = case["calls"], case["end"]
    log, tasks = [], []
    box = {}

    async def body(self, name, bound):
        await clk(box["d"], bound["dur"])
        log.append(("body", bound["i"], box["d"].n))
        return bound["i"]

    def handle():
        d = box["d"] = fake.DUT(["a", "b"], horizon=end + 20)
        start_clock(d)
        names = {"mf": ["model_first"], "df": ["dut_first"], "both": ["model_first", "dut_first"], "none": []}
        agents = {k: make_agent({"m": ("i, dur", body)}) for k in names}
        env = make_env(agents, lambda n: B().bind(d))()
        mi = 0
        for a, orders in names.items():
            for o in orders:

                def sink(i, args, kwargs, o=o):
                    log.append((o, args[0], d.n))
                    return args[0]

                env.attach(make_model([["dh", "agm", {"a": a, "m": "m", "order": o}]], sink, mi)())
                mi += 1
        return env, d

    async def one(env, i, dur, who):
        r = await getattr(env, who).m(i, dur)
        log.append(("done", i, box["d"].n, r))
        if case["nest"]:
            await getattr(env, who).m(i + 10, 0)
            log.append(("done", i + 10, box["d"].n, i + 10))

    async def test(env, d):
        for at in ("first", "last"):
            if at == "last":
                await clk(d, end)
            for i, (dur, a, who) in enumerate(calls):
                if a == at:
                    tasks.append(create_task(one(env, i, dur, who)))
        return "res"

    out = run(test, handle)
    if out.kind != "ok" or out.value != "res":
        raise Violation("run must return the test's result", got=repr(out))
    if any(not t.done() for t in tasks):
        raise Violation("a task was left behind after run returned")
    for i, (dur, a, who) in enumerate(calls):
        fin = (0 if a == "first" else end) + dur
        want = {}
        for k in [i] + ([i + 10] if case["nest"] else []):
            if fin <= end:
                want[k] = [("body", k, fin), ("done", k, fin, k)]
                if who in ("mf", "both"):
                    want[k].append(("model_first", k, fin if k >= 10 else fin - dur))
                if who in ("df", "both"):
                    want[k].append(("dut_first", k, fin))
        for k, w in want.items():
            expect(sorted(x for x in log if x[1] == k), sorted(w), f"driver call {k} could finish in the last cycle and must have", calls=calls, end=end, log=log)
    rec.execution(len(log) + 1, [tuple(log[:k]) for k in range(len(log) + 1)], ("call", len(log)))
