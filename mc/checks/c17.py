"""C17: consecutive runs in one process do not influence each other."""
import asyncio
import itertools
import os
import pickle
import signal
import sys

import toffee
from toffee import Agent, AgentPort, Bundle, CovGroup, Delayer, DriverPort, Env, Event, Executor, Model, Queue, Signals
from toffee.triggers import AllValid, ClockCycles, RisingEdge, Value
from toffee import agent_hook, create_task, driver_hook, driver_method, monitor_hook, monitor_method, sleep, start_clock

from .. import core, fake
from ..core import Violation, expect
from ..util import CAP, clk, quiet, run

ID = "C17"
BOUNDS = {
    "quick": "9 target runs (with/without environment, executors with overrides, ports, monitors and their queues, delayers, triggers, model mains, failing comparisons) each executed after every history of 1 run out of 212 (5 environments, 5 tests x 13 ways to end: normally, exception in test/driver/hook/monitor/main/handle/attach/Step, "
    "mismatch, keyboard interrupt, system exit, cancellation, endless wait x abort points) and after every history of 2 runs out of 44, after one run repeated 8 or 33 times, after mixed histories of up to 130 runs, and compared with the same run alone in a fresh process",
    "thorough": "histories of 2 runs out of 212, of 3 runs out of 14",
}
ASSUMPTIONS = ["every run creates its own DUT stand-in and environment objects; classes are shared between the runs; log configuration and statistics are process-wide by design"]


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    """What test frameworks end a test with (pytest.fail, pytest.skip)."""


def boom(what):
    return (Boom, BaseBoom)[(W.at or 0) % 2](what)


class AB(Bundle):
    a, b = Signals(2)


W = None  # the world of the current run


class World:
    def __init__(self, abort):
        self.log = []
        self.how, self.at = abort
        self.count = {}

    def hit(self, how):
        """True at the abort point."""
        n = self.count.get(how, 0)
        self.count[how] = n + 1
        return self.how == how and n == self.at

    def note(self, *what):
        self.log.append((self.dut.n, *what))


class Ag(Agent):
    @driver_method()
    async def send(self, x, y=3):
        W.note("send", x, y)
        if W.hit("driver"):
            raise boom("driver")
        self.bundle.a.value = x
        await self.bundle.step()
        W.note("sent", x)
        return x

    @driver_method()
    async def fast(self, x):
        W.note("fast", x)
        return x + 1

    @monitor_method()
    async def mon(self):
        if W.hit("mon"):
            raise boom("mon")
        return None if self.bundle.a.value is None else (W.dut.n, self.bundle.a.value)


class En(Env):
    def __init__(self, dut, n=2):
        super().__init__()
        self.ag = Ag(AB().bind(dut))
        if n > 1:
            self.ag2 = Ag(AB().bind(dut))


class Hooks(Model):
    def __init__(self, tag):
        super().__init__()
        self.tag = tag

    @driver_hook("ag.send", priority=20)
    def h1(self, x, y=3):
        W.note(self.tag, "h1", x, y)
        if W.hit("hook"):
            raise boom("hook")
        return x + 100 if W.hit("mismatch") else x

    @driver_hook("ag.fast", priority=10, sche_order="dut_first")
    def h2(self, x):
        W.note(self.tag, "h2", x)
        if W.hit("exit"):
            raise SystemExit(3)
        return None

    @agent_hook("ag2", priority=5)
    def h3(self, name, args):
        W.note(self.tag, "h3", name, repr(args))

    @monitor_hook("ag.mon", priority=30)
    def h4(self, item):
        W.note(self.tag, "h4", item)


class Ports(Model):
    def __init__(self, tag):
        super().__init__()
        self.tag = tag
        self.p = DriverPort("ag.send", maxsize=3)
        self.q = AgentPort("ag2", maxsize=2)

    async def main(self):
        while True:
            item = await self.p()
            W.note(self.tag, "port", repr(item))
            if W.hit("main"):
                raise boom("main")
            if item == 99:
                return


class Bad(Model):
    @driver_hook("ag.nothing")
    def h(self, x):
        pass


async def t_plain(env, d):
    q, e = Queue(), Event()

    async def worker(i):
        for k in range(2):
            await q.put((i, k))
            await clk(d)
        if i == 1:
            e.set()
        W.note("worker", i)

    ds = [Delayer(d.a, k) for k in range(2)]
    ts = [create_task(worker(i)) for i in range(2)]
    for k in range(3):
        d.a.value = 10 + k
        if W.hit("test"):
            raise boom("test")
        if W.hit("kbd"):
            raise KeyboardInterrupt()
        await clk(d)
        W.note("delay", [x.value for x in ds])
    await e.wait()
    for t in ts:
        await t
    W.note("items", [q.get_nowait() for _ in range(q.qsize())])
    return "plain"


async def t_calls(env, d):
    r = await env.ag.send(1)
    async with Executor() as ex:
        ex(env.ag.send(2), priority=3, sche_order="dut_first")
        ex(env.ag.fast(7), sche_group="g")
        ex(env.ag.fast(8), sche_group="g", priority=1)
        if env_two(env):
            ex(env.ag2.send(5, 6))
        abort_point()
    create_task(env.ag.send(20))
    if env_two(env):
        create_task(env.ag2.fast(4))
    abort_point()
    await clk(d)
    W.note("mon", env.ag.monitor_size("mon"))
    create_task(env.ag.send(30))
    await sleep(0)
    create_task(env.ag.fast(31))
    abort_point()
    await env.ag.fast(99)
    W.note("res", repr(sorted(ex.get_results().items(), key=repr)))
    return r, d.n


class Noted:
    """A delayed signal whose reading is noted."""

    def __init__(self, pin):
        self.pin = pin

    @property
    def value(self):
        W.note("read", self.pin.value)
        if W.hit("sample"):
            raise boom("sample")
        return self.pin.value


async def t_queues(env, d):
    env.ag.start_monitor("mon", 3)
    env.ag2.start_monitor("mon", 2)
    ds = [Delayer(Noted(d.a), 1), Delayer(Noted(d.b), 0)]
    q = Queue()
    hint = await env.ag.send(4)
    abort_point()
    W.note("got", await env.ag.mon(), env.ag.monitor_size("mon"))
    waiter = create_task(env.ag2.mon())
    await ClockCycles(d.b, 2)
    W.note("delay", [x.value for x in ds])
    q.put_nowait(hint)
    d.b.value = 1
    abort_point()
    await AllValid(d.a, d.b, delay=0)
    rise = create_task(RisingEdge(d.b))
    d.b.value = 0
    await clk(d)
    d.b.value = 1
    await rise
    W.note("rise", await waiter)
    abort_point()
    await Value(d.b, 1)
    env.ag.start_monitor("mon", 5)
    await clk(d, 3)
    W.note("left", env.ag.monitor_size("mon"), env.ag2.monitor_size("mon"), q.qsize())
    return d.n


def env_two(env):
    return hasattr(env, "ag2")


def abort_point():
    if W.hit("test"):
        raise boom("test")
    if W.hit("kbd"):
        raise KeyboardInterrupt()
    if W.hit("cancel"):
        raise asyncio.CancelledError()


async def t_any(env, d):
    async with Executor(exit="any") as ex:
        ex(env.ag.fast(1))
        ex(env.ag.send(2))
    W.note("any")
    async with Executor(exit="none") as ex2:
        ex2(env.ag.send(3), priority=2)
        ex2(env.ag2.send(4), sche_order="dut_first")
    abort_point()
    W.note("none")
    if not W.hit("nowait"):
        await ex.wait_all()
        await ex2.wait_all()
        W.note("res", repr(sorted(ex2.get_results().items(), key=repr)))
    abort_point()
    return d.n


async def t_unattach(env, d):
    await env.ag.send(1)
    env.unattach(env_models(env)[0])
    abort_point()
    t = create_task(env.ag.send(2))
    await env.ag2.fast(3)
    env.attach(env_models(env)[0])
    await t
    abort_point()
    await env.ag.send(4)
    return "ok"


def env_models(env):
    return W.models


def handle_of(kind):
    def handle():
        d = W.dut = fake.DUT(["a", "b"], horizon=25)
        W.models = []

        def before(n):
            if W.hit("step"):
                raise boom("step")

        d.before_step(before)
        start_clock(d)
        if kind == "none":
            return None, d
        env = En(d, 1 if kind == "one" else 2)
        ms = {
            "one": [],
            "hooks": [Hooks("A")],
            "two": [Hooks("A"), Hooks("B"), Ports("P")] if kind == "two" else [],
            "ports": [Ports("P")],
        }[kind] if kind != "two" else [Hooks("A"), Hooks("B")]
        for m in ms:
            env.attach(m)
            W.models.append(m)
        if kind == "ports":
            m = Ports("Q")
            env.attach(m)
            W.models.append(m)
        if W.how == "badattach":
            env.attach(Bad())
        if W.how == "handle":
            raise boom("handle")
        return env, d

    return handle


TESTS = {"plain": t_plain, "calls": t_calls, "any": t_any, "un": t_unattach, "queues": t_queues}
COMBOS = (("none", "plain"), ("hooks", "calls"), ("two", "calls"), ("ports", "calls"), ("hooks", "any"), ("two", "un"), ("ports", "any"), ("one", "calls"), ("two", "queues"))
ABORTS = [["none", 0]] + [[h, k] for h in ("test", "driver", "hook", "mon", "mismatch", "step", "kbd", "main") for k in (0, 1, 2)] + [["exit", 0], ["exit", 1], ["cancel", 0], ["cancel", 2], ["handle", 0], ["badattach", 0], ["nowait", 0], ["sample", 3]]


def useful(c, a):
    env, test = c
    how, k = a
    if how in ("hook", "mismatch", "exit"):
        return env in ("hooks", "two")
    if how == "main":
        return env == "ports"
    if how in ("driver", "mon", "badattach"):
        return env != "none"
    if how == "cancel":
        return test == "calls"
    if how == "nowait":
        return test == "any"
    if how == "sample":
        return test == "queues"
    return True


ALL = [[*c, *a] for c in COMBOS for a in ABORTS if useful(c, a)]
SOME = [[*c, *a] for i, c in enumerate(COMBOS[:5]) for j, a in enumerate(ABORTS) if useful(c, a) and (i + j) % 3 == 0 or c == COMBOS[2] and a[0] in ("mismatch", "kbd") and useful(c, a)]
FEW = [["hooks", "calls", "test", 1], ["two", "calls", "kbd", 1], ["two", "un", "test", 0], ["ports", "calls", "main", 0], ["hooks", "any", "nowait", 0], ["two", "calls", "mismatch", 1], ["none", "plain", "step", 1],
       ["two", "calls", "step", 2], ["hooks", "calls", "mon", 1], ["one", "calls", "driver", 1], ["two", "calls", "exit", 0], ["hooks", "calls", "none", 0], ["two", "queues", "none", 0], ["two", "queues", "test", 1]]
TARGETS = [[*c, "none", 0] for c in COMBOS] + [["two", "calls", "mismatch", 1], ["hooks", "calls", "mon", 2]]


def cases(tier):
    th = tier == "thorough"
    for h in ALL:
        for t in TARGETS:
            yield {"hist": [h], "target": t}
    for hh in itertools.product(ALL if th else SOME, repeat=2):
        for t in (TARGETS[2], TARGETS[3]) if th else (TARGETS[1], TARGETS[2], TARGETS[3]):
            yield {"hist": [list(x) for x in hh], "target": t}
    if th:
        for hh in itertools.product(FEW, repeat=3):
            for t in (TARGETS[2], TARGETS[3]):
                yield {"hist": [list(x) for x in hh], "target": t}
    for h in FEW:
        yield {"hist": [h] * 8, "target": TARGETS[2]}
        for t in TARGETS:
            yield {"hist": [h] * 33, "target": t}
    for t in TARGETS:
        for step in (1, 7, 11, -3):
            yield {"hist": [list(h) for h in ALL[::step]][:130], "target": t}


def execute(spec):
    global W
    env, test, how, k = spec
    W = World((how, k))
    CAP.records.clear()
    try:
        out = run(TESTS[test], handle_of(env))
        res = repr(out)
    except core.CaseTimeout:
        raise
    except KeyboardInterrupt:
        res = "KeyboardInterrupt"
    return res, list(W.log), W.dut.n, list(CAP.errors()), sorted(W.dut.snapshot().items())


def child(specs):
    """Execute the runs in a forked process and return what was observed of the last one."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            core._give_up = lambda: os._exit(1)
            signal.setitimer(signal.ITIMER_VIRTUAL, core.CASE_CPU_S, 3)
            sys.setrecursionlimit(1000)
            quiet()
            res = None
            for s in specs:
                res = execute(s)
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            code = 0
        except BaseException as e:
            try:
                with os.fdopen(w, "wb") as f:
                    what = "the run did not terminate" if isinstance(e, core.CaseTimeout) else f"{type(e).__name__}: {e}"
                pickle.dump(("harness", what), f)
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("died",)


_alone = {}


def run_case(case, rec):
    key = repr(case["target"])
    if key not in _alone:
        a, b = child([case["target"]]), child([case["target"]])
        expect(a, b, "the target run is not deterministic")
        if a[0] in ("harness", "died"):
            raise Violation("the target run could not be executed", got=a)
        _alone[key] = a
    got = child([*case["hist"], case["target"]])
    want = _alone[key]
    if got != want:
        names = ("outcome", "activity", "clock cycles", "errors", "pins")
        if len(got) == 5:
            for n, g, x in zip(names, got, want):
                expect(g, x, f"the {n} of a run differs after earlier runs")
        raise Violation("a run ends differently after earlier runs", got=got, want=want)
    rec.execution(len(got[1]) + 1, [repr(e) for e in got[1]], got[0])
