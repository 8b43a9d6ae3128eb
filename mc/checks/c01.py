"""C01: the clock only advances when every task is blocked, and it always does advance then."""
import asyncio
import itertools

import toffee
from toffee import Agent, Bundle, Env, Event, Model, Queue, Signals, create_task, driver_hook, driver_method
from toffee import agent_hook, gather, monitor_hook, monitor_method, sleep, start_clock

from .. import fake
from ..core import Violation
from ..loop import Schedule, explore_schedules
from ..util import clk, compositions, run, tup, user_named

ID = "C01"
BOUNDS = {
    "quick": "programs: 2 tasks x total <=4 ops, 3 tasks x total <=3 ops over 11 ops, all schedules with <=1 deviation for <=3 ops; "
    "wake-up chains: all primitive sequences of length <=5, homogeneous chains and yields up to 300; hook-woken tasks: 5 hook kinds x all chains <=3, and chains of 8, 20 and 70; the test itself as one of the tasks, with and without environment handle",
    "thorough": "programs: 2 and 3 tasks x total <=5 ops (2 tasks) / <=4 ops (3 tasks), schedules with <=2 deviations for <=3 ops, <=1 for 4 ops; "
    "chains of length <=7, homogeneous up to 800; hook chains <=4",
}
ASSUMPTIONS = [
    "tasks use toffee's primitives (clock waits, Event, Queue, sleep(0), gather, create_task, await task, cancel) only",
    "ready-queue reorderings keep the pass structure of asyncio (every handle that is ready is run in the next pass)",
]

OPS2 = ("y", "c", "w", "s", "W", "S", "g", "p", "j", "x", "n", "G")
N_CYC = 4


class World:
    def __init__(self, dut):
        self.dut = dut
        self.status = {}  # task -> status tuple
        self.cancelled = set()
        self.tasks = {}
        self.coros = {}  # gather members: name -> coroutine object
        self.pos = {}
        self.items = 0
        self.ev = {"e": Event(), "f": Event()}
        self.q = Queue()
        self.bad = None
        self.edges = 0
        self.trace = []
        dut.before_step(self.check)

    def note(self, name, st):
        self.status[name] = st

    def check(self, n):
        self.edges += 1
        self.trace.append(tuple(sorted((k, v[0], self.pos.get(k)) for k, v in self.status.items())) + (self.items,))
        if self.bad:
            return
        getters = 0
        for name, st in self.status.items():
            t = self.tasks.get(name)
            if t is not None and t.done():
                continue
            c = self.coros.get(name)
            if c is not None and c.cr_frame is None:
                continue  # also covers a member cancelled before it ever ran
            k = st[0]
            why = None
            if name in self.cancelled:
                why = "has a cancellation pending"
            elif k == "run":
                why = "is runnable"
            elif k == "yield":
                why = "only yielded with sleep(0)"
            elif k == "woken":
                why = "waits for an event that was set"
            elif k == "hook":
                why = "waits for a hook that must run in this cycle"
            elif k == "join":
                o = self.tasks.get(st[1])
                if o is not None and o.done():
                    why = "waits for a task that is done"
            elif k == "gather":
                if all(self.coros[c].cr_frame is None for c in st[1]):
                    why = "waits for a gather whose members are all done"
            elif k == "clock":
                if st[1] < n:
                    why = f"waits since cycle {st[1]} for a clock edge that has come"
            elif k == "get":
                getters += 1
            if why:
                self.bad = f"clock edge {n + 1} although {name} {why}"
                return
        if getters and self.items:
            self.bad = f"clock edge {n + 1} although {getters} task(s) wait for a queue holding {self.items} item(s)"

    def set_event(self, e):
        self.ev[e].set()
        self.ev[e].clear()
        for k, v in self.status.items():
            if v == ("wait", e):
                self.status[k] = ("woken",)

    def put_nowait(self):
        self.items += 1
        self.q.put_nowait(0)


async def body(w, name, ops, names):
    note = w.note
    try:
        for i, op in enumerate(ops):
            note(name, ("run",))
            w.pos[name] = i
            if op == "y":
                note(name, ("yield",))
                await sleep(0)
            elif op == "c":
                note(name, ("clock", w.dut.n))
                await clk(w.dut)
            elif op in "wW":
                e = "e" if op == "w" else "f"
                note(name, ("wait", e))
                await w.ev[e].wait()
            elif op in "sS":
                w.set_event("e" if op == "s" else "f")
            elif op == "g":
                note(name, ("get",))
                await w.q.get()
                w.items -= 1
            elif op == "p":
                w.items += 1
                await w.q.put(0)
            elif op in ("j", "x"):
                o = names[(names.index(name) + 1) % len(names)]
                if op == "x":
                    if not w.tasks[o].done():
                        w.cancelled.add(o)
                        w.tasks[o].cancel()
                else:
                    note(name, ("join", o))
                    try:
                        await w.tasks[o]
                    except asyncio.CancelledError:
                        if asyncio.current_task().cancelling():
                            raise
            elif op == "n":
                c = f"{name}.{i}"
                w.status[c] = ("run",)
                w.tasks[c] = create_task(child(w, c, "y"))
            elif op == "G":
                cs = (f"{name}.{i}a", f"{name}.{i}b")
                for c in cs:
                    w.status[c] = ("run",)
                note(name, ("gather", cs))
                w.coros[cs[0]], w.coros[cs[1]] = child(w, cs[0], "y"), child(w, cs[1], "c")
                await gather(w.coros[cs[0]], w.coros[cs[1]])
        note(name, ("done",))
    except asyncio.CancelledError:
        note(name, ("done",))
        raise


async def child(w, name, kind):
    try:
        if kind == "y":
            w.note(name, ("yield",))
            await sleep(0)
        else:
            w.note(name, ("clock", w.dut.n))
            await clk(w.dut)
    finally:
        w.note(name, ("done",))


def mutual_join(progs):
    """Tasks that await each other in a cycle are a user bug asyncio does not support (RecursionError on cancel)."""
    return all("j" in p for p in progs) and len(progs) > 1


def prog_cases(nt, total):
    for n in range(1, total + 1):
        for comp in compositions(n, nt):
            for ws in itertools.product(*[itertools.product(OPS2, repeat=k) for k in comp]):
                if not mutual_join(ws):
                    yield ["".join(x) for x in ws]


CHAIN = ("e", "q", "j", "y", "G", "x", "A", "w")  # A, w: asyncio's gather and wait over tasks that end with a toffee primitive


def cases(tier):
    th = tier == "thorough"
    # reorderings first: small programs
    for nt, tot in ((2, 3), (3, 3)):
        for p in prog_cases(nt, tot):
            yield {"k": "prog", "p": p, "dev": 2 if th else 1}
    for p in prog_cases(2, 5 if th else 4):
        if sum(map(len, p)) > 3:
            yield {"k": "prog", "p": p, "dev": 1 if th and sum(map(len, p)) == 4 else 0}
    if th:
        for p in prog_cases(3, 4):
            if sum(map(len, p)) > 3:
                yield {"k": "prog", "p": p, "dev": 0}
    # the test itself runs the first program
    for nt, tot in ((1, 4), (2, 4 if th else 3), (3, 3)):
        for p in prog_cases(nt, tot):
            if "j" not in p[-1] and "x" not in p[-1]:
                yield {"k": "prog", "p": p, "dev": 0, "main": True}
                if tot < 4 or th:
                    yield {"k": "prog", "p": p, "dev": 0, "main": "handle"}
    for k in range(1, (7 if th else 5) + 1):
        for seq in itertools.product(CHAIN, repeat=k):
            yield {"k": "chain", "seq": "".join(seq)}
    for c in CHAIN:
        for n in (8, 13, 40, 300) + ((800,) if th else ()):
            yield {"k": "chain", "seq": c * n}
    kinds = ("mf", "df", "ah", "mon", "magent")
    for k in range(1, (4 if th else 3) + 1):
        for seq in itertools.product(kinds, repeat=k):
            for wake in ("event", "queue", "cancel"):
                yield {"k": "hook", "seq": list(seq), "wake": wake}
    for n in (8, 20, 70):
        for ks in (("mf",), ("df",), ("ah",), ("mf", "df"), ("ah", "mf", "df")):
            for wake in ("event", "queue", "cancel"):
                yield {"k": "hook", "seq": list(itertools.islice(itertools.cycle(ks), n)), "wake": wake}


def run_case(case, rec):
    {"prog": run_prog, "chain": run_chain, "hook": run_hook}[case["k"]](case, rec)


def run_prog(case, rec):
    progs = case["p"]
    names = [f"t{i}" for i in range(len(progs))]

    def once(schedule):
        box = {}

        async def main():
            dut = fake.DUT(horizon=N_CYC + 3)
            start_clock(dut)
            w = box["w"] = World(dut)
            for nm in names:
                w.status[nm] = ("run",)
            inline = bool(case.get("main"))
            for nm, p in list(zip(names, progs))[inline:]:
                w.tasks[nm] = user_named(create_task(body(w, nm, p, names)), case, nm)
            if inline:
                # a task of its own for each blocking operation would hide the test's task, so a stopper ends the waits
                w.tasks[names[0]] = asyncio.current_task()
                stop = create_task(stopper(dut))
                try:
                    await body(w, names[0], progs[0], names)
                except asyncio.CancelledError:
                    pass
                stop.cancel()
                w.status[names[0]] = ("main",)
                w.cancelled.discard(names[0])
                asyncio.current_task().uncancel()
            while dut.n < N_CYC:
                await clk(dut)
            return dut.n

        async def stopper(dut):
            while dut.n < N_CYC:
                await clk(dut)
            w = box["w"]
            w.cancelled.add(names[0])
            w.tasks[names[0]].cancel()

        if case.get("main") == "handle":
            out = run(lambda _: main(), lambda: 1)
        else:
            out = run(main, schedule=schedule, reorderable=_is_user)
        w = box["w"]
        if w.bad:
            raise Violation(w.bad, schedule=schedule.choices if schedule else None)
        if out.kind != "ok":
            raise Violation(f"the clock stalled or the run failed: {out!r}", schedule=schedule.choices if schedule else None)
        if out.value != N_CYC:
            raise Violation(f"main waited {N_CYC} edges but {out.value} were produced", schedule=schedule.choices if schedule else None)
        rec.execution(sum(map(len, progs)) + N_CYC, w.trace, tuple(w.trace[:2]))

    if case["dev"]:
        for _ in explore_schedules(once, case["dev"]):
            pass
    else:
        once(None)


def _is_user(t):
    c = t.get_coro()
    return getattr(c, "__name__", "") in ("body", "child")


def run_chain(case, rec):
    """Task i waits for primitive i and then triggers primitive i+1, everything must happen in cycle 1."""
    seq = case["seq"]
    reached = []

    async def main():
        dut = fake.DUT(horizon=6)
        start_clock(dut)
        n = len(seq)
        ev = [Event() for _ in range(n + 1)]
        qs = [Queue() for _ in range(n + 1)]
        tasks = {}

        def trigger(i):
            if i < n:
                k = seq[i]
                if k == "q":
                    qs[i].put_nowait(i)
                elif k == "x":
                    tasks[("x", i)].cancel()
                else:
                    ev[i].set()

        async def on_ev(i):
            await ev[i].wait()

        async def on_sleep(i):
            await ev[i].wait()
            await sleep(0)

        async def link(i):
            k = seq[i]
            if k == "e":
                await ev[i].wait()
            elif k == "q":
                await qs[i].get()
            elif k == "j":
                await tasks[("j", i)]
            elif k == "y":
                await ev[i].wait()
                await sleep(0)
            elif k == "G":
                await gather(on_ev(i), on_ev(i))
            elif k == "A":
                await asyncio.gather(on_ev(i), on_ev(i))
            elif k == "w":
                await asyncio.wait([create_task(on_ev(i)), create_task(on_sleep(i))])
            elif k == "x":
                try:
                    await tasks[("x", i)]
                except asyncio.CancelledError:
                    pass
            reached.append((i, dut.n))
            trigger(i + 1)

        for i in reversed(range(n)):
            if seq[i] == "j":
                tasks[("j", i)] = create_task(on_ev(i))
            if seq[i] == "x":
                tasks[("x", i)] = create_task(asyncio.Event().wait())
            tasks[i] = user_named(create_task(link(i)), case, i)
        await clk(dut)
        trigger(0)
        await clk(dut)
        got = list(reached)
        await clk(dut, 2)
        return got

    out = run(main)
    want = [(i, 1) for i in range(len(seq))]
    if out.kind != "ok" or out.value != want:
        raise Violation("a chain of wake-ups started in cycle 1 must finish in cycle 1", got=(out.value or [])[-5:] if out.kind == "ok" else repr(out), reached=reached[-5:])
    rec.execution(len(seq) + 4, [(case["seq"][:i]) for i in range(min(9, len(seq)))], len(seq))


class _B(Bundle):
    a, b = Signals(2)


def run_hook(case, rec):
    """A hook of cycle 1 wakes a task, which uses the next hook in the same cycle, and so on."""
    seq, wake = case["seq"], case["wake"]
    n = len(seq)
    hits = []
    box = {}

    class Ag(Agent):
        def __init__(self, b):
            super().__init__(b)
            self.fire = {}

        @driver_method()
        async def drv(self, i):
            hits.append(("drv", i, box["dut"].n))
            await self.bundle.step()

        @driver_method()
        async def drv2(self, i):
            hits.append(("drv", i, box["dut"].n))

        @driver_method()
        async def drv3(self, i):
            hits.append(("drv", i, box["dut"].n))
            await self.bundle.step()

        @monitor_method()
        async def mon(self):
            return 7 if self.bundle.a.value == 1 else None

    class Ag2(Agent):
        @monitor_method()
        async def mon2(self):
            return 8 if self.bundle.a.value == 1 else None

    class E(Env):
        def __init__(self, d):
            super().__init__()
            b = _B().bind(d)
            self.ag = Ag(b)
            self.ag2 = Ag2(b)

    class M(Model):
        @driver_hook(agent_name="ag")
        def drv(self, i):
            box["wake"](i)

        @driver_hook(agent_name="ag", sche_order="dut_first")
        def drv2(self, i):
            box["wake"](i)

        @monitor_hook(agent_name="ag")
        def mon(self, v):
            box["mon"]("mon")

        @agent_hook(agents=["ag2"], methods=["ag.drv3"])
        def ah(self, path, v):
            if path == "ag.drv3":
                box["wake"](v["i"])
            else:
                box["mon"]("magent")

    def handle():
        d = fake.DUT(["a", "b"], horizon=10, wave={"a": [0, 0, 1, 0], "b": [0]})
        box["dut"] = d
        start_clock(d)
        e = E(d)
        e.attach(M())
        return e, d

    first = {"mon": [], "magent": []}

    async def test(e, d):
        ev = [Event() for _ in range(n + 1)]
        qs = [Queue() for _ in range(n + 1)]
        woke = []
        tasks = []
        victims = []

        def do_wake(i):
            if wake == "event":
                ev[i].set()
            elif wake == "queue":
                qs[i].put_nowait(i)
            else:
                victims[i].cancel()

        def do_mon(k):
            for i in first[k]:
                do_wake(i)
            first[k] = []

        box["wake"], box["mon"] = do_wake, do_mon

        async def victim():
            await asyncio.Event().wait()

        async def wait(i):
            if wake == "event":
                await ev[i].wait()
            elif wake == "queue":
                await qs[i].get()
            else:
                try:
                    await victims[i]
                except asyncio.CancelledError:
                    pass

        async def link(i):
            await wait(i)
            woke.append((i, d.n))
            await trigger(i + 1)

        async def trigger(i):
            if i < n:
                k = seq[i]
                if k == "mf":
                    await e.ag.drv(i)
                elif k == "df":
                    await e.ag.drv2(i)
                elif k == "ah":
                    await e.ag.drv3(i)

        # the monitors of cycle 2 wake the first link; every other link is woken by the hook of the call before it
        for i in range(n):
            victims.append(user_named(create_task(victim()), case, i))
            tasks.append(user_named(create_task(link(i)), case, i))
            if seq[i] in ("mon", "magent"):
                first[seq[i]].append(i)
        if seq[0] not in ("mon", "magent"):
            await clk(d, 2)
            create_task(trigger(0))
        else:
            await clk(d, 2)
        await clk(d)
        got = list(woke)
        await clk(d, 2)
        return got

    out = run(test, handle)
    # every link must wake in cycle 2 (links behind a monitor kind are woken directly by the monitor)
    want = {i for i in range(n)}
    if out.kind != "ok" or {i for i, c in out.value if c == 2} != want or len(out.value) != n:
        raise Violation("tasks woken by the hooks of cycle 2 must run before the next clock edge", got=repr(out), hits=hits, want=sorted(want))
    rec.execution(2 * n + 5, [(tuple(seq[:i]), wake) for i in range(n + 1)], (tuple(seq), wake))
