"""C15: a Delayer yields exactly the value from the given number of cycles ago."""
import itertools

from toffee import Agent, Bundle, Delayer, Model, Queue, Signals, create_task, driver_hook, monitor_hook, sleep, start_clock

from .. import fake
from ..core import Violation, expect
from ..envs import make_agent, make_env, make_model
from ..util import CAP, clk, need_ok, run

ID = "C15"
BOUNDS = {
    "quick": "all value words of length 6 over 2 values on a test-driven pin (4 write styles: at the wake-up, late in the cycle, through a queue, with a transient) and a dut-driven pin x delays {0,1,2,4,7} x creation cycles {0,1,2,5} x 4 creators "
    "(handle, test, task, hook); all words of length 5 over {None, 0, 3} and of length 3 over 5 falsy values; all sets of 2-3 delayers over 3 pins x 3 delays x 3 creation cycles; environments with model_first/dut_first/agent/monitor hooks that write pins x up to 3 calls per cycle; every delayer is read at 3 points of every cycle; delays of up to 1025 cycles",
    "thorough": "words of length 8 over 3 values, delays up to 12, sets of 4 delayers",
}
PINS = ("q", "w", "r")


def cases(tier):
    th = tier == "thorough"
    n = 8 if th else 6
    delays = (0, 1, 2, 3, 4, 7, 12) if th else (0, 1, 2, 4, 7)
    for word in itertools.product((0, 1, 2**70) if th else (0, 2**70), repeat=n):
        for i, d in enumerate(delays):
            at = (0, 1, 2, 5)[(sum(map(bool, word)) + i) % 4]
            yield {"ds": [["q", d, at, "test"]], "q": list(word), "style": ("early", "late", "queue", "trans")[(i + len(set(word[:3]))) % 4]}
    for word in itertools.product((None, 0, 3), repeat=5):
        yield {"ds": [["q", 0, 0, "test"], ["q", 1, 1, "test"], ["q", 2, 0, "test"]], "q": list(word), "style": ("early", "late", "queue")[word.count(None) % 3]}
    for word in itertools.product((None, "", False, 0, 0.0), repeat=3):
        yield {"ds": [["q", 0, 0, "test"], ["q", 1, 1, "test"]], "q": [1, *word, 5], "style": "early"}
    w = [5, 0, 7, 7, 3, 1, 9, 2, 8, 4, 6, 11]
    for style in ("early", "late", "queue", "trans"):
        for pin in PINS:
            for d in range(13) if th else delays:
                for at in range(6):
                    for by in ("handle", "test", "task", "hook", "reuse") if at else ("handle", "test", "task"):
                        for sig in ("pin", "bundle"):
                            yield {"ds": [[pin, d, at, by]], "q": w, "style": style, "sig": sig}
    one = [[p, d, at, "test"] for p in PINS for d in (0, 1, 3) for at in (0, 1, 4)]
    for k in (2, 3, 4) if th else (2, 3):
        for ds in itertools.product(one, repeat=2) if k == 2 else itertools.combinations(one, k):
            yield {"ds": [list(x) for x in ds], "q": w[:9], "style": ("early", "late", "queue", "trans")[ds[0][1]]}
    for many in (5, 12, 40):
        yield {"ds": [[PINS[i % 3], i % 5, i % 4, "test"] for i in range(many)], "q": w, "style": "late"}
    # long delays
    for ds in ((8, 9, 15, 16), (17, 31, 32, 33), (63, 64, 65, 100), (127, 128, 129, 255), (256, 257, 500), (1000, 3), (1025, 1)):
        for style in ("early", "late"):
            for at in (0, 1, 40):
                yield {"ds": [[PINS[(i + at) % 2], d, at + i, ("test", "handle", "task")[(i + at) % 3]] for i, d in enumerate(ds)], "qn": max(ds) + 60, "style": style}
    hooks = (["dh", "model_first"], ["dh", "dut_first"], ["ah", "model_first"], ["ah", "dut_first"], ["mh", None])
    for k in (0, 1, 2, 3):
        for hs in itertools.combinations(hooks, k):
            for calls in itertools.product((0, 1, 2, 3), repeat=2) if k else ((0, 0), (1, 2)):
                for style in ("early", "late"):
                    for body in (0, 1):
                        yield {
                            "ds": [["q", 1, 0, "test"], ["r", 0, 0, "handle"], ["r", 1, 1, "test"], ["r", 2, 2, "hook"], ["w", 3, 0, "task"], ["s", 1, 0, "test"], ["s", 0, 2, "test"]],
                            "q": w[:8], "style": style, "hooks": [list(h) for h in hs], "calls": list(calls), "body": body,
                        }


class QB(Bundle):
    q, w, r, s = Signals(4)


class AB(Bundle):
    a = Signals(1)


def run_case(case, rec):
    q = case["q"] if "q" in case else [(i * i * 7 + 3 * i) % 101 for i in range(case["qn"])]
    n = len(q) + 2
    box = {"del": [None] * len(case["ds"]), "made": [None] * len(case["ds"]), "n": 0}
    hooks = case.get("hooks", [])
    settled = []

    def make(i):
        pin, d, at, by = case["ds"][i]
        dut = box["d"]
        sig = getattr(box["qb"] if case.get("sig") == "bundle" else dut, pin)
        box["del"][i] = Delayer(sig, d)
        box["made"][i] = dut.n

    async def body(self, name, bound):
        v = bound["x"]
        box["d"].s.value = v + 1
        if case.get("body"):
            await clk(box["d"])
        box["d"].s.value = v + 2
        return None

    async def mon(self):
        return box["d"].n

    def handle():
        d = box["d"] = fake.DUT([*PINS, "s", "a"], horizon=max(60, n + 10), wave={"w": [100 + 3 * i for i in range(max(70, n + 20))]})
        d.before_step(lambda m: settled.append(d.snapshot()))
        box["qb"] = QB().bind(d)
        start_clock(d)
        env = None
        if hooks:
            env = make_env({"ag": make_agent({"send": ("x", body)}, {"mon": mon})}, lambda _: AB().bind(d))()
            elems = []
            for kind, order in hooks:
                if kind == "dh":
                    elems.append(["dh", "path", {"a": "ag", "m": "send", "order": order, "prio": 20}])
                elif kind == "ah":
                    elems.append(["ah", "an", {"a": "ag", "order": order, "prio": 40}])
                else:
                    elems.append(["mh", "path", {"a": "ag", "m": "mon", "prio": 30}])
            for e in elems:
                def sink(i, args, kwargs, e=e):
                    box["n"] += 1
                    if e[0] == "mh":
                        d.r.value = 5000 + box["n"]
                    else:
                        d.r.value = 6000 + box["n"]
                    for j, (_, _, at, by) in enumerate(case["ds"]):
                        if by == "hook" and box["del"][j] is None and at <= d.n:
                            make(j)

                env.attach(make_model([e], sink)())
        for i, (_, _, at, by) in enumerate(case["ds"]):
            if by == "handle" and at == 0:
                make(i)
        return env, d

    seen = []

    def read(where):
        for i, x in enumerate(box["del"]):
            if x is not None:
                seen.append((box["d"].n, i, where, x.value))

    async def writer(d):
        chan = Queue()

        async def sinktask():
            while True:
                v = await chan.get()
                d.q.value = v

        if case["style"] == "queue":
            create_task(sinktask())
        for v in q:
            if case["style"] == "early":
                d.q.value = v
            elif case["style"] == "late":
                await sleep(0)
                await sleep(0)
                d.q.value = v
            elif case["style"] == "queue":
                await chan.put(v)
            else:
                d.q.value = -1
                await sleep(0)
                d.q.value = -2
                await sleep(0)
                d.q.value = v
            if not hooks:
                d.r.value = v * 2 + 1 if isinstance(v, int) else v
            await clk(d)

    async def reader(d):
        for _ in range(n):
            await sleep(0)
            read("mid")
            await sleep(0)
            await sleep(0)
            await sleep(0)
            read("late")
            await clk(d)

    async def creator(i, d):
        for _ in range(case["ds"][i][2]):
            await clk(d)
        make(i)

    async def call(env, v):
        await env.ag.send(v)

    async def test(env, d):
        for i, (_, _, at, by) in enumerate(case["ds"]):
            if by == "task" or by == "handle" and at or by == "hook" and not hooks:
                create_task(creator(i, d))
        wt = create_task(writer(d))
        rd = create_task(reader(d))
        for m in range(n):
            for i, (_, _, at, by) in enumerate(case["ds"]):
                if by in ("test", "reuse") and at == m:
                    if by == "reuse":
                        make(i)  # an earlier delayer of the same signal that nobody keeps
                    make(i)
            read("wake")
            if hooks and m < 8:
                for c in range(case["calls"][m % 2]):
                    create_task(call(env, 10 * m + c))
            await clk(d)
        await wt
        await rd

    out = run(test, handle)
    d = box.get("d")
    need_ok(out, d)
    if CAP.errors():
        raise Violation("an error was logged", errors=CAP.errors())
    for m, i, where, got in seen:
        pin, delay, at, by = case["ds"][i]
        edges = m - box["made"][i]
        # settled[k] holds the values just before edge k+1
        want = settled[m - 1 - delay][pin] if edges >= delay + 1 else None
        expect(got, want, "a delayer does not report the settled value from before the edge 'delay' edges earlier", delayer=i, cycle=m, read=where, created=box["made"][i], settled=[s[pin] for s in settled])
    if not hooks and any(x is None for x in box["del"]):
        raise Violation("harness: a delayer was not created")
    if len(seen) < n:
        raise Violation("harness: too few reads")
    if not hooks:
        for k, v in enumerate(q):
            expect(settled[k]["q"], v, "the value written in a cycle is not on the pin at the end of that cycle", cycle=k)
    rec.execution(d.n, [tuple(sorted(s.items())) for s in settled[:40]], f"{len(case['ds'])}{case['style']}{hooks}")
