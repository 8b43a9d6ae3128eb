"""C21: queues, events and gather never lose, duplicate or reorder."""
import asyncio
import itertools

from toffee import AgentPort, DriverPort, Event, MonitorPort, Queue, create_task, gather, sleep, start_clock

from .. import fake
from ..core import Violation, expect
from ..loop import explore_schedules
from ..util import CAP, clk, need_ok, run, words

ID = "C21"
BOUNDS = {
    "quick": "queues and ports: 1 producer x 1 consumer with all programs of length <=4 over put/yield/clock and get/yield/clock; 2 producers x 2 consumers of length <=2 with <=1 schedule deviation; consumers that poll or are cancelled while waiting; "
    "12 producers/consumers; up to 1100 items and cycles, 300 sets of an event, 300 gathered coroutines; all put/get words of one task of length 6-10 that never block; events: all controller programs of length <=5 over set/clear/yield/clock x 2-3 waiters with all start offsets of <=2 steps and 1-2 waits, <=1 deviation; "
    "gather: all sets of 0-3 coroutines with programs of length <=3 over yield/clock, nested gathers, 12-40 coroutines, falsy results",
    "thorough": "programs one longer, <=2 deviations",
}
NOTE = "Exhaustive within the stated bounds on the real primitives under a controlled event loop; the order of puts, takes, sets and waits is taken from the executed schedule itself."
QKINDS = ("queue", "dport", "mport", "aport", "bport")


def cases(tier):
    th = tier == "thorough"
    k = 5 if th else 4
    ps = [w for w in words("pyc", k, 1) if "p" in w]
    cs = [w for w in words("gyc", k, 1) if "g" in w]
    for p in ps:
        for c in cs:
            if len(p) + len(c) > k + 3:
                continue
            yield {"k": "q", "q": QKINDS[(len(p) + 2 * len(c)) % 5], "P": ["".join(p)], "C": ["".join(c)], "first": (len(p) + p.count("p")) % 2, "dev": 0}
    p2 = ["".join(w) for w in words("pyc", 2, 1) if "p" in w]
    c2 = ["".join(w) for w in words("gyc", 2, 1) if "g" in w]
    for ps in itertools.product(p2, repeat=2):
        for cs in itertools.combinations_with_replacement(c2, 2):
            for q in QKINDS[: 5 if th else 2]:
                yield {"k": "q", "q": q, "P": list(ps), "C": list(cs), "first": 0, "dev": 2 if th else 1}
    c3 = ["".join(w) for w in words("gtxyc", 3, 1) if set(w) & set("tx")]
    for ps in (["ppp"], ["pypyp"], ["pcpcp"], ["yp", "cpp"], ["p", "cp", "ccp"], ["nyn", "p"]):
        for c in c3:
            for other in ("g", "ggg", "cg"):
                yield {"k": "q", "q": QKINDS[len(c) % 5], "P": ps, "C": [c, other], "first": 1, "dev": 1 if len(c) < 3 or th else 0}
    for n in range(6, 11 + th):
        # one task that puts and takes, never taking from an empty queue
        for w in itertools.product("pg", repeat=n):
            if all(w[: i + 1].count("g") <= w[: i + 1].count("p") for i in range(n)):
                yield {"k": "q", "q": QKINDS[(n + w.count("p")) % 5], "P": ["".join(w)], "C": ["cccccg"], "first": 0, "dev": 0}
    for n in (5, 12, 30):
        for q in QKINDS:
            yield {"k": "q", "q": q, "P": ["p"] * n, "C": ["g"] * n, "first": 1, "dev": 0}
            yield {"k": "q", "q": q, "P": ["ppp"] * (n // 3), "C": ["ggygg"] * (n // 4), "first": 0, "dev": 0}
    for q in ("queue", "dport", "aport"):
        for n in (65, 130, 300, 1100):
            for P, C in (("p", "g"), ("pc", "g"), ("p", "gc"), ("pppc", "g"), ("ppy", "gggc"), ("pyc", "yg")):
                yield {"k": "q", "q": q, "P": [P * (n // P.count("p"))], "C": [C * (n // C.count("g"))], "first": n % 2, "dev": 0, "wait": n + 5}
            yield {"k": "q", "q": q, "P": ["pyp" * (n // 8)] * 4, "C": ["gyg" * (n // 12)] * 5, "first": 0, "dev": 0}
    for n in (65, 130, 300):
        for ctl, w in (("skc", "wc"), ("cskc", "w"), ("sckc", "wc"), ("cs", "w")):
            yield {"k": "ev", "ctl": ctl * n, "W": [w * n, "w", "c" * n + "w"], "first": n % 2, "dev": 0, "wait": 2 * n + 8}
        yield {"k": "ev", "ctl": "csk" + "c" * n + "s", "W": ["w"] * n + ["cc" + "w"] * 9, "first": 0, "dev": 0, "wait": n + 8}
        yield {"k": "ga", "G": ["c" * (i % 7) for i in range(n)], "in": "test", "at": 2}
        yield {"k": "ga", "G": ["c" * n, "c", "", "c" * (n // 2)], "in": "task", "at": n}
        yield {"k": "ga", "G": [["y" * n, "c"], "c" * (n // 3)], "in": "test", "at": 0}
    for ctl in words("skyc", 6 if th else 5, 1):
        if "s" not in ctl:
            continue
        for ws in (["w"], ["ww"], ["yw", "cw"], ["wcw", "w"], ["w", "w", "yyw"]):
            if len(ctl) >= 5 and len(ws) > 1 and not th:
                continue
            for first in (0, 1):
                yield {"k": "ev", "ctl": "".join(ctl), "W": ws, "first": first, "dev": 1 if len(ctl) <= 3 and len(ws) == 2 else 0}
    for ctl in ("cs", "csk", "cyskys", "cskcs", "cks", "cssk"):
        for ws in itertools.combinations_with_replacement([a + b for a in ("", "y", "c", "yy", "yc", "cc", "cy") for b in ("w", "ww", "wyw", "wcw")], 2):
            yield {"k": "ev", "ctl": ctl, "W": list(ws), "first": 0, "dev": 1}
    for n in (12, 40):
        yield {"k": "ev", "ctl": "cskcs", "W": ["w"] * n, "first": 1, "dev": 0}
    gs = ["".join(w) for w in words("yc", 3)]
    for n in range(0, 4):
        for g in itertools.product(gs, repeat=n):
            yield {"k": "ga", "G": list(g), "in": "test", "at": 1}
            if n == 2:
                yield {"k": "ga", "G": list(g), "in": "task", "at": 0}
                yield {"k": "ga", "G": [list(g), "c", [g[1], g[0], [g[0]]]], "in": "test", "at": 1}
    for n in (12, 40):
        yield {"k": "ga", "G": ["c" * (i % 5) for i in range(n)], "in": "test", "at": 2}
        yield {"k": "ga", "G": ["c" * ((n - i) % 7) + "y" for i in range(n)], "in": "task", "at": 1}
    for g in itertools.product(["", "y", "c", "q", "e"], repeat=3):
        yield {"k": "ga", "G": list(g), "in": "task", "at": 1, "with": 1}


def make_queue(kind):
    return {
        "queue": lambda: Queue(),
        "dport": lambda: DriverPort("a.b", maxsize=-1),
        "mport": lambda: MonitorPort("a.b", maxsize=200),
        "aport": lambda: AgentPort("a", maxsize=-1),
        "bport": lambda: DriverPort("a.b", maxsize=60),
    }[kind]()


FALSY = (0, None, "", False, (), [], 0.0)


def run_queue(case, rec):
    def once(schedule):
        puts, takes = [], []
        waiting = set()
        done = []
        box = {}
        num = itertools.count()

        async def prog(d, q, name, word):
            for tok in word:
                if tok == "p":
                    n = next(num)
                    item = (n,) if n % 3 else FALSY[n // 3 % len(FALSY)]
                    puts.append((item, d.n))
                    await q.put(item)
                elif tok == "n":
                    n = next(num)
                    puts.append(((n,), d.n))
                    q.put_nowait((n,))
                elif tok == "g":
                    waiting.add(name)
                    item = await q.get()
                    waiting.discard(name)
                    takes.append((item, d.n))
                elif tok == "t":
                    try:
                        takes.append((q.get_nowait(), d.n))
                    except asyncio.QueueEmpty:
                        pass
                elif tok == "x":

                    async def taker():
                        item = await q.get()
                        takes.append((item, d.n))

                    t = create_task(taker())
                    await sleep(0)
                    t.cancel()
                    await sleep(0)
                elif tok == "y":
                    await sleep(0)
                else:
                    await clk(d)
            done.append(name)

        async def test():
            d = box["d"] = fake.DUT(horizon=30 + case.get("wait", 0))
            q = box["q"] = make_queue(case["q"])
            start_clock(d)

            def edge(n):
                if not q.empty() and waiting:
                    raise Violation("a clock edge passes while an item is in the queue and a task waits for one", cycle=n, waiting=len(waiting))

            d.before_step(edge)
            await clk(d)
            P = [(f"P{i}", w) for i, w in enumerate(case["P"])]
            C = [(f"C{i}", w) for i, w in enumerate(case["C"])]
            for name, w in C + P if case["first"] else P + C:
                create_task(prog(d, q, name, w)).set_name("h" + name)
            for _ in range(case.get("wait", 7)):
                await clk(d)
            for name, _ in P:
                if name not in done:
                    raise Violation("a producer never finished", producer=name)
            left = []
            expect(q.qsize(), len(puts) - len(takes), "qsize")
            while not q.empty():
                left.append((q.get_nowait(), None))
            takes.extend(left)

        out = run(test, None, schedule, lambda t: t.get_name().startswith("h"))
        need_ok(out, box["d"])
        expect([repr(x) for x, _ in takes], [repr(x) for x, _ in puts], "the items taken are not the items put, once each and in put order")
        if CAP.errors():
            raise Violation("an error was logged although the queue has room", errors=CAP.errors())
        rec.execution(len(puts) + len(takes), [(tuple(map(repr, puts)), tuple(map(repr, takes)))], f"{len(puts)}/{len(takes)}")

    every(once, case)


def every(once, case):
    if case["dev"]:
        for _ in explore_schedules(once, case["dev"]):
            pass
    else:
        once(None)


def run_event(case, rec):
    def once(schedule):
        log = []
        box = {}

        async def ctl(d, ev):
            for tok in case["ctl"]:
                if tok == "s":
                    log.append(("s", None, d.n))
                    ev.set()
                elif tok == "k":
                    log.append(("k", None, d.n))
                    ev.clear()
                elif tok == "y":
                    await sleep(0)
                else:
                    await clk(d)

        async def waiter(d, ev, i, w):
            for tok in w:
                if tok == "w":
                    log.append(("w", i, d.n))
                    await ev.wait()
                    log.append(("r", i, d.n))
                elif tok == "y":
                    await sleep(0)
                else:
                    await clk(d)

        async def test():
            d = box["d"] = fake.DUT(horizon=30 + case.get("wait", 0))
            ev = Event()
            start_clock(d)
            await clk(d)
            if case["first"]:
                create_task(ctl(d, ev)).set_name("hc")
            for i, w in enumerate(case["W"]):
                create_task(waiter(d, ev, i, w)).set_name(f"h{i}")
            if not case["first"]:
                create_task(ctl(d, ev)).set_name("hc")
            for _ in range(case.get("wait", 7)):
                await clk(d)
            expect(ev.is_set(), flag_of(log), "is_set")

        out = run(test, None, schedule, lambda t: t.get_name().startswith("h"))
        need_ok(out, box["d"])
        flag = False
        pending = {}
        due = {}
        for e, i, n in log:
            if e == "s":
                flag = True
                for j in list(pending):
                    due[j] = n
                    del pending[j]
            elif e == "k":
                flag = False
            elif e == "w":
                if flag:
                    due[i] = n
                else:
                    pending[i] = n
            else:
                if i not in due:
                    raise Violation("a waiter was released although the event was never set since", waiter=i, log=log)
                expect(n, due.pop(i), "a waiter was not released in the cycle the event was set in", waiter=i, log=log)
        if due:
            raise Violation("a waiter was never released", waiters=sorted(due), log=log)
        rec.execution(len(log), [tuple(log)], str(len(log)))

    every(once, case)


def flag_of(log):
    f = False
    for e, _, _ in log:
        f = True if e == "s" else False if e == "k" else f
    return f


def run_gather(case, rec):
    box = {}
    log = []
    ids = itertools.count()

    async def leaf(d, i, w):
        log.append(("start", i, d.n))
        for tok in w:
            if tok == "y":
                await sleep(0)
            elif tok == "c":
                await clk(d)
            elif tok == "q":
                await box["q"].get()
            elif tok == "e":
                await box["e"].wait()
        log.append(("end", i, d.n))
        return (FALSY + (1, "x"))[i % 9] if i % 2 else ("res", i)

    def build(d, g):
        if isinstance(g, str):
            i = next(ids)
            return leaf(d, i, g), [(i, g)], ((FALSY + (1, "x"))[i % 9] if i % 2 else ("res", i))
        parts = [build(d, x) for x in g]

        async def inner():
            return await gather(*[p[0] for p in parts])

        return inner(), [x for p in parts for x in p[1]], [p[2] for p in parts]

    res = {}

    async def body(d):
        parts = [build(d, g) for g in case["G"]]
        res["leaves"] = [x for p in parts for x in p[1]]
        res["want"] = [p[2] for p in parts]
        res["start"] = d.n
        res["got"] = await gather(*[p[0] for p in parts])
        res["end"] = d.n

    async def helper(d):
        await clk(d, 2)
        box["e"].set()
        for i in range(10):
            await box["q"].put(i)

    async def test():
        d = box["d"] = fake.DUT(horizon=30 + 2 * case["at"] + 2 * len(str(case["G"][:4])))
        box["q"], box["e"] = Queue(), Event()
        start_clock(d)
        if case.get("with"):
            create_task(helper(d))
        await clk(d, case["at"])
        if case["in"] == "task":
            await create_task(body(d))
        else:
            await body(d)

    need_ok(run(test), box.get("d"))
    expect(repr(list(res["got"])), repr(res["want"]), "gather must return the results in argument order")
    want = []
    for i, w in res["leaves"]:
        n = w.count("c")
        end = res["start"] + n
        if case.get("with") and set(w) & {"q", "e"}:
            end = max(end, 2)
        want.append((i, res["start"], end))
    got = sorted((i, n) for e, i, n in log if e == "start")
    expect(got, sorted((i, s) for i, s, _ in want), "gather must start all coroutines in the current cycle, once each")
    expect(sorted((i, n) for e, i, n in log if e == "end"), sorted((i, x) for i, _, x in want), "gathered coroutines must run concurrently")
    expect(res["end"], max([res["start"]] + [x for _, _, x in want]), "gather must return in the cycle in which the last coroutine finished")
    rec.execution(len(log), [tuple(log)], str(len(log)))


def run_case(case, rec):
    {"q": run_queue, "ev": run_event, "ga": run_gather}[case["k"]](case, rec)
