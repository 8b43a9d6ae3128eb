"""C09: monitors observe every cycle and deliver each result exactly once, in order."""
import itertools

from toffee import create_task, sleep, start_clock

from .. import fake
from ..core import Violation, expect
from ..envs import B, drain, fits_names, make_agent, make_env, make_models, matches, one_claim_each, port_of, user_agent
from ..util import CAP, clk, need_ok, run

ID = "C09"
BOUNDS = {
    "quick": "all result sequences of length <=4 over {None,0,1,'',(),False} and of length <=3 with a repeated list, a result without comparison and an exception x every single recipient form (24) and the queue; all pairs of recipients in one/two models, with a queue that has room and one that overflows; "
    "queue and port sizes {1,2,4,default,-1} x all consumer histories of length <=5 over 4 operations x start_monitor at cycle 0..2; all duration patterns {0,1,2,3}^<=3; "
    "tests of 0..12, 280, 300 and 1100 cycles, queues and ports of 5..256 places over up to 600 cycles; order against 1-3 driver tasks with all start offsets and call lengths <=3; 6 ways in which users write or create agents",
    "thorough": "result sequences of length <=5, consumer histories of length <=7, duration patterns of length <=5",
}
ASSUMPTIONS = ["the environment is created by the environment handle, as the documentation requires for the scheduling order"]


class Odd:
    """A result that cannot be compared, hashed, measured or tested."""

    def no(self, *_):
        raise RuntimeError("a result must be handed over as it is")

    __eq__ = __ne__ = __bool__ = __len__ = __iter__ = no
    __hash__ = None


VALS = (None, 0, 1, "", (), False, [1], Odd(), KeyError("x"))
NPLAIN = 6
MON = [("ag", "mon"), ("ag", "mon2"), ("ag2", "mon")]


def recips():
    out = []
    for kind in ("mh", "mp"):
        for a, m in (("ag", "mon"), ("ag2", "mon")):
            for form in ("name", "path", "ag", "agm"):
                out.append([kind, form, {"a": a, "m": m}])
    for kind in ("ah", "ap"):
        out += [
            [kind, "name", {"a": "ag"}],
            [kind, "an", {"a": "ag2"}],
            [kind, "lists", {"agents": ["ag", "ag2"]}],
            [kind, "lists", {"methods": ["ag.mon"]}],
            [kind, "lists", {"methods": ["ag.mon2", "ag2.mon"]}],
            [kind, "lists", {"agents": ["ag"], "methods": ["ag.mon", "ag2.mon"]}],
        ]
    return out


def sized(e, size):
    return [e[0], e[1], {**e[2], "size": size}]


def cases(tier):
    th = tier == "thorough"
    rs = recips()
    for n in range(0, 6 if th else 5):
        for w in itertools.product(range(NPLAIN), repeat=n):
            big = n == 4 and not th
            for e in ([rs[0], rs[-1]] if big or n == 5 else rs):
                if e[0] in ("mp", "ap"):
                    e = sized(e, -1)
                yield {"k": "seq", "w": list(w), "models": [[e]], "q": 4}
                if n == 3:
                    yield {"k": "seq", "w": list(w), "models": [[e]], "q": 1}
    # the same object again and again, objects without comparison, exceptions as results
    for e in rs:
        e = sized(e, -1) if e[0] in ("mp", "ap") else e
        for n in (1, 2, 3):
            for w in itertools.product((0, 2, 6, 7, 8), repeat=n):
                if max(w) > 5:
                    yield {"k": "seq", "w": list(w), "models": [[e]], "q": 4}
                    yield {"k": "seq", "w": list(w), "rep": 5, "models": [[e]], "q": 10}
    for e1, e2 in itertools.combinations_with_replacement(rs, 2):
        for split in ([[e1, e2]], [[e1], [e2]]):
            sp = [[sized(e, -1) if e[0] in ("mp", "ap") else e for e in m] for m in split]
            if all(fits_names(m) and one_claim_each_mon(m) for m in sp):
                yield {"k": "seq", "w": [1, 2, 0, 3, 2, 2, 5], "models": sp, "q": 10}
                yield {"k": "seq", "w": [1, 2, 0, 3, 2, 2, 5], "models": sp, "q": 2}
    for style in ("prop", "ref", "super", "super2", "mixin", "step"):
        for e in rs:
            e = sized(e, -1) if e[0] in ("mp", "ap") else e
            for w in ([1, 2, 0, 3], [0, 0, 5], [2]):
                yield {"k": "seq", "w": w, "models": [[e]], "q": 10, "style": style}
    for i, e1 in enumerate(rs):
        for e2 in rs[i + 1 :]:
            if e1[0] == e2[0] in ("mh", "ah") and fits_names([e1, e2]) and one_claim_each_mon([e1, e2]):
                yield {"k": "seq", "w": [1, 2, 0, 3], "models": [[e1, e2]], "q": 10, "share": 1}
    for n in range(13):
        yield {"k": "seq", "w": [2] * n, "models": [], "q": 20}
        yield {"k": "seq", "w": [1, 0] * (n // 2) + [2] * (n % 2), "models": [[["mh", "name", {"a": "ag", "m": "mon"}]]], "q": None}
    # long tests, large queues and ports
    for e in rs:
        e = sized(e, -1) if e[0] in ("mp", "ap") else e
        for w, rep in (([2], 1100), ([1, 2, 0, 3], 70), ([0, 2, 5], 100)):
            for q in (4, 33, 64, 250) if rep < 200 else (None, 1000):
                yield {"k": "seq", "w": w, "rep": rep, "models": [[e]], "q": q}
    for pat in (["-"] * 7 + ["p"], ["-", "-", "t"], ["-", "-", "-", "pp"], ["-"] * 40 + ["p", "t", "pp"]):
        for n in (150, 600):
            for size in (5, 8, 16, 17, 32, 63, 64, 65, 100, 128, 256):
                ops = (pat * n)[:n]
                yield {"k": "queue", "ops": ops, "size": size, "start": 1, "skip": 1}
                for kind in ("mp", "ap"):
                    yield {"k": "port", "ops": [o[:1] for o in ops], "size": size if size != 17 else -1, "kind": kind, "skip": 2}
    for szs in itertools.product((1, 2, None, 6), repeat=3):
        for order in itertools.permutations(range(3)):
            for when in (0, 1):
                yield {"k": "sizes", "sizes": list(szs), "order": list(order), "when": when}
    ops = ("-", "p", "t", "pp")
    for n in range(1, (7 if th else 5) + 1):
        for seq in itertools.product(ops, repeat=n):
            for size in (1, 2, None, 4) if n < 5 else (1, 2):
                for start in (0, 1, 2) if n < 4 else (0, 1):
                    if start <= n:
                        yield {"k": "queue", "ops": list(seq), "size": size, "start": start, "skip": n % 3}
    for kind in ("mp", "ap"):
        for n in range(1, (7 if th else 5) + 1):
            for seq in itertools.product("-pt", repeat=n):
                for size in (1, 2, None, 4, -1):
                    yield {"k": "port", "ops": list(seq), "size": size, "kind": kind, "skip": n % 3}
    for n in range(1, (5 if th else 3) + 1):
        for durs in itertools.product(range(4), repeat=n):
            for ln in (2, 5, 9):
                yield {"k": "dur", "durs": list(durs), "len": ln, "hooks": 1}
    for nt in (1, 2, 3):
        for offs in itertools.product(range(3), repeat=nt):
            for lens in itertools.product((1, 2, 3) if nt < 3 else (1, 2), repeat=nt):
                for mode in ("task", "mf"):
                    yield {"k": "order", "offs": list(offs), "lens": list(lens), "mode": mode}


def one_claim_each_mon(elems):
    for ag, m in MON:
        ks = [e[0] for e in elems if matches(e, ag, m)]
        if any(ks.count(k) > 1 for k in ("mh", "mp")):
            return False
    return True


def run_case(case, rec):
    globals()["run_" + case["k"]](case, rec)


def harness(case, mons, drivers=None, models=(), sinks=None, overrides=None):
    box = {}

    def handle():
        d = box["d"] = fake.DUT(["a", "b"], horizon=60 + len(case.get("ops", ())) + len(case.get("w", ())) * case.get("rep", 1))
        start_clock(d)
        agents = {a: make_agent((drivers or {}).get(a), ms) for a, ms in mons.items()}
        if case.get("style"):
            agents = {a: user_agent(c, case["style"], (drivers or {}).get(a), lambda n, b, a=a: overrides.append((a, n, box["d"].n)), mons[a]) for a, c in agents.items()}
        env = box["env"] = make_env(agents, lambda n: B().bind(d))()
        box["models"] = []

        def sink_of(mi):
            return lambda i, args, kwargs: sinks.setdefault((mi, i), []).append((args, d.n))

        for m in make_models(models, sink_of, share=case.get("share", 0)):
            env.attach(m)
            box["models"].append(m)
        return env, d

    return box, handle


def check_recipients(case, models, box, sinks, delivered):
    """delivered: list of (agent, method, value, cycle)."""
    for mi, elems in enumerate(models):
        for i, e in enumerate(elems):
            rel = [x for x in delivered if matches(e, x[0], x[1])]
            agentwide = e[0] in ("ah", "ap")
            want = [(f"{a}.{m}", v) if agentwide else v for a, m, v, c in rel]
            if e[0] in ("mh", "ah"):
                got = sinks.pop((mi, i), [])
                expect([c for _, c in got], [x[3] for x in rel], f"hook {e} must be called in the cycle of the result")
                got = [a if agentwide else (a[0] if len(a) == 1 else a) for a, _ in got]
            else:
                got = drain(port_of(box["models"][mi], e, i))
                got = [tuple(x) for x in got] if agentwide else got
            if agentwide and e[0] in ("ah", "ap"):
                # several monitors deliver in one cycle: compare per method
                for a, m in MON:
                    p = f"{a}.{m}"
                    same([x for x in got if x[0] == p], [x for x in want if x[0] == p], e)
                expect(len(got), len(want), f"recipient {e}: number of results")
            else:
                same(got, want, e)
    if sinks:
        raise Violation("a hook was called that does not match", got=sinks)


def alike(g, w):
    if type(g) is type(w) is tuple:
        return len(g) == len(w) and all(map(alike, g, w))
    return g is w or (type(g) is type(w) and type(g) is not Odd and g == w)


def same(got, want, e):
    if len(got) != len(want) or not all(map(alike, got, want)):
        raise Violation(f"recipient {e} must receive every result exactly once, in order", got=got, want=want)


def run_seq(case, rec):
    w = case["w"] * case.get("rep", 1)
    calls = []

    def mk(a, m, shift):
        async def mon(self):
            n = box["d"].n
            calls.append((a, m, n))
            return VALS[w[(n - 1 + shift) % len(w)]] if w else 1

        return mon

    mons = {"ag": {"mon": mk("ag", "mon", 0), "mon2": mk("ag", "mon2", 1)}, "ag2": {"mon": mk("ag2", "mon", 2)}}
    sinks = {}
    overrides = []
    box, handle = harness(case, mons, None, case["models"], sinks, overrides)
    q = case["q"]

    async def test(env, d):
        if q:
            env.ag.start_monitor("mon", q)
        await clk(d, len(w))
        got = []
        if q:
            while env.ag.monitor_size("mon"):
                got.append(await env.ag.mon())
        return got

    got = need_ok(run(test, handle), box["d"])
    edges = list(range(1, len(w) + 1))
    for a, m in MON:
        expect([c[2] for c in calls if c[:2] == (a, m)], edges, f"monitor {a}.{m} must be called at every edge up to the one that ends the test")
    n = {"super": 1, "super2": 2}.get(case.get("style"), 0)
    expect(sorted(overrides), sorted(calls * n), "a method that overrides a monitor method must run exactly once per call")
    shifts = {MON[0]: 0, MON[1]: 1, MON[2]: 2}
    delivered = []
    for n in edges:
        for a, m in MON:
            v = VALS[w[(n - 1 + shifts[(a, m)]) % len(w)]]
            if v is not None:
                delivered.append((a, m, v, n))
    if q:
        same(got, [x[2] for x in delivered if x[:2] == MON[0]][:q], "monitor queue")
    check_recipients(case, case["models"], box, sinks, delivered)
    ndrop = max(0, len([x for x in delivered if x[:2] == MON[0]]) - q) if q else 0
    expect(len(CAP.errors()), ndrop, "errors logged must match the dropped items", got_log=CAP.errors()[:3])
    rec.execution(3 * len(w) + len(delivered), [("seq", tuple(w[: i + 1])) for i in range(min(len(w), 12))], ("seq", len(delivered), len(case["models"])))


def run_queue(case, rec):
    run_bounded(case, rec, queue=True)


def run_port(case, rec):
    run_bounded(case, rec, queue=False)


def run_bounded(case, rec, queue):
    """One producer per cycle, a bounded queue or port, consumers that pop at once ('p'), twice ('pp') or as a waiting task ('t')."""
    ops = case["ops"]
    size = case["size"]
    limit = 4 if size is None else (10**6 if size == -1 else size)
    skip = case["skip"]  # cycles with n % 4 == skip yield nothing
    taken, sizes, waiting = [], [], []

    async def mon(self):
        n = box["d"].n
        return None if n % 4 == skip else n

    models = []
    if not queue:
        o = {"a": "ag", "m": "mon"}
        if size is not None:
            o["size"] = size
        e = [case["kind"], "name", o]
        models = [[e]]
    box, handle = harness(case, {"ag": {"mon": mon}}, None, models, {})

    async def test(env, d):
        started = False

        async def get():
            if queue:
                return await env.ag.mon()
            p = port_of(box["models"][0], e, 0)
            v = await p()
            return v[1] if case["kind"] == "ap" else v

        def sz():
            return env.ag.monitor_size("mon") if queue else port_of(box["models"][0], e, 0).qsize()

        async def waiter(k):
            taken.append(("w", k, await get(), d.n))

        if queue and case["start"] == 0:
            (env.ag.start_monitor("mon") if size is None else env.ag.start_monitor("mon", size))
            started = True
        k = 0
        for i, op in enumerate(ops):
            await clk(d)
            sizes.append((d.n, sz()))
            if queue and not started:
                if case["start"] == i + 1:
                    (env.ag.start_monitor("mon") if size is None else env.ag.start_monitor("mon", size))
                    started = True
                continue
            if op == "t":
                waiting.append(create_task(waiter(k)))
                k += 1
            else:
                for _ in op.replace("-", ""):
                    if sz() and not any(not t.done() for t in waiting):
                        taken.append(("p", None, await get(), d.n))
        await clk(d)
        sizes.append((d.n, sz()))
        for _ in range(4):
            await sleep(0)
        rest = []
        if not queue or started:
            while sz():
                rest.append(await get())
        return rest

    rest = need_ok(run(test, handle), box["d"])
    # reference
    q, wait, r_taken, r_sizes, drops = [], 0, [], [], 0
    started = not queue or case["start"] == 0
    k = 0
    wq = []
    for n in range(1, len(ops) + 2):
        v = None if n % 4 == skip else n
        if v is not None and started:
            if len(q) >= limit:
                drops += 1
            else:
                q.append(v)
        # the size is read after the monitor ran, before waiting consumers woken by it took the item
        r_sizes.append((n, len(q)))
        while wq and q:
            r_taken.append(("w", wq.pop(0), q.pop(0), n))
        if n > len(ops):
            break
        op = ops[n - 1]
        if queue and not started:
            if case["start"] == n:
                started = True
            continue
        if op == "t":
            wq.append(k)
            k += 1
            if q:
                r_taken.append(("w", wq.pop(0), q.pop(0), n))
        else:
            for _ in op.replace("-", ""):
                if q and not wq:
                    r_taken.append(("p", None, q.pop(0), n))
    expect(sorted(taken, key=lambda x: x[2]), sorted(r_taken, key=lambda x: x[2]), "every result is taken exactly once, in order")
    expect([x[2] for x in taken if x[0] == "w"], [x[2] for x in r_taken if x[0] == "w"], "waiting consumers are served in order")
    expect(rest, q, "the remaining results are still waiting, in order")
    expect([s for n, s in sizes], [s for n, s in r_sizes], "the size must report the number of results waiting")
    expect(len(CAP.errors()), drops, "one error per dropped result", got_log=CAP.errors()[:3])
    rec.execution(2 * len(ops) + 2, [(case["k"], size, tuple(ops[: i + 1]), tuple(r_sizes[: i + 1])) for i in range(min(len(ops), 12))], ("q", len(taken), drops, len(rest)))


def run_dur(case, rec):
    """A monitor whose calls span several cycles is called again at the edge after it finished."""
    durs, calls, fins = case["durs"], [], []

    async def mon(self):
        n = box["d"].n
        k = len(calls)
        calls.append(n)
        await clk(box["d"], durs[k % len(durs)])
        fins.append(box["d"].n)
        return k

    models = [[["mh", "name", {"a": "ag", "m": "mon"}], ["mp", "path", {"a": "ag", "m": "mon", "size": -1}]]]
    sinks = {}
    box, handle = harness(case, {"ag": {"mon": mon}}, None, models, sinks)

    async def test(env, d):
        env.ag.start_monitor("mon", 50)
        await clk(d, case["len"])
        return [await env.ag.mon() for _ in range(env.ag.monitor_size("mon"))]

    got = need_ok(run(test, handle), box["d"])
    t, k, wc, wf = 1, 0, [], []
    while t <= case["len"]:
        wc.append(t)
        f = t + durs[k % len(durs)]
        if f <= case["len"]:
            wf.append(f)
        t, k = f + 1, k + 1
    expect(calls, wc, "the monitor must be called at the edge after its previous call finished")
    expect(fins, wf, "calls must finish")
    expect(got, list(range(len(wf))), "results must be queued in order")
    check_recipients(case, models, box, sinks, [("ag", "mon", i, c) for i, c in enumerate(wf)])
    rec.execution(len(calls) + case["len"], [("dur", tuple(wc), tuple(wf))], ("dur", len(wc)))


def run_order(case, rec):
    """Monitors of two agents act before any driver method acts in the same cycle."""
    acts = []  # (cycle, what)

    def mon(a):
        async def f(self):
            acts.append((box["d"].n, "mon", a))
            return box["d"].n

        return f

    async def body(self, name, bound):
        acts.append((box["d"].n, "drv", bound["x"]))
        for _ in range(bound["n"]):
            await self.bundle.step()
            acts.append((box["d"].n, "drv", bound["x"]))

    models = [[["ah", "lists", {"agents": ["ag", "ag2"]}]]] if case["mode"] == "mf" else []
    sinks = {}
    box, handle = harness(
        case,
        {"ag": {"mon": mon("ag"), "mon2": mon("ag'")}, "ag2": {"mon": mon("ag2")}},
        {"ag": {"d": ("x, n", body)}, "ag2": {"d": ("x, n", body)}},
        models,
        sinks,
    )

    async def test(env, d):
        async def thread(x, off, ln):
            if off:
                await clk(d, off)
            for _ in range(3):
                await (env.ag, env.ag2)[x % 2].d(x, ln)

        ts = [create_task(thread(i, o, ln)) for i, (o, ln) in enumerate(zip(case["offs"], case["lens"]))]
        for t in ts:
            await t
        await clk(d)
        return d.n

    last = need_ok(run(test, handle), box["d"])
    seen = {}
    for n, what, who in acts:
        s = seen.setdefault(n, [])
        if what == "mon" and any(x[0] == "drv" for x in s):
            raise Violation(f"in cycle {n} a driver method acted before monitor {who}", acts=acts)
        s.append((what, who))
    for n in range(1, last + 1):
        expect(sorted(w for k, w in seen.get(n, ()) if k == "mon"), ["ag", "ag'", "ag2"], f"every monitor must be called exactly once in cycle {n}")
    rec.execution(len(acts), [("order", n, tuple(s)) for n, s in seen.items()], ("order", len(acts)))


def run_sizes(case, rec):
    """Queues of several monitors (of one class and of two) keep their own sizes."""
    def mk(a, m):
        async def mon(self):
            return (a, m, box["d"].n)

        return mon

    box, handle = harness(case, {"ag": {"mon": mk("ag", "mon"), "mon2": mk("ag", "mon2")}, "ag2": {"mon": mk("ag2", "mon")}})

    async def test(env, d):
        for k, i in enumerate(case["order"]):
            a, m = MON[i]
            args = () if case["sizes"][i] is None else (case["sizes"][i],)
            getattr(env, a).start_monitor(m, *args)
            if case["when"] and k < 2:
                await clk(d)
        await clk(d, 7)
        out = []
        for a, m in MON:
            got = []
            while getattr(env, a).monitor_size(m):
                got.append(await getattr(getattr(env, a), m)())
            out.append(got)
        return out

    out = need_ok(run(test, handle), box["d"])
    total = 0
    for (a, m), got, size, k in zip(MON, out, case["sizes"], [case["order"].index(i) for i in range(3)]):
        first = 1 + (k if case["when"] else 0)
        last = 7 + (2 if case["when"] else 0)
        want = [(a, m, n) for n in range(first, last + 1)][: 4 if size is None else size]
        total += len(want)
        expect(got, want, f"results waiting for {a}.{m} (queue size {size})")
    rec.execution(total, [("sizes", tuple(case["sizes"]), case["when"])], ("sizes", total))
