"""C08: Executor runs groups in parallel, members in order, and reports all results."""
import itertools
import zlib

from toffee import Executor, create_task, start_clock

from .. import fake
from ..core import Violation, expect
from ..envs import B, make_agent, make_env, make_model
from ..util import CAP, clk, need_ok, run

ID = "C08"
BOUNDS = {
    "quick": "all programs of <=3 calls over 5 targets (drivers of 2 agents, 2 functions) x group {default,x,y} x duration {0,1,2} (default/x for 3 calls over 3 targets) x exit {all,any,none}, groups named by numbers and tuples, "
    "all programs of 4 calls over 2 targets x 2 groups x 2 durations; up to 40 groups / 40 members; submissions spread over cycles; functions with a parameter named agent (two calls, 5 kinds), calls with 3 kinds of priority/order overrides, calls the Executor refuses at every position of <=3 calls; all positions of a call raising one of 2 exceptions; two blocks one after the other / nested / concurrent",
    "thorough": "3 calls over 4 targets x 3 groups x 3 durations, 5 calls over 2x2x2",
}
# names that occur in each other on purpose
TARGETS = ("ag.d_ag", "g.d_ag", "f", "ag.ag", "d_ag")
# functions that have a parameter with the name drivers use for their agent: (what is passed, default group)
AGENTARG = ("poke", "poke2", "poke3", "@d_ag", "@poke")
GROUP = {"@d_ag": "d_ag", "@poke": "poke"}
# calls the Executor refuses
REFUSED = ("!prio", "!fprio", "!forder", "!nprio")
EXITS = ("all", "any", "none")


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    """What test frameworks end a test with (pytest.fail, pytest.skip)."""


BOOM = Boom("a value")


def cases(tier):
    th = tier == "thorough"
    full = list(itertools.product(TARGETS, (None, "x", "y"), (0, 1, 2)))
    for n in (0, 1, 2):
        for cs in itertools.product(full, repeat=n):
            for ex in EXITS:
                if n or ex != "any":
                    for hooks in (0, 1) if n < 2 else (0,):
                        yield {"k": "run", "calls": list(map(list, cs)), "exit": ex, "gap": 0, "hooks": hooks}
    red = list(itertools.product(TARGETS[:3], (None, "x"), (0, 1, 2)))
    if th:
        red = list(itertools.product(TARGETS[:4], (None, "x", "y"), (0, 1, 2)))
    for cs in itertools.product(red, repeat=3):
        for ex in EXITS:
            yield {"k": "run", "calls": list(map(list, cs)), "exit": ex, "gap": 0, "hooks": 0}
    for n in (4, 5) if th else (4,):
        for cs in itertools.product(list(itertools.product(("ag.d_ag", "f"), (None, "x"), (0, 1))), repeat=n):
            for ex in EXITS:
                yield {"k": "run", "calls": list(map(list, cs)), "exit": ex, "gap": 1 if n == 4 else 0, "hooks": n % 2}
    for n in (2, 3):
        for cs in itertools.product(list(itertools.product(("ag.d_ag", "f"), (None, 0, 1, (2, "y")), (0, 1))), repeat=n):
            for ex in EXITS if n < 3 else ("all",):
                yield {"k": "run", "calls": list(map(list, cs)), "exit": ex, "gap": 0, "hooks": 0}
    # overrides for single calls change neither the order within a group nor the results
    over = (None, [0, None], [99, "dut_first"], [None, "model_first"])
    for n, ts, exits in ((2, ("ag.d_ag", "g.d_ag"), EXITS), (3, ("ag.d_ag",), ("all",))):
        for cs in itertools.product(list(itertools.product(ts, (None, "x"), (0, 1), over)), repeat=n):
            for ex in exits:
                yield {"k": "run", "calls": list(map(list, cs)), "exit": ex, "gap": 0, "hooks": n % 2}
    other = list(itertools.product((*AGENTARG, "d_ag", "ag.d_ag"), (None, "d_ag"), (0, 2)))
    for n in (1, 2):
        for cs in itertools.product(other, repeat=n):
            for ex in EXITS:
                yield {"k": "run", "calls": list(map(list, cs)), "exit": ex, "gap": 0, "hooks": 0}
    acc = [("ag.d_ag", None, 1), ("f", None, 2), ("f", "x", 0), ("g.d_ag", "x", 2)]
    ref = list(itertools.product(REFUSED, (None, "x", "new"), (1,)))
    for n in (1, 2, 3):
        for cs in itertools.product(acc + ref, repeat=n):
            bad = sum(c[0][0] == "!" for c in cs)
            if bad and (n < 3 or bad == 1 or th):
                for ex in EXITS:
                    yield {"k": "run", "calls": list(map(list, cs)), "exit": ex, "gap": 0, "hooks": 0}
    for n in (5, 11, 12, 23, 40):
        for ex in EXITS:
            for d in (0, 1):
                yield {"k": "run", "calls": [["f", f"g{i}", (i * d) % 3] for i in range(n)], "exit": ex, "gap": 0, "hooks": 0}
                yield {"k": "run", "calls": [["ag.d_ag", f"g{i % 11}", ((n - i) * d) % 3] for i in range(n)], "exit": ex, "gap": 0, "hooks": 1}
                yield {"k": "run", "calls": [[TARGETS[i % 5], None, d * (i % 2)] for i in range(n)], "exit": ex, "gap": 0, "hooks": 0}
    for n in (1, 2, 3):
        for cs in itertools.product([("f", None, 0), ("f", "x", 1), ("ag.d_ag", None, 2), ("ag.d_ag", "x", 0)], repeat=n):
            for bad in range(n):
                for ex in EXITS:
                    for bx in (0, 1):
                        yield {"k": "bad", "calls": list(map(list, cs)), "exit": ex, "bad": bad, "bx": bx}
    small = [[list(c) for c in cs] for n in (1, 2) for cs in itertools.product([("ag.d_ag", None, 1), ("f", None, 0), ("f", "x", 2)], repeat=n)]
    for p1, p2 in itertools.product(small, repeat=2):
        for e1, e2 in itertools.product(EXITS, repeat=2):
            for shape in ("seq", "conc"):
                yield {"k": "two", "p": [p1, p2], "e": [e1, e2], "shape": shape}


def run_case(case, rec):
    {"run": run_run, "bad": run_bad, "two": run_two}[case["k"]](case, rec)


class W:
    def __init__(self, case):
        self.starts, self.ends, self.order = {}, {}, []
        self.offset = zlib.crc32(repr(case).encode())
        self.active = {}
        self.bad = None

    def value(self, i):
        if self.offset % 4 == 0:  # all calls return the same
            i = self.offset // 4
        return (None, True, 0, [i], "", ("r", i), {i: i}, False, [], 1, "x", BOOM, Boom, [[i]])[(i + self.offset) % 14]


def setup(w, hooks=0, boom=None, boom_type=Boom):
    async def work(i, dur):
        d = w.d
        if i in w.starts:
            w.bad = f"call {i} was executed twice"
        w.starts[i] = d.n
        w.order.append(i)
        g = w.group.get(i)
        if w.active.get(g) is not None:
            w.bad = f"call {i} runs while call {w.active[g]} of the same group is still running"
        w.active[g] = i
        await clk(d, dur)
        w.active[g] = None
        w.ends[i] = d.n
        if boom == i:
            raise boom_type(i)
        return w.value(i)

    async def body(self, name, bound):
        return await work(bound["i"], bound["dur"])

    async def f(i, dur):
        return await work(i, dur)

    async def d_ag(i, dur):
        return await work(i, dur)

    async def poke(i, dur, agent="name"):
        return await work(i, dur)

    async def poke2(agent, i, dur):
        return await work(i, dur)

    async def poke3(agent, i, dur, func=None):
        return await work(i, dur)

    async def like_driver(agent, i, dur):
        return await work(i, dur)

    like_driver.__name__ = like_driver.__qualname__ = "d_ag"
    w.group = {}

    def handle():
        d = w.d = fake.DUT(["a", "b"], horizon=120)
        start_clock(d)
        env = make_env({"ag": make_agent({"d_ag": ("i, dur", body), "ag": ("i, dur", body)}), "g": make_agent({"d_ag": ("i, dur", body)})}, lambda n: B().bind(d))()
        if hooks:
            env.attach(make_model([["ah", "lists", {"agents": ["ag", "g"]}]], lambda *a: None)())
        w.fn = {
            "poke": lambda i, dur: poke(i, dur),
            "poke2": lambda i, dur: poke2(env.ag, i, dur),
            "poke3": lambda i, dur: poke3([env.ag], i, dur=dur),
            "@d_ag": lambda i, dur: like_driver(env.ag, i, dur),
            "@poke": lambda i, dur: poke(i, dur, agent=env.g),
        }
        w.fn |= {"f": f, "d_ag": d_ag, "ag.d_ag": env.ag.d_ag, "ag.ag": env.ag.ag, "g.d_ag": env.g.d_ag}
        return env, d

    return handle


def submit(w, ex, calls, base, tag):
    groups = {}
    for j, (t, g, dur, *over) in enumerate(calls):
        i = base + j
        if t[0] == "!":
            refuse(w, ex, t, g, i, dur)
            continue
        name = g if g is not None else GROUP.get(t, t)
        w.group[i] = (tag, name)
        groups.setdefault(name, []).append(i)
        coro = w.fn[t](i, dur)
        kw = {} if g is None else {"sche_group": g}
        if over and over[0]:
            kw |= dict(zip(("priority", "sche_order"), over[0]))
        ex(coro, **kw)
    return groups


def refuse(w, ex, t, g, i, dur):
    coro = (w.fn["ag.d_ag"] if t in ("!prio", "!nprio") else w.fn["f"])(i, dur)
    kw = {"!prio": {"priority": 100}, "!nprio": {"priority": -1}, "!fprio": {"priority": 3}, "!forder": {"sche_order": "model_first"}}[t]
    if g is not None:
        kw["sche_group"] = g
    try:
        ex(coro, **kw)
    except AssertionError:
        coro.close()
    else:
        raise Violation(f"the Executor must refuse the call {t}")


def predict(w, groups, dur, t0):
    st, en, gend = {}, {}, {}
    for g, ids in groups.items():
        t = t0
        for i in ids:
            st[i] = t
            t += dur[i]
            en[i] = t
        gend[g] = t
    return st, en, gend


def results_of(w, groups):
    return {g: repr(w.value(ids[0]) if len(ids) == 1 else [w.value(i) for i in ids]) for g, ids in groups.items()}


async def block(w, calls, exit_, base, tag, d, gap=0):
    """Returns (executor, groups, t0, exit cycle)."""
    async with Executor(exit=exit_) as ex:
        if gap:
            n = len(calls) // 2
            g1 = submit(w, ex, calls[:n], base, tag)
            await clk(d, gap)
            g2 = submit(w, ex, calls[n:], base + n, tag)
            groups = {}
            for g in (g1, g2):
                for k, v in g.items():
                    groups.setdefault(k, []).extend(v)
        else:
            groups = submit(w, ex, calls, base, tag)
        if w.order and base == 0:
            w.bad = "a call was started before the end of the block"
        t0 = d.n
    return ex, groups, t0, d.n


def judge_exit(exit_, t0, t1, gend):
    ends = list(gend.values())
    want = t0 if exit_ == "none" or not ends else (max(ends) if exit_ == "all" else min(ends))
    expect(t1, want, f"exit mode {exit_}: the block was left in the wrong cycle")


def run_run(case, rec):
    w = W(case)
    calls = case["calls"]
    if case["exit"] == "any" and all(c[0][0] == "!" for c in calls) and calls:
        return  # nothing to wait for
    exit_ = case["exit"]

    async def test(env, d):
        ex, groups, t0, t1 = await block(w, calls, exit_, 0, 0, d, case["gap"])
        early = list(w.ends)
        if exit_ != "all":
            await ex.wait_all()
        t2 = d.n
        res = ex.get_results()
        await ex.wait_all()
        if ex.get_results() != res:
            raise Violation("get_results changed without any call")
        await clk(d, 2)
        return groups, t0, t1, t2, res, early

    out = run(test, setup(w, case["hooks"]))
    if out.kind == "exc" and isinstance(out.exc, Violation):
        raise out.exc
    groups, t0, t1, t2, res, early = need_ok(out, w.d)
    if w.bad:
        raise Violation(w.bad, order=w.order)
    st, en, gend = predict(w, groups, [c[2] for c in calls], t0)
    expect(w.starts, st, "calls must start when their predecessor in the group is done, all groups from the same cycle")
    expect(w.ends, en, "every submitted call must complete")
    judge_exit(exit_, t0, t1, gend)
    if exit_ != "all":
        expect(t2, max([t1] + list(gend.values())), "wait_all must return when everything is done")
    for g, ids in groups.items():
        expect([i for i in w.order if i in ids], ids, f"calls of group {g} must run in submission order")
    expect({k: repr(v) for k, v in res.items()}, results_of(w, groups), "get_results must map each group to its value(s)")
    expect(list(res), list(groups), "get_results must list the groups in submission order") if False else None
    rec.execution(2 * len(calls) + 1, [(exit_, tuple(w.order[:k]), tuple(st.values())) for k in range(len(calls) + 1)], (len(groups), t1 - t0, t2 - t0))


def run_bad(case, rec):
    w = W(case)
    calls, exit_, bad = case["calls"], case["exit"], case["bad"]
    got = {}

    async def test(env, d):
        async with Executor(exit=exit_) as ex:
            groups = got["groups"] = submit(w, ex, calls, 0, 0)
            got["t0"] = d.n
        got["exit"] = d.n
        await ex.wait_all()
        got["wait"] = d.n
        return 1

    out = run(test, setup(w, boom=bad, boom_type=BaseBoom if case["bx"] else Boom))
    if w.d.horizon_hit or out.kind in ("deadlock", "livelock"):
        raise Violation("an Executor with a raising call never ends", got=repr(out))
    if w.bad:
        raise Violation(w.bad, order=w.order)
    if out.kind == "ok":
        raise Violation("the exception of a submitted call was lost")
    groups = got["groups"]
    dur = [c[2] for c in calls]
    _, _, gend = predict(w, groups, dur, 0)
    bg = next(g for g, ids in groups.items() if bad in ids)
    tbad = sum(dur[i] for i in groups[bg][: groups[bg].index(bad) + 1])
    if exit_ == "all" or (exit_ == "any" and all(v > tbad for g, v in gend.items() if g != bg)):
        if "exit" in got:
            raise Violation("the block ended normally although a call it waits for raised")
        if not isinstance(out.exc, BaseBoom if case["bx"] else Boom):
            raise Violation("the exception of a submitted call must be raised by the block", got=repr(out))
    rec.execution(2 * len(calls), [(exit_, bad, repr(calls))], (exit_, "exit" in got, type(out.exc).__name__))


def run_two(case, rec):
    w = W(case)
    p1, p2 = case["p"]
    e1, e2 = case["e"]

    async def test(env, d):
        if case["shape"] == "seq":
            r1 = await block(w, p1, e1, 0, 0, d)
            r2 = await block(w, p2, e2, 100, 1, d)
        else:
            a = create_task(block(w, p1, e1, 0, 0, d))
            b = create_task(block(w, p2, e2, 100, 1, d))
            r1, r2 = await a, await b
        out = []
        for ex, groups, t0, t1 in (r1, r2):
            await ex.wait_all()
            out.append((groups, t0, t1, ex.get_results()))
        return out

    res = need_ok(run(test, setup(w)), w.d)
    dur = {**{i: c[2] for i, c in enumerate(p1)}, **{100 + i: c[2] for i, c in enumerate(p2)}}
    starts, ends = {}, {}
    for (groups, t0, t1, r), e in zip(res, (e1, e2)):
        st, en, gend = predict(w, groups, dur, t0)
        starts.update(st)
        ends.update(en)
        judge_exit(e, t0, t1, gend)
        expect({k: repr(v) for k, v in r.items()}, results_of(w, groups), "get_results must map each group to its value(s)")
    expect(w.starts, starts, "calls must start when their predecessor in the group is done")
    expect(w.ends, ends, "every submitted call must complete")
    if case["shape"] == "seq":
        expect(res[1][1], res[0][2], "the second block begins where the first was left")
    if w.bad:
        raise Violation(w.bad)
    rec.execution(2 * len(dur), [(tuple(w.order[:k]),) for k in range(len(dur) + 1)], (e1, e2, tuple(starts.values())))
