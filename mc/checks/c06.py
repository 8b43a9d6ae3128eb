"""C06: hooks run in the configured order and per-call overrides stay per-call."""
import itertools

from toffee import Executor, create_task, start_clock

from .. import fake
from ..core import Violation, expect
from ..envs import B, bind_args, fits_names, make_agent, make_env, make_model, matches, one_claim_each
from ..util import CAP, clk, need_ok, run

ID = "C06"
BOUNDS = {
    "quick": "hook sets: all pairs of hooks (driver/agent/monitor hook, order, priority of 9 values, same or different model) x 3 call patterns, all triples over priorities {1,10,9} and {0,70,99}; 4-40 hooks x 7 priority patterns; 8-40 calls; "
    "overrides: all programs of <=3 calls over 2 drivers x priority {none,0,3,50,99} ({none,0,50} for 3 calls) x order {none,model_first,dut_first} x grouping (default groups, separate groups, split, direct calls) x body length {0,1}, two phases",
    "thorough": "as quick with programs of 4 calls over one driver, all triples over 5 priorities, body lengths {0,1,2}",
}

PR = (0, 1, 2, 9, 10, 11, 50, 98, 99)
METHODS = {"ag": ("d", "e"), "ag2": ("d",)}
ALL = [(a, m) for a, ms in METHODS.items() for m in ms]


def hook_opts(prios, mon=True):
    out = []
    for p in prios:
        for o in ("model_first", "dut_first"):
            out.append(["dh", "path", {"a": "ag", "m": "d", "prio": p, "order": o}])
            out.append(["dh", "path", {"a": "ag", "m": "e", "prio": p, "order": o}])
            out.append(["ah", "lists", {"agents": ["ag", "ag2"], "prio": p, "order": o}])
        if mon:
            out.append(["mh", "path", {"a": "ag", "m": "mon", "prio": p}])
    return out


def call(t, prio=None, order=None, dur=0):
    return [t, prio, order, dur]


def pats(dur):
    yield [["x", [["A", [call(0, dur=dur)]], ["B", [call(1, dur=dur)]], ["C", [call(2, dur=dur)]]]]]
    yield [["t", [call(1, dur=dur), call(0, dur=dur), call(0, dur=1)]]]
    yield [["x", [["A", [call(0, dur=dur), call(1, dur=dur)]], ["B", [call(1, dur=1), call(0, dur=0)]]]]]


GROUPINGS = ("default", "separate", "split", "direct", "phases", "direct-mixed")


def programs(n, dur, targets, grouping):
    opts = [(t, p, o) for t in targets for p in ((None, 0, 3, 50, 99) if n < 3 else (None, 0, 50)) for o in (None, "model_first", "dut_first")]
    for cs in itertools.product(opts, repeat=n):
        calls = [call(t, p, o, dur) for t, p, o in cs]
        if grouping == "default":
            yield [["x", [[None, [c]] for c in calls]]]
        elif grouping == "separate":
            if n > 1:
                yield [["x", [[f"g{i}", [c]] for i, c in enumerate(calls)]]]
        elif grouping == "split":
            if n > 2:
                yield [["x", [["g0", calls[:2]], ["g1", calls[2:]]]]]
        elif grouping == "direct":
            # overlapping with direct calls without any override
            if n == 1:
                for t in targets:
                    yield [["xt", [[None, calls]], [call(t, dur=dur), call(t, dur=1)]]]
            elif n == 2:
                yield [["xt", [["g0", calls[:1]], ["g1", calls[1:]]], [call(0, dur=dur), call(1, dur=dur)]]]
        elif grouping == "phases":
            if n > 1:
                yield [["x", [["g", [c]]]] for c in calls] + [["t", [call(targets[0], dur=dur)]]]


def cases(tier):
    th = tier == "thorough"
    hs = hook_opts(PR)
    for h in hs:
        for dur in (0, 1):
            for p in pats(dur):
                yield {"models": [[h]], "prog": p}
    for h1, h2 in itertools.combinations_with_replacement(hs, 2):
        for si, split in enumerate(([[h1, h2]], [[h1], [h2]], [[h2], [h1]])):
            if all(one_claim_each(m, ALL + [("ag", "mon")]) for m in split):
                for j, p in enumerate(pats(int(si == 2))):
                    if (j != 1 and (si < 2 or j == 0)) or th:
                        yield {"models": split, "prog": p}
    for hh in itertools.chain(*(itertools.combinations(hook_opts(ps), 3) for ps in (((1, 10, 9, 50, 2), (0, 49, 70, 98, 99)) if th else ((1, 10, 9), (0, 70, 99))))):
        for split in ([list(hh)], [[hh[0], hh[1]], [hh[2]]]):
            if all(one_claim_each(m, ALL + [("ag", "mon")]) for m in split):
                yield {"models": split, "prog": next(pats(0))}
                break
    env2 = [
        [["dh", "path", {"a": "ag", "m": "d", "prio": 10, "order": "model_first"}], ["ah", "lists", {"agents": ["ag"], "prio": 20, "order": "dut_first"}]],
        [["dh", "path", {"a": "ag", "m": "d", "prio": 15, "order": "dut_first"}], ["dh", "path", {"a": "ag", "m": "e", "prio": 12}], ["mh", "path", {"a": "ag", "m": "mon", "prio": 5}]],
    ]
    for n in (1, 2, 3):
        for g in GROUPINGS:
            for dur in (0, 1, 2) if th else (0, 1):
                if not th and n == 3 and g == "phases" and dur:
                    continue
                for p in programs(n, dur, (0, 1), g):
                    yield {"models": env2, "prog": p}
    for dur in (0, 1):
        for o in ("parallel", "model_first"):
            yield {"models": env2, "prog": [["x", [["g", [call(0, None, o, dur)]], ["h", [call(0, 7, o, dur)]]]]]}
    # the same method of two agents of one class
    for a, b in itertools.product([(p, o) for p in (None, 0, 50) for o in (None, "model_first", "dut_first")], repeat=2):
        ms = [[["ah", "lists", {"agents": ["ag", "ag2"], "prio": 10}]], [["dh", "path", {"a": "ag2", "m": "d", "prio": 20, "order": "dut_first"}], ["dh", "path", {"a": "ag", "m": "d", "prio": 5}]]]
        for dur in (0, 1):
            for grp in ((None, None), ("g", "g"), ("g", "h")):
                yield {"models": ms, "prog": [["x", [[grp[0], [call(0, *a, dur)]], [grp[1], [call(2, *b, dur)]]]], ["t", [call(0), call(2)]]]}
    # many hooks, many calls
    for n in (4, 5, 7, 9, 12, 20, 40):
        for k in (1, 7, 13, 37, 61, 93, 99):
            for kinds in ("d", "a", "da", "dam", "dme"):
                ms = []
                for i in range(n):
                    pr = (i * k + (i // 3) * 5) % 100
                    o = ("model_first", "dut_first")[(i * k // 4) % 2]
                    ms.append([{
                        "d": ["dh", "path", {"a": "ag", "m": "d", "prio": pr, "order": o}],
                        "e": ["dh", "path", {"a": "ag", "m": "e", "prio": pr, "order": o}],
                        "a": ["ah", "lists", {"agents": ["ag", "ag2"], "prio": pr, "order": o}],
                        "m": ["mh", "path", {"a": "ag", "m": "mon", "prio": pr}],
                    }[kinds[i % len(kinds)]]])
                # some of them are hooks of one model
                half = [ms[0] + ms[1], *ms[2:]] if kinds in ("a", "da") else ms
                for p in list(pats(k % 2))[: 3 if n < 12 else 1]:
                    yield {"models": half if k % 4 == 1 else ms, "prog": p}
    for n in (8, 17, 40):
        for over in ((None, None), (3, None), (None, "dut_first"), (70, "model_first")):
            for dur in (0, 1):
                cs = [call(i % 3, *(over if i % 4 == 1 else (None, None)), dur) for i in range(n)]
                for grp in (lambda i: f"g{i}", lambda i: f"g{i % 5}", lambda i: None):
                    groups = {}
                    for i, c in enumerate(cs):
                        groups.setdefault(grp(i), []).append(c)
                    yield {"models": env2, "prog": [["x", [[g, l] for g, l in groups.items()]], ["t", [call(0)]]]}
                plain = [call(*c[:1], None, None, dur) for c in cs]
                yield {"models": env2, "prog": [["xt", [["g", cs[:2]]], plain], ["t", plain]]}
    if th:
        for g in ("default", "separate", "split"):
            for p in programs(4, 1, (0,), g):
                yield {"models": env2, "prog": p}


def run_case(case, rec):
    log = []  # ("hook", mi, i, id, cycle) / ("body"/"end", id, cycle) / ("start", id, cycle)
    box = {}
    prog = case["prog"]
    ids = itertools.count()
    info = {}  # id -> (target, prio, order, dur)

    async def body(self, name, bound):
        i = bound["x"]
        log.append(("body", i, box["d"].n))
        for _ in range(info[i][3]):
            await clk(box["d"])
        log.append(("end", i, box["d"].n))
        return i

    async def mon(self):
        return ("mon", box["d"].n)

    agents = {a: make_agent({m: ("x", body) for m in ms}, {"mon": mon} if a == "ag" else {}) for a, ms in METHODS.items()}

    def handle():
        d = box["d"] = fake.DUT(["a", "b"], horizon=40 + 2 * sum(len(g[1]) for ph in case["prog"] if ph[0] != "t" for g in ph[1]))
        start_clock(d)
        env = make_env(agents, lambda n: B().bind(d))()
        for mi, elems in enumerate(case["models"]):

            def sink(i, args, kwargs, mi=mi, elems=elems):
                if elems[i][0] == "mh":
                    x = args[0]
                elif elems[i][0] == "dh":
                    x = bind_args("x", args, kwargs)["x"]
                else:
                    x = args[1] if args[0] == "ag.mon" else args[1]["x"]
                log.append(("hook", mi, i, x, d.n))

            env.attach(make_model(elems, sink, mi)())
        return env, d

    sched = {}  # call id -> predicted (cycle, round) of the call

    def mk(env, c):
        i = next(ids)
        info[i] = c
        ag, m = ALL[c[0]]
        return i, getattr(getattr(env, ag), m)(i)

    def hooks_of(c):
        ag, m = ALL[c[0]]
        mf, df = [], []
        for mi, elems in enumerate(case["models"]):
            for i, e in enumerate(elems):
                if e[0] != "mh" and matches(e, ag, m):
                    order = c[2] if c[2] else e[2].get("order", "model_first")
                    prio = c[1] if c[1] is not None else e[2].get("prio", 99)
                    (df if order == "dut_first" else mf).append((prio, mi, i))
        return mf, df

    due = []  # (cycle, round, prio, mi, i, call id)
    bodies = {}  # id -> (start cycle, end cycle)

    def simulate(calls, t):
        for i, c in calls:
            mf, df = hooks_of(c)
            start = t
            for prio, mi, e in mf:
                due.append((*t, prio, mi, e, i))
            if mf:
                t = (t[0], t[1] + 1)
            b = t[0]
            if c[3]:
                t = (t[0] + c[3], 0)
            bodies[i] = (b, t[0])
            for prio, mi, e in df:
                due.append((*t, prio, mi, e, i))
        return t

    async def test(env, d):
        t = (0, 0)
        for ph in prog:
            seqs = []
            tasks = []
            if ph[0] in ("x", "xt"):
                async with Executor() as ex:
                    groups = {}
                    for g, cs in ph[1]:
                        for c in cs:
                            i, coro = mk(env, c)
                            kw = {}
                            if c[1] is not None:
                                kw["priority"] = c[1]
                            if c[2] is not None:
                                kw["sche_order"] = "parallel" if c[2] == "model_first" and i % 2 else c[2]  # two names of one order
                            if g is not None:
                                kw["sche_group"] = g
                            ex(coro, **kw)
                            groups.setdefault(g if g is not None else ALL[c[0]], []).append((i, c))
                    seqs += list(groups.values())
                    if ph[0] == "xt":
                        for c in ph[2]:
                            i, coro = mk(env, c)
                            tasks.append(create_task(coro))
                            seqs.append([(i, c)])
            else:
                for c in ph[1]:
                    i, coro = mk(env, c)
                    tasks.append(create_task(coro))
                    seqs.append([(i, c)])
            for x in tasks:
                await x
            t = max(simulate(s, t) for s in seqs)
        return d.n

    out = run(test, handle)
    last = need_ok(out, box.get("d"))
    for mi, elems in enumerate(case["models"]):
        for i, e in enumerate(elems):
            if e[0] == "mh" or (e[0] == "ah" and matches(e, "ag", "mon")):
                for n in range(1, last + 2):
                    due.append((n, 0, e[2]["prio"], mi, i, ("mon", n)))
    keyof = {}
    for cyc, rnd, prio, mi, i, x in due:
        keyof[(mi, i, x)] = (cyc, rnd, prio)
    got = [(e[1], e[2], e[3]) for e in log if e[0] == "hook"]
    # monitor activity after the last test cycle is not part of this property
    need = {k for k, v in keyof.items() if v[0] <= last}
    if len(set(got)) != len(got) or not need <= set(got) or not set(got) <= set(keyof):
        raise Violation("every due hook must run exactly once", got=sorted(map(repr, got)), want=sorted(map(repr, keyof)))
    prev = None
    pos = {}
    for idx, e in enumerate(log):
        if e[0] != "hook":
            pos[(e[0], e[1])] = idx
            want = bodies[e[1]][0 if e[0] == "body" else 1]
            expect(e[2], want, f"driver body of call {e[1]}: wrong cycle of {e[0]}", log=log)
    for idx, e in enumerate(log):
        if e[0] != "hook":
            continue
        k = keyof[(e[1], e[2], e[3])]
        if e[4] != k[0]:
            raise Violation("a hook ran in another cycle than it was due in", hook=e, want=k, log=log)
        if prev is not None and k < prev[0]:
            raise Violation("hooks due in the same cycle must run in ascending priority number", first=prev, then=(k, e), log=log)
        prev = (k, e)
        if isinstance(e[3], int):
            c = info[e[3]]
            order = c[2] if c[2] else case["models"][e[1]][e[2]][2].get("order", "model_first")
            if order != "dut_first":
                if idx > pos[("body", e[3])]:
                    raise Violation("a model_first hook must run before the driver body of its call", hook=e, log=log)
            elif idx < pos[("end", e[3])]:
                raise Violation("a dut_first hook must run after the driver body of its call returned", hook=e, log=log)
    if CAP.errors():
        raise Violation("no error may be logged", got=CAP.errors())
    rec.execution(len(log), [tuple(map(repr, log[:j])) for j in range(1, min(len(log), 6))], tuple(sorted(map(repr, keyof.values()))))
