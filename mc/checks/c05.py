"""C05: each driver call reaches every matching model hook and port exactly once."""
import itertools

from toffee import create_task, gather, start_clock

from .. import fake
from ..core import Violation, expect
from ..envs import B, bind_args, drain, fits_names, make_agent, make_env, make_models, matches, one_claim_each, port_of, user_agent
from ..util import CAP, clk, need_ok, run, tup

ID = "C05"
BOUNDS = {
    "quick": "3 agents x 5 driver methods; 40 element forms (hooks/ports, all ways to name the target) alone x 10 signatures x all call shapes; all pairs of elements in one or two models "
    "x 3 call patterns; 3 models (7 kinds each) and 4 models (5 kinds each) on one method; 6 and 9 models, or hooks or ports of one model; rich environments (0-3 models) x all call histories of length <=4 over 6 operations; ports of size 1,2,4,-1 x 0..7 calls, of size 8..256 x up to 300 calls, up to 300 calls in one cycle; 6 ways in which users write or create agents",
    "thorough": "as quick with all triples of elements over 1-3 models, call histories of length <=6, up to 12 calls per port",
}

# agent -> methods (names and paths that are prefixes and suffixes of each other on purpose)
ENV = {"ag": ("m", "m2"), "ag2": ("m",), "g": ("m", "put_m")}
ALL = [(a, m) for a, ms in ENV.items() for m in ms]
SIGS = {
    "0": ("", [((), {})]),
    "1": ("x", [((3,), {}), ((), {"x": 4}), (([1, 2],), {})]),
    "1d": ("x=7", [((), {}), ((0,), {}), ((), {"x": None})]),
    "2": ("x, y=5", [((1,), {}), ((1, 2), {}), ((1,), {"y": 0}), ((1,), {"y": 3}), ((), {"y": 1, "x": 2}), ((), {"x": 1, "y": 2})]),
    "this": ("@this|x, y=2", [((1,), {}), ((1,), {"y": 3})]),
    "3": ("x, y, z=9", [((1, 2), {}), ((1,), {"y": 0}), ((), {"z": 1, "y": 2, "x": 3})]),
    "ag": ("agent, coro=3", [((1,), {}), ((), {"agent": 2}), ((), {"agent": 2, "coro": 0})]),
    "v": ("*args", [((), {}), ((1,), {}), ((1, 2, 3), {})]),
    "k": ("x, *, k=3", [((1,), {}), ((1,), {"k": None})]),
    "kw": ("**kw", [((), {}), ((), {"p": 1}), ((), {"p": 2}), ((), {"p": 1, "agent_": 2})]),
    "mix": ("x, y=2, *args, k=1, **kw", [((1,), {}), ((1, 2, 3), {"k": 4, "w": 5}), ((), {"x": 0})]),
}


def single_elems():
    out = []
    for kind in ("dh", "dp"):
        for a, m in (("ag", "m"), ("ag", "m2"), ("ag2", "m"), ("g", "put_m")):
            for form in ("name", "path", "ag", "agm"):
                out.append([kind, form, {"a": a, "m": m}])
        out.append([kind, "path", {"a": "g", "m": "m"}])
    for kind in ("ah", "ap"):
        for a in ("ag", "g"):
            out.append([kind, "name", {"a": a}])
            out.append([kind, "an", {"a": a}])
            out.append([kind, "an", {"a": a, "methods": ["ag2.m"]}])
            out.append([kind, "an", {"a": a, "methods": [f"{a}.m"]}])
        out.append([kind, "lists", {"agents": ["ag"]}])
        out.append([kind, "lists", {"agents": ["ag", "ag2"]}])
        out.append([kind, "lists", {"agents": ["ag", "ag2", "g"]}])
        out.append([kind, "lists", {"methods": ["ag.m"]}])
        out.append([kind, "lists", {"methods": ["g.m"]}])
        out.append([kind, "lists", {"methods": ["ag.m2", "g.put_m"]}])
        out.append([kind, "lists", {"agents": ["ag2"], "methods": ["ag.m"]}])
        out.append([kind, "lists", {"agents": ["ag"], "methods": ["ag.m", "g.m"]}])
    return out


MANY = (
    ("dh", {}),
    ("dh", {"order": "dut_first"}),
    ("ah", {"order": "dut_first", "prio": 0}),
    ("dp", {}),
    ("ah", {"prio": 50}),
    ("ap", {"size": -1}),
    ("dh", {"prio": 0}),
)
PATTERNS = (
    [["c", 0], ["c", 1], ["c", 2], ["c", 3], ["c", 4]],
    [["p", [0, 1, 2]], ["s"], ["p", [0, 0]], ["c", 2]],
    [["b", 0], ["b", 2], ["s"], ["c", 4], ["b", 0], ["s"]],
)


def cases(tier):
    th = tier == "thorough"
    els = single_elems()
    for e in els:
        for s, (_, shapes) in SIGS.items():
            for i in range(len(shapes)):
                yield {"models": [[e]], "sig": s, "calls": [["c", t, i] for t in range(5)] + [["c", 0, (i + 1) % len(shapes)], ["s"]], "dur": 0}
    for e1, e2 in itertools.combinations_with_replacement(els, 2):
        for split in ([[e1, e2]], [[e1], [e2]]):
            if all(fits_names(m) and one_claim_each(m, ALL, mix=True) for m in split):
                for p in PATTERNS:
                    yield {"models": split, "sig": "2", "calls": p, "dur": 1}
                # one decorator object for all hooks that are declared alike
                if len(split) == 1 and e1[:2] == e2[:2] and e1[1] in ("name", "ag") and e1[0] in ("dh", "ah"):
                    for p in PATTERNS:
                        yield {"models": split, "sig": "2", "calls": p, "dur": 0, "share": 1}
    # agents as users write them
    for style in ("prop", "ref", "super", "super2", "mixin", "step"):
        for e in els:
            for s in ("1", "2", "3"):
                for p in PATTERNS if s == "2" else PATTERNS[1:2]:
                    yield {"models": [[e]], "sig": s, "calls": p, "dur": 1, "style": style}
    # several models on one method
    for n in (3, 4):
        for hs in itertools.product(MANY if n == 3 or th else MANY[:5], repeat=n):
            models = []
            for k, (kind, o) in enumerate(hs):
                models.append([[kind, ("path", "agm", "ag")[k % 3] if kind in ("dh", "dp") else "an", {**({"a": "ag", "m": "m"} if kind in ("dh", "dp") else {"a": "ag"}), **o}]])
            yield {"models": models, "sig": "2", "calls": PATTERNS[0], "dur": n % 2}
    # many models, and many hooks or ports of one model
    for n in (6, 9):
        for kind, o in MANY:
            t = {"a": "ag", "m": "m"} if kind in ("dh", "dp") else {"a": "ag"}
            form = "path" if kind in ("dh", "dp") else "an"
            for p in PATTERNS:
                yield {"models": [[[kind, form, {**t, **o}]] for _ in range(n)], "sig": "2", "calls": p, "dur": 1}
                if kind in ("ah", "ap"):
                    yield {"models": [[[kind, form, {**t, **o}] for _ in range(n)]], "sig": "2", "calls": p, "dur": 1}
    # call histories on rich environments
    rich = (
        [],
        [[["dh", "name", {"a": "ag", "m": "m"}], ["ah", "lists", {"agents": ["ag", "ag2"]}]]],
        [[["dp", "path", {"a": "ag", "m": "m", "size": -1}], ["ap", "lists", {"agents": ["ag"], "methods": ["ag2.m"], "size": -1}]]],
        [
            [["dh", "ag", {"a": "ag", "m": "m", "order": "dut_first"}], ["ah", "an", {"a": "ag2", "order": "dut_first"}]],
            [["dp", "agm", {"a": "ag", "m": "m", "size": -1}], ["ah", "name", {"a": "ag2"}]],
            [["ah", "lists", {"methods": ["ag.m", "ag2.m"]}], ["dh", "name", {"a": "ag", "m": "m2"}]],
        ],
    )
    ops = (["c", 0], ["c", 2], ["b", 0], ["b", 2], ["p", [0, 2, 0]], ["s"])
    for models in rich:
        for n in range(1, (6 if th else 4) + 1):
            for seq in itertools.product(ops, repeat=n):
                yield {"models": models, "sig": "1", "calls": list(seq), "dur": n % 2}
    for kind in ("dp", "ap"):
        for size in (None, 1, 2, 4, 7, -1):
            for n in range(0, 13 if th else 8):
                o = {"a": "ag", "m": "m"} if kind == "dp" else {"a": "ag"}
                if size is not None:
                    o["size"] = size
                for at in range(0, n + 1):
                    yield {"models": [[[kind, "name", o]]], "sig": "1", "calls": [["c", 0]] * at + [["r"]] + [["c", 0]] * (n - at), "dur": 0}
    # many calls
    for n in (40, 70, 130, 300):
        for kind in ("dp", "ap"):
            for size in (None, 8, 16, 32, 33, 64, 100, 128, 200, 256, -1):
                o = {"a": "ag", "m": "m"} if kind == "dp" else {"a": "ag"}
                if size is not None:
                    o["size"] = size
                for at in (0, n // 3):
                    yield {"models": [[[kind, "name", o]]], "sig": "1", "calls": [["c", 0]] * at + [["r"]] + [["c", 0]] * (n - at), "dur": 0}
        for models in rich:
            yield {"models": models, "sig": "1", "calls": [["c", 0], ["c", 2], ["s"]] * (n // 2), "dur": 0}
            yield {"models": models, "sig": "2", "calls": [["p", [0, 2, 1] * (n // 3)], ["s"], ["p", [0] * n]], "dur": 1}
            yield {"models": models, "sig": "1", "calls": [["b", 0], ["b", 2]] * (n // 2) + [["s"], ["b", 0]], "dur": 1}
    if th:
        for es in itertools.combinations(els, 3):
            for split in ([list(es)], [[es[0], es[1]], [es[2]]], [[e] for e in es]):
                if all(fits_names(m) and one_claim_each(m, ALL, mix=True) for m in split):
                    yield {"models": split, "sig": "2", "calls": PATTERNS[1], "dur": 1}


def run_case(case, rec):
    sig, shapes = SIGS[case["sig"]]
    bodies = []  # (agent, method, bound)
    hooks = {}  # (model, elem) -> list
    box = {}

    def body_for(agname):
        async def body(self, name, bound):
            bodies.append((agname, name, bound))
            k = len(bodies)
            for _ in range(case["dur"]):
                await clk(box["d"])
            return ("ret", agname, name, k)

        return body

    agents = {a: make_agent({m: (sig, body_for(a)) for m in ms}) for a, ms in ENV.items()}
    overrides = []  # (agent, method, bound)
    style = case.get("style")
    if style:
        agents = {a: user_agent(c, style, {m: (sig, None) for m in ENV[a]}, lambda n, b, a=a: overrides.append((a, n, b))) for a, c in agents.items()}

    def handle():
        d = box["d"] = fake.DUT(["a", "b"], horizon=60 + 4 * len(case["calls"]))
        start_clock(d)
        env = make_env(agents, lambda n: B().bind(d))()
        ms = box["models"] = []

        def sink_of(mi):
            return lambda i, args, kwargs: hooks.setdefault((mi, i), []).append((args, kwargs))

        for m in make_models(case["models"], sink_of, share=case.get("share", 0)):
            env.attach(m)
            ms.append(m)
        return env, d

    issued = []  # (agent, method, args, kwargs)
    read = {}

    async def test(env, d):
        bg = []

        def issue(t, i):
            ag, m = ALL[t]
            args, kw = shapes[i % len(shapes)]

            async def call():
                issued.append((ag, m, args, kw))
                return await getattr(getattr(env, ag), m)(*args, **kw)

            return call(), (ag, m)

        def judge(got, who):
            if not (isinstance(got, tuple) and len(got) == 4 and got[:3] == ("ret",) + who):
                raise Violation("the call must return the driver method's result", got=got, want=who)

        for op in case["calls"]:
            if op[0] == "c":
                c, who = issue(op[1], op[2] if len(op) > 2 else len(issued))
                judge(await c, who)
            elif op[0] == "p":
                cs = [issue(t, len(issued)) for t in op[1]]
                for g, (_, who) in zip(await gather(*[c for c, _ in cs]), cs):
                    judge(g, who)
            elif op[0] == "b":
                c, who = issue(op[1], len(issued))
                bg.append((create_task(c), who))
            elif op[0] == "s":
                await clk(d)
            elif op[0] == "r":
                await clk(d)
                for mi, elems in enumerate(case["models"]):
                    for i, e in enumerate(elems):
                        if e[0] in ("dp", "ap"):
                            read.setdefault((mi, i), []).append((len(issued), drain(port_of(box["models"][mi], e, i))))
        for t, who in bg:
            judge(await t, who)
        await clk(d)
        return d.n

    out = run(test, handle)
    if out.kind == "exc" and isinstance(out.exc, Violation):
        raise out.exc
    need_ok(out, box.get("d"))
    want_bodies = [(ag, m, bind_args(sig, a, k)) for ag, m, a, k in issued]
    key = lambda x: repr(x)
    if sorted(bodies, key=key) != sorted(want_bodies, key=key):
        raise Violation("the driver body must run exactly once per call with the call's arguments", got=bodies, want=want_bodies)
    n = {"super": 1, "super2": 2}.get(style, 0)
    if sorted(overrides, key=key) != sorted(want_bodies * n, key=key):
        raise Violation("a method that overrides a driver method must run exactly once per call", got=overrides, want=want_bodies * n)
    for t in ALL:
        expect([b for b in bodies if b[:2] == t], [b for b in want_bodies if b[:2] == t], "the driver bodies of one method must start in call order")
    drops = 0
    for mi, elems in enumerate(case["models"]):
        for i, e in enumerate(elems):
            rel = [c for c in issued if matches(e, c[0], c[1])]
            if e[0] in ("dh", "ah"):
                # a model that has a port for a method gets its calls through its ports only
                rel = [c for c in rel if not any(p[0] in ("dp", "ap") and matches(p, c[0], c[1]) for p in elems)]
                got = hooks.pop((mi, i), [])
                if e[0] == "dh":
                    want = [bind_args(sig, a, k) for _, _, a, k in rel]
                    try:
                        got2 = [bind_args(sig, a, k) for a, k in got]
                    except TypeError as ex:
                        raise Violation("a driver hook must receive the call's arguments", got=got, error=repr(ex))
                else:
                    want = [(f"{ag}.{m}", bind_args(sig, a, k)) for ag, m, a, k in rel]
                    got2 = []
                    for a, k in got:
                        if len(a) != 2 or k:
                            raise Violation("an agent hook must receive the method path and the argument dictionary", got=(a, k))
                        got2.append((a[0], dict(a[1])))
                expect(got2, want, f"hook {e} of model {mi} must receive every matching call exactly once, in order")
                continue
            size = e[2].get("size", 4)
            chunks = read.get((mi, i), []) + [(len(issued), drain(port_of(box["models"][mi], e, i)))]
            pos = 0
            for upto, got in chunks:
                part = [c for c in issued[pos:upto] if matches(e, c[0], c[1])]
                pos = upto
                want = []
                for ag, m, a, k in part:
                    d = bind_args(sig, a, k)
                    if e[0] == "ap":
                        want.append((f"{ag}.{m}", d))
                    else:
                        want.append(next(iter(d.values())) if len(d) == 1 else d)
                if size != -1 and len(want) > size:
                    drops += len(want) - size
                    want = want[:size]
                if e[0] == "ap":
                    got = [(p, dict(x)) for p, x in got]
                else:
                    got = [dict(x) if isinstance(x, dict) or hasattr(x, "keys") else x for x in got]
                expect(got, want, f"port {e} of model {mi} must deliver every matching call exactly once, in order")
    if hooks:
        raise Violation("a hook was called that does not match", got=hooks)
    errs = len(CAP.errors())
    if errs != drops:
        raise Violation("a full port must log one error per dropped item and nothing else may log an error", got=CAP.errors()[:5], want=drops)
    rec.execution(len(issued) + 1, [tuple(repr(x) for x in issued[: i + 1]) + (len(case["models"]),) for i in range(min(len(issued), 40))], (len(issued), drops))
