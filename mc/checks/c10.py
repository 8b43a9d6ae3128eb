"""C10: attach accepts exactly the models that fit, detach undoes it completely."""
import dataclasses
import functools
import itertools

from toffee import Model, start_clock

from .. import fake
from ..core import Violation, expect
from ..envs import B, attr_name, bind_args, drain, fits_names, make_agent, make_env, make_model, make_port, matches, one_claim_each, port_of
from ..util import clk, need_ok, run

ID = "C10"
BOUNDS = {
    "quick": "3 environment shapes and one of 12 agents; lists of 5 and 12 agents or methods with at most one missing; 8 models attached, then all pairs of detaching or moving operations; all 150 element forms (hooks and ports, present and missing agents/methods at every list position) alone; all pairs of 40 forms in one model; "
    "all histories of <=4 operations (attach/unattach x 3 models (two of one class) x 2 environments) for 3 model sets, deliveries checked after every operation; all pairs of 34 forms moved between environments, models whose ports are replaced or removed between two attachments; models and environments with properties that are not ready, models with their own equality, unhashable or falsy ones, decorators used twice",
    "thorough": "all pairs of all forms, histories of <=5 operations",
}
ASSUMPTIONS = ["every agent has at least one method", "no two hooks or ports of one kind of a model claim the same method"]

# environment -> agent -> (drivers, monitors)
ENVS = (
    {"ag": (("d", "e"), ("mon",)), "ag2": (("d",), ())},
    {"ag": (("d",), ("mon", "mon2"))},
    {"g": (("d",), ("mon",)), "ag": (("e",), ()), "ag2": ((), ("mon",))},
    {f"a{i}": (("d",), ("mon",)) for i in range(12)},
)


def flat(env):
    drv = [(a, m) for a, (ds, ms) in env.items() for m in ds]
    mon = [(a, m) for a, (ds, ms) in env.items() for m in ms]
    return drv, mon


def fits(elems, env):
    drv, mon = flat(env)
    for kind, form, o in elems:
        if kind in ("dh", "dp"):
            if (o["a"], o["m"]) not in drv:
                return False
        elif kind in ("mh", "mp"):
            if (o["a"], o["m"]) not in mon:
                return False
        else:
            names = [o["a"]] if form in ("name", "an") else list(o.get("agents", ()))
            if any(n not in env for n in names):
                return False
            if any(tuple(p.split(".")) not in drv + mon for p in o.get("methods", ())):
                return False
    return True


def forms(full=True):
    out = []
    tg = (("ag", "d"), ("ag2", "d"), ("ag", "mon"), ("ag", "mon2"), ("x", "d"), ("ag", "nope"), ("g", "d"), ("env_attr", "d"))
    for kind in ("dh", "dp", "mh", "mp"):
        for a, m in tg if full else (("ag", "d"), ("ag", "mon"), ("ag2", "d")):
            for form in ("name", "path", "ag", "agm") if full else ("path",):
                out.append([kind, form, {"a": a, "m": m}])
    for kind in ("ah", "ap"):
        for a in ("ag", "ag2", "g", "x", "env_attr") if full else ("ag", "ag2"):
            out.append([kind, "name", {"a": a}])
            out.append([kind, "an", {"a": a}])
        ls = (["ag"], ["ag", "ag2"], ["ag2", "ag"], ["ag", "x"], ["x", "ag"], ["ag", "ag"], ["env_attr"], ["g", "ag", "ag2"], ["attached_models", "ag"])
        for l in ls if full else ls[:4]:
            out.append([kind, "lists", {"agents": l}])
        msl = (["ag.d"], ["ag.d", "ag.mon"], ["ag.d", "ag.nope"], ["ag.nope", "ag.d"], ["x.d"], ["g.d"], ["g.mon", "ag.e"], ["ag.d", "ag.d"], ["ag2.d", "ag.e", "ag.mon"], ["ag"], ["ag.mon", "ag.d", "ag2.nope"])
        for l in msl if full else msl[:3]:
            out.append([kind, "lists", {"methods": l}])
            if full:
                out.append([kind, "an", {"a": "ag", "methods": l}])
                out.append([kind, "lists", {"agents": ["ag"], "methods": l}])
                out.append([kind, "lists", {"agents": ["ag2"], "methods": l}])
    return out


def ok_model(elems):
    every = sorted({x for e in ENVS for l in flat(e) for x in l})
    return fits_names(elems) and one_claim_each(elems, every)


SETS = (
    # (classes, instance -> class)
    ([[["dh", "path", {"a": "ag", "m": "d"}], ["mh", "path", {"a": "ag", "m": "mon"}]], [["ah", "lists", {"agents": ["ag"], "methods": ["ag.e"]}]]], [0, 1, 0]),
    ([[["dp", "path", {"a": "ag", "m": "d"}], ["mp", "name", {"a": "ag", "m": "mon"}], ["ap", "lists", {"agents": ["ag"]}]], [["ap", "lists", {"agents": ["ag", "ag2"]}]]], [0, 1, 0]),
    ([[["ah", "name", {"a": "ag"}], ["dp", "agm", {"a": "ag2", "m": "d"}]], [["dh", "ag", {"a": "ag", "m": "d"}], ["ah", "lists", {"methods": ["ag.d", "ag.mon"]}]]], [1, 0, 1]),
    ([[["dh", "path", {"a": "ag", "m": "d"}], ["mh", "path", {"a": "ag", "m": "mon"}]], [["ap", "lists", {"agents": ["ag"]}]]], [0, 1, 0, 0, 1, 0, 1, 0]),
)


def cases(tier):
    th = tier == "thorough"
    fs = forms()
    for e in fs:
        for env in range(3):
            yield {"k": "fit", "elems": [e], "envs": [env]}
    for e in fs:
        for e1, e2 in itertools.permutations(range(3), 2):
            yield {"k": "fit", "elems": [e], "envs": [e1, e2]}
    # models and environments as users write them
    for style in STYLES:
        for e in forms(False):
            for env in range(3):
                yield {"k": "fit", "elems": [e], "envs": [env], "style": style}
    for e1, e2 in itertools.combinations(fs, 2):
        if e1[:2] == e2[:2] and e1[0] in ("dh", "ah", "mh") and e1[1] in ("name", "ag") and ok_model([e1, e2]):
            for env in range(3):
                yield {"k": "fit", "elems": [e1, e2], "envs": [env], "style": "share"}
    for e1, e2 in itertools.combinations(fs if th else forms(False) + fs[::6], 2):
        if ok_model([e1, e2]):
            for env in range(3):
                yield {"k": "fit", "elems": [e1, e2], "envs": [env]}
    # a model that fitted one environment in part is judged afresh by the next one
    for e1, e2 in itertools.combinations(forms(False), 2):
        if ok_model([e1, e2]):
            for p in itertools.permutations(range(3), 2):
                yield {"k": "fit", "elems": [e1, e2], "envs": list(p)}
    # a model whose ports are replaced or removed while it is not attached
    for e in fs:
        if e[0] in ("dp", "mp", "ap"):
            for p in itertools.product(range(3), repeat=2):
                for swap in ("new", "none"):
                    yield {"k": "fit", "elems": [e], "envs": list(p), "swap": swap}
    # long lists of agents and methods, one of them missing
    for kind in ("ah", "ap"):
        for n in (5, 12):
            for bad in range(-1, n):
                ag = ["nope" if i == bad else f"a{i}" for i in range(n)]
                for m in ("d", "mon"):
                    me = [f"a{i}.nope" if i == bad else f"a{i}.{m}" for i in range(n)]
                    for o in ({"agents": ag}, {"methods": me}, {"agents": [a for a in ag if a != "nope"][:-1], "methods": me}, {"agents": ag, "methods": ["a0.d"]}):
                        yield {"k": "fit", "elems": [[kind, "lists", o]], "envs": [3]}
    # many models
    n = len(SETS[3][1])
    up = [["a", m, 0] for m in range(n)]
    for i, j in itertools.product(range(n), repeat=2):
        yield {"k": "hist", "set": 3, "h": up + [["u", i, 0], ["u", j, 0]]}
        yield {"k": "hist", "set": 3, "h": up + [["a", i, 1], ["u", j, 0], ["a", j, 1]]}
        if i != j:
            yield {"k": "hist", "set": 3, "h": up + [["u", i, 0], ["a", j, 0], ["a", i, 0]]}
    ops = [[o, m, e] for o in ("a", "u") for m in range(3) for e in (0, 1)]
    for s in range(3):
        for n in range(1, (5 if th else 4) + 1):
            if n == 5 and s:
                continue
            for h in itertools.product(ops, repeat=n):
                if n >= 4 and h[0][0] == "u":
                    continue
                yield {"k": "hist", "set": s, "h": list(h)}
                if n <= 2 or n == 3 and h[0][0] == "a" and (th or s == 0):
                    for style in STYLES[:4]:
                        yield {"k": "hist", "set": s, "h": list(h), "style": style}


def _boom(self):
    raise RuntimeError("not now")


# user properties; nothing but the user needs their values
PROPS = {
    "A_boom": property(_boom),
    "zz_unset": property(lambda self: self._not_there),
    "mon__unset": property(lambda self: {}["nothing"]),
    "zz_late": functools.cached_property(lambda self: self._not_there),
    "zz_fine": property(lambda self: 3),
}
STYLES = ("props", "equal", "unhashable", "falsy", "share")


class World:
    def __init__(self, envs, classes, inst):
        self.calls = []
        self.seen = {}
        self.cls = classes
        self.inst = inst
        self.emit = False
        self.envs_spec = envs
        self.k = 0
        self.style = ""
        self.classes = []
        self.removed = False  # the ports, which are all the models have, were removed

    def setup(self):
        d = self.d = fake.DUT(["a", "b"], horizon=80)
        start_clock(d)
        w = self
        self.envs = []

        async def body(agent, name, bound):
            return None

        def mk(j, a, m):
            async def mon(agent):
                return ("mon", j, a, m, w.k) if w.emit else None

            return mon

        for j, es in enumerate(self.envs_spec):
            E = make_env({a: make_agent({m: ("x", body) for m in ds}, {m: mk(j, a, m) for m in ms}) for a, (ds, ms) in es.items()}, lambda n: B().bind(d))
            if self.style == "props":
                E = type("EP", (E,), PROPS)
            env = E()
            env.env_attr = 5
            if j == 0 and "ag" in es and "mon" in es["ag"][1]:
                env.ag.start_monitor("mon", 2)  # nobody takes the results
            self.envs.append(env)
        self.classes = [self._mkclass(ci, elems) for ci, elems in enumerate(self.cls)]
        self.models = []
        for mi, ci in enumerate(self.inst):
            m = self.classes[ci]()
            m.mi = mi
            self.models.append(m)

    def _mkclass(self, ci, elems):
        class Base(Model):
            mi = None

        if self.style == "props":
            Base = type("BaseP", (Base,), PROPS)
        elif self.style == "equal":
            Base.__eq__ = lambda a, b: isinstance(b, Base)
            Base.__hash__ = lambda a: 7
        elif self.style == "unhashable":
            Base = dataclasses.dataclass(type("BaseD", (Base,), {"__annotations__": {"mark": int}, "mark": 3, "__post_init__": lambda m: Model.__init__(m)}))
        elif self.style == "falsy":
            Base.__len__ = lambda m: 0

        # deliveries are recorded per instance
        cls = make_model(elems, None, ci, base=Base, share=self.style == "share")
        for name in dir(cls):
            f = cls.__dict__.get(name)
            if callable(f) and any(hasattr(f, x) for x in ("__is_driver_hook__", "__is_agent_hook__", "__is_monitor_hook__")):
                self._wrap(cls, name, f, elems)
        return cls

    def _wrap(self, cls, name, f, elems):
        w = self
        i = next(i for i, e in enumerate(elems) if attr_name(e, i) == name)

        def h(model, *args, **kwargs):
            w.seen.setdefault((model.mi, i), []).append((args, kwargs))

        h.__dict__.update(f.__dict__)
        h.__name__ = h.__qualname__ = name
        setattr(cls, name, h)

    async def drive(self):
        """Calls every driver method once and lets every monitor deliver one result, returns what must be delivered."""
        self.k += 1
        self.seen.clear()
        done = []
        for j, es in enumerate(self.envs_spec):
            for a, m in flat(es)[0]:
                v = ("drv", j, a, m, self.k)
                await getattr(getattr(self.envs[j], a), m)(v)
                done.append((j, a, m, v, "d"))
        self.emit = True
        await clk(self.d)
        self.emit = False
        for j, es in enumerate(self.envs_spec):
            for a, m in flat(es)[1]:
                done.append((j, a, m, ("mon", j, a, m, self.k), "m"))
        await clk(self.d)
        return done

    def compare(self, where, done, skip=()):
        """where: model -> environment index or None."""
        for mi, ci in enumerate(self.inst):
            for i, e in enumerate(self.cls[ci]):
                rel = [x for x in done if x[0] == where.get(mi) and matches(e, x[1], x[2])]
                if mi in skip or self.removed:
                    continue
                wide = e[0] in ("ah", "ap")
                want = []
                for _, a, m, v, k in rel:
                    if wide:
                        want.append((f"{a}.{m}", v))
                    else:
                        want.append(v)
                if e[0] in ("dp", "mp", "ap"):
                    got = drain(port_of(self.models[mi], e, i))
                    if wide:
                        got = [(p, x["x"] if hasattr(x, "keys") else x) for p, x in got]
                    cap = 4
                    want = want[:cap]
                else:
                    got = []
                    for args, kw in self.seen.pop((mi, i), []):
                        if wide:
                            got.append((args[0], args[1]["x"] if hasattr(args[1], "keys") else args[1]))
                        else:
                            got.append(bind_args("x", args, kw)["x"])
                if e[0] == "ap" and len(rel) > 4:
                    ok = len(got) == 4 and all(g in [(f"{a}.{m}", v) for _, a, m, v, _ in rel] for g in got)
                else:
                    ok = sorted(got) == sorted(want)
                if not ok:
                    raise Violation(f"model {mi} (attached to {where.get(mi)}): wrong deliveries to {e}", got=got, want=want)
        left = {k: v for k, v in self.seen.items() if k[0] not in skip}
        if left:
            raise Violation("unexpected hook calls", got=left)


def try_attach(env, model):
    try:
        r = env.attach(model)
    except ValueError as e:
        return False
    if r is not env:
        raise Violation("attach must return the environment")
    return True


def run_case(case, rec):
    (run_fit if case["k"] == "fit" else run_hist)(case, rec)


def run_fit(case, rec):
    envs = [ENVS[i] for i in case["envs"]]
    w = World(envs, [case["elems"]], [0, 0])
    w.style = case.get("style", "")

    def handle():
        w.setup()
        return w

    async def test(_):
        res = []
        for j in range(len(envs)):
            ok = try_attach(w.envs[j], w.models[0])
            res.append(ok)
            want = w.removed or fits(case["elems"], envs[j])
            if ok != want:
                raise Violation("attach accepted a model that does not fit" if ok else "attach rejected a model that fits", elems=case["elems"], env=envs[j])
            done = await w.drive()
            w.compare({0: j if ok else None}, done, skip=(0,) if not ok and j else ())
            # a second instance of the class is judged on its own
            ok2 = try_attach(w.envs[j], w.models[1])
            expect(ok2, want, "another model of the same class must be judged like the first")
            if ok:
                w.compare({0: j, 1: j}, await w.drive())
                w.envs[j].unattach(w.models[0])
                w.compare({0: None, 1: j}, await w.drive())
                w.envs[j].unattach(w.models[1])
            w.compare({0: None, 1: None}, await w.drive(), skip=(0,) if not ok and j else ())
            if swap := case.get("swap"):
                w.removed = swap == "none"
                for m in w.models:
                    for i, e in enumerate(case["elems"]):
                        setattr(m, attr_name(e, i), None if w.removed else make_port(e))
        return res

    out = run(test, handle)
    if out.kind == "exc" and isinstance(out.exc, Violation):
        raise out.exc
    res = need_ok(out, w.d)
    rec.execution(8, [("fit", repr(case["elems"]), j, r) for j, r in zip(case["envs"], res)], ("fit", tuple(res)))


def run_hist(case, rec):
    classes, inst = SETS[case["set"]]
    w = World([ENVS[0], ENVS[1]], classes, inst)
    w.style = case.get("style", "")
    trace = []

    def handle():
        w.setup()
        return w

    async def test(_):
        where = {m: None for m in range(len(inst))}
        limbo = set()
        for o, m, e in case["h"]:
            if o == "a":
                ok = try_attach(w.envs[e], w.models[m])
                want = fits(classes[inst[m]], w.envs_spec[e])
                if ok != want:
                    raise Violation("attach accepted a model that does not fit" if ok else "attach rejected a model that fits", step=(o, m, e))
                if ok:
                    where[m] = e
                    limbo.discard(m)
                elif where[m] is not None:
                    # what a refused move does to the old attachment is not specified; the rest must be untouched
                    limbo.add(m)
                    if any(x is w.models[m] for x in w.envs[where[m]].attached_models):
                        limbo.discard(m)
                    else:
                        where[m] = None
                        limbo.discard(m)
            else:
                w.envs[e].unattach(w.models[m])
                if where[m] == e:
                    where[m] = None
            w.compare(where, await w.drive())
            for j in (0, 1):
                expect(sorted(x.mi for x in w.envs[j].attached_models), sorted(k for k, v in where.items() if v == j), "attached_models must list the attached models")
            for k, v in where.items():
                expect(w.models[k].is_attached(), v is not None, f"is_attached of model {k}")
            trace.append(tuple(where.values()))
        return 1

    out = run(test, handle)
    if out.kind == "exc" and isinstance(out.exc, Violation):
        raise out.exc
    need_ok(out, w.d)
    rec.execution(len(case["h"]) * 7, [(case["set"], t) for t in trace] + [(case["set"], tuple(trace))], (case["set"], tuple(trace[-1:])))
