"""C16: functional coverage counts exactly what was sampled."""
import inspect
import itertools
import json
import sys

import toffee.funcov as fc

from .. import fake
from ..core import Violation, expect
from ..util import quiet

ID = "C16"
BOUNDS = {
    "quick": "all operation words of length <=4 (<=5 for 4 of 6 configurations) over {sample x 3 values, stop, resume, clear, add/delete/reset of 2 points, mark} from an empty and from a filled group, x once/disable configurations; "
    "all words of <=7 samples over 3 values x 6 configurations x 7 point shapes (single condition, condition lists of up to 7, custom functions with boolean and other results, 12 bins); histories of up to 1003 samples; groups of 5 to 33 points; two groups sharing target and bins: all words of length <=4; "
    "all words of <=5 samples in which a condition raises; all words of <=4 operations on points without names on two targets; the built-in conditions and their aliases over 12 values x 12 parameters x 3 target forms",
    "thorough": "words of length <=6 (2 configurations), samples of length 9",
}
NOTE = (
    "Exhaustive within the stated bounds, on the real CovGroup. Once an effective sample found every point covered and marked once, sampling stays off until a point is added or reset, or sampling is resumed or cleared; "
    "points without bins and the number of effective samples of an empty group are left open."
)
CONFIGS = (
    {"dis": True, "once": [None, None]},
    {"dis": True, "once": [None, False]},
    {"dis": False, "once": [None, True]},
    {"dis": False, "once": [True, True]},
    {"dis": False, "once": [None, None]},
    {"dis": True, "once": [False, False]},
)
SHAPES = (
    [{"z": [["Eq", 0]], "nz": [["Gt", 0], ["Le", 2]]}, {"two": [["fn", 2]]}],
    [[["Ne", 1]], {"a": [["In", [0, 2]]], "b": [["NotIn", [0]]], "c": [["IsInRange", 0, 1]]}],
    [{"never": [["Lt", 0]], "any": [["Ge", 0]]}, {"o": [["Eq", 1]]}],
    [{f"b{i}": [["Eq", i % 3]] if i % 4 else [["Ge", i % 3], ["fn", i % 3]] for i in range(12)}, {"x": [["Eq", 0], ["Eq", 0]], "y": [["Eq", 0], ["Eq", 1]]}],
    [{f"t{i}": [["tr", i]] for i in range(3)}, {f"u{i}{j}": [["tr", i], ["tr", j]] for i in range(4) for j in range(4)}],
    # lists of seven conditions of which all but one always hold
    *([{f"c{i}": [["Eq", 1] if j == i else ["Ge", 0] for j in range(7)] for i in h}, {f"e{i}": [["Le", 1] if j == i else ["Ne", 9] for j in range(7)] for i in h}] for h in ((0, 2, 4, 6), (1, 3, 5))),
)
# values of long sampling histories
LONG = (1, 2, 9, 10, 11, 17, 33, 64, 65, 100, 127, 129, 257, 300, 1001)
# what a custom condition may return for the values 0, 1 and 2: its truth counts
TRUTH = ((0, 1, None), ("", "x", 0), ([], [0], 2), (None, 0.5, ()))
OPS = [["s", 0], ["s", 1], ["s", 2], ["stop"], ["resume"], ["clear"], ["add", 0], ["del", 0], ["res", 0], ["add", 1], ["del", 1], ["res", 1]]
VALS = (-3, -1, 0, 1, 2, 3, 5, 2**64, 2**64 - 1, 10**30, True, False, 0.5, 2.5)


def cases(tier):
    th = tier == "thorough"
    for name in ("Eq", "Ne", "Gt", "Lt", "Ge", "Le"):
        for p in VALS:
            yield {"k": "cond", "c": name, "args": [p]}
    for lst in ([], [0], [1, 2], [0, 1, 2, 3], [2**64, -1], list(range(-3, 4))):
        for name in ("In", "NotIn"):
            yield {"k": "cond", "c": name, "args": [lst]}
    for lo, hi in itertools.product(VALS[:10], repeat=2):
        yield {"k": "cond", "c": "IsInRange", "args": [lo, hi]}
    for shape in range(len(SHAPES)):
        for cfg in range(6):
            for n in range(1, (9 if th else 7) + 1):
                if n > 5 and shape and not th:
                    continue
                for w in itertools.product(range(3), repeat=n):
                    yield {"k": "word", "cfg": cfg, "shape": shape, "pre": 1, "w": [["s", v] for v in w]}
    deep = (0, 1, 2, 3)
    for n in range(0, (6 if th else 5) + 1):
        for cfg in range(6):
            if n >= 5 and cfg not in deep:
                continue
            for pre in (0, 1):
                if n == 5 and pre != 1 and cfg or n == 6 and (not pre or cfg > 1):
                    continue
                for w in itertools.product(OPS, repeat=n):
                    yield {"k": "word", "cfg": cfg, "shape": 0 if n > 3 else (cfg + n) % 4, "pre": pre, "w": [list(o) for o in w]}
    for n in LONG:
        for w in itertools.product(range(3), repeat=2):
            for shape in range(len(SHAPES)):
                for cfg in (0, 2, 4, 5):
                    for mid in (["res", 0], ["stop"], ["clear"], ["del", 1]) if not shape else (["resume"],):
                        s = [["s", w[i % 2]] for i in range(n)]
                        yield {"k": "word", "cfg": cfg, "shape": shape, "pre": 1, "w": s[: n // 2] + [mid] + s[n // 2 :] if n % 3 else s + [mid, *s[:2]]}
    for n in (5, 9, 17, 33):
        for w in itertools.product(range(3), range(3), range(4)):
            yield {"k": "points", "n": n, "w": list(w), "cfg": sum(w) % 6}
    marks = [["mark", 0, "f1", "*"], ["mark", 0, ["f2", "f1"], "z"], ["mark", 0, "f3", "n[xyz]"], ["mark", 0, "f4", ["z", "n?"]], ["mark", 1, "f1", "two"], ["mark", 1, "PY", "*"]]
    small = [["s", 0], ["res", 0], ["del", 0], ["add", 0], ["clear"]]
    for n in range(1, 4):
        for w in itertools.product(marks + small, repeat=n):
            yield {"k": "word", "cfg": 0, "shape": 0, "pre": 1, "w": [list(o) for o in w]}
    two = [["s", 0, 0], ["s", 1, 0], ["s", 1, 1], ["s", 0, 1], ["stop", None, 0], ["resume", None, 0], ["clear", None, 1], ["del", 0, 1], ["res", 0, 0]]
    for n in range(1, 5):
        for w in itertools.product(two, repeat=n):
            yield {"k": "two", "w": [list(o) for o in w], "cfg": n % 6}
    anon = [["add", i, j] for i in (0, 1) for j in (0, 1, 2)] + [["s", 0, 1], ["s", 1, 0], ["del", 0], ["res", 0]]
    for n in range(1, 6 if th else 5):
        for w in itertools.product(anon, repeat=n):
            if sum(o[0] == "add" for o in w) and (n < 4 or w[0][0] == "add"):
                yield {"k": "anon", "cfg": (0, 2, 4)[n % 3], "w": [list(o) for o in w]}
    # a condition that raises, e.g. because its pin has no value yet
    for shape in (0, 2):
        for cfg in range(6):
            for where in (0, 1, 2):
                for n in range(1, 6):
                    for w in itertools.product((0, 1, 2, 9), repeat=n):
                        if 9 in w:
                            yield {"k": "raise", "cfg": cfg, "shape": shape, "where": where, "w": list(w)}
    yield {"k": "site"}
    for bad in range(6):
        yield {"k": "bad", "b": bad}


def pred(c):
    kind, *a = c
    return {
        "Eq": lambda v: v == a[0],
        "Ne": lambda v: v != a[0],
        "Gt": lambda v: v > a[0],
        "Lt": lambda v: v < a[0],
        "Ge": lambda v: v >= a[0],
        "Le": lambda v: v <= a[0],
        "In": lambda v: v in a[0],
        "NotIn": lambda v: v not in a[0],
        "IsInRange": lambda v: a[0] <= v and v <= a[1],
        "fn": lambda v: v == a[0],
        "tr": lambda v: bool(TRUTH[a[0]][v]),
    }[kind]


def cond(c, alias=False):
    kind, *a = c
    if kind == "fn":
        return lambda t: t.value == a[0]
    if kind == "tr":
        return lambda t: TRUTH[a[0]][t.value]
    return getattr(fc, kind if alias else "Cov" + kind)(*a)


def bins_of(shape, k):
    b = SHAPES[shape][k]
    if isinstance(b, list):
        return cond(b[0])
    return {n: cond(cs[0], True) if len(cs) == 1 else ([cond(c) for c in cs] if k == 0 else tuple(cond(c, True) for c in cs)) for n, cs in b.items()}


def ref_bins(shape, k):
    b = SHAPES[shape][k]
    return {"anonymous": b} if isinstance(b, list) else b


class Ref:
    def __init__(self, cfg):
        self.cfg = cfg
        self.clear()

    def clear(self):
        self.points = {}
        self.stopped = self.latch = False
        self.calls = self.eff = 0
        self.open = False

    def add(self, k, shape):
        once = self.cfg["once"][k]
        self.points[f"P{k}"] = {"bins": ref_bins(shape, k), "hits": {n: 0 for n in ref_bins(shape, k)}, "once": self.cfg["dis"] if once is None else once, "fn": {}, "dyn": bool(k)}
        self.latch = False

    def sample(self, v):
        self.calls += 1
        if self.stopped or self.latch:
            return
        self.eff += 1
        if not self.points:
            self.open = True
        for p in self.points.values():
            for n, cs in p["bins"].items():
                if all(pred(c)(v[p["t"]] if "t" in p else v) for c in cs):
                    p["hits"][n] += 1
        self.latch = all(self.cov(p) and p["once"] for p in self.points.values())

    def cov(self, p):
        return all(p["hits"].values())


def compare(g, r, dis, name):
    want_points = [
        {"name": n, "once": p["once"], "hinted": r.cov(p), "bins": [{"name": b, "hints": h} for b, h in p["hits"].items()], "functions": {b: sorted(f) for b, f in p["fn"].items()}, "dynamic_bin": p.get("dyn", False)}
        for n, p in r.points.items()
    ]
    d = g.as_dict()
    got_points = [dict(p, functions={b: sorted(f) for b, f in p["functions"].items()}) for p in d["points"]]
    expect(got_points, want_points, "exported points")
    hits = [h for p in r.points.values() for h in p["hits"].values()]
    allc = all(r.cov(p) for p in r.points.values())
    want = {
        "name": name,
        "hinted": allc,
        "bin_num_total": len(hits),
        "bin_num_hints": sum(1 for h in hits if h),
        "point_num_total": len(r.points),
        "point_num_hints": sum(1 for p in r.points.values() if r.cov(p)),
        "has_once": any(p["once"] for p in r.points.values()),
        "__disable_sample_when_point_hinted__": dis,
        "__sample_calln__": r.calls,
        "__stop_sample__": r.stopped,
    }
    if not r.open:
        want["__sample_count__"] = r.eff
    expect({k: d[k] for k in want}, want, "exported summary")
    expect(g.is_all_covered(), allc, "is_all_covered")
    expect(list(g.cover_points()), list(r.points), "cover_points")
    for n, p in r.points.items():
        expect(g.is_point_covered(n), r.cov(p), "is_point_covered", point=n)
        expect(dict(g.cover_point(n)["hints"]), p["hits"], "hit counts", point=n)
    if r.points:
        expect(bool(g.sample_stoped()), r.stopped or r.latch, "sample_stoped")
    return d


def some_function():
    pass


def apply(g, r, t, op, shape):
    kind = op[0]
    name = f"P{op[1]}" if len(op) > 1 else None
    if kind == "s":
        t.value = op[1]
        g.sample()
        r.sample(op[1])
    elif kind == "stop":
        g.stop_sample()
        r.stopped = True
    elif kind == "resume":
        g.resume_sample()
        r.stopped = r.latch = False
    elif kind == "clear":
        g.clear()
        r.clear()
    else:
        ok = (name in r.points) != (kind == "add")
        try:
            if kind == "add":
                once = r.cfg["once"][op[1]]
                if op[1]:
                    g.add_cover_point(t, bins_of(shape, op[1]), name=name, once=once, dynamic_bin=True)
                else:
                    g.add_watch_point(t, bins_of(shape, op[1]), name=name, **({} if once is None else {"once": once}))
            elif kind == "del":
                g.del_point(name)
            elif kind == "res":
                g.reset_point(name)
            elif kind == "mark":
                g.mark_function(name, some_function if op[2] == "PY" else op[2], op[3])
        except ValueError:
            if ok:
                raise
            return
        if not ok:
            raise Violation("an operation on a point that does not exist, or adding one that exists, was accepted", op=op)
        if kind == "add":
            r.add(op[1], shape)
        elif kind == "del":
            del r.points[name]
        elif kind == "res":
            p = r.points[name]
            p["hits"] = {n: 0 for n in p["hits"]}
            r.latch = False
        elif kind == "mark":
            p = r.points[name]
            sel = {"*": list(p["bins"]), "z": ["z"], "n[xyz]": ["nz"], "two": ["two"], "x": None}[op[3]] if isinstance(op[3], str) else ["z", "nz"]
            fs = ["PY"] if op[2] == "PY" else op[2] if isinstance(op[2], list) else [op[2]]
            for b in sel:
                p["fn"].setdefault(b, set()).update(fs)


class T:
    value = 0


real_stack = inspect.stack


def fast_stack(context=1):
    """inspect.stack without reading source lines."""
    f, out = sys._getframe(1), []
    while f is not None:
        out.append(inspect.FrameInfo(f, f.f_code.co_filename, f.f_lineno, f.f_code.co_name, None, None))
        f = f.f_back
    return out


def run_case(case, rec):
    quiet()
    inspect.stack = real_stack if case["k"] == "site" else fast_stack
    try:
        _run_case(case, rec)
    finally:
        inspect.stack = real_stack


def _run_case(case, rec):
    if case["k"] == "site":
        line = sys._getframe().f_lineno + 1
        gs = [fc.CovGroup(), fc.CovGroup("n")]
        for g in gs:
            expect((g.as_dict()["__filename__"], g.as_dict()["__lineno__"]), (__file__, line), "place of creation of a group")
        expect([g.as_dict()["name"] for g in gs], [f"{__file__}:{line}", "n"], "group name")
        rec.execution(1, [0], "site")
        return
    if case["k"] == "cond":
        c = [case["c"], *case["args"]]
        pin = fake.XPin(fake.XData("p", value=0), None)
        for v in VALS[:-2] if max(case["args"], default=0, key=lambda a: a if isinstance(a, int) else 0) in VALS[7:10] else VALS:
            for alias in (False, True):
                t = T()
                t.value = v
                pin.value = v
                for target in (v, t, pin):
                    expect(bool(cond(c, alias)(target)), pred(c)(v), "condition", condition=c, value=v)
        rec.execution(len(VALS), [c], "cond")
        return
    if case["k"] == "bad":
        g = fc.CovGroup("g")
        t = T()
        bad = (3, {"a": 3}, {"a": [fc.Eq(1), 4]}, {"a": fc.Eq(1), "b": None}, "x", {"a": [None]})[case["b"]]
        try:
            g.add_watch_point(t, bad, name="P")
        except ValueError:
            expect(list(g.cover_points()), [], "a rejected point was added")
        else:
            raise Violation("a bin that is not callable was accepted")
        try:
            g.cover_point("P")
            raise Violation("cover_point accepted an unknown name")
        except ValueError:
            pass
        rec.execution(1, [case["b"]], "bad")
        return
    cfg = CONFIGS[case["cfg"]]
    if case["k"] == "two":
        t = T()
        gs = [fc.CovGroup(f"g{i}", disable_sample_when_point_hinted=cfg["dis"]) for i in range(2)]
        rs = [Ref(cfg), Ref(cfg)]
        bins = [bins_of(0, 0), bins_of(0, 1)]
        for g, r in zip(gs, rs):
            for k in range(2):
                g.add_watch_point(t, bins[k], name=f"P{k}", once=cfg["once"][k], dynamic_bin=bool(k))
                r.add(k, 0)
        for kind, a, w in case["w"]:
            apply(gs[w], rs[w], t, [kind] if a is None else [kind, a], 0)
        for i in range(2):
            compare(gs[i], rs[i], cfg["dis"], f"g{i}")
        rec.execution(len(case["w"]), [(repr(rs[0].points), repr(rs[1].points))], repr([r.eff for r in rs]))
        return
    if case["k"] == "raise":
        g, r, t = fc.CovGroup("raise", disable_sample_when_point_hinted=cfg["dis"]), Ref(cfg), T()

        class Oops(Exception):
            pass

        def oops(target):
            if target.value == 9:
                raise Oops()
            return target.value == 1

        def boom():
            g.add_watch_point(t, {"boom": oops}, name="B", once=cfg["once"][0])
            r.points["B"] = {"bins": {"boom": [["Eq", 1]]}, "hits": {"boom": 0}, "once": cfg["dis"] if cfg["once"][0] is None else cfg["once"][0], "fn": {}}

        for k in range(3):
            if k == case["where"]:
                boom()
            if k < 2:
                apply(g, r, t, ["add", k], case["shape"])
        for v in case["w"]:
            if v != 9:
                apply(g, r, t, ["s", v], 0)
                continue
            t.value = 9
            off = r.stopped or r.latch
            before = {n: dict(g.cover_point(n)["hints"]) for n in r.points}
            try:
                g.sample()
                if not off:
                    raise Violation("an exception of a condition must not be lost")
            except Oops:
                if off:
                    raise Violation("a condition was evaluated although sampling is off")
            # which of the other bins an interrupted sample counted is left open
            r.calls += 1
            r.open = r.open or not off
            for n, p in r.points.items():
                for b, h in g.cover_point(n)["hints"].items():
                    ok = (0, all(pred(c)(9) for c in p["bins"][b])) if b != "boom" and not off else (0,)
                    if h - before[n][b] not in ok:
                        raise Violation("an interrupted sample may only count bins whose conditions hold", point=n, bin=b)
                    p["hits"][b] = h
        compare(g, r, cfg["dis"], "raise")
        rec.execution(len(case["w"]), [repr((r.points, r.latch))], f"{r.calls}{r.latch}")
        return
    if case["k"] == "anon":
        # points without names, on two targets
        g, r, ts = fc.CovGroup("anon", disable_sample_when_point_hinted=cfg["dis"]), Ref(cfg), (T(), T())
        who = {}
        for op in case["w"]:
            if op[0] == "add":
                i, j = op[1:]
                bins = ({"a": ["Eq", 0], "b": ["Eq", 1]}, {"c": ["Eq", 1]}, {"anonymous": ["Ge", 0]})[j]
                given = cond(bins["anonymous"]) if j == 2 else {x: cond(c) for x, c in bins.items()}
                old = list(r.points)
                try:
                    g.add_watch_point(ts[i], given)
                except ValueError:
                    if (i, j) not in who.values():
                        raise Violation("a point without a name was refused although no point has this target and these bins")
                    continue
                new = [n for n in g.cover_points() if n not in old]
                expect(len(new), 1, "adding a point without a name must add one point", points=list(g.cover_points()))
                who[new[0]] = (i, j)
                r.points[new[0]] = {"bins": {x: [c] for x, c in bins.items()}, "hits": dict.fromkeys(bins, 0), "once": cfg["dis"], "fn": {}, "t": i}
                r.latch = False
            elif op[0] == "s":
                for t, v in zip(ts, op[1:]):
                    t.value = v
                g.sample()
                r.sample(op[1:])
            elif r.points:
                n = list(r.points)[0]
                if op[0] == "del":
                    g.del_point(n)
                    del r.points[n], who[n]
                else:
                    g.reset_point(n)
                    r.points[n]["hits"] = dict.fromkeys(r.points[n]["hits"], 0)
                    r.latch = False
        compare(g, r, cfg["dis"], "anon")
        rec.execution(len(case["w"]), [repr(([(who[n], p["hits"]) for n, p in r.points.items()], r.latch))], f"{r.eff}/{r.calls}{r.latch}")
        return
    if case["k"] == "points":
        # a group of many points, each with bins of its own, of which one is reset, deleted or replaced
        n, (a, b, how), t = case["n"], case["w"], T()
        g, r = fc.CovGroup("many", disable_sample_when_point_hinted=cfg["dis"]), Ref(cfg)

        def put(i, once):
            bins = {f"x{j}": ["Eq", (i + j) % 3] for j in range(1 + i % 3)}
            g.add_watch_point(t, {x: cond(c) for x, c in bins.items()}, name=f"P{i}", once=once)
            r.points[f"P{i}"] = {"bins": {x: [c] for x, c in bins.items()}, "hits": dict.fromkeys(bins, 0), "once": cfg["dis"] if once is None else once, "fn": {}}
            r.latch = False

        for i in range(n):
            put(i, cfg["once"][i % 2])
        apply(g, r, t, ["s", a], 0)
        compare(g, r, cfg["dis"], "many")
        for i in (0, n // 2, n - 1):
            if how == 1:
                apply(g, r, t, ["res", i], 0)
            elif how:
                apply(g, r, t, ["del", i], 0)
                if how == 3:
                    put(i, True)
        for v in (b, a, 0, 1, 2, b):
            apply(g, r, t, ["s", v], 0)
        compare(g, r, cfg["dis"], "many")
        rec.execution(n, [(repr(r.points))], f"{r.eff}/{r.calls}{r.latch}")
        return
    g = fc.CovGroup("grp", disable_sample_when_point_hinted=cfg["dis"])
    r = Ref(cfg)
    t = T()
    w = list(case["w"])
    if case["pre"]:
        w = [["add", 0], ["add", 1]] + w
    for op in w:
        apply(g, r, t, op, case["shape"])
    py = {}
    if any(o[0] == "mark" and o[2] == "PY" for o in w):
        # the exported name of a Python function ends with the function's name
        full = {f for p in g.as_dict()["points"] for fs in p["functions"].values() for f in fs if f.endswith("some_function")}
        expect(len(full) <= 1, True, "exported function name", names=full)
        py = {"PY": next(iter(full), "PY")}
        for p in r.points.values():
            p["fn"] = {b: {py.get(f, f) for f in fs} for b, fs in p["fn"].items()}
    d = compare(g, r, cfg["dis"], "grp")
    if len(w) < 5:
        e = json.loads(str(g))
        norm = lambda x: [dict(p, functions={b: sorted(f) for b, f in p["functions"].items()}) for p in x["points"]]
        expect({**e, "points": norm(e)}, json.loads(json.dumps({**d, "points": norm(d)})), "printed form")
    rec.execution(len(w), [repr((r.points, r.latch, r.stopped))], f"{r.eff}/{r.calls}{r.latch}{r.stopped}")
