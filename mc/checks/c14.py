"""C14: request sequences are applied one per cycle, in order, and fully."""
import itertools

from toffee import Bundle, Signal, Signals

from .. import fake
from ..core import Violation, expect
from ..util import CAP, quiet

ID = "C14"
BOUNDS = {
    "quick": "all request lists of length <=3 over 27 request kinds (plain, wildcard, sub-bundle, conditional on the cycle, on a pin with arguments or true at its first evaluation only, callables with/without condition or data, functions, return bundles) "
    "x 3 start cycles/waveforms; all lists of length 4 over 7 kinds; periodic lists of up to 17 requests with up to 9 functions and 7 returned bundles; lists of up to 270 requests, conditions that hold after up to 1001 cycles; all pairs of consecutive calls of length <=2 over 7 kinds on one or two bundles of the same DUT, also reusing the caller's dictionaries; calls aborted by an exception (of a function, condition, callable request or the DUT) at any of 3 positions with <=2 requests left, then another call, also after a rebind",
    "thorough": "lists of length 4 over all kinds, length 6 over 6 kinds",
}
ASSUMPTIONS = ["the DUT is a stand-in: Step calls the StepRis callbacks with the cycle number once per cycle"]
CORE = ("p", "c0", "c2", "w1", "fn", "r", "cr")
KINDS = ("p", "e", "star", "sub", "c0", "c1", "c2", "c3", "w1", "w0", "fn", "fc", "fnone", "fw", "f1", "f2", "r", "r2", "ro", "rl", "cr", "crf", "cp", "req", "fe", "fce", "ce")


class Sub(Bundle):
    x, y = Signals(2)


class B(Bundle):
    a, b, o, rdy = Signals(4)
    s = Sub.from_prefix("s_")


class B2(Bundle):
    k = Signal()


def cases(tier):
    th = tier == "thorough"
    starts = ((0, 0), (2, 1), (0, 2))
    for n in range(0, 3):
        for w in itertools.product(KINDS, repeat=n):
            for st, wv in starts:
                yield {"calls": [[0, list(w)]], "start": st, "wave": wv}
    for k in KINDS:
        yield {"calls": [[0, k]], "start": 1, "wave": 0}
    for w in itertools.product(KINDS, repeat=3):
        yield {"calls": [[0, list(w)]], "start": 0, "wave": (KINDS.index(w[0]) + KINDS.index(w[2])) % 3}
    for w in itertools.product(CORE, repeat=4):
        yield {"calls": [[0, list(w)]], "start": 1, "wave": 2}
    lists = [list(w) for n in (0, 1, 2) for w in itertools.product(CORE, repeat=n)]
    for l1, l2 in itertools.product(lists, repeat=2):
        for who in (0, 1):
            yield {"calls": [[0, l1], [who, l2]], "start": 0, "wave": 1}
    for l1 in [list(w) for n in (1, 2) for w in itertools.product(KINDS, repeat=n) if "cp" not in w]:
        for rep in (2, 3):
            yield {"calls": [[0, l1]] * rep, "start": 0, "wave": 2, "reuse": "call"}
        yield {"calls": [[0, l1 + l1]], "start": 0, "wave": 0, "reuse": "list"}
    # a call that is aborted by an exception, then another call on the same bundle, also after a rebind
    for x in ("xf", "xc", "xb", "xa", "xd"):
        for n1, n2 in itertools.product(range(3), repeat=2):
            for l1 in itertools.product(CORE[:5], repeat=n1):
                for l2 in (("p", "c2", "r")[:n2], ("cr", "fn")[:n2]):
                    for who in (0, 1, "rebind"):
                        yield {"calls": [[0, [*l1, x, *l2]], [who, ["p", "r", "w1"]]], "start": 1, "wave": 1, "abort": n1}
    # long lists
    for k in ("many", *CORE):
        for n in (1, 5, 9, 17):
            for st in (0, 1):
                yield {"calls": [[0, [k] * n]], "start": st, "wave": st}
                for k2 in ("many", *CORE):
                    if k2 != k and n > 1:
                        yield {"calls": [[0, [k, k2] * (n // 2) + [k]]], "start": st, "wave": st}
    for k in ("many", *CORE, "sub", "fc", "cp"):
        for n in (33, 65, 130, 270):
            yield {"calls": [[0, [k] * n]], "start": 0, "wave": 0, "h": 1300}
            yield {"calls": [[0, [k, "p"] * (n // 2)], [1, ["r"]]], "start": n, "wave": 1, "h": 1300}
        for far in ("far100", "far256", "far1001"):
            for l in ([far, k], [k, far], [far, k, k]):
                for st in (0, 1100):
                    yield {"calls": [[0, l], [1, [k]]], "start": st, "wave": 2, "h": 2600}
    if th:
        for w in itertools.product(KINDS, repeat=4):
            yield {"calls": [[0, list(w)]], "start": 0, "wave": (KINDS.index(w[0]) + KINDS.index(w[2])) % 3}
        for w in itertools.product(CORE[1:], repeat=6):
            yield {"calls": [[0, list(w)]], "start": 0, "wave": 2}


WAVES = ([0, 0, 1, 1, 0, 0, 0, 1, 0, 1] + [0, 1] * 40, [0, 1, 0, 1, 1, 0, 1, 0] + [1, 0, 0] * 40, [1, 0, 0, 0, 1, 1, 0, 1] + [0, 0, 1, 1] * 40)
INPUTS = ("a", "b", "s_x", "s_y")


class World:
    def __init__(self, case):
        wave = WAVES[case["wave"]]
        h = self.h = case.get("h", 100)
        wave = wave + wave[-12:] * (h // 12)
        self.wave = wave
        self.dut = fake.DUT(
            ["a", "b", "s_x", "s_y", "k", ("o", {"out": True}), ("rdy", {"out": True})],
            horizon=h,
            wave={"rdy": wave, "o": [50 + i for i in range(h + 20)]},
        )
        for i, p in enumerate((*INPUTS, "k")):
            self.dut.poke(p, 900 + i)
        self.bundles = [B(), B()]
        for b in self.bundles:
            b.bind(self.dut)
        self.other = B2().bind(self.dut)
        self.dut.die = False
        self.dut.before_step(self.dying)
        self.log = []

    def request(self, kind, v, who, base):
        """The request object, and its reference: (condition(t, pins) or None, assigned pins, functions, returned)."""
        b = self.bundles[who]
        dut = self.dut
        asg = {"a": v}
        cond = None
        funcs = None
        ret = None
        if kind in ("e",):
            asg = {}
        elif kind == "star":
            return {"b": v, "*": v + 1}, (None, {"a": v + 1, "b": v, "s_x": v + 1, "s_y": v + 1}, None, None)
        elif kind == "sub":
            return {"s": {"x": v}, "b": v + 1}, (None, {"s_x": v, "b": v + 1}, None, None)
        elif kind in ("c0", "c1", "c2", "c3"):
            at = base + int(kind[1])
            arg = ([], 0, [at, v], {})[int(kind[1])]  # also values that are false
            return {"a": v, "__condition_func__": lambda c, bb, ar: bb is b and ar is arg and c >= at, "__condition_args__": arg}, (lambda t: t >= at, asg, None, None)
        elif kind.startswith("far"):
            at = base + int(kind[3:])
            return {"a": v, "__condition_func__": lambda c, bb, ar: c >= at}, (lambda t: t >= at, asg, None, None)
        elif kind == "cp":
            # holds at its first evaluation from the given cycle on, not later
            fired = []
            at = base + 1
            return {"a": v, "__condition_func__": lambda c, bb, ar: c >= at and (fired.append(c) or len(fired) == 1)}, (lambda t: t >= at, asg, None, None)
        elif kind in ("w1", "w0", "cr", "crf"):
            lvl = 0 if kind == "w0" else 1
            r = {"b": v, "__condition_func__": lambda c, bb, ar: [c] if bb.rdy.value == lvl and ar is None else 0}
            rf = None
            if kind == "crf":
                r["__funcs__"] = lambda c, bb: (c, bb.b.value)
                rf = [lambda t, pins: (t, pins["b"])]
            if kind in ("cr", "crf"):
                r["__return_bundles__"] = b
                ret = ["b"]
            return r, (lambda t: self.wave[t] == lvl, {"b": v}, rf, ret)
        elif kind == "fn":
            return (lambda c, bb: {"a": v, "b": c} if bb is b else None), (None, lambda t: {"a": v, "b": t}, None, None)
        elif kind == "fc":
            at = base + 2
            return (lambda c, bb: {"a": v, "s": {"y": c}, "__condition_func__": lambda c2, b3, ar: c2 >= at and ar == "q", "__condition_args__": "q"}), (lambda t: t >= at, lambda t: {"a": v, "s_y": None}, None, None)
        elif kind in ("xf", "xc", "xb", "xa", "xd"):
            return self.abort(kind, v, base)
        elif kind == "fe":
            return (lambda c, bb: {}), (None, {}, None, None)
        elif kind in ("fce", "ce"):
            at = base + 2
            r = {"__condition_func__": lambda c2, b3, ar: c2 >= at}
            return ((lambda c, bb: dict(r)) if kind == "fce" else r), (lambda t: t >= at, {}, None, None)
        elif kind == "fnone":
            return (lambda c, bb: None), (None, {}, None, None)
        elif kind == "fw":
            def fw(c, bb):
                bb.b.value = v
                return None
            return fw, (None, {"b": v}, None, None)
        r = dict(asg)
        if kind == "f1":
            r["__funcs__"] = lambda c, bb: self.log.append((c, bb.a.value, bb is b))
            funcs = [lambda t, pins: self.log_ref.append((t, pins["a"], True))]
        elif kind == "many":
            # more functions and returned bundles than fingers on one hand
            r["__funcs__"] = [(lambda c, bb, i=i: (i, c, bb.a.value)) for i in range(9)]
            funcs = [(lambda t, pins, i=i: (i, t, pins["a"])) for i in range(9)]
            r["__return_bundles__"] = [b, self.other, b.s, b, self.other, b.s, b.s]
            ret = ["b", "o", "s", "b", "o", "s", "s"]
        elif kind in ("f2", "rl"):
            r["__funcs__"] = [lambda c, bb: c + bb.a.value, lambda c, bb: None, lambda c, bb: bb.o.value]
            funcs = [lambda t, pins: t + pins["a"], lambda t, pins: None, lambda t, pins: pins["o"]]
        if kind in ("r", "f2"):
            r["__return_bundles__"] = b
            ret = ["b"]
        elif kind == "r2":
            r["__return_bundles__"] = [b, self.other, b.s]
            ret = ["b", "o", "s"]
        elif kind == "req":
            r["__return_bundles__"] = [b, b, self.bundles[1 - who]]
            ret = ["b", "b", "b"]
        elif kind == "ro":
            r["__return_bundles__"] = self.other
            r["__funcs__"] = lambda c, bb: 0
            funcs = [lambda t, pins: 0]
            ret = ["o"]
        elif kind == "rl":
            r["__return_bundles__"] = [b.s, b]
            ret = ["s", "b"]
        elif kind == "e":
            r["__return_bundles__"] = b
            ret = ["b"]
        return r, (None, asg, funcs, ret)

    def dying(self, n):
        if self.dut.die:
            self.dut.die = False
            raise Abort()

    def abort(self, kind, v, base):
        """A request during which an exception is raised: (cycles after the start of the request, pins assigned before)."""

        def boom(*_):
            raise Abort()

        if kind == "xf":
            return {"a": v, "__funcs__": [lambda c, bb: 1, boom]}, (None, {"a": v}, boom, None)
        if kind == "xc":
            return {"a": v, "__condition_func__": boom}, (None, {}, boom, None)
        if kind == "xa":
            return boom, (None, {}, boom, None)
        if kind == "xd":
            # the DUT itself raises while the request is blocked
            def die(c, bb, ar):
                self.dut.die = c >= base + 1
                return False

            return {"a": v, "__condition_func__": die}, (lambda t: t >= base + 1, {}, boom, None)
        return {"a": v, "__condition_func__": lambda c, bb, ar: c >= base + 1 and boom()}, (lambda t: t >= base + 1, {}, boom, None)


class Abort(Exception):
    pass


def view(which, pins):
    if which == "o":
        return {"k": pins["k"]}
    s = {"x": pins["s_x"], "y": pins["s_y"]}
    if which == "s":
        return s
    return {"a": pins["a"], "b": pins["b"], "o": pins["o"], "rdy": pins["rdy"], "s": s}


def reference(w, reqs, pins, t):
    """Returns (results, [pins after each cycle], cycle at the end)."""
    res, trace = [], []
    q = list(reqs)
    while q:
        t += 1
        if t > w.h - 10:
            return None
        pins = {**pins, "o": 50 + t, "rdy": w.wave[t]}
        cond, asg, funcs, ret = q[0]
        if callable(asg):
            asg = asg(t)
            q[0] = (cond, asg, funcs, ret)
            if "s_y" in asg:
                asg["s_y"] = t
        if cond is None or cond(t):
            q.pop(0)
            pins = {**pins, **asg}
            if callable(funcs):
                trace.append(pins)
                return Abort, trace, t
            fr = [f(t, pins) for f in funcs] if funcs else [None]
            if ret is not None:
                res.append({"data": [view(x, pins) for x in ret], "cycle": t, "__funcs_return__": fr})
        trace.append(pins)
    return res, trace, t


def norm(r):
    """A single return value may come bare or in a list."""
    out = dict(r)
    for k in ("data", "__funcs_return__"):
        if not isinstance(out.get(k), list):
            out[k] = [out.get(k)]
    return out


def run_case(case, rec):
    quiet()
    w = World(case)
    dut = w.dut
    dut.Step(case["start"])
    trace = []
    dut.before_step(lambda n: trace.append(dut.snapshot()))
    t = case["start"]
    pins = dut.snapshot()
    states = []
    first = None
    for ci, (who, kinds) in enumerate(case["calls"]):
        w.log, w.log_ref = [], []
        if who == "rebind":
            who = 0
            w.bundles[0].bind(dut)
        single = isinstance(kinds, str)
        ks = [kinds] if single else kinds
        if case.get("reuse") == "call" and first is not None:
            made = first
        else:
            made = [w.request(k, 100 * (ci + 1) + 10 * i, who, t + 1) for i, k in enumerate(ks)]
            if case.get("reuse") == "list":
                made = [*made[: len(made) // 2]] * 2
            first = made
        want = reference(w, [ref for _, ref in made], pins, t)
        if want is None:
            raise Violation("the case needs too many cycles", case=case)
        del trace[:]
        arg = made[0][0] if single else [r for r, _ in made]
        res, tr, t = want
        try:
            got = w.bundles[who].process_requests(arg)
            if res is Abort:
                raise Violation("an exception raised during a request was lost", call=ci)
        except fake.Horizon:
            raise Violation("process_requests never returned", call=ci)
        except Abort:
            if res is not Abort:
                raise
            got = res = []
        del trace[:1]
        trace.append(dut.snapshot())
        if not tr:
            del trace[:]
        expect(dut.n, t, "process_requests did not return in the cycle in which the last request was applied", call=ci)
        expect(trace, tr, "pins after each cycle", call=ci)
        expect([norm(r) for r in got], res, "returned bundle values, cycles and function results", call=ci)
        expect(w.log, w.log_ref, "function calls", call=ci)
        if CAP.errors():
            raise Violation("an error was logged for valid requests", errors=CAP.errors())
        pins = tr[-1] if tr else pins
        states += [tuple(sorted(p.items())) for p in tr[:60]]
    rec.execution(max(1, t - case["start"]), states=states, outcome=f"{t}")
