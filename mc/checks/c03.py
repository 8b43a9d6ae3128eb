"""C03: signal triggers against every waveform."""
import itertools

from toffee import AllValid, Bundle, Change, Condition, FallingEdge, RisingEdge, Signals, Value, create_task, start_clock

from .. import fake
from ..core import Violation
from ..util import need_ok, run

ID = "C03"
BOUNDS = {
    "quick": "1 pin: all waveforms of length 6 over 3 values (3 value alphabets: small, wide, negative/large), all triggers x delays 0..3, 5, 8 and default x "
    "start cycles 0..3, one-shot and repeated; 2 pins: all waveforms of length 3; 3 pins: all of length 2 and binary of length 3; AllValid of up to 17 pins with every pair of late pins; 36 waveforms of up to 2203 cycles with long constant stretches x delays up to 1001 x start cycles up to 1100",
    "thorough": "1 pin length 8 over 3 values; 2 pins length 4; 3 pins length 3",
}
ALPH = ((0, 1, 2), (0, 255, 256), (0, 1 << 40, 7), (3, 1, 0))


def fresh(v):
    """An equal integer that is another object (where it can be)."""
    return int(str(v))


class B3(Bundle):
    a, b, c = Signals(3)


class E3(Bundle):
    """Signals with the names that triggers look for on pins and DUTs."""

    event, wait = Signals(2)


def cases(tier):
    th = tier == "thorough"
    L = 8 if th else 6
    for ai, al in enumerate(ALPH if th else ALPH[:3]):
        for w in itertools.product(al, repeat=L if ai == 0 else L - 1):
            yield {"w": [list(w)], "al": list(al)}
    al = ALPH[0]
    n2 = 4 if th else 3
    for w in itertools.product(itertools.product(al, repeat=n2), repeat=2):
        yield {"w": [list(x) for x in w], "al": list(al)}
    for w in itertools.product(itertools.product(al, repeat=3 if th else 2), repeat=3):
        yield {"w": [list(x) for x in w], "al": list(al)}
    for w in itertools.product(itertools.product((0, 1), repeat=4 if th else 3), repeat=3):
        yield {"w": [list(x) for x in w], "al": [0, 1]}
    for n in (4, 5, 6, 9, 17):
        for off in [()] + [(i,) for i in range(n)] + list(itertools.combinations(range(n), 2)):
            for on in (1, 3):
                for d in (0, 1, 2):
                    yield {"n": n, "off": list(off), "on": on, "delay": d}
    # long waits: waveforms with long constant stretches
    for lens in itertools.product((1, 70, 300, 1100) if th else (1, 300, 1100), repeat=2):
        for vs in ((0, 1, 0), (1, 0, 1), (1, 2, 1), (2, 1, 0)):
            yield {"seg": [[v, n] for v, n in zip(vs, (*lens, 3))], "al": [0, 1, 2], "delays": [0, 1, 33, 65, 129, 257, 1001], "starts": [0, 1, 100, 299, 300, 1100]}


def triggers(npins, al, delays=(0, 1, 2, 3, 5, 8)):
    """(name, coroutine factory(dut, bundle), reference predicate(waves, start, cycle), first cycle offset)"""
    out = []
    at = lambda w, c: w[min(c, len(w) - 1)]
    for v in list(al) + [99]:
        for d in delays:
            out.append((f"Value({v},delay={d})", lambda x, b, v=v, d=d: Value(x.a, fresh(v), delay=d), lambda W, s, c, v=v: at(W[0], c) == v, d))
        out.append((f"Value({v})", lambda x, b, v=v: Value(x.a, fresh(v)), lambda W, s, c, v=v: at(W[0], c) == v, 1))
    names = "abc"[:npins]
    for d in delays:
        out.append(
            (
                f"AllValid(delay={d})",
                lambda x, b, d=d: AllValid(*[getattr(x, n) for n in names], delay=d),
                lambda W, s, c: all(at(w, c) != 0 for w in W),
                d,
            )
        )
        for item in ("dut", "pin", "bundle", "named"):
            if item == "dut":
                f = lambda x, b, d=d: Condition(x, lambda i: i.a.value == al[1] and (npins < 2 or i.b.value == al[1]), delay=d)
            elif item == "pin":
                f = lambda x, b, d=d: Condition(x.a, lambda i: i.value == al[1], delay=d)
            elif item == "named":
                f = lambda x, b, d=d: Condition(b.named, lambda i: i.event.value == al[1] and (npins < 2 or i.wait.value == al[1]), delay=d)
            else:
                f = lambda x, b, d=d: Condition(b, lambda i: i.a.value == al[1] and (npins < 2 or i.b.value == al[1]), delay=d)
            if item == "pin":
                p = lambda W, s, c: at(W[0], c) == al[1]
            else:
                p = lambda W, s, c: at(W[0], c) == al[1] and (npins < 2 or at(W[1], c) == al[1])
            out.append((f"Condition({item},delay={d})", f, p, d))
    out.append(("AllValid()", lambda x, b: AllValid(*[getattr(x, n) for n in names]), lambda W, s, c: all(at(w, c) != 0 for w in W), 1))
    out.append(("Condition(dut)", lambda x, b: Condition(x, lambda i: i.a.value == al[2 % len(al)]), lambda W, s, c: at(W[0], c) == al[2 % len(al)], 1))
    for pi, n in enumerate(names):
        out.append((f"Change({n})", lambda x, b, n=n: Change(getattr(x, n)), lambda W, s, c, i=pi: at(W[i], c) != at(W[i], s), 1))
        out.append(
            (f"RisingEdge({n})", lambda x, b, n=n: RisingEdge(getattr(x, n)), lambda W, s, c, i=pi: at(W[i], c - 1) == 0 and at(W[i], c) != 0, 1)
        )
        out.append(
            (f"FallingEdge({n})", lambda x, b, n=n: FallingEdge(getattr(x, n)), lambda W, s, c, i=pi: at(W[i], c - 1) != 0 and at(W[i], c) == 0, 1)
        )
    return out


def run_many(case, rec):
    """AllValid of many pins."""
    n, off, on, d = case["n"], case["off"], case["on"], case["delay"]
    pins = [f"p{i}" for i in range(n)]
    got, box = [], {}
    waves = {p: [0 if (i in off and c < on) else i + 1 for c in range(on + 1)] for i, p in enumerate(pins)}

    async def main():
        x = box["d"] = fake.DUT(pins, horizon=on + 9, wave=waves)
        start_clock(x)

        async def one():
            await AllValid(*[getattr(x, p) for p in pins], delay=d)
            got.append(x.n)

        create_task(one())
        while x.n < on + 4:
            await x.event.wait()

    need_ok(run(main), box.get("d"))
    want = [max(on if off else 0, d)]
    if got != want:
        raise Violation(f"AllValid of {n} pins must return in cycle {want}, returned in {got}", off=off, on=on)
    rec.execution(on + 4, [(n, tuple(off), on, d)], tuple(got))


def run_case(case, rec):
    if "n" in case:
        return run_many(case, rec)
    W, al, starts = case.get("w"), case["al"], case.get("starts", (0, 1, 3))
    if W is None:
        W = [[v for v, n in case["seg"] for _ in range(n)]]
    L = len(W[0])
    end = L + 6
    trs = triggers(len(W), al, *([case["delays"]] if "delays" in case else []))
    names = "abc"[: len(W)]
    got = {}
    box = {}

    async def one(key, f, s, rep):
        d, b = box["d"], box["b"]
        for _ in range(s):
            await d.event.wait()
        out = got[key] = []
        for _ in range(rep):
            await f(d, b)
            out.append(d.n)
            if rep > 1 and len(out) > 1 and out[-1] == out[-2]:
                break  # a zero delay trigger that holds now: returns at once, over and over

    async def main():
        d = box["d"] = fake.DUT("abc", horizon=end + 3, wave={n: [fresh(v) for v in w] for n, w in zip(names, W)})
        box["b"] = B3().bind(d)
        box["b"].named = E3.from_dict({"event": "a", "wait": "b"}).bind(d)
        start_clock(d)
        for name, f, p, off in trs:
            for s in starts:
                create_task(one((name, s, "once"), f, s, 1))
            create_task(one((name, 0, "rep"), f, 0, end + 2))
        for _ in range(end):
            await d.event.wait()
        return {k: list(v) for k, v in got.items()}

    res = need_ok(run(main), box.get("d"))
    trans = 0
    for name, f, p, off in trs:
        for s in starts:
            want = next(([c] for c in range(s + off, end) if p(W, s, c)), [])
            r = [c for c in res.get((name, s, "once"), []) if c < end]
            if r != want:
                raise Violation(f"{name} started in cycle {s} must return in cycle {want or 'never'}, returned in {r or 'never'}", waves=W)
            trans += 1
        want, s = [], 0
        while True:
            c = next((c for c in range(s + off, end) if p(W, s, c)), None)
            if c is None:
                break
            want.append(c)
            if off == 0 and len(want) > 1 and want[-1] == want[-2]:
                break
            s = c
        r = [c for c in res.get((name, 0, "rep"), []) if c < end]
        if r != want:
            raise Violation(f"{name} used repeatedly must return in cycles {want}, returned in {r}", waves=W)
        trans += len(want)
    rec.execution(trans, [tuple(tuple(w[:i]) for w in W) for i in range(min(L, 20) + 1)], tuple(map(tuple, W)))
